"""Transmission studies: direct calls of transm() on random networks (several
hours on one set of arrays, as the simulation does it), and the studies that
whole simulations make.

args: studies (number of networks), hours, sims (list of gen options), mode"""
import os
import shutil

import gen
import kit
import numpy as np

K = 4096


def lines_of(LP, BLPA, ST, MULT):
    out = []
    for i in range(len(LP)):
        s = (int(ST[i]) - 1) * 3
        out.append(dict(fr=int(LP[i, 1]) + 1, to=int(LP[i, 2]) + 1, b=abs(kit.I(BLPA[i, s], 2)),
                        f=kit.I(BLPA[i, s + 1] * MULT[i, 0], K), r=kit.I(BLPA[i, s + 2] * MULT[i, 1], K)))
    return out


def R(v):
    """measured powers, rounded"""
    out = []
    for x in np.asarray(v, dtype=float).ravel():
        out.append(int(round(x * K)) if np.isfinite(x) and abs(x) * K < 2e9 else kit.NA)
    return out


def before(A):
    g = lambda k: np.array(A[k], dtype=float)
    return dict(ev="study", n=len(g("SYSCON")), nls=kit.I(A["NLS"]), lines=lines_of(A["LP"], g("BLPA"), A["LNSTAT"], g("STMULT")),
                gen=kit.IV(g("SYSCON"), K), load=kit.IV(g("CAPREQ"), K), tr=kit.IV(g("TRNSFR") + g("TRNSFJ"), K),
                lim=kit.IV(g("BN")[:, 3], K))


def after(s, r):
    s.update(jf=kit.I(r[0]), flow=R(r[1]), sadj=R(r[2]))
    return s


def network(rng):
    n = rng.choice([2, 2, 3, 3, 3, 4, 4, 5, 6, 8])
    edges = [(rng.randrange(i), i) for i in range(1, n)]
    if rng.random() < 0.3:
        edges = [(i, i + 1) for i in range(n - 1)]
    extra = [(i, j) for i in range(n) for j in range(i + 1, n) if (i, j) not in edges]
    rng.shuffle(extra)
    edges += extra[: rng.choice([0, 0, 1, 1, 2, n])]
    if rng.random() < 0.15:
        edges.append(rng.choice(edges))  # parallel lines
    edges = [e if rng.random() < 0.7 else e[::-1] for e in edges]
    order = list(range(n))
    rng.shuffle(order)
    edges = [(order[i], order[j]) for i, j in edges]
    rng.shuffle(edges)
    nl = len(edges)
    BLPA = np.zeros((nl, 18))
    out = rng.choice([0.0, 0.5])  # admittance of a line out of service
    for k in range(nl):
        b, c = rng.choice([20, 50, 100, 120]), rng.choice([30, 50, 100, 200, 300, 1000])
        c2 = rng.choice([c, c, c, 50, 150, 0])
        for s, fac in enumerate([1, 0.5, 0, 0.7, 0.4, 0.2]):
            BLPA[k, 3 * s:3 * s + 3] = [-(b * fac if fac else out), float(int(c * fac)), float(int(c2 * fac * rng.choice([1, 1, 0.5])))]
        if rng.random() < 0.3:  # a state that hardly changes the line
            BLPA[k, 3 * rng.choice([1, 3])] = -b + rng.choice([-0.5, 0.5, 1, -2])
    return n, np.array([[k, i, j] for k, (i, j) in enumerate(edges)]), BLPA, rng.randrange(n)


def direct(tr, rng, transm, hours):
    n, LP, BLPA, NR = network(rng)
    nl = len(LP)
    NR = rng.choice([0, NR])
    nls = rng.choice([0, 1])
    lim = [float(rng.choice([30000, 30000, 30000, 60, 120, 200, 0])) for _ in range(n)]
    BN = np.zeros((n, 5))
    BN[:, 0] = range(n)
    BN[:, 3] = BN[:, 4] = lim
    arrays = dict(BLP0=np.zeros(nl), BB=np.zeros((n, n)), LT=np.zeros(n, int), ZB=np.zeros((n, n)))
    tight = rng.choice([0.6, 0.9, 1.0, 1.2])
    wear = rng.choice([0, 0.2, 0.5])
    joint = rng.random() < 0.6
    IFLAG = 0
    tr.traces += 1
    for h in range(hours):
        ST = np.array([rng.choice([2, 3, 4, 5, 6, 3]) if rng.random() < wear else 1 for _ in range(nl)])
        load = np.array([float(rng.choice([rng.randrange(20, 500, 5), rng.randrange(20, 500, 5), 300])) for _ in range(n)])
        if rng.random() < 0.04:
            load[rng.randrange(n)] = 0.0
        big = np.array([rng.randrange(0, 21) / 10 for _ in range(n)])
        g = np.array([float(int(4 * x)) / 4 for x in load * big * tight])
        if rng.random() < 0.2:  # deficit of the pool, well connected
            g = np.array([float(int(x * rng.choice([0.5, 0.7, 0.9, 1.0]))) for x in load])
        t = np.zeros(n)
        if joint and rng.random() < 0.7:
            for _ in range(rng.choice([1, 2, 3])):
                i, j = rng.sample(range(n), 2)
                q = rng.choice([5, 10, 40, 100, 12.25])
                t[i] += q
                t[j] -= q
            if rng.random() < 0.05:
                t[rng.randrange(n)] += 25
        if nls and rng.random() < 0.25:  # what the schedule sends is not enough for who receives it
            i, j = rng.choice([(e[1], e[2]) for e in LP.tolist()])
            if rng.random() < 0.7:
                i, j = j, i
            q = rng.choice([10.0, 25.0, 40.0])
            t = np.zeros(n)
            t[i], t[j] = q, -q
            load[j] = max(load[j], 100.0)
            g[i], g[j] = load[i] + 400.0, max(load[j] - q - rng.choice([20.0, 60.0, 90.0]), 0.0)
            if rng.random() < 0.4:  # or the sender is the one who needs help
                g[i], g[j] = max(load[i] - rng.choice([20.0, 60.0, 90.0]), 0.0), load[j] + 400.0
        tf, tj = (t, 0 * t) if rng.random() < 0.5 else (t - np.roll(t, 1), np.roll(t, 1).copy())
        A = dict(IFLAG=IFLAG, JFLAG=0, CLOCK=float(h), JHOUR=h, IOI=rng.choice([0, 0, 0, 1]), BN=BN, BLPA=BLPA, LP=LP, NR=NR, STMULT=np.ones((nl, 2)),
                 LNSTAT=ST, NLS=nls, TRNSFR=tf, TRNSFJ=tj, SYSCON=g, CAPREQ=load, PLNDST=np.ones(2), PCTAVL=np.ones(2), **arrays)
        if h == 0 and rng.random() < 0.3:
            A["LNSTAT"][:] = 1
        s = before(A)
        s["again"] = IFLAG
        with kit.code():
            order = ["IFLAG", "JFLAG", "CLOCK", "JHOUR", "IOI", "BN", "BLPA", "BLP0", "BB", "LT", "ZB", "LP", "NR", "STMULT", "LNSTAT", "NLS",
                     "TRNSFR", "TRNSFJ", "SYSCON", "CAPREQ", "PLNDST", "PCTAVL"]
            r = transm(*[A[k] for k in order])
        IFLAG = 1
        tr.line(**after(s, r))
        if len(tr.samples) < 2:
            tr.sample(**{k: s[k] for k in ("n", "nls", "jf", "gen", "load", "sadj")})


def simulated(tr, rng, mods, opt, most):
    import importlib

    f = importlib.import_module("reliabilityassessment.monte_carlo.transm").transm
    b = kit.bound(f)
    left = [most]

    def fac(orig):
        def w(*a, **kw):
            A = b(a, kw)
            s = before(A)
            s["again"] = kit.I(A["IFLAG"])
            r = orig(*a, **kw)
            if left[0] > 0:
                left[0] -= 1
                tr.line(**after(s, r))
            return r

        return w

    s = gen.system(rng, **opt)
    folder = os.path.join(os.getcwd(), "in")
    gen.write(s, folder)
    undo = kit.observe(mods, f, fac)
    tr.traces += 1
    try:
        with kit.code():
            importlib.import_module("reliabilityassessment.monte_carlo.narpMain").narpMain(folder)
    finally:
        for m, k, o in undo:
            setattr(m, k, o)
        shutil.rmtree(folder)
    return left[0] < most


def run(tr, args, rng):
    mods = kit.load_all()
    import importlib

    transm = importlib.import_module("reliabilityassessment.monte_carlo.transm").transm
    for _ in range(args.get("networks", 0)):
        direct(tr, rng, transm, args.get("hours", 4))
    for o in args.get("sims", []):
        for _ in range(5):
            if simulated(tr, rng, mods, o, args.get("most", 40)):
                break
    tr.line(ev="end")


if __name__ == "__main__":
    kit.main(run)
