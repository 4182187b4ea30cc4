"""Admittance matrices and their inverses: histories of line state changes
generated by TLC, replayed with the functions the load flow uses; load flows of
random injections; what transmission studies really work with; inverses of
random matrices by factorisation.

args: behaviours (file), solves, networks, hours, matrices"""
import importlib
import json
from fractions import Fraction

import kit
import numpy as np
import transport
from sim import slimbs

MC = "reliabilityassessment.monte_carlo."


def fn(name):
    return getattr(importlib.import_module(MC + name), name)


def B2(M, nx):
    return kit.IM(np.asarray(M)[:nx, :nx], 2)


def Z12(M, nx):
    return [[slimbs(x, 10**12) for x in row] for row in np.asarray(M)[:nx, :nx]]


def base(tr, n, nr, lines):
    """the matrices of a network by tm1()"""
    BN = np.zeros((n, 5))
    BN[:, 0] = range(n)
    LP = np.array([[k, x["fr"] - 1, x["to"] - 1] for k, x in enumerate(lines)])
    BLP = np.array([[-x["b"] / 2, 10.0, 10.0] for x in lines])
    with kit.code():
        BLP0, BB, LT, ZB = fn("tm1")(BN, LP, BLP.copy(), nr - 1)
    BB, ZB = np.array(BB), np.array(ZB)
    tr.line(ev="base", n=n, nr=nr, lines=lines, bb=B2(BB, n - 1), zb=Z12(ZB, n - 1), lt=[x + 1 for x in kit.IV(LT)])
    return LP, BLP, BB, LT, ZB


def change(LP, BB, ZB, LT, nr, k, old, new):
    """one line changes state, the way tm2() does it"""
    nx = len(LT) - 1
    pos = {int(a): i for i, a in enumerate(LT[:nx])}
    i, j = LP[k, 1], LP[k, 2]
    ref = i == nr - 1 or j == nr - 1
    for b in (new, -old):
        if b == 0:
            continue
        with kit.code():
            if ref:
                e = pos[int(j if i == nr - 1 else i)]
                Z = fn("ximpar")(ZB, -1 / b, e)
                fn("admref")(BB, e, b)
            else:
                e, f = pos[int(i)], pos[int(j)]
                Z = fn("ximpa")(ZB, -1 / b, e, f)
                fn("admitm")(BB, e, f, b)
        ZB[:nx, :nx] = np.asarray(Z)[:nx, :nx]


def solve(tr, rng, n, nr, lines, LP, LT, ZB):
    inj = [rng.randrange(-400, 400) for _ in range(n)]
    if rng.random() < 0.3:
        inj = [rng.choice([0, 0, 1, -1, 3]) for _ in range(n)]
    inj[rng.randrange(n)] -= sum(inj)
    unit = rng.choice([1, 1, 32, 1024])  # parts of a megawatt
    v = np.array([inj[int(a)] / unit for a in LT])
    BLP = np.array([[-x["b"] / 2, 10.0, 10.0] for x in lines])
    with kit.code():
        th = np.asarray(fn("thetac")(fn("theta")(ZB, v), LT))
        sflow, flow = fn("flo")(LP, BLP, th)
    tr.line(ev="solve", n=n, nr=nr, lines=lines, inj=inj, unit=unit, th=[slimbs(x, 10**12) for x in th], flow=[slimbs(x, 10**9) for x in flow],
            sflow=[slimbs(x, 10**9) for x in sflow])


def replay(tr, rng, b):
    n, nr, lines = b["n"], b["nr"], [dict(x) for x in b["base"]]
    LP, BLP, BB, LT, ZB = base(tr, n, nr, lines)
    tr.traces += 1
    for step, (k, new) in enumerate(b["steps"]):
        k -= 1
        change(LP, BB, ZB, LT, nr, k, -lines[k]["b"] / 2, -new / 2)
        lines[k]["b"] = new
        tr.line(ev="step", n=n, nr=nr, lines=lines, bb=B2(BB, n - 1), zb=Z12(ZB, n - 1))
        if step % 4 == 3:
            solve(tr, rng, n, nr, lines, LP, LT, ZB)


class Quiet:
    """a Trace that keeps nothing"""
    traces, samples = 0, []

    def line(self, **kw):
        pass

    def sample(self, **kw):
        pass


def studies(tr, rng, mods, hours):
    """what a sequence of studies works with, and leaves behind"""
    cur = {}
    undo = []

    def hook(modname, name, fac):
        m = importlib.import_module(MC + modname)
        f = getattr(m, name, None)
        if f is not None:
            undo.extend(kit.observe(mods, f, fac))

    def w_theta(orig):
        b = kit.bound(orig)

        def w(*a, **kw):
            Z = next(iter(b(a, kw).values()))
            if cur:
                tr.line(ev="used", n=cur["n"], nr=cur["nr"], lines=cur["lines"], zb=Z12(Z, cur["n"] - 1))
            return orig(*a, **kw)
        return w

    def w_lp(orig):
        b = kit.bound(orig)

        def w(*a, **kw):
            BC = next(iter(b(a, kw).values()))
            if cur:
                tr.line(ev="lp", n=cur["n"], nr=cur["nr"], lines=cur["lines"], bb=B2(BC, cur["n"] - 1))
            return orig(*a, **kw)
        return w

    transm = fn("transm")
    bd = kit.bound(transm)

    def outer(*a):
        A = bd(a, {})
        lines = transport.lines_of(A["LP"], A["BLPA"], A["LNSTAT"], A["STMULT"])
        cur.update(n=len(A["BN"]), nr=A["NR"] + 1, lines=lines)
        r = transm(*a)
        cur.clear()
        one = np.ones(len(lines), dtype=int)
        tr.line(ev="kept", n=len(A["BN"]), nr=A["NR"] + 1, lines=transport.lines_of(A["LP"], A["BLPA"], one, A["STMULT"]),
                bb=B2(A["BB"], len(A["BN"]) - 1), zb=Z12(A["ZB"], len(A["BN"]) - 1))
        return r

    hook("theta", "theta", w_theta)
    hook("conls", "conls", w_lp)
    hook("connls", "connls", w_lp)
    try:
        transport.direct(Quiet(), rng, outer, hours)
    finally:
        for m, k, o in undo:
            setattr(m, k, o)


def det(A):
    A = [[Fraction(x) for x in r] for r in A]
    d = Fraction(1)
    for i in range(len(A)):
        p = next((r for r in range(i, len(A)) if A[r][i]), None)
        if p is None:
            return 0
        if p != i:
            A[i], A[p], d = A[p], A[i], -d
        d *= A[i][i]
        for r in range(i + 1, len(A)):
            f = A[r][i] / A[i][i]
            A[r] = [x - f * y for x, y in zip(A[r], A[i])]
    return d


def matrix(tr, rng):
    while True:
        n = rng.choice([1, 2, 3, 4, 5, 7])
        zero = rng.choice([0.0, 0.4, 0.7])
        A = [[0 if rng.random() < zero else rng.randrange(-5, 6) for _ in range(n)] for _ in range(n)]
        if rng.random() < 0.5:  # as in a linear programme: many unit columns
            for j in rng.sample(range(n), n // 2):
                k = rng.randrange(n)
                for i in range(n):
                    A[i][j] = int(i == k)
        if det(A) != 0:
            break
    scale = np.array([float(rng.choice([1, 1, 256, 2**14])) for _ in range(n)])
    mod = importlib.import_module
    plain = [getattr(mod(MC + m), f, None) for m, f in (("dgefa", "_dgefa"), ("dgedi", "_dgedi"))]
    with kit.code():
        M = np.array(np.array(A, dtype=float) / scale[:, None], order=rng.choice("CF"))
        if all(plain) and rng.random() < 0.3:  # the versions without array operations
            plain[1](M, n, plain[0](M, n)[1], 2)
        else:
            ip = fn("dgeco")(M, n)
            fn("dgedi")(M, n, ip)
    tr.line(ev="inv", a=A, z=[[slimbs(x, 10**12) for x in r] for r in M / scale])
    tr.traces += 1


def run(tr, args, rng):
    mods = kit.load_all()
    if args.get("behaviours"):
        for ln in open(args["behaviours"]):
            b = json.loads(ln)
            replay(tr, rng, b)
            tr.sample(areas=b["n"], reference=b["nr"], changes=b["steps"])
    for _ in range(args.get("networks", 0)):
        tr.traces += 1
        studies(tr, rng, mods, args.get("hours", 4))
    for _ in range(args.get("matrices", 0)):
        matrix(tr, rng)
    tr.line(ev="end")


if __name__ == "__main__":
    kit.main(run)
