"""Direct draws of component states: seeder(), gstate(), lstate() the alternative samplers, and sumcap()."""
import importlib

import kit
import numpy as np

FULL = 2147483647


def capacities(tr, rng, sumcap, n):
    """sums over units with any shares, in 1/1024, of capacities in quarters of a megawatt"""
    for _ in range(n):
        na, nu = rng.choice([1, 2, 3, 5, 8]), rng.choice([1, 2, 6, 25])
        loc = [rng.randrange(na) for _ in range(nu)]
        own = np.zeros((na, nu), dtype=int)
        for u in range(nu):
            left = 1024
            for a in rng.sample(range(na), rng.choice([0, 0, 1, na - 1]) if na > 1 else 0):
                own[a, u] += rng.choice([1, 5, 10, 11, 256, 341, 512, left])
                if own[:, u].sum() > 1024:
                    own[a, u] = left
                left = 1024 - own[:, u].sum()
            own[loc[u] if rng.random() < 0.6 else rng.randrange(na), u] += left
        av = [rng.choice([0, 1, 2, 4 * rng.randrange(1, 20), rng.randrange(4000), 4 * 1300]) for _ in range(nu)]
        with kit.code():
            _, owned, located, moved = sumcap(np.array(av) / 4, own / 1024, np.array(loc))
        tr.line(ev="sums", av=av, loc=[x + 1 for x in loc], own=own.tolist(), owned=kit.IV(owned, 4096), located=kit.IV(located, 4096), moved=kit.IV(moved, 4096))
        tr.traces += 1


def run(tr, args, rng):
    kit.load_all()

    def get(m, f):
        return getattr(importlib.import_module("reliabilityassessment.monte_carlo." + m), f)

    seeder, gstate, lstate = get("seeder", "seeder"), get("gstate", "gstate"), get("lstate", "lstate")
    shared_units = get("gstate", "_gstate")
    alternatives = [get("line_prob_sampling", f) for f in ("lstate", "lstate_original", "discrete_prob_gen")]

    def nxt(s):
        return s * 65539 % 2**31

    def lim(p):
        return min(FULL, int(p * 2**31))

    def limits(k, near=None):
        """k rising shares of one, in units of 2^-20, some nothing or everything or near a number that will be drawn"""
        kind = rng.randrange(6)
        grid = 2**20
        if kind == 0:
            v = sorted(rng.choice([0, grid]) for _ in range(k))
        elif kind == 1:
            v = [rng.randrange(grid + 1)] * k
        elif kind == 2 and near is not None:
            at = near * grid // 2**31
            v = sorted(min(grid, max(0, at + rng.choice([-1, 0, 1, 1, 2]))) for _ in range(k))
        else:
            v = sorted(rng.randrange(grid + 1) for _ in range(k))
        return [x / grid for x in v]

    def whole(v):
        return [int(x) if 0 <= x < 2**31 and x == int(x) else 0 for x in np.asarray(v).ravel()]

    def start():
        return rng.choice([1, 3, FULL, FULL - 1, 2**30, rng.randrange(1, 2**31), rng.randrange(1, 2**31), rng.randrange(1, 2**31)])

    capacities(tr, rng, get("sumcap", "sumcap"), args.get("sums", 0))
    for k in range(args.get("draws", 0)):
        tr.traces += 1
        nu, nl = rng.choice([1, 2, 5, 40]), rng.choice([1, 2, 5, 30])
        seed = start()
        with kit.code():
            g, ln = seeder(seed, nu, nl)
        tr.line(ev="seeds", seed=seed, nu=nu, nl=nl, g=whole(g), l=whole(ln))

        n = rng.choice([1, 2, 7, 30])
        was = [start() for _ in range(n)]
        P = np.array([limits(2, nxt(s)) for s in was])
        cap = [rng.choice([0, 4, 100, 400, 4 * rng.randrange(1, 500)]) for _ in range(n)]
        der = [rng.randrange(5) for _ in range(n)]
        on = [rng.choice([0, 1, 1, 1]) for _ in range(n)]
        s = np.array(was, dtype=np.int32)
        with kit.code():
            pct, av = gstate(s, P, np.array(cap, dtype=float), np.array(der) / 4, np.array(on, dtype=float))
        what = dict(lim=[[lim(p) for p in r] for r in P], der=der, cap=cap, on=on)
        tr.line(ev="units", was=was, now=whole(s), pct=kit.IV(pct, 4), av=kit.IV(av), **what)
        tr.sample(was=was[:3], limits=P.tolist()[:3])

        sd = rng.randrange(10**6)
        nums = np.random.default_rng(sd).random(n)
        own = [int(x * 2**31) for x in nums]
        P = np.array([limits(2, x) for x in own])
        with kit.code():
            pct, av = shared_units(P, np.array(cap, dtype=float), np.array(der) / 4, np.array(on, dtype=float), rng=np.random.default_rng(sd))
        what["lim"] = [[lim(p) for p in r] for r in P]
        tr.line(ev="shared-units", **{"from": own}, pct=kit.IV(pct, 4), av=kit.IV(av), **what)

        was = [start() for _ in range(n)]
        P = np.array([limits(5, nxt(s)) + [1.0] for s in was])
        s = np.array(was, dtype=np.int32)
        with kit.code():
            st = lstate(s, np.ascontiguousarray(P.T))
        tr.line(ev="lines", was=was, now=whole(s), st=kit.IV(st), lim=[[lim(p) for p in r[:5]] for r in P])

        for i, f in enumerate(alternatives):
            if i == 0:  # the lines may differ
                P = np.array([limits(5, x) + [1.0] for x in own])
            else:
                P = np.array([limits(5, own[0]) + [1.0]] * n)
            with kit.code():
                st = f(P, test_seed=sd) if i == 0 else f(n, P[0], test_seed=sd)
            tr.line(ev="shared-lines", which=i, **{"from": own}, st=kit.IV(st), lim=[[lim(p) for p in r[:5]] for r in P])


if __name__ == "__main__":
    kit.main(run)
