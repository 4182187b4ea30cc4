"""Statistics of single hours: hrstat(), pkstat() and their other versions, called directly.

args: hours"""
import importlib

import kit
import numpy as np

NAMES = ["LOLT", "LOLG", "MGNT", "MGNG"]


def run(tr, args, rng):
    kit.load_all()
    fs = []
    for m in ("hrstat", "pkstat"):
        mod = importlib.import_module("reliabilityassessment.monte_carlo." + m)
        fs += [(m == "hrstat", getattr(mod, f)) for f in (m, "_" + m) if hasattr(mod, f)]
    for _ in range(args["hours"] // 10):
        hourly, f = rng.choice(fs)
        na = rng.choice([1, 2, 3, 5, 12, 25])
        area = {n: np.zeros((na, 5), dtype=int) for n in NAMES}
        pool = {n: np.zeros(5, dtype=int) for n in NAMES}
        flags = np.zeros(na, dtype=int)
        tr.traces += 1
        for _ in range(10):
            big = rng.choice([3, 100, 40000, 9000000])
            m = [rng.choice([0, 1, -1, rng.randrange(-big, big), rng.randrange(-big, big)]) for _ in range(na)]
            if rng.random() < 0.2:
                m = [abs(x) for x in m]
            j = rng.randrange(na)
            if rng.random() < 0.15:  # the pool is balanced
                m[j] -= sum(m)
            if min(m) >= 0:
                m[j] = -rng.choice([1, 2, big])
            lvl = rng.randrange(5)
            was = {n: (area[n].copy(), pool[n].copy()) for n in NAMES}
            end = "H" if hourly else "P"
            a = dict(NST=lvl, MARGIN=np.array(m), LSFLG=flags)
            a.update({n + end + "A": area[n] for n in NAMES})
            a.update({n + end + "P": pool[n] for n in NAMES})
            order = ["NST", "MARGIN"] + (["LSFLG"] if hourly else []) + [x + end + y for x in ("LOLG", "LOLT", "MGNG", "MGNT") for y in "AP"]
            with kit.code():
                f(*[a[k] for k in order])
            da = {n: area[n] - was[n][0] for n in NAMES}
            dp = {n: pool[n] - was[n][1] for n in NAMES}
            rest = all((np.delete(da[n], lvl, axis=1) == 0).all() and (np.delete(dp[n], lvl) == 0).all() for n in NAMES)
            tr.line(ev="hour" if hourly else "peak", m=m, rest=bool(rest), area={n: kit.IV(da[n][:, lvl]) for n in NAMES},
                    pool={n: kit.I(dp[n][lvl]) for n in NAMES}, kept=kit.IV(a["MARGIN"]) == m)
        tr.sample(areas=na, margins=m)


if __name__ == "__main__":
    kit.main(run)
