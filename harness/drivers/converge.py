"""Sequences of yearly values through cvchk()."""
import itertools

import kit
from sim import slimbs


def run(tr, args, rng):
    import importlib

    kit.load_all()
    f = getattr(importlib.import_module("reliabilityassessment.monte_carlo.cvchk"), "cvchk")

    def history(xs, test, years, unit):
        """xs: integers; unit: how many of them make one"""
        tr.traces += 1
        tr.line(ev="start", test=[test, 100000], years=years)
        total, last, ssq = 0, 0.0, 0.0
        for k, x in enumerate(xs):
            total += x
            with kit.code():
                r = kit.call(f, dict(CLOCK=8760.0 * (k + 1), FINISH=8760.0 * years, IYEAR=k + 1, CVTEST=test / 100000,
                                     SUM=total / unit, XLAST=last, SSQ=ssq))
                stop, ssq, last = r
            tr.line(ev="year", x=slimbs(x, 10000 // unit), stop=kit.I(stop))
        tr.sample(test=test / 100000, years=years, xs=[x / unit for x in xs[:10]])

    tests = [0, 500, 2500, 5000, 10000, 20000, 25000, 30000, 40000, 50000, 90000, 100000]
    for xs in itertools.product((0, 1, 3), repeat=5):  # every short history of few losses
        history(list(xs) + [rng.choice((0, 1, 3)) for _ in range(3)], rng.choice(tests), rng.choice([6, 8, 100]), 1)
    for _ in range(args["histories"]):
        n = rng.choice([5, 6, 9, 15, 30, 60])
        unit = rng.choice([1, 1, 10000])
        kind = rng.randrange(8)
        top = rng.choice([1, 5, 40, 400, 100000, 3000000])
        if kind == 0:
            xs = [rng.randint(0, top) for _ in range(n)]
        elif kind == 1:  # rare years with losses
            xs = [rng.randint(1, top) if rng.random() < 0.15 else 0 for _ in range(n)]
        elif kind == 2:  # nothing ever happens
            xs = [0] * n
        elif kind == 3:  # every year alike
            xs = [rng.randint(1, top)] * n
        elif kind == 4:  # about the same every year
            xs = [10 * top + rng.randint(-top, top) for _ in range(n)]
        elif kind == 5:  # one year unlike the others, early or late
            xs = [rng.randint(1, top)] * n
            xs[rng.choice([0, 3, 4, n - 1])] = rng.choice([0, 50 * top])
        elif kind == 6:  # drifting
            xs = [k * top for k in range(n)]
        else:
            xs = [rng.randint(0, top) * (k % 2) for k in range(n)]
        test = rng.choice(tests + [rng.randrange(30, 60000)] * 6)
        if rng.random() < 0.5:  # close to what these values give in one of the years
            m = rng.randrange(5, n + 1)
            mean = sum(xs[:m]) / m
            if mean:
                cv = (max(0, sum(x * x for x in xs[:m]) / m - mean * mean) / m) ** 0.5 / mean
                test = max(30, int(cv * 100000) + rng.choice([-3, -1, 0, 1, 2]))
        history(xs, test, rng.choice([9999, 9999, 5, 12, n]), unit)


if __name__ == "__main__":
    kit.main(run)
