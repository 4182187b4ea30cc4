"""Histories of scheduling and taking events, through filem() and remove()."""
import json

import kit
import numpy as np


def walk(EVNTS, ip, limit=60):
    out, n, ok = [], 0, True
    while ip != -1:
        if n > limit or ip < 0 or ip + 3 >= len(EVNTS) + 1 or ip % 4:
            ok = False
            break
        out.append([kit.I(EVNTS[ip + 1], 2), kit.I(EVNTS[ip + 2])])
        ip = int(EVNTS[ip])
        n += 1
    return out, ok


def run(tr, args, rng):
    from reliabilityassessment.monte_carlo.filem import filem
    from reliabilityassessment.monte_carlo.initfl import initfl
    from reliabilityassessment.monte_carlo.initl import _initl, initl
    from reliabilityassessment.monte_carlo.remove import remove

    A = np.zeros(2)

    def start():
        with kit.code():
            MFA, IP, EV = initfl()
        tr.traces += 1
        tr.line(ev="start", t=0, k=0, list=[], ok=True, n=0)
        return [MFA, 0, IP, EV]

    def file(s, t, k):
        A[0], A[1] = t / 2.0, k
        with kit.code():
            s[1], s[0], s[2] = filem(s[0], A, s[1], s[2], s[3])
        lst, ok = walk(s[3], s[2])
        tr.line(ev="file", t=t, k=k, list=lst, ok=ok, n=int(s[1]))

    def take(s):
        with kit.code():
            s[0], s[1], s[2] = remove(s[1], A, s[3], s[2])
        lst, ok = walk(s[3], s[2])
        tr.line(ev="take", t=kit.I(A[0], 2), k=kit.I(A[1]), list=lst, ok=ok, n=int(s[1]))
        return kit.I(A[0], 2), kit.I(A[1])

    # behaviours generated by TLC from EventArena
    for line in open(args["behaviours"]):
        ops = json.loads(line)
        s = start()
        for o in ops:
            if o["op"] == "file":
                file(s, o["t"], o["k"])
            else:
                take(s)
        tr.sample(behaviour=ops[:8])
    # long random histories, with times as in the simulation and arbitrary ones
    for _ in range(args["histories"]):
        s = start()
        t0 = rng.choice([0, 0, 17520 * rng.randrange(10000)])  # the last years of long runs too
        for _ in range(rng.randint(1, 24)):
            file(s, t0 + rng.choice([rng.randint(0, 40000), rng.randint(0, 6)]), rng.randint(1, 4))
        for _ in range(args["length"]):
            t, k = take(s)
            d = rng.choice([0, 1, 2, 48, 336, 17520, rng.randint(0, 20000), -rng.randint(0, 5)])
            file(s, max(0, t + d), k)
    # the program's own initial list (both ways of making it), then its refiling rule
    step = {1: None, 2: 336, 3: 17520, 4: 17520}
    for JSTEP in (1, 24):
        for own in (True, False):
            s = start()
            with kit.code():
                if own:
                    at, clock, IP, MFA, N = initl(JSTEP, s[3])
                else:
                    q = np.array([13, 26, 39]) * 168 + 0.5
                    at, clock, IP, MFA, N = _initl(JSTEP, s[3], s[2], s[0], 0, q)
            s[0], s[1], s[2] = MFA, N, IP
            lst, ok = walk(s[3], s[2])
            tr.line(ev="start", t=0, k=0, list=lst, ok=ok, n=int(N))
            for _ in range(args["program"]):
                t, k = take(s)
                file(s, t + (step[k] or 2 * JSTEP) if k in step else t + 1, k)


if __name__ == "__main__":
    kit.main(run)
