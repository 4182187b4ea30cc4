#!/usr/bin/env python3
"""Add certificates to recorded transmission studies (spec/Transport.tla): exact
angles of the net injections, and multipliers found by a linear programme and
made exact.  Nothing here is trusted: TLC checks what each certificate proves,
and a certificate that proves nothing makes a check fail, never pass."""
import json
import sys
from fractions import Fraction as Fr
from math import lcm

NB = 10000


def slimbs(x):
    s, v, out = (x > 0) - (x < 0), abs(int(x)), []
    while v:
        out.append(v % NB)
        v //= NB
    return [s, out]


def vec(xs):
    """rationals over one denominator"""
    d = 1
    for x in xs:
        d = lcm(d, x.denominator)
    return d, [int(x * d) for x in xs]


def components(n, lines):
    p = list(range(n))

    def f(a):
        while p[a] != a:
            a = p[a]
        return a

    for ln in lines:
        if ln["b"]:
            p[f(ln["fr"] - 1)] = f(ln["to"] - 1)
    d = {}
    for a in range(n):
        d.setdefault(f(a), []).append(a)
    return list(d.values())


def laplace(n, lines, rhs, k):
    """exact th with sum over the lines of a of k*b*(th_a - th_b) = rhs_a; in
    every component the last equation is left out and the last th is zero"""
    th = [Fr(0)] * n
    for comp in components(n, lines):
        idx = {a: i for i, a in enumerate(comp[:-1])}
        m = len(idx)
        M = [[Fr(0)] * (m + 1) for _ in range(m)]
        for a, i in idx.items():
            M[i][m] = Fr(rhs[a])
        for ln in lines:
            a, c, b = ln["fr"] - 1, ln["to"] - 1, Fr(ln["b"]) * k
            for x, y in ((a, c), (c, a)):
                if x in idx and b:
                    M[idx[x]][idx[x]] += b
                    if y in idx:
                        M[idx[x]][idx[y]] -= b
        for i in range(m):
            p = next(r for r in range(i, m) if M[r][i] != 0)
            M[i], M[p] = M[p], M[i]
            inv = 1 / M[i][i]
            M[i] = [v * inv for v in M[i]]
            for r in range(m):
                if r != i and M[r][i] != 0:
                    f = M[r][i]
                    M[r] = [v - f * w for v, w in zip(M[r], M[i])]
        for a, i in idx.items():
            th[a] = M[i][m]
    return th


def angles(n, lines, inj):
    d, v = vec(laplace(n, lines, inj, Fr(1, 2)))
    return dict(d=slimbs(d), v=[slimbs(x) for x in v]), [Fr(x, d) for x in v]


def flows(lines, th):
    return [int(round(Fr(ln["b"], 2) * (th[ln["fr"] - 1] - th[ln["to"] - 1]))) for ln in lines]


def multipliers(pr):
    import numpy as np
    from scipy.optimize import linprog

    n, lines, L = pr["n"], pr["lines"], len(pr["lines"])
    K = 4096.0
    R = np.zeros((L, n))
    ex = np.zeros((n, n))
    for k, ln in enumerate(lines):
        a, c, b = ln["fr"] - 1, ln["to"] - 1, ln["b"] / 2
        R[k, a] += b
        R[k, c] -= b
        ex[a] += R[k]
        ex[c] -= R[k]
    Z, E = np.zeros((L, n)), np.eye(n)
    Aeq = np.hstack([ex, -E, E])
    Aub = np.vstack([np.hstack([R, Z, Z]), np.hstack([-R, Z, Z]), np.hstack([ex, 0 * E, 0 * E]), np.hstack([-ex, 0 * E, 0 * E])])
    bub = np.array([x["f"] for x in lines] + [x["r"] for x in lines] + pr["o"] + pr["i"]) / K
    res = linprog([0.0] * n + [1.0] * n + [0.0] * n, A_ub=Aub, b_ub=bub, A_eq=Aeq, b_eq=np.array(pr["t"]) / K,
                  bounds=[(None, None)] * n + [(0, x / K) for x in pr["cu"]] + [(0, x / K) for x in pr["eu"]], method="highs")
    if res.status != 0:
        raise SystemExit("linear programme: %s %s" % (res.message, json.dumps(pr)))
    D = 10**7
    y = [Fr(int(round(-v * D)), D) for v in res.eqlin.marginals]
    w = [max(Fr(0), Fr(int(round(-v * D)), D)) for v in res.ineqlin.marginals]
    u, v, p, q = w[:L], w[L:2 * L], w[2 * L:2 * L + n], w[2 * L + n:]
    for k, ln in enumerate(lines):
        if not ln["b"]:
            u[k] = v[k] = Fr(0)
    # b (z_fr - z_to + u - v) has no divergence: a Laplace equation for z
    rhs = [Fr(0)] * n
    for k, ln in enumerate(lines):
        x = ln["b"] * (u[k] - v[k])
        rhs[ln["fr"] - 1] -= x
        rhs[ln["to"] - 1] += x
    z = laplace(n, lines, rhs, 1)
    for comp in components(n, lines):
        a = comp[-1]
        s = y[a] + p[a] - q[a] - z[a]
        for c in comp:
            z[c] += s
    y = [z[a] - p[a] + q[a] for a in range(n)]
    d, allv = vec(y + u + v + p + q)
    allv = [slimbs(x) for x in allv]
    return dict(d=slimbs(d), y=allv[:n], u=allv[n:n + L], v=allv[n + L:n + 2 * L], p=allv[n + 2 * L:2 * n + 2 * L], q=allv[2 * n + 2 * L:])


def own_first(n, lines, o, i, t):
    return dict(n=n, lines=lines, o=o, i=i, t=t, cu=[max(0, -x) for x in t], eu=[max(0, x) for x in t])


def study(s):
    n, lines, gen, load, lim, sadj, flow = (s[k] for k in ("n", "lines", "gen", "load", "lim", "sadj", "flow"))
    if any(abs(x) >= 2000000000 for x in sadj + flow):
        return dict(none=True)
    bal = [g - x for g, x in zip(gen, load)]
    net = [0] * n
    for k, ln in enumerate(lines):
        net[ln["fr"] - 1] += flow[k]
        net[ln["to"] - 1] -= flow[k]
    c = dict(none=False)
    if s["jf"] == 0:
        total = [b - x for b, x in zip(bal, sadj)]
        first = total
    else:
        total = [b + x for b, x in zip(bal, sadj)]
        first = [a - b for a, b in zip(total, net)] if s["nls"] == 1 else [0] * n
    c["thx"], _ = angles(n, lines, total)
    c["thf"], _ = angles(n, lines, net)
    c["th1"], t1 = angles(n, lines, first)
    c["flow1"] = f1 = flows(lines, t1)
    sched = [max(t, min(b, 0)) for t, b in zip(s["tr"], bal)]
    c["m1"] = multipliers(own_first(n, lines, lim, lim, sched))
    if s["jf"] == 0:
        c["m"] = c["m1"]
    elif s["nls"] == 0:
        c["m"] = multipliers(dict(n=n, lines=lines, o=lim, i=lim, t=bal, cu=load, eu=gen))
    else:
        left = [dict(ln, f=max(0, ln["f"] - f1[k]), r=max(0, ln["r"] + f1[k])) for k, ln in enumerate(lines)]
        c["m"] = multipliers(own_first(n, left, [max(0, x - a) for x, a in zip(lim, first)], [max(0, x + a) for x, a in zip(lim, first)],
                                       [b - a for b, a in zip(bal, first)]))
    sl, sg = sum(load), sum(gen)
    eq = [(2 * x * (sl - sg) + sl) // (2 * sl) if sl else 0 for x in load]
    c["equal"] = eq
    c["the"], _ = angles(n, lines, [b + x for b, x in zip(bal, eq)])
    return c


def main():
    kind, src, dst = sys.argv[1:4]
    with open(src) as f, open(dst, "w") as g:
        for line in f:
            r = json.loads(line)
            if r.get("ev") == "study":
                r["cert"] = study(r)
            g.write(json.dumps(r) + "\n")


if __name__ == "__main__":
    main()
