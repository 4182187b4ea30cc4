"""Random systems: input folders for the program, and the same system in the
integer units of the specification (spec/SimTrace.tla, spec/Inputs.tla)."""
import copy
import os

import numpy as np

HY = 8760
SCALE31 = 2**31
TOPLIM = 2**31 - 1


def lim31(p):
    return int(max(0, min(round(p * SCALE31), TOPLIM)))


def profile(rng, npr, kind):
    """8760 raw loads (integers) with maximum 1024"""
    h = np.arange(HY)
    if kind == "flat":
        x = np.full(HY, 1024)
    elif kind == "noise":
        x = npr.integers(300, 1025, HY)
    else:
        season = 1 + 0.25 * np.cos(2 * np.pi * (h / 24 - rng.choice([15, 200, 360])) / 365)
        day = 1 + 0.3 * np.sin(2 * np.pi * ((h % 24) - rng.choice([6, 9, 13])) / 24)
        week = np.where((h // 24) % 7 >= 5, 0.85, 1.0)
        x = season * day * week * (1 + 0.05 * npr.standard_normal(HY))
        x = np.floor(np.clip(x / x.max(), 0.02, 1) * 1024).astype(int)
    if kind == "ties":
        x = np.minimum(x, 900)
    x = np.array(x, dtype=int)
    k = int(npr.integers(0, HY))
    if kind == "last":
        k = HY - 1 - int(npr.integers(0, 30))
    if kind == "boundary":
        k = 24 * 7 * rng.choice([1, 13, 26, 39, 51]) + rng.choice([-1, 0, 1, 23, 24])
    x[k] = 1024
    return x


def system(rng, **opt):
    """a random system.  Options fix what they name."""
    npr = np.random.default_rng(rng.randrange(2**31))
    na = opt.get("na") or rng.choice([1, 2, 2, 3, 3, 4])
    step = opt.get("step", rng.choice([1, 24, 24]))
    freq = opt.get("freq", rng.choice([1, 24]))
    names = ["'A%d'" % (i + 1) for i in range(na)]
    if rng.random() < 0.4:
        names = ["'%s'" % x for x in rng.sample(["NW", "SE", "COAS", "FAR", "ERC", "W", "HOUS"] + (["A%d" % k for k in range(20)] if na > 7 else []), na)]
    unames, plants = [], rng.sample(["AA01", "BB02", "C003", "DDDD", "E5E5"], 4)
    areas, units = [], []
    fu_on = opt.get("fu", rng.random() < 0.6)
    for a in range(na):
        nu = opt.get("nu") or (rng.choice([1, 2, 2, 3, 4]) if (a == 0 or rng.random() < 0.95) else 0)
        cap_tot = 0
        for _ in range(nu):
            base = rng.choice([40, 60, 100, 160, 200])
            if rng.random() < 0.5:
                caps = [base] * 4
            else:
                caps = [base + 4 * rng.randrange(-6, 7) for _ in range(4)]
            if opt.get("odd", rng.random() < 0.3):
                caps = [c + rng.choice([0, 1, 2, 3]) for c in caps]
            cap_tot += base
            if opt.get("idle", rng.random() < 0.08):  # laid up in a season
                caps[rng.randrange(4)] = 0
            dfor = rng.choice([0, 0, 1 / 16, 1 / 8, 0.05])
            fo = rng.choice([0.02, 0.1, 1 / 16, 1 / 8, 0.25, 0.0])
            der = rng.choice([0, 25, 50, 75, 100]) if dfor else rng.choice([0, 50])
            k = len(units) + 1
            while True:
                nm = "%s%02d" % (rng.choice(plants), rng.randrange(1, 99))
                if nm not in unames:
                    break
            unames.append(nm)
            b1 = d1 = b2 = d2 = 0
            pa = 1
            r = rng.random()
            if opt.get("outages", True) and r < 0.5:
                b1, d1 = rng.choice([1, 2, 13, 14, 26, 40, rng.randrange(1, 45)]), rng.randrange(1, 7)
                if rng.random() < 0.5:
                    b2 = min(52, b1 + d1 + rng.choice([0, 1, 3, 8, 20]))
                    d2 = rng.randrange(1, 8)
            if opt.get("busy"):  # many units out in the same weeks
                b1, d1, b2, d2 = rng.randrange(1, 20), rng.randrange(5, 25), 0, 0
                if b1 + d1 < 45:
                    b2, d2 = rng.randrange(b1 + d1, 46), rng.randrange(2, 10)
            if opt.get("early") and rng.random() < 0.8:  # the first week of the year
                b1, d1, b2, d2 = 1, rng.randrange(1, 4), 0, 0
            if b1 and b2 and (b1 + b2) % 3 == 0:  # the later one first
                b1, d1, b2, d2 = b2, d2, b1, d1
            units.append(dict(name="'%s'" % nm, area=a, caps=caps, dfor=dfor, fo=fo, der=der, pa=pa,
                              b=[b1, b2], d=[d1, d2], own=None))
        tight = opt.get("tight", [0.4, 0.5, 0.6, 0.7, 0.8, 1.0])
        if isinstance(tight, list):  # one of these in each area
            tight = rng.choice(tight)
        if opt.get("weak") and a == 0:  # one area often short, the others hardly ever
            tight = opt["weak"]
        pk = 16 * max(1, int(round((cap_tot or rng.choice([16, 32])) * tight / 16)))
        areas.append(dict(name=names[a], peak=pk, fu=rng.choice([0, 12.5, 25]) if fu_on else 0,
                          win=[rng.randrange(1, 10), rng.randrange(40, 53)], forb=[rng.randrange(20, 25), rng.randrange(25, 33)],
                          flowlim=rng.choice([30000, 30000, 30000, 10 * rng.randrange(1, 15)]),
                          raw=profile(rng, npr, rng.choice(["usual", "usual", "noise", "flat", "ties", "last", "boundary"]))))
    if fu_on and not any(a["fu"] for a in areas):
        areas[0]["fu"] = 12.5
    if not units:
        return system(rng, **opt)
    rng.shuffle(units)
    if opt.get("joint", rng.random() < 0.6) and na > 1:
        for u in units:
            if rng.random() < 0.4:
                sh = [0] * na
                for _ in range(4):
                    sh[rng.randrange(na)] += 1
                if opt.get("partial", rng.random() < 0.15):
                    sh[rng.randrange(na)] = 0
                u["own"] = sh
    pairs = [(i, j) for i in range(na) for j in range(na) if i < j]
    rng.shuffle(pairs)
    keep = len(pairs) if opt.get("mesh") else rng.choice([na - 1, na, min(len(pairs), 25)])
    tree, seen = [], [0]  # the load flow needs a connected network (see DESIGN.md)
    for j in range(1, na):
        i = rng.choice(seen)
        tree.append((i, j))
        seen.append(j)
    chosen = tree + [p for p in pairs if p not in tree][: max(0, keep - len(tree))]
    lines = []
    rng.shuffle(chosen)
    for i, j in chosen:
        if rng.random() < 0.5:
            i, j = j, i
        adm, cap = -rng.choice([20, 50, 100, 120]), rng.choice([10, 30, 60, 100])
        st = []
        pr = rng.choice([[0.9216, 0.0768, 0.0016, 0, 0, 0], [0.75, 0.25, 0, 0, 0, 0], [0.5, 0.125, 0.125, 0.0625, 0.0625, 0.125],
                         [1, 0, 0, 0, 0, 0], [0.0625] * 5 + [0.6875]])
        for s in range(6):
            fac = [1, 0.5, 0, 0.7, 0.4, 0.2][s]
            st.append([float(adm * fac), int(cap * fac), int(cap * fac * rng.choice([1, 1, 0.5])), pr[s]])
        lines.append(dict(fr=i, to=j, st=st))
    contracts = []
    if na > 1:
        for _ in range(opt.get("contracts", rng.choice([0, 0, 1, 2, 4]))):
            i, j = rng.sample(range(na), 2)
            if contracts and rng.random() < 0.4:
                i, j = contracts[0]["fr"], contracts[0]["to"]
                if rng.random() < 0.3:
                    i, j = j, i
            d1 = rng.choice([1, 1, rng.randrange(1, 366), 365])
            d2 = min(365, d1 + rng.choice([0, 1, 6, 30, 364]))
            if opt.get("ends"):  # the last day of the year is unlike the one before
                d1, d2 = rng.choice([(1, 364), (365, 365), (364, 364), (358, 365)])
            contracts.append(dict(fr=i, to=j, d1=d1, d2=d2, mw=rng.choice([5, 10, 20, 40])))
    weeks = sorted(rng.sample(range(1, 52), 3)) if opt.get("weeks", rng.random() < 0.5) else [13, 26, 39]
    fin = opt.get("years", 1)
    mc = dict(seed=opt.get("seed") or rng.choice([345237, 1, 2147483647, rng.randrange(1, 9999999), rng.randrange(1, 9999999)]),
              nls=opt.get("nls", rng.choice([0, 1])), weeks=weeks, where=opt.get("where") or rng.choice([1, 2]), when=rng.choice([1, 2]),
              kvs=rng.choice([1, 2]), kvt=opt.get("kvt") or rng.choice([1, 2]), kvl=rng.randrange(1, na + 1),
              cvt=opt.get("cvt", rng.choice([0, 0.005, 0.025, 0.1, 0.5])), fin=fin, step=step, freq=freq,
              maxe=rng.choice([1000, 20, 77, 20000]), trace=int(opt.get("trace", rng.random() < 0.15)), ij=opt.get("ij", rng.choice([0, 1])), inn=opt.get("interval", rng.choice([1, 2, 3, 5])))
    if opt.get("kv"):
        mc.update(zip(("where", "when", "kvs", "kvt"), opt["kv"]))
    if opt.get("brink"):
        hardly_short(rng, areas, units, lines)
    if opt.get("bins"):
        mc["maxe"] = energy_near_a_class_limit(rng, areas, units, lines)
    if opt.get("near"):
        limits_near_draws(rng, mc["seed"], units, lines)
    return dict(na=na, areas=areas, units=units, lines=lines, contracts=contracts, mc=mc)


def sibling(rng, s):
    """another system of the same size, equal to s in what is looked at first"""
    o = copy.deepcopy(s)
    npr = np.random.default_rng(rng.randrange(2**31))
    o["mc"]["fin"] = 1
    for a in o["areas"]:
        x = a["raw"].copy()
        x[24:] = npr.permutation(x[24:])
        a["raw"] = x
    for u in o["units"]:
        if rng.random() < 0.5:
            u["caps"] = u["caps"][:1] + u["caps"][:0:-1]
        if rng.random() < 0.5:
            u["dfor"], u["fo"] = 0, u["dfor"] + u["fo"]
        if u["own"]:
            u["own"] = u["own"][::-1]
    for x in o["lines"]:
        k = rng.randrange(6)
        x["st"] = [[st[0], st[2], st[1], st[3]] for st in x["st"]]
        x["st"][k][1] = max(1, int(x["st"][k][1]) // 2)
    for c in o["contracts"]:
        if rng.random() < 0.6:
            c["fr"], c["to"] = c["to"], c["fr"]
    return o


def hardly_short(rng, areas, units, lines):
    """the first area is short for a few hours, and only when its load is at the highest level"""
    for u in units:
        u.update(dfor=0, fo=0.0, b=[0, 0], d=[0, 0], own=None, caps=[2 * areas[u["area"]]["peak"]] * 4)
    for a in areas:
        a.update(fu=0, flowlim=30000)
    areas[0]["fu"] = 25
    raw = np.minimum(areas[0]["raw"], 900)
    raw[rng.sample(range(8760), rng.choice([1, 1, 2, 3, 5, 8]))] = 1024
    for a in areas:
        a["raw"] = raw.copy()
    most = int(1.625 * areas[0]["peak"]) - 2
    own = [u for u in units if u["area"] == 0]
    for u in own[1:]:
        u["caps"] = [1] * 4
    if own:
        own[0]["caps"] = [most - len(own) + 1] * 4
    for x in lines:
        x["st"] = [[s[0], 1, 1, s[3]] for s in x["st"]]


def energy_near_a_class_limit(rng, areas, units, lines):
    """the first area loses, in some hours of different days, energy that adds up to about a limit of the classes of the report"""
    hardly_short(rng, areas, units, lines)
    a, step = areas[0], rng.choice([1, 2, 3, 3])
    a["fu"] = 0
    total = rng.choice([1, 2, 19, 20, 20, 20, 20, 21, 22]) * step + rng.choice([-1, 0, 1, step - 1])
    if rng.random() < 0.2:
        total = rng.randrange(1, 24 * step)
    most = a["peak"] // 2 - 1
    hours = rng.choice([h for h in range(1, 26) if total % h == 0 and total // h <= most] or [25])
    raw = np.minimum(a["raw"], 512)
    raw[[24 * d + rng.randrange(24) for d in rng.sample(range(365), hours)]] = 1024
    for x in areas:
        x["raw"] = raw.copy()
    own = [u for u in units if u["area"] == 0]
    if own:
        own[0]["caps"] = [max(1, a["peak"] - max(1, min(most, total // hours)) - (len(own) - 1))] * 4
    return 20 * step + rng.choice([0, 7, 19])


def limits_near_draws(rng, seed, units, lines):
    """probabilities such that numbers about to be drawn fall just below or above a limit"""
    x = seed
    for c in units + lines:
        x = x * 9649599 % SCALE31
        y, k = x, rng.randrange(1, 5)
        for _ in range(k):
            y = y * 65539 % SCALE31
        at = y / SCALE31 + rng.choice([-1, 1]) * rng.choice([1e-7, 1e-6, 1e-5, 1e-4, 1e-3])
        at = round(min(max(at, 1e-6), 1 - 1e-6), 12)
        if "fo" in c:
            if rng.random() < 0.5:
                c["dfor"], c["fo"] = rng.choice([0, 0.1, 0.01]), 1 - at
                if c["dfor"] + c["fo"] > 1:
                    c["dfor"] = 0
            else:
                c["dfor"] = 1 - at
                c["fo"] = 0
                if rng.random() < 0.5:
                    c["dfor"], c["fo"] = (1 - at) / 4, (1 - at) * 3 / 4
        else:
            cum = sorted([at] + [rng.choice([at, 0, 1, rng.random()]) for _ in range(4)])
            for st, p, q in zip(c["st"], [0] + cum, cum + [1]):
                st[3] = q - p


def num(x):
    return repr(int(x)) if float(x) == int(x) else repr(float(x))


def write(s, folder):
    os.makedirs(folder, exist_ok=True)

    def w(name, rows):
        with open(os.path.join(folder, name), "w") as f:
            f.write("\n".join(rows) + "\n")

    m = s["mc"]
    w("ZZTC.csv", ["A SYSTEM", "OF THE GENERATOR", "THREE LINES"])
    w("ZZMC.csv", ["SEED,LS,END WK1,END WK2,END WK3,WHERE,WHEN,KVS,KVT,KVL,CVT,FIN,STEP,FREQ,MAXE,II,IJ,IR,IN,D,M",
                   ",".join(num(x) for x in [m["seed"], m["nls"], *m["weeks"], m["where"], m["when"], m["kvs"], m["kvt"], m["kvl"],
                                             m["cvt"], m["fin"], m["step"], m["freq"], m["maxe"], m["trace"], m["ij"], 1, m["inn"], 1, 1])])
    w("ZZLD.csv", ["SN,AREA NAME,PEAK (MW),LFU,OUTAGE BEG WK,OUTAGE END WK,FORBIDDEN BEG WK,FORBIDDEN END WK,SUM OF FLOWS CONSTRAINT"]
      + ["%d,%s,%s,%s,%d,%d,%d,%d,%s" % (i + 1, a["name"], num(a["peak"]), num(a["fu"]), *a["win"], *a["forb"], num(a["flowlim"]))
         for i, a in enumerate(s["areas"])])
    w("ZZUD.csv", ["SN,NAME,LOC,CAP1,CAP2,CAP3,CAP4,DFOR,FOR,DER,P/A,B1,D1,B2,D2"]
      + ["%d,%s,%s,%s,%s,%s,%d,%d,%d,%d,%d,%d" % (i + 1, u["name"], s["areas"][u["area"]]["name"],
                                                ",".join(num(c) for c in u["caps"]), num(u["dfor"]), num(u["fo"]), u["der"], u["pa"],
                                                u["b"][0], u["d"][0], u["b"][1], u["d"][1])
         for i, u in enumerate(s["units"])])
    w("ZZTD.csv", ["SN,LINE NUMBER,FROM AREA,TO AREA,META DATA"]
      + ['%d,%d,%s,%s,"%s"' % (i + 1, i + 1, s["areas"][x["fr"]]["name"], s["areas"][x["to"]]["name"],
                               ",".join(num(v) for st in x["st"] for v in st)) for i, x in enumerate(s["lines"])])
    w("ZZFC.csv", ["SN,FROM AREA,TO AREA,BEG DAY,END DAY,MW"]
      + ["%d,%s,%s,%d,%d,%d" % (i + 1, s["areas"][c["fr"]]["name"], s["areas"][c["to"]]["name"], c["d1"], c["d2"], c["mw"])
         for i, c in enumerate(s["contracts"])])
    w("ZZOD.csv", ["SN,UNIT NAME,PERCENT OWNED BY AREA"]
      + ['%d,%s,"%s"' % (i + 1, u["name"], ",".join(str(25 * x) for x in u["own"]))
         for i, u in enumerate([v for v in s["units"] if v["own"]])])
    w("ZZDD.csv", ["SN,LINE NUMBER,UNIT1,UNIT2,UNIT3,UNIT4,FORWARD,BACKWARD"])
    rows = []
    for i, a in enumerate(s["areas"]):
        rows.append("AREA:A%d" % (i + 1))
        for r in range(0, HY, 12):
            v = " ".join("%d" % x for x in a["raw"][r:r + 12])
            d = r // 24
            rows.append(("%02d%02d                 " % (1 + d // 31, 1 + d % 31) if r % 24 == 0 else " " * 21) + v)
    w("LEEI", rows)


def describe(s):
    """the system in the units of the specification"""
    m = s["mc"]
    na = s["na"]
    nf = 5 if any(a["fu"] for a in s["areas"]) else 1
    fct = []
    for a in s["areas"]:
        f = int(a["fu"] * 2)  # 12.5 % is 25 of 200; in sixteenths 2
        x = a["fu"] / 100
        fct.append([int(16 * (1 + 2.5 * x)), int(16 * (1 + x)), 16, int(16 * (1 - x)), int(16 * (1 - 2.5 * x))])
        assert all(v / 16 in (1 + 2.5 * x, 1 + x, 1, 1 - x, 1 - 2.5 * x) for v in fct[-1])
    return dict(
        cal=dict(hy=HY, hd=24, hw=168, nw=52, q=[168 * w for w in m["weeks"]], step=m["step"], freq=m["freq"]),
        na=na, nf=nf, seed=m["seed"], names=[a["name"].strip("'") for a in s["areas"]],
        areas=[dict(peak=a["peak"], fct=fct[i], flowlim=a["flowlim"],
                    load=[int(v) * a["peak"] // 16 for v in a["raw"]]) for i, a in enumerate(s["areas"])],
        units=[dict(area=u["area"] + 1, cap=list(u["caps"]), lim=[lim31(1 - (u["dfor"] + u["fo"])), lim31(1 - u["fo"])],
                    der=4 - u["der"] // 25,
                    weeks=sorted({w for b, d in zip(u["b"], u["d"]) if b for w in range(b, b + d) if w <= 52}))
               for u in s["units"]],
        own=[[(u["own"][a] if u["own"] else (4 if u["area"] == a else 0)) for u in s["units"]] for a in range(na)],
        lines=[dict(fr=x["fr"] + 1, to=x["to"] + 1, cap=[max(1, v[1]) if v[1] else 1 for v in x["st"]],
                    capr=[v[2] if v[2] else 1 for v in x["st"]],
                    lim=[lim31(sum(v[3] for v in x["st"][: k + 1])) for k in range(5)]) for x in s["lines"]],
        contracts=[dict(fr=c["fr"] + 1, to=c["to"] + 1, d1=c["d1"], d2=c["d2"], mw=c["mw"]) for c in s["contracts"]],
        nls=m["nls"], years=m["fin"], interval=m["inn"], lstep=max(1, m["maxe"] // 20), ij=m["ij"],
        test=[int(round(m["cvt"] * 100000)), 100000],
        kv=dict(where=m["where"], when=m["when"], stat=m["kvs"], type=m["kvt"], loc=m["kvl"]),
    )
