"""Random input folders through narpMain(): what reaches the simulation, the
loads and peaks, the outage table and the installed capacities.

args: folders (list of option dicts), times, direct (number of random arrays
for the functions that look for maxima)."""
import os
import sys

import gen
import kit
import numpy as np

HY = 8760
NAMES = ["NW", "SE", "COAS", "FAR", "ERC", "W", "HOUS", "A1", "A2", "A3", "B", "DFW", "ZONE", "X9", "N", "S1"]


def digits(x):
    return gen.num(x)


def cards(rng, **opt):
    """a random folder, as rows of its files"""
    npr = np.random.default_rng(rng.randrange(2**31))
    na = opt.get("na") or rng.choice([1, 2, 3, 3, 4, 5])
    names = rng.sample(NAMES + (["Z%d" % k for k in range(12)] if na > len(NAMES) else []), na)
    exact = opt.get("exact", rng.random() < 0.6)
    fu_on = rng.random()
    fus = opt.get("fus") or ([0, 0, 4, 12.5, 7.5, 10] if fu_on < 0.45 else [0, 0.1, 0.3, 0, 1.2] if fu_on < 0.6 else [0])
    areas = []
    for a in range(na):
        raw = gen.profile(rng, npr, rng.choice(["usual", "usual", "noise", "flat", "ties", "last", "boundary", "days"]))
        if not exact:
            raw = np.maximum(raw * rng.choice([1, 3, 7]) - rng.choice([0, 1, 2]), 0)
        peak = 16 * rng.randrange(1, 100) if exact else rng.choice([rng.randrange(1, 2000), 0.5 + rng.randrange(1, 900)])
        w0 = rng.randrange(1, 10)
        areas.append(dict(name=names[a], peak=peak, fu=rng.choice(fus),
                          win=[w0, rng.choice([52, 52, rng.randrange(40, 53)])],
                          forb=rng.choice([[24, 32], [20, 20 + rng.randrange(0, 10)], [w0 + 1, w0 + 4]]),
                          lim=rng.choice([30000, 5, 0, rng.randrange(1, 500)]), raw=raw))
    units = []
    plants = ["AA01", "BB02", "C003", "DDDD", "E5E5", "ZZZZ", "1234"]
    used = set()
    for _ in range(opt.get("nu") or rng.choice([1, 2, 3, 5, 8, 12])):
        while True:
            nm = "%s%02d" % (rng.choice(plants), rng.randrange(1, 99))
            if nm not in used:
                break
        used.add(nm)
        auto = opt.get("auto", 0) and rng.random() < opt["auto"]
        b1 = d1 = b2 = d2 = 0
        r = rng.random()
        if r < 0.7:
            b1, d1 = rng.choice([1, 1, 2, 13, 26, 27, 50, 52, rng.randrange(1, 53)]), rng.randrange(1, 7)
            if rng.random() < 0.6:
                e = b1 + d1
                if e <= 52:
                    b2, d2 = rng.choice([e, 52, rng.randrange(e, 53)]), rng.randrange(1, 9)
        elif r < 0.8:  # only the second outage is used
            b2, d2 = rng.randrange(1, 53), rng.randrange(1, 5)
        if b1 and b2 and (b1 + b2) % 3 == 0:  # the later one first
            b1, d1, b2, d2 = b2, d2, b1, d1
        if rng.random() < 0.06:  # out for most of the year
            b1, d1, b2, d2 = rng.choice([(1, 52, 0, 0), (1, 30, 40, 13), (3, 27, 30, 2), (9, 44, 0, 0)])
        units.append(dict(name=nm, loc=rng.choice(names), cap=[0.5 * rng.randrange(0, 900) for _ in range(4)] if rng.random() < 0.6 else
                          [rng.randrange(1, 500)] * 4,
                          dfor=rng.choice([0, 0, 0.05, rng.randrange(0, 30000) / 1e5, rng.randrange(0, 3 * 10**8) / 1e9]), fo=rng.choice([0, 0.02, rng.randrange(0, 60000) / 1e5, rng.randrange(0, 6 * 10**8) / 1e9]),
                          der=rng.choice([0, 50, 100, rng.randrange(0, 101), rng.randrange(0, 1001) / 10]), pa=0 if auto else 1, b1=b1, d1=d1, b2=b2, d2=d2))
        if opt.get("edge"):
            units[-1].update(cap=[rng.choice([0, 3, 30000])] * 4, fo=rng.choice([0, 1]), dfor=0)
    pairs = [(i, j) for i in range(na) for j in range(na) if i < j]
    rng.shuffle(pairs)
    lines = []
    numbers = rng.sample(range(1, 60 + len(pairs)), len(pairs)) if rng.random() < 0.6 else list(range(1, len(pairs) + 1))
    for k, (i, j) in enumerate(pairs[: rng.randrange(1 if opt.get("derates") else 0, len(pairs) + 1)] if na > 1 else []):
        if rng.random() < 0.5:
            i, j = j, i
        grid = rng.choice([1, 1, 10**5])  # four or nine digits
        p = [rng.randrange(0, 1700 * grid) for _ in range(5)]
        lines.append(dict(num=numbers[k], fr=names[i], to=names[j],
                          st=[[-rng.choice([0, 20, 0.5, 120, 77.5, 33.3]), rng.choice([0, 10, 300, rng.randrange(1, 999)]),
                               rng.choice([0, 10, 300, rng.randrange(1, 999)]), v / (10000 * grid)] for v in [10000 * grid - sum(p)] + p]))
    contracts = []
    for _ in range(opt.get("contracts", rng.choice([0, 1, 3, 6])) if na > 1 else 0):
        i, j = rng.sample(names, 2)
        if contracts and rng.random() < 0.5:
            i, j = contracts[-1]["fr"], contracts[-1]["to"]
            if rng.random() < 0.3:
                i, j = j, i
        d1 = rng.choice([1, 1, rng.randrange(1, 366), 365])
        contracts.append(dict(fr=i, to=j, d1=d1, d2=min(365, d1 + rng.choice([0, 1, 6, 90, 364])), mw=rng.choice([5, 16, 20, 100, 250, 12.5])))
    owned = []
    for u in units:
        if rng.random() < 0.35:
            x = [rng.choice([0, 0, 25, 50, 12.5, 33.3, 100, 0.5, 1]) for _ in range(na)]
            owned.append(dict(name=u["name"], pct=x))
    rng.shuffle(owned)
    derates = []
    if opt.get("derates") and lines:
        derates = [dict(line=rng.choice(lines)["num"], units=[rng.choice(units)["name"] for _ in range(4)],
                        f=[rng.choice([0, 50, 75]), rng.choice([0, 50, 75])]) for _ in range(rng.randrange(1, 3))]
    weeks = sorted(rng.sample(range(1, 52), 3)) if rng.random() < 0.7 else [13, 26, 39]
    for a in areas:
        if rng.random() < 0.4:  # the peak at the turn of a season
            k = 168 * rng.choice(weeks) + rng.choice([-24, -1, 0, 1, 12, 23, 24])
            a["raw"] = np.minimum(a["raw"], 1000) if exact else a["raw"]
            a["raw"][k] = 1024 if exact else a["raw"].max() + 7
    mc = dict(seed=rng.choice([345237, 1, 2147483647, rng.randrange(1, 9999999)]), ls=rng.choice([0, 1]), weeks=weeks,
              where=rng.choice([1, 2]), when=rng.choice([1, 2]), kvs=rng.choice([1, 2]), kvt=rng.choice([1, 2]), kvl=rng.randrange(1, na + 1),
              cvt=rng.choice([0, 0.025, 0.1, 0.01, 0.001, rng.randrange(1, 900) / 1000]), fin=rng.choice([1, 7, 9999, rng.randrange(1, 5000)]),
              step=rng.choice([1, 24]), freq=rng.choice([1, 24]), maxe=rng.choice([1000, 20, 77, 39, 20000]), ii=rng.choice([0, 0, 1]),
              ij=rng.choice([0, 1]), inn=rng.choice([1, 2, 5, 50]), m=rng.choice([0, 1]))
    absent = [n for n, rows in (("ZZFC", contracts), ("ZZOD", owned), ("ZZDD", derates)) if not rows and rng.random() < 0.5]
    return dict(na=na, exact=exact, scale=rng.choice([1, 1, 1, 2048 if exact else 100000]), areas=areas, units=units, lines=lines, contracts=contracts, owned=owned, derates=derates, mc=mc, absent=absent)


def write(c, folder, rng):
    os.makedirs(folder, exist_ok=True)
    n = digits

    def w(name, head, rows):
        if name in c["absent"]:
            return
        sn, out = 0, []
        for r in rows:
            sn += rng.choice([1, 1, 1, 2, 10])
            out.append("%d,%s" % (sn, r))
        with open(os.path.join(folder, name + ".csv"), "w") as f:
            f.write("\n".join([head] + out) + rng.choice(["\n", ""]))

    with open(os.path.join(folder, "ZZTC.csv"), "w") as f:
        f.write("A SYSTEM\nOF THE GENERATOR\nTHREE LINES\n")
    m = c["mc"]
    with open(os.path.join(folder, "ZZMC.csv"), "w") as f:
        f.write("SEED,LS,END WK1,END WK2,END WK3,WHERE,WHEN,KVS,KVT,KVL,CVT,FIN,STEP,FREQ,MAXE,II,IJ,IR,IN,D,M\n")
        f.write(",".join(n(x) for x in [m["seed"], m["ls"], *m["weeks"], m["where"], m["when"], m["kvs"], m["kvt"], m["kvl"], m["cvt"],
                                        m["fin"], m["step"], m["freq"], m["maxe"], m["ii"], m["ij"], 1, m["inn"], 1, m["m"]]) + "\n")
    w("ZZLD", "SN,AREA NAME,PEAK (MW),LFU,OUTAGE BEG WK,OUTAGE END WK,FORBIDDEN BEG WK,FORBIDDEN END WK,SUM OF FLOWS CONSTRAINT",
      ["'%s',%s,%s,%d,%d,%d,%d,%s" % (a["name"], n(a["peak"]), n(a["fu"]), *a["win"], *a["forb"], n(a["lim"])) for a in c["areas"]])
    w("ZZUD", "SN,NAME,LOC,CAP1,CAP2,CAP3,CAP4,DFOR,FOR,DER,P/A,B1,D1,B2,D2",
      ["'%s','%s',%s,%s,%s,%s,%d,%d,%d,%d,%d" % (u["name"], u["loc"], ",".join(n(x) for x in u["cap"]), n(u["dfor"]), n(u["fo"]), n(u["der"]),
                                                u["pa"], u["b1"], u["d1"], u["b2"], u["d2"]) for u in c["units"]])
    sep = rng.choice([",", ", ", " ,"])
    w("ZZTD", "SN,LINE NUMBER,FROM AREA,TO AREA,META DATA",
      ["%d,'%s','%s',\"%s\"" % (x["num"], x["fr"], x["to"], sep.join(n(v) for s in x["st"] for v in s)) for x in c["lines"]])
    w("ZZFC", "SN,FROM AREA,TO AREA,BEG DAY,END DAY,MW",
      ["'%s','%s',%d,%d,%s" % (x["fr"], x["to"], x["d1"], x["d2"], n(x["mw"])) for x in c["contracts"]])
    w("ZZOD", "SN,UNIT NAME,PERCENT OWNED BY AREA", ["'%s',\"%s\"" % (x["name"], ",".join(n(v) for v in x["pct"])) for x in c["owned"]])
    w("ZZDD", "SN,LINE NUMBER,UNIT1,UNIT2,UNIT3,UNIT4,FORWARD,BACKWARD",
      ["%d,%s,%d,%d" % (x["line"], ",".join("'%s'" % u for u in x["units"]), *x["f"]) for x in c["derates"]])
    rows = []
    order = list(range(c["na"]))
    rng.shuffle(order)
    for i in order:
        rows.append("AREA:A%d" % (i + 1))
        raw = c["areas"][i]["raw"]
        for r in range(0, HY, 12):
            d = r // 24
            v = " ".join("%4d" % x if c["scale"] == 1 else repr(int(x) / c["scale"]) for x in raw[r:r + 12])
            rows.append(("%02d%02d                 " % (1 + d // 31, 1 + d % 31) if r % 24 == 0 else " " * 21) + v)
    with open(os.path.join(folder, "LEEI"), "w") as f:
        f.write("\n".join(rows) + "\n")


class Seen:
    """arguments and results of functions on the way"""

    def __init__(self, mods):
        self.mods, self.undo, self.args, self.ret = mods, [], {}, {}

    def wrap(self, mod, name, keep):
        m = sys.modules.get("reliabilityassessment." + mod)
        f = getattr(m, name, None)
        if f is None:
            return
        b = kit.bound(f)

        def fac(orig):
            def w(*a, **kw):
                A = b(a, kw)
                if A is not None:
                    self.args[name] = {k: np.array(A[k]) for k in keep if k in A}
                if name == "contrl":
                    self.args[name] = dict(A or {})
                    return None
                r = orig(*a, **kw)
                self.ret.setdefault(name, []).append(r)
                return r

            return w

        self.undo += kit.observe(self.mods, f, fac)

    def remove(self):
        for m, k, o in reversed(self.undo):
            setattr(m, k, o)


def describe(c):
    """the folder in integers"""
    I = kit.I
    return dict(
        na=c["na"], exact=c["exact"], mc=dict(c["mc"], cvt=I(c["mc"]["cvt"], 1000)),
        areas=[dict(name=a["name"], peak=I(a["peak"], 2), fu=I(a["fu"], 10), win=a["win"], forb=a["forb"], lim=a["lim"]) for a in c["areas"]],
        units=[dict(u, cap=[I(x, 2) for x in u["cap"]], dfor=I(u["dfor"], 1e9), fo=I(u["fo"], 1e9), der=I(u["der"], 10)) for u in c["units"]],
        lines=[dict(num=x["num"], fr=x["fr"], to=x["to"], st=[[I(s[0], 10), s[1], s[2], I(s[3], 1e9)] for s in x["st"]]) for x in c["lines"]],
        contracts=[dict(x, mw=I(x["mw"], 2)) for x in c["contracts"]], owned=[dict(name=o["name"], pct=[I(x, 10) for x in o["pct"]]) for o in c["owned"]], nd=len(c["derates"]))


def got(A, c):
    """what the simulation is started with"""
    I, IV, IM = kit.I, kit.IV, kit.IM
    na, nl = c["na"], len(c["lines"])
    jent = np.asarray(A["JENT"])
    intch = np.asarray(A["INTCH"])
    flow = []  # contracts by pair of areas: runs of days with the same power
    for i in range(na):
        for j in range(na):
            k = int(jent[i, j])
            if k < 0:
                continue
            v = IV(intch[k, :365], 2)
            runs, d = [], 0
            while d < 365:
                e = d
                while e + 1 < 365 and v[e + 1] == v[d]:
                    e += 1
                if v[d]:
                    runs.append([d + 1, e + 1, v[d]])
                d = e + 1
            flow.append(dict(fr=i + 1, to=j + 1, runs=runs, days=len(intch[k])))
    bl = np.asarray(A["BLPA"], dtype=float)
    jp = np.asarray(A["JPLOUT"])
    lp = np.asarray(A["LP"])
    sus = np.asarray(A["SUSTAT"])
    bn = np.asarray(A["BN"])
    ev = np.asarray(A["EVNTS"])
    return dict(
        probg=IM(A["PROBG"], 1e9), derate=IV(A["DERATE"], 1000), own=IM(A["CAPOWN"], 1000), loc=[x + 1 for x in IV(A["CAPCON"])],
        rates=IM(A["RATES"], 2), probl=IM(A["PROBL"], 1e9) if nl else [], ends=[[x + 1 for x in IV(r[1:3])] for r in lp],
        adm=IM(bl[:, 0::3], 10), cap=IM(bl[:, 1::3]), capr=IM(bl[:, 2::3]), lineno=[[x + 1 for x in IV(r)] for r in A["LINENO"]],
        flow=flow, qtr=IV(A["QTR"], 2) if "QTR" in A else [], seasons=IV([ev[1], ev[5], ev[9], ev[13]], 2),
        fct=IM(A["FCTERR"], 2000), nf=I(A["NFCST"]), norr=I(A["NORR"]) + 1, lims=IM(bn[:, [3, 4]]), names=[str(x).strip() for x in A["NAMA"]],
        peaks=IV(sus[:na, 0], 2), jp=IM(jp), step=I(A["JSTEP"]), freq=I(A["JFREQ"]), finish=I(A["FINISH"]),
        lstep=I(A["LSTEP"]), nls=I(A["NLS"]), loc1=I(A["KVLOC"]) + 1, stat=I(A["KVSTAT"]), type=I(A["KVTYPE"]), when=I(A["KVWHEN"]),
        where=I(A["KWHERE"]), cvt=I(A["CVTEST"], 1000), inn=I(A["INTV"]), innt=I(A["INTVT"]), ioi=I(A["IOI"]), ioj=I(A["IOJ"]), nr=I(A["NR"]) + 1,
        indx=I(A["INDX"]), g=IV(A["IGSEED"]), ln=IV(A["ILSEED"]), ncrit=I(A["MXCRIT"]))


def folder(tr, rng, mods, opt, n):
    c = cards(rng, **opt)
    path = os.path.join(os.getcwd(), "in%d" % n)
    write(c, path, rng)
    s = Seen(mods)
    dp = "data_processing."
    s.wrap("monte_carlo.contrl", "contrl", [])
    s.wrap(dp + "dpeak", "dpeak", [])
    s.wrap(dp + "wpeakf", "wpeakf", ["DYLOAD"])
    s.wrap(dp + "plhr", "plhr", ["HRLOAD"])
    s.wrap(dp + "smaint", "smaint", ["WPEAK"])
    s.wrap(dp + "resca", "resca", ["MAXDAY"])
    import reliabilityassessment.monte_carlo.narpMain as main

    try:
        with kit.code():
            main.narpMain(path)
    except kit.CodeFailure:
        print("folder", path, describe(c))
        raise
    finally:
        s.remove()
    A = s.args.get("contrl")
    if not A:
        raise kit.CodeFailure("the simulation was not started")
    d = describe(c)
    tr.line(ev="model", c=d, got=got(A, c))
    if d["nd"] and int(A["MXCRIT"]) == 0:
        tr.line(ev="derates", n=d["nd"], used=0, finding="line derating cards are not used")
    elif d["nd"]:
        tr.line(ev="derates", n=d["nd"], used=int(A["MXCRIT"]))
    jp = np.asarray(A["JPLOUT"])
    for i, u in enumerate(d["units"]):
        if u["pa"] == 0 and u["d1"] + u["d2"] > 0:
            weeks = [w + 1 for w in range(len(jp)) if i in jp[w, 1:1 + jp[w, 0]]]
            a = next(x for x in d["areas"] if x["name"] == u["loc"])
            auto = dict(ev="auto", d=u["d1"] + u["d2"], weeks=weeks, win=a["win"], forb=a["forb"])
            given = sorted({w for b, k in ((u["b1"], u["d1"]), (u["b2"], u["d2"])) if b for w in range(b, b + k) if w <= 52})
            if weeks == given:
                auto["finding"] = "automatic maintenance: the unit is out in the weeks given for it, or never"
            tr.line(**auto)
    # loads, peaks, installed capacities
    hr = np.asarray(A["HRLOAD"], dtype=float)
    for a in range(c["na"]):
        x = c["areas"][a]
        tr.line(ev="load", raw=[int(v) for v in x["raw"]], peak=kit.I(x["peak"], 2), got=[kit.I(v, 128, 0.51) for v in hr[a]], n=len(hr))
    s2 = s.args.get("plhr", {}).get("HRLOAD")
    tr.line(ev="withcontracts", c=dict(na=c["na"], areas=d["areas"], contracts=d["contracts"]),
            diff=contract_diff(hr, s2), seen=s2 is not None)
    dy = s.args.get("wpeakf", {}).get("DYLOAD")
    wk = s.args.get("smaint", {}).get("WPEAK")
    md = s.args.get("resca", {}).get("MAXDAY")
    mh = None
    if s.ret.get("dpeak"):
        r = s.ret["dpeak"][0]
        mh, dy = (np.asarray(r[0]), np.asarray(r[1])) if dy is None else (np.asarray(r[0]), dy)
        md = np.asarray(r[2]) if md is None else md
    sus = np.asarray(A["SUSTAT"])
    tr.line(ev="peaks", c=d, load=[[kit.I(v, 128, 0.51) for v in r] for r in hr], exact=c["exact"],
            dy=[] if dy is None else [[kit.I(v, 128, 0.51) for v in r] for r in dy],
            mh=[] if mh is None else [[x + 1 for x in kit.IV(r)] for r in mh],
            wk=[] if wk is None else [[kit.I(v, 128, 0.51) for v in r] for r in wk],
            md=[] if md is None else [x + 1 for x in kit.IV(md)],
            ph=[x + 1 for x in kit.IV(A["MXPLHR"])], inst=kit.IV(sus[: c["na"], 1], 2000))
    tr.traces += 1
    tr.sample(areas=c["na"], units=len(c["units"]), lines=len(c["lines"]), contracts=len(c["contracts"]), exact=c["exact"])


def contract_diff(hr, s2):
    """what the loads were changed by for the search of peaks, by area: runs of hours"""
    if s2 is None or s2.shape != hr.shape:
        return []
    out = []
    for a in range(len(hr)):
        v = [kit.I(x, 2, 1e-4) for x in s2[a] - hr[a]]
        runs, d = [], 0
        while d < len(v):
            e = d
            while e + 1 < len(v) and v[e + 1] == v[d]:
                e += 1
            runs.append([d + 1, e + 1, v[d]])
            d = e + 1
        out.append(runs)
    return out


def tables(tr, rng, n, large=0.05):
    """capacity outage tables of random sets of units"""
    pm = sys.modules["reliabilityassessment.data_processing.pmlolp"].pmlolp
    for _ in range(n):
        den = rng.choice([8, 16, 64])
        k = rng.randrange(1, {8: 8, 16: 7, 64: 6}[den])
        caps = [rng.choice([10, 20, 50, 100, 12, 5, 34.5, 4, 3, 155, 200]) for _ in range(k)]
        full = [rng.choice([0, 1, 1, 2, 3]) for _ in range(k)]
        part = [rng.choice([0, 0, 1, 2]) for _ in range(k)]
        if rng.random() < 0.3:  # units that are hardly ever fully available, or hardly ever not
            den = rng.choice([256, 4096, 65536])
            k = rng.randrange(1, {256: 5, 4096: 4, 65536: 3}[den])
            caps = [rng.choice([20, 50, 100, 34.5, 155]) for _ in range(k)]
            up = [rng.choice([1, 1, 2, 3, 40, den // 2, den - 3]) for _ in range(k)]
            full = [rng.choice([0, 1, (den - u) // 2, den - u]) if u < den - 3 else rng.choice([0, 1, 3]) for u in up]
            part = [den - u - f for u, f in zip(up, full)]
        if rng.random() < large:  # a long table
            den = rng.choice([4, 8])
            k = rng.choice([9, 10, 11])
            caps = [10 * 2**i + 10 * rng.randrange(2) for i in range(k)]
            if rng.random() < 0.5:
                caps = [10 * rng.randrange(20, 300) for _ in range(k)]
            rng.shuffle(caps)
            full = [rng.choice([1, 1, 2]) for _ in range(k)]
            part = [rng.choice([0, 0, 0, 1]) for _ in range(k)]
        der = [rng.choice([0, 25, 50, 75, 100]) for _ in range(k)]
        RD = np.array([[p / den, f / den, x / 100] for p, f, x in zip(part, full, der)])
        with kit.code():
            NGS, KA, PA = pm(np.array(caps, dtype=float), RD, k)
        rows = []
        for i in range(int(NGS)):
            x = float(PA[i]) * float(den) ** k
            r = round(x)
            rows.append([kit.I(KA[i]), limbs(r), 1 if abs(x - r) < 1e-3 * max(1, 1e-6 * float(den) ** k) else 0])
        tr.line(ev="table", den=den, units=[[kit.I(cp, 2), p, f, x] for cp, p, f, x in zip(caps, part, full, der)], rows=rows)
        tr.traces += 1


def limbs(x):
    out = []
    x = int(x)
    if x < 0:
        return [99999]
    while x > 0:
        out.append(x % 10000)
        x //= 10000
    return out


def direct(tr, rng, n):
    """maxima of arrays that need not come from files"""
    dp = {k: getattr(sys.modules["reliabilityassessment.data_processing." + k], k) for k in ("dpeak", "wpeakf", "plhr")}
    npr = np.random.default_rng(rng.randrange(2**31))
    for _ in range(n):
        na = rng.choice([1, 2, 3])
        x = npr.integers(-5 if rng.random() < 0.3 else 0, rng.choice([3, 30, 1000]), (na, HY)).astype(float)
        if rng.random() < 0.3:
            x[:, rng.choice([0, 23, 24, 8735, 8736, 8759])] += 2000
        with kit.code():
            mh, dy, md = dp["dpeak"](x.copy())
            wk = dp["wpeakf"](np.array(dy))
            ph = dp["plhr"](x.copy())
        tr.line(ev="peaks", c=dict(na=na, contracts=[], units=[], owned=[], areas=[]), load=[[kit.I(v, 128) for v in r] for r in x], exact=True,
                dy=[[kit.I(v, 128) for v in r] for r in dy], mh=[[v + 1 for v in kit.IV(r)] for r in mh],
                wk=[[kit.I(v, 128) for v in r] for r in wk], md=[v + 1 for v in kit.IV(md)], ph=[v + 1 for v in kit.IV(ph)], inst=[])
        tr.traces += 1


def run(tr, args, rng):
    mods = kit.load_all()
    n = 0
    for _ in range(args.get("times", 1)):
        for opt in args.get("folders", []):
            folder(tr, rng, mods, opt, n)
            n += 1
    direct(tr, rng, args.get("direct", 0))
    tables(tr, rng, args.get("tables", 0))


kit.main(run)
