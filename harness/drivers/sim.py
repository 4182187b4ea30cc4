"""Whole simulations through narpMain(), recorded event by event.

args: systems (list of option dicts, or a number with common options), each run
once; option again=True: the first system is run again at the end (and once in
a fresh process); option resume=True: every snapshot is continued in a fresh
process."""
import json
import os
import pickle
import random
import re
import shutil
import subprocess
import sys

import gen
import kit
import numpy as np

STATS = [(s, c, w, "%s%s%s" % (dict(L="LOL", M="MGN")[s], c, w)) for s in "LM" for c in "GT" for w in "HP"]
NB = 10000


def limbs(x):
    """natural number as limbs of base 10000"""
    out = []
    x = int(x)
    while x > 0:
        out.append(x % NB)
        x //= NB
    return out


def slimbs(x, k=1):
    """signed rounded x*k in limbs; NaN and the like become sign 9"""
    try:
        y = float(x) * k
        if not np.isfinite(y):
            return [9, []]
        r = int(round(y))
    except (TypeError, ValueError):
        return [9, []]
    return [0 if r == 0 else (1 if r > 0 else -1), limbs(abs(r))]


def walk(EVNTS, ip):
    out = []
    ip = int(ip)
    while ip != -1 and len(out) < 40 and 0 <= ip < len(EVNTS) - 2:
        out.append([kit.I(EVNTS[ip + 1], 2), kit.I(EVNTS[ip + 2])])
        ip = int(EVNTS[ip])
    return out


def mats(A, na, nf):
    """the annual counts: for each of eight statistics rows of areas and the pool"""
    d = {}
    for s, c, w, nm in STATS:
        d[s + c + w] = [kit.IV(np.asarray(A[nm + "A"])[a, :nf]) for a in range(na)] + [kit.IV(np.asarray(A[nm + "P"])[:nf])]
    return d


class Recorder:
    def __init__(self, tr, mods, outdir):
        self.tr, self.mods, self.outdir = tr, mods, outdir
        self.undo, self.cur, self.reports, self.snaps = [], None, 0, {}
        self.seen = set()
        self.start_args = None
        self.sums = []
        self.index = []  # running sum of the index of the convergence test
        self.in_event, self.text_outside_events, self.report_text = False, None, None

    def wrap(self, modname, fname, factory):
        m = sys.modules.get("reliabilityassessment." + modname)
        f = getattr(m, fname, None) if m else None
        if f is None:
            return
        b = kit.bound(f)

        def fac(orig):
            def w(*a, **kw):
                return factory(orig, b, a, kw)

            return w

        self.undo += kit.observe(self.mods, f, fac)

    def install(self):
        mc = "monte_carlo."
        self.wrap(mc + "contrl", "contrl", self.w_contrl)
        self.wrap(mc + "events", "events", self.w_events)
        self.wrap(mc + "gstate", "gstate", self.w_gstate)
        self.wrap(mc + "lstate", "lstate", self.w_lstate)
        self.wrap(mc + "sumcap", "sumcap", self.w_sumcap)
        self.wrap(mc + "findtn", "findtn", self.w_findtn)
        self.wrap(mc + "findld", "findld", self.w_findld)
        self.wrap(mc + "transm", "transm", self.w_transm)
        self.wrap(mc + "report", "report", self.w_report)
        self.wrap(mc + "cvchk", "cvchk", self.w_cvchk)

    def remove(self):
        for m, k, o in reversed(self.undo):
            setattr(m, k, o)
        self.undo = []

    def end(self, crashed):
        """the last line of a run, with the report when no event produced it"""
        d = self.desc
        late = self.text_outside_events
        self.tr.line(ev="end", reports=self.reports, crashed=crashed,
                     report=[parse_report(late, d["na"], d["nf"], d["cal"]["step"])] if late else [])

    # ---- observers
    def w_contrl(self, f, b, a, kw):
        A = b(a, kw)
        if A is not None and self.start_args is None:
            self.start_args = pickle.dumps(dict(A))
        self.inputs(A, "start")
        r = f(*a, **kw)
        self.inputs(A, "end")
        return r

    INPUTS = ["QTR", "RATES", "JPLOUT", "MXPLHR", "PROBG", "DERATE", "CAPOWN", "CAPCON", "PROBL", "JENT", "INTCH", "HRLOAD",
              "FCTERR", "LINENO", "LP", "BLPA"]

    def inputs(self, A, when):
        d = {}
        for k in self.INPUTS:
            if A is not None and k in A:
                d[k] = int(np.int64(abs(hash(np.ascontiguousarray(A[k]).tobytes())) % 1000003))
        if A is not None and "BN" in A:
            d["LIMITS"] = int(abs(hash(np.ascontiguousarray(np.asarray(A["BN"])[:, [0, 3, 4]]).tobytes())) % 1000003)
        sus = []
        if when == "start" and A is not None and "SUSTAT" in A:
            sus = kit.IM(np.asarray(A["SUSTAT"])[:-1, :2], 1024)
        self.tr.line(ev="inputs", when=when, d=d, sus=sus)

    def w_gstate(self, f, b, a, kw):
        r = f(*a, **kw)
        if self.cur is not None:
            self.cur["nd"] = max(0, self.cur["nd"]) + 1
            try:
                self.cur["q"] = kit.IV(r[0], 4)
            except Exception:
                pass
        self.seen.add("gstate")
        return r

    def w_lstate(self, f, b, a, kw):
        r = f(*a, **kw)
        if self.cur is not None:
            self.cur["st"] = kit.IV(r)
        self.seen.add("lstate")
        return r

    def w_sumcap(self, f, b, a, kw):
        r = f(*a, **kw)
        if self.cur is not None:
            try:
                self.cur["own"], self.cur["loc"], self.cur["tj"] = (kit.IV(r[k], 1024) for k in (1, 2, 3))
            except Exception:
                pass
        return r

    def w_findtn(self, f, b, a, kw):
        r = f(*a, **kw)
        if self.cur is not None:
            self.cur["tr"] = kit.IV(r, 1024)
        return r

    def w_findld(self, f, b, a, kw):
        r = f(*a, **kw)
        if self.cur is not None and np.shape(r) == (self.na,):
            self.cur["ld"].append(kit.IV(r, 1024))
        return r

    def w_transm(self, f, b, a, kw):
        A = b(a, kw)
        s = dict(cap=kit.IV(A["SYSCON"], 1024), load=kit.IV(A["CAPREQ"], 1024), tr=kit.IV(A["TRNSFR"], 1024),
                 tj=kit.IV(A["TRNSFJ"], 1024), st=kit.IV(A["LNSTAT"]), nls=kit.I(A["NLS"]))
        r = f(*a, **kw)
        s["jf"] = kit.I(r[0])
        s["m"] = [int(-x) if np.isfinite(x) else kit.NA for x in r[2]]
        if self.cur is not None:
            self.cur["studies"].append(s)
        return r

    def w_cvchk(self, f, b, a, kw):
        A = b(a, kw)
        if A is not None and "SUM" in A:
            self.sums.append(slimbs(A["SUM"], 10000 if self.desc["kv"]["type"] == 1 else 1))
        return f(*a, **kw)

    def w_report(self, f, b, a, kw):
        A = b(a, kw)
        self.reports += 1
        try:
            n0 = os.path.getsize("output.txt")
        except OSError:
            n0 = 0
        r = f(*a, **kw)
        with open("output.txt") as g:
            g.seek(n0)
            self.report_text = g.read()
        if not self.in_event:
            self.text_outside_events = self.report_text
        return r

    def w_events(self, f, b, a, kw):
        A = b(a, kw)
        if A is None:
            raise kit.CodeFailure("events() has other arguments")
        if self.outdir.get("crash") and len(self.snaps) >= self.outdir["crash"]:
            raise KeyboardInterrupt
        k = kit.I(A["NUMBER"])
        na, nf = len(A["HRLOAD"]), int(A["NFCST"])
        self.in_event = True
        rec = dict(ev="ev", k=k, t=kit.I(A["CLOCK"], 2), list=walk(A["EVNTS"], A["IPOINT"]))
        self.na, self.nf = na, nf
        if k == 1:
            rec.update(plnd=kit.IV(A["PLNDST"]), rating=kit.IV(A["RATING"]), nd=0,
                       q=[], st=[], own=[], loc=[], tj=[], tr=[], ld=[], studies=[])
            before = {nm + s: np.array(A[nm + s]) for _, _, _, nm in STATS for s in "AP"}
            self.cur = rec
            r = f(*a, **kw)
            self.cur = None
            diff = []
            for s, c, w, nm in STATS:
                d = np.asarray(A[nm + "A"]) - before[nm + "A"]
                for i, n in zip(*np.nonzero(d)):
                    diff.append([s, c, w, int(n) + 1, int(i) + 1, kit.I(d[i, n])])
                d = np.asarray(A[nm + "P"]) - before[nm + "P"]
                for n in np.nonzero(d)[0]:
                    diff.append([s, c, w, int(n) + 1, na + 1, kit.I(d[n])])
            rec["diff"] = diff
            nu, nl = len(A["PROBG"]), len(A["LP"])
            rec["g"], rec["ln"] = [int(x) for x in A["IGSEED"][:nu]], [int(x) for x in A["ILSEED"][:nl]]
            if "gstate" not in self.seen:
                rec["nd"] = -1
        elif k == 2:
            r = f(*a, **kw)
            rec["plnd"] = kit.IV(A["PLNDST"])
        elif k == 3:
            r = f(*a, **kw)
            rec["rating"] = kit.IV(A["RATING"])
        else:
            rec["before"] = mats(A, na, nf)
            rec["carry"] = [slimbs(A.get(x), 10**9) for x in ("SSQ", "XLAST")]
            if os.path.exists("DUMP.pkl"):
                os.unlink("DUMP.pkl")
            self.report_text, nrep = None, self.reports
            try:
                n0 = os.path.getsize("output.txt")
            except OSError:
                n0 = 0
            self.sums = []
            r = f(*a, **kw)
            y = int((float(A["CLOCK"]) + 1) / 8760)
            if os.path.exists("DUMP.pkl"):
                rec["snap"] = True
                p = os.path.join(os.getcwd(), "snap-%d.pkl" % y)
                os.replace("DUMP.pkl", p)
                self.snaps[y] = p
            else:
                rec["snap"] = False
            rec["left"] = max(kit.I(np.abs(np.asarray(A[nm + s])).max()) for _, _, _, nm in STATS for s in "AP")
            tot, wt = {}, {}
            for s in "LM":
                for c in "GTS":
                    for w in "HP":
                        o = dict(L="SOL", M="SGN")[s] + c + w
                        tot[s + c + w] = [[slimbs(x) for x in np.asarray(A[o + "A"])[i, :nf]] for i in range(na)] + [
                            [slimbs(x) for x in np.asarray(A[o + "P"])[:nf]]]
                        o = dict(L="SWL", M="SWN")[s] + c + w
                        wt[s + c + w] = [slimbs(x, 10000) for x in np.asarray(A[o + "A"])] + [slimbs(A[o + "P"], 10000)]
            rec["tot"], rec["wt"] = tot, wt
            m = self.desc["kv"]
            o = ("SW" + "LN"[m["stat"] - 1] if m["type"] == 1 else "SO" + "L" if m["stat"] == 1 else "SG" + "N") + "S" + "HP"[m["when"] - 1]
            v = np.asarray(A[o + "A"])[m["loc"] - 1] if m["where"] == 1 else np.asarray(A[o + "P"])
            self.index.append(float(v if m["type"] == 1 else v[nf // 2]))
            rec["hist"] = {n: kit.IM(A[m]) for n, m in (("HL", "HLOLE"), ("DP", "DPLOLE"), ("EU", "EUES"))}
            rec["sq"] = [[slimbs(x, 10**8) for x in row[:3]] for row in np.asarray(A["XNEWA"])] + [
                [slimbs(x, 10**8) for x in np.asarray(A["XNEWP"])[:3]]]
            rec["reports"] = self.reports - nrep
            rec["sums"] = self.sums
            rec["y"] = self.last_year = y
            self.sust = None
            with open("output.txt") as g:
                g.seek(n0)
                text = g.read()
            if self.report_text:
                rec["report"] = [parse_report(self.report_text, na, nf, int(self.desc["cal"]["step"]))]
                text = text.replace(self.report_text, "")
            else:
                rec["report"] = []
            rec["table"] = parse_annual(text, na, nf, int(self.desc["cal"]["step"])) if self.desc["ij"] else []
        self.tr.line(**rec)
        self.in_event = False
        return r


CLS = {"GC": 1, "TC": 2, "GT": 3}
INF = 2000000012


def cell(x, k):
    """a printed number, times k, as an integer"""
    try:
        return kit.I(float(x), k, 1e-4)
    except ValueError:
        return kit.NA


def rows_of(text, step, where):
    """rows of a table of results: [area (0: pool), level (0: weighted), class, values..]"""
    out = []
    toks = text.split()
    # rows end with a class mark; collect the tokens before it
    buf = []
    for t in toks:
        if t in CLS:
            buf.append(t)
            out.append(buf)
            buf = []
        else:
            buf.append(t)
    return out


def parse_rows(area_text, pool_text, na, nf, step):
    """[[area or 0, level or 0, class, numbers x1000...]]"""
    nv = 5 if step != 24 else 2
    rows = []
    for txt, pool in ((area_text, False), (pool_text, True)):
        for b in rows_of(txt, step, pool):
            need = nv + (1 if pool else 2)
            v = b[-1 - nv:-1]
            head = b[-1 - need:-1 - nv]
            if len(head) != need - nv or len(v) != nv:
                rows.append([99, 99, 99] + [kit.NA] * nv)
                continue
            lv = head[-1]
            try:
                area = 0 if pool else int(head[0])
                level = 0 if lv == "AV" else int(lv)
            except ValueError:
                area = level = 99
            rows.append([area, level, CLS[b[-1]]] + [cell(x, 1000) for x in v])
    return rows


def parse_annual(text, na, nf, step):
    i = text.find("RESULTS AFTER")
    if i < 0:
        return []
    j = text.find("POOL STATISTICS", i)
    body = text[i:j]
    k = body.find("(DAYS/YR)")
    body = body[k:]
    body = body[body.find("\n"):]
    body = re.sub(r"^\s*MW\s*$", "", body, flags=re.M)
    pool = text[j + len("POOL STATISTICS"):]
    # pool rows are printed without line breaks between them
    return parse_rows(body, pool, na, nf, step)


def parse_report(text, na, nf, step):
    d = {}
    m = re.search(r"FINAL RESULTS AFTER (-?\d+) REPLICATIONS", text)
    d["years"] = int(m.group(1)) if m else -1
    j = text.find("POOL STATISTICS")
    s = text.find("SUMMARY OF RESULTS")
    body = text[:j]
    k = body.find("(DAYS/YR)")
    body = body[k:]
    body = body[body.find("\n"):]
    pool = text[j + len("POOL STATISTICS"): s]
    pool = pool[: pool.rfind("TABLE")]
    d["rows"] = parse_rows(body, pool, na, nf, step)
    # summary
    e = text.find("TABLE", s)
    summ = text[s:e if e > 0 else None]
    d["sum"] = []
    for ln in summ.splitlines():
        t = ln.split()
        if len(t) < 6 or "PCT" in t or "PEAK" in t or t[0].startswith("-"):
            continue
        d["sum"].append(dict(name=t[0], v=[cell(x, 1000) for x in t[1:]]))
    d["dist"] = []
    for blk in re.split(r"PROBABILITY DISTRIBUTIONS FOR AREA", text)[1:]:
        rws = []
        for ln in blk.splitlines():
            t = ln.split()
            if len(t) == 8:
                try:
                    float(t[0])
                except ValueError:
                    continue
                rws.append([cell(x, 1 if n in (0, 1, 3, 5, 6) else 10000) for n, x in enumerate(t)])
        d["dist"].append(dict(area=int(blk.split()[0]), rows=rws))
    d["text"] = int(abs(hash(re.sub(r"TABLE\s+\d+", "TABLE", text))) % 1000003)
    return d


def run_one(tr, mods, s, folder, same=0, crash=0):
    """one simulation of system s; returns the recorder and the number of its cfg line"""
    from reliabilityassessment.monte_carlo.narpMain import narpMain

    desc = gen.describe(s)
    tr.traces += 1
    tr.line(ev="cfg", same=same, crash=crash, **desc)
    first = tr.n
    rec = Recorder(tr, mods, dict(crash=crash))
    rec.desc = desc
    rec.install()
    crashed = False
    try:
        with kit.code():
            import importlib

            importlib.import_module("reliabilityassessment.monte_carlo.narpMain").narpMain(folder)
    except kit.CodeFailure as e:
        if crash and isinstance(e.__cause__, KeyboardInterrupt):
            crashed = True
        else:
            raise
    finally:
        rec.remove()
    rec.end(crashed)
    return rec, first


def settle(mods, s, rng):
    """a convergence test which this system meets for the first time late in the run, if there is one"""
    m = s["mc"]
    m["cvt"] = 0.00001
    d = os.path.join(os.getcwd(), "probe")
    os.mkdir(d)
    gen.write(s, d)
    tr = kit.Trace(os.path.join(os.getcwd(), "probe.ndjson"))
    rec, _ = run_one(tr, mods, s, d)
    tr.close()
    for p in rec.snaps.values():
        os.unlink(p)
    shutil.rmtree(d)
    for fn in ("output.txt", "extra.txt", "traout.txt ", "probe.ndjson", "probe.ndjson.meta"):
        if os.path.exists(fn):
            os.unlink(fn)
    xs = np.diff([0] + rec.index)
    least, found = 1e9, []
    for n in range(5, len(xs) + 1):
        ratio = np.std(xs[:n]) / max(1e-9, abs(np.mean(xs[:n]))) / n**0.5
        if n > 5 and ratio < least:
            found.append(round((ratio + least) / 2, 5))
        least = min(least, ratio)
    m["cvt"] = rng.choice(found[:-1] or found or [0.05])
    return bool(found)


def resume_args(start, snap):
    import importlib

    rs = importlib.import_module("reliabilityassessment.monte_carlo.rstart").rstart
    A = pickle.loads(start)
    with kit.code():
        data = rs(snap)
    for k, v in data.items():
        if k in A and k != "ATRIB":
            A[k] = v
    A["ATRIB"] = np.zeros(2)
    A["JHOUR"] = 8759
    A["IQ"] = -1
    return A


def run_resumed(tr, mods, desc, start, snap, year):
    """continue from a snapshot, as rstart() tells to: every saved variable replaces the initial one"""
    import importlib

    A = resume_args(start, snap)
    tr.traces += 1
    tr.line(ev="resume", y=year)
    rec = Recorder(tr, mods, {})
    rec.desc = desc
    rec.start_args = start
    rec.install()
    try:
        with kit.code():
            kit.call(importlib.import_module("reliabilityassessment.monte_carlo.contrl").contrl, A)
    finally:
        rec.remove()
    rec.end(False)
    return rec


IGNORED = ("output.txt", "extra.txt", "traout.txt", "child")


def arm(plan):
    """make this process die at the chosen point of the current save"""
    import resource
    import signal

    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if "bytes" in plan:
        signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
        resource.setrlimit(resource.RLIMIT_FSIZE, (plan["bytes"], plan["bytes"]))
        return lambda: None
    state = dict(n=0, on=True)
    cwd = os.getcwd()

    def hook(event, a):
        if not state["on"] or not event.startswith(("open", "os.", "shutil.")):
            return
        paths = [x for x in a if isinstance(x, str) and len(x) > 1]
        if not any((not os.path.isabs(x) or x.startswith(cwd)) and not os.path.basename(x).startswith(IGNORED) for x in paths):
            return
        if state["n"] == plan["call"]:
            os._exit(41)
        state["n"] += 1

    sys.addaudithook(hook)

    def done():
        state["on"] = False
        return state["n"]

    return done


def crash_run(mods, start, snap, plan):
    """continue from a snapshot and die at the chosen point of the next save, or at an event"""
    import importlib

    ev = importlib.import_module("reliabilityassessment.monte_carlo.events").events
    b = kit.bound(ev)
    seen = dict(n=0)

    def fac(orig):
        def w(*a, **kw):
            A = b(a, kw)
            if seen["n"] == plan.get("event"):
                os._exit(41)
            seen["n"] += 1
            if int(A["NUMBER"]) == 4 and "event" not in plan:
                done = arm(plan)
                orig(*a, **kw)
                n = done()
                with open("child.calls", "w") as f:
                    f.write(str(n))
                os._exit(42)
            return orig(*a, **kw)

        return w

    kit.observe(mods, ev, fac)
    A = resume_args(start, "DUMP.pkl")
    with kit.code():
        kit.call(importlib.import_module("reliabilityassessment.monte_carlo.contrl").contrl, A)
    os._exit(43)


def same_snapshot(a, b):
    def canon(p):
        with open(p, "rb") as f:
            d = pickle.load(f)
        return pickle.dumps({k: (np.asarray(v).tolist(), np.asarray(v).dtype.kind) for k, v in sorted(d.items())})

    try:
        return canon(a) == canon(b)
    except Exception:
        return False


def crashes(tr, rng, rec, number):
    """interrupt saves: what is found afterwards"""
    years = sorted(rec.snaps)
    if len(years) < 2:
        return

    def one(prev, y, plan):
        d = os.path.join(os.getcwd(), "crash")
        os.mkdir(d)
        shutil.copy(rec.snaps[prev], os.path.join(d, "DUMP.pkl"))
        req = os.path.join(os.getcwd(), "child.pkl")
        with open(req, "wb") as f:
            pickle.dump(dict(mode="crash", start=rec.start_args, snap=None, plan=plan), f)
        p = subprocess.run([sys.executable, os.path.abspath(__file__), os.path.join(d, "child.out"),
                            json.dumps(dict(seed=0, request=req))], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        n = None
        if os.path.exists(os.path.join(d, "child.calls")):
            n = int(open(os.path.join(d, "child.calls")).read().replace("None", "-1") or -1)
        if p.returncode not in (41, 42, 43, -25):
            if p.returncode == 3 and "bytes" in plan:
                pass  # the code met the full disk itself
            elif p.returncode == 3:
                raise kit.CodeFailure("resumed run: " + p.stdout.decode()[-1500:])
            else:
                raise RuntimeError(p.stdout.decode()[-1500:])
        found = 0
        if os.path.exists(os.path.join(d, "DUMP.pkl")):
            found = -1
            for k in years:
                if same_snapshot(os.path.join(d, "DUMP.pkl"), rec.snaps[k]):
                    found = k
        shutil.rmtree(d)
        tr.line(ev="crash", prev=prev, y=y, found=found, plan=" ".join("%s=%s" % x for x in plan.items()), died=p.returncode == 41 or p.returncode == -25)
        return n

    for prev, y in list(zip(years, years[1:]))[-1:]:
        n = one(prev, y, dict(call=10**6))
        if n is None:
            raise kit.CodeFailure("a resumed run did not reach its next year-end")
        for k in range(n):
            one(prev, y, dict(call=k))
        size = os.path.getsize(rec.snaps[y])
        for k in range(number):
            one(prev, y, dict(bytes=rng.choice([0, 1, size // 2, size - 1, rng.randrange(size)])))
        one(prev, y, dict(event=rng.randrange(5, 300)))


def child(mode, tr, **kw):
    """run part of a trace in a fresh process and append its lines"""
    req = os.path.join(os.getcwd(), "child.pkl")
    out = os.path.join(os.getcwd(), "child.ndjson")
    d = os.path.join(os.getcwd(), "child-%d" % tr.n)
    os.mkdir(d)
    with open(req, "wb") as f:
        pickle.dump(dict(mode=mode, **kw), f)
    p = subprocess.run([sys.executable, os.path.abspath(__file__), out, json.dumps(dict(seed=0, request=req))], cwd=d,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    for ln in open(out):
        tr.f.write(ln)
        tr.n += 1
    shutil.rmtree(d)
    if p.returncode == 3:
        raise kit.CodeFailure("in a fresh process: " + p.stdout.decode()[-1500:])
    if p.returncode != 0:
        raise RuntimeError(p.stdout.decode()[-1500:])


def run(tr, args, rng):
    mods = kit.load_all()
    if "request" in args:
        req = pickle.load(open(args["request"], "rb"))
        if req["mode"] == "sim":
            run_one(tr, mods, req["s"], req["folder"], same=req["same"])
        elif req["mode"] == "crash":
            crash_run(mods, req["start"], req["snap"], req["plan"])
        else:
            run_resumed(tr, mods, req["desc"], req["start"], req["snap"], req["year"])
        return
    opts = args["systems"]
    for rep in range(args.get("times", 1)):
        kept = []
        for k, o in enumerate(opts):
            o = dict(o)
            s = gen.system(rng, **o)
            for _ in range(3 if o.get("settle") else 0):
                if settle(mods, s, rng):
                    break
                s = gen.system(rng, **o)
            folder = os.path.join(os.getcwd(), "in-%d-%d" % (rep, k))
            gen.write(s, folder)
            rec, first = run_one(tr, mods, s, folder, crash=o.get("crash", 0))
            n = tr.n - first + 1
            tr.sample(system=dict(areas=s["na"], units=len(s["units"]), lines=len(s["lines"]), contracts=len(s["contracts"]), **s["mc"]))
            kept.append((s, folder, first, n))
            if o.get("resume"):
                for y, p in sorted(rec.snaps.items()):
                    if y == rec.last_year < s["mc"]["fin"]:
                        continue  # the run had converged
                    child("resume", tr, desc=rec.desc, start=rec.start_args, snap=p, year=y)
            if o.get("crashes"):
                crashes(tr, rng, rec, o["crashes"])
            if o.get("again"):
                other = gen.sibling(rng, s) if rng.random() < 0.7 else gen.system(rng, **{**o, "years": 1})
                f2 = folder + "-o"
                gen.write(other, f2)
                _, second = run_one(tr, mods, other, f2)
                run_one(tr, mods, s, folder, same=tr.n + 1 - first)
                child("sim", tr, s=s, folder=folder, same=tr.n + 1 - first)
                child("sim", tr, s=other, folder=f2, same=tr.n + 1 - second)
            for p in rec.snaps.values():
                os.unlink(p)
            shutil.rmtree(folder)
            for fn in ("output.txt", "extra.txt", "traout.txt "):
                if os.path.exists(fn):
                    os.unlink(fn)


if __name__ == "__main__":
    kit.main(run)
