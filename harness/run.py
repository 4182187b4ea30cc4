#!/usr/bin/env python3
"""Run the check of one property: python3 harness/run.py C02 [quick|thorough]

Stages (see checks.py): model checking of specification modules with TLC, then
recording of traces from the real code (drivers, run with the Python that has
the repository's dependencies) and validation of these traces by TLC against
trace specifications.  Exit 0: held on everything explored; exit 1 with a line
VIOLATION property=<id> replay=<path>: broken.  Other exits: machinery failure.
"""
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
VENV_PY = "/opt/venv/bin/python"
VT_PY = "python3-vt"
sys.path.insert(0, HERE)
import checks  # noqa: E402


class MachineryError(Exception):
    pass


def env_for_code(scratch):
    env = dict(os.environ)
    env.update(
        PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
        PYTHONPATH=REPO + os.pathsep + HERE, VERIF_REPO=REPO, VERIF_DIR=VERIF, SCRATCH=scratch,
        PYTHONHASHSEED="0",
    )
    return env


def popen_run(cmd, cwd, env, timeout):
    """run in its own process group; returns (rc or None when timed out, out)"""
    with tempfile.TemporaryFile(dir=cwd) as fo:
        p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=fo, stderr=subprocess.STDOUT, start_new_session=True,
                             stdin=subprocess.DEVNULL)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        fo.seek(0)
        return rc, fo.read().decode("utf-8", "replace")


def tlc(scratch, module, cfg, env_extra=(), workers=1, extra=(), timeout=800, heap="3g"):
    md = tempfile.mkdtemp(prefix="tlc", dir=scratch)
    env = dict(os.environ)
    env.update(env_extra)
    env["JAVA_TOOL_OPTIONS"] = f"-Xmx{heap} -Xss16m -XX:ParallelGCThreads=2"
    cmd = ["tlc", "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE", "-config", os.path.join(SPEC, cfg),
           *extra, os.path.join(SPEC, module + ".tla")]
    rc, out = popen_run(cmd, md, env, timeout)
    shutil.rmtree(md, ignore_errors=True)
    return rc, out


STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")
FAIL = re.compile(r'<<"FAIL", (\d+), "([^"]*)"')


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif-" + prop + "-")
        self.states = self.transitions = self.traces = self.lines = 0
        self.samples, self.details, self.violations, self.known = [], [], [], []
        self.known_file = checks.known_findings()

    # ---- stage 1: model checking
    def model(self, spec):
        cfg = spec["thorough"] if self.tier == "thorough" and spec.get("thorough") else spec["quick"]
        for attempt in (1, 2):
            rc, out = tlc(self.scratch, spec["module"], cfg, workers=spec.get("workers", 4),
                          env_extra=spec.get("env", {}), timeout=spec.get("timeout", 3000), heap=spec.get("heap", "6g"))
            m = STATES.findall(out)
            if "Model checking completed. No error has been found" in out and m:
                break
        else:
            # The specification does not depend on the code: a failure here is a machinery failure
            raise MachineryError(f"TLC on {spec['module']} {cfg}: rc={rc}\n{out[-3000:]}")
        g, d = map(int, m[-1])
        self.states += d
        self.transitions += g
        self.details.append(dict(stage="model", module=spec["module"], cfg=cfg, states=d, generated=g))

    # ---- stage 2: traces
    def behaviours(self, spec):
        """have TLC generate behaviours of the specification, for replay"""
        num = spec["num_thorough"] if self.tier == "thorough" else spec["num"]
        out_file = os.path.join(self.scratch, "beh-" + spec["module"] + ".jsonl")
        rc, out = tlc(self.scratch, spec["module"], spec["cfg"], workers=1, env_extra={"DEPTH": str(spec["depth"])},
                      extra=["-simulate", f"num={num}", "-depth", str(spec["depth"] + 1), "-seed", str(self.seed)])
        beh = sorted({line.split("BEHAVIOUR ", 1)[1].rstrip().rstrip('"').replace('\\"', '"')
                      for line in out.splitlines() if "BEHAVIOUR " in line})
        if not beh:
            raise MachineryError("no behaviours from TLC\n" + out[-2000:])
        most = spec.get("max_thorough", 4000) if self.tier == "thorough" else spec.get("max", 4000)
        if len(beh) > most:
            beh = random.Random(self.seed).sample(beh, most)
        with open(out_file, "w") as f:
            f.write("\n".join(beh) + "\n")
        return out_file

    def drive(self, st, idx):
        """run one driver; returns list of trace files"""
        name = st["driver"]
        out = os.path.join(self.scratch, f"trace-{idx}.ndjson")
        work = os.path.join(self.scratch, f"work-{idx}")
        os.mkdir(work)
        args = dict(st.get("args", {}))
        if self.tier == "thorough":
            args.update(st.get("args_thorough", {}))
        args.setdefault("seed", self.seed * 1000003 + int(self.prop[1:]) * 1009 + idx)
        args["tier"] = self.tier
        args["prop"] = self.prop
        if st.get("behaviours"):
            args["behaviours"] = self.behaviours(st["behaviours"])
        cmd = [VENV_PY, os.path.join(HERE, "drivers", name + ".py"), out, json.dumps(args)]
        limit = st.get("limit_thorough", 5000) if self.tier == "thorough" else st.get("limit", 420)
        rc, txt = popen_run(cmd, work, env_for_code(work), limit)
        if rc is None:
            return dict(st=st, out=out, crash="the code under test did not finish within %d s" % limit, txt=txt, args=args)
        if rc == 3:
            return dict(st=st, out=out, crash="exception in the code under test", txt=txt, args=args)
        if rc != 0:
            raise MachineryError(f"driver {name} rc={rc}\n{txt[-3000:]}")
        return dict(st=st, out=out, crash=None, txt=txt, args=args)

    def certify(self, d):
        if d["st"].get("certify"):
            out2 = d["out"] + ".cert"
            cmd = [VT_PY, os.path.join(HERE, "certify.py"), d["st"]["certify"], d["out"], out2]
            rc, txt = popen_run(cmd, self.scratch, env_for_code(self.scratch), 3000)
            if rc != 0:
                raise MachineryError("certify: " + txt[-3000:])
            d["out"] = out2

    def validate(self, d, idx):
        st = d["st"]
        if d["crash"]:
            self.violation(d, 0, self.prop + ".crash: " + d["crash"], d["txt"][-1500:])
            if not os.path.exists(d["out"]):
                return
        n = sum(1 for _ in open(d["out"]))
        if n == 0:
            if not d["crash"]:
                raise MachineryError("empty trace")
            return
        self.certify(d)
        meta = json.load(open(d["out"].replace(".cert", "") + ".meta")) if os.path.exists(
            d["out"].replace(".cert", "") + ".meta") else {}
        for attempt in (1, 2):
            rc, out = tlc(self.scratch, st["module"], st.get("cfg", "Trace.cfg"), workers=1,
                          env_extra={"TRACE": d["out"]}, timeout=st.get("tlc_timeout", 5000), heap=st.get("heap", "3g"))
            m = STATES.findall(out)
            complete = "Model checking completed. No error has been found" in out and m
            if complete:
                break
            if "Error: " in out and ("evaluat" in out or "Attempted" in out or "overflow" in out.lower()):
                break
        self.lines += n
        self.traces += meta.get("traces", 1)
        lines = None
        fails = sorted({(int(a), b) for a, b in FAIL.findall(out)})
        for ln, clause in fails:
            if not clause.startswith(self.prop + "."):
                continue
            if lines is None:
                lines = open(d["out"]).read().splitlines()
            self.violation(d, ln, clause, lines[ln - 1] if 0 < ln <= len(lines) else "")
        if not complete:
            if "Error: " in out and rc is not None and m:
                # the trace is outside what the specification can even evaluate
                k = len(re.findall(r"^State \d+", out, re.M))
                self.violation(d, k, self.prop + ".trace-not-evaluable", out[-2500:])
            else:
                raise MachineryError(f"TLC on trace {st['module']}: rc={rc}\n{out[-3000:]}")
        else:
            self.states += int(m[-1][1])
            self.transitions += int(m[-1][0])
        self.details.append(dict(stage="traces", driver=st["driver"], module=st["module"], lines=n,
                                 traces=meta.get("traces", 1), **{k: v for k, v in meta.items() if k not in ("traces", "samples")}))
        self.samples += [dict(driver=st["driver"], sample=s) for s in meta.get("samples", [])][:3]

    def violation(self, d, line, clause, what):
        rec = dict(property=self.prop, clause=clause, driver=d["st"]["driver"], args=d["args"], line=line,
                   module=d["st"]["module"], what=what)
        sig = None
        try:
            sig = json.loads(what).get("finding") if what.startswith("{") else None
        except ValueError:
            pass
        for k in self.known_file:
            if k["property"] == self.prop and k["clause"] == clause and sig is not None and k["signature"] == sig:
                self.known.append((k, rec))
                return
        self.violations.append(rec)

    def run(self):
        spec = checks.CHECKS[self.prop]
        jobs = []
        for m in spec.get("models", []):
            jobs.append(lambda m=m: self.model(m))
        stages = list(spec.get("traces", []))
        if self.tier == "thorough":
            stages += spec.get("traces_thorough", [])
        expanded = []
        for st in stages:
            for k in range(st.get("repeat_thorough", st.get("repeat", 1)) if self.tier == "thorough" else st.get("repeat", 1)):
                expanded.append(st)

        def trace_job(st, idx):
            d = self.drive(st, idx)
            self.validate(d, idx)

        for idx, st in enumerate(expanded):
            jobs.append(lambda st=st, idx=idx: trace_job(st, idx))
        with ThreadPoolExecutor(max_workers=spec.get("parallel", 6)) as ex:
            futs = [ex.submit(j) for j in jobs]
            errs = []
            for f in futs:
                try:
                    f.result()
                except MachineryError as e:
                    errs.append(str(e))
        return errs

    def finish(self, errs):
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        shown = set()
        for k, rec in self.known:
            key = (k["clause"], k["signature"])
            if key not in shown:
                shown.add(key)
                print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        ev = dict(
            property=self.prop, tier=self.tier, seed=self.seed, level=checks.CHECKS[self.prop].get("level", "model_checking"),
            coverage=dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                          trace_events=self.lines, stages=self.details,
                          samples=self.samples[:6] or [dict(note="no trace sample")]),
            assumptions=checks.CHECKS[self.prop].get("assumptions", []), wall_s=round(time.time() - self.t0, 2),
            violations=len(self.violations),
        )
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        rc = 0
        if self.violations:
            path = os.path.join(VERIF, "evidence", "replay", f"{self.prop}-{self.tier}-{self.seed}.json")
            with open(path, "w") as f:
                json.dump(self.violations[:200], f, indent=1)
            seen = []
            for v in self.violations:
                if v["clause"] not in seen:
                    seen.append(v["clause"])
                    print(f"  broken: {v['clause']} ({v['driver']}, line {v['line']}): {str(v['what'])[:300]}")
            print(f"VIOLATION property={self.prop} replay={path}")
            rc = 1
        elif errs:
            rc = 2
        for e in errs:
            print("MACHINERY: " + e, file=sys.stderr)
        if rc == 0:
            print(f"OK property={self.prop} states={self.states} traces={self.traces} events={self.lines} "
                  f"wall={time.time() - self.t0:.1f}s")
        return rc


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    c = Check(prop, tier)
    try:
        errs = c.run()
        rc = c.finish(errs)
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", c.scratch)
        else:
            shutil.rmtree(c.scratch, ignore_errors=True)
    sys.exit(rc)


if __name__ == "__main__":
    main()
