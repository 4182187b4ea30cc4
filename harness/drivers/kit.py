"""What all drivers share: writing traces, observing functions of the package,
guarding against exceptions of the code under test (exit code 3)."""
import contextlib
import functools
import importlib
import inspect
import io
import json
import os
import pkgutil
import random
import sys
import traceback

sys.dont_write_bytecode = True
import warnings

warnings.simplefilter("ignore")
import numpy as np

PKG = "reliabilityassessment"


def load_all():
    """import every module of the package except tests"""
    mods = []
    pkg = importlib.import_module(PKG)
    assert os.path.abspath(pkg.__file__).startswith(os.path.abspath(os.environ["VERIF_REPO"])), pkg.__file__
    for m in pkgutil.walk_packages(pkg.__path__, PKG + "."):
        if ".tests" in m.name or "integration_test" in m.name:
            continue
        mods.append(importlib.import_module(m.name))
    return mods


class CodeFailure(Exception):
    pass


class Trace:
    def __init__(self, path):
        self.path, self.f, self.n, self.traces = path, open(path, "w"), 0, 0
        self.samples, self.extra = [], {}

    def line(self, **kw):
        self.f.write(json.dumps(kw, default=conv) + "\n")
        self.n += 1

    def sample(self, **kw):
        if len(self.samples) < 3:
            self.samples.append(json.loads(json.dumps(kw, default=conv)))

    def close(self):
        self.f.close()
        with open(self.path + ".meta", "w") as f:
            json.dump(dict(traces=self.traces, samples=self.samples, **self.extra), f)


def conv(o):
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.bool_):
        return bool(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, np.floating):
        return float(o)
    raise TypeError(type(o))


NA = 2000000011  # stands for a number that is not the integer it should be


def I(x, k=1, tol=1e-6):
    """x times k as an integer; NA when it is not one or does not fit"""
    try:
        y = float(x) * k
    except (TypeError, ValueError):
        return NA
    if not np.isfinite(y):
        return NA
    r = round(y)
    if abs(y - r) > tol * max(1.0, abs(y) * 1e-3) or abs(r) >= 2000000000:
        return NA
    return int(r)


def IV(v, k=1, tol=1e-6):
    return [I(x, k, tol) for x in np.asarray(v).ravel()]


def IM(m, k=1, tol=1e-6):
    return [IV(r, k, tol) for r in np.asarray(m)]


def observe(mods, orig, wrapper_factory):
    """replace a function object wherever a module of the package holds it"""
    w = functools.update_wrapper(wrapper_factory(orig), orig)
    undo = []
    for m in mods:
        for k, v in list(vars(m).items()):
            if v is orig:
                setattr(m, k, w)
                undo.append((m, k, orig))
    return undo


with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "params.json")) as _f:
    PARAMS = json.load(_f)


def bound(orig):
    """the arguments of a call by name; parameters that were renamed are found by their place"""
    sig = inspect.signature(orig)
    now = list(sig.parameters)
    was = PARAMS.get(getattr(orig, "__name__", ""), now)
    also = {n: o for n, o in zip(now, was) if o not in now} if len(now) == len(was) else {}

    def names(a, kw):
        try:
            b = sig.bind(*a, **kw)
        except TypeError:
            return None
        b.apply_defaults()
        d = dict(b.arguments)
        for n, o in also.items():
            if n in d:
                d[o] = d[n]
        return d

    return names


def call(f, A):
    """call with arguments named as they were, whatever the parameters are called now"""
    now = list(inspect.signature(f).parameters)
    was = PARAMS.get(getattr(f, "__name__", ""), now)
    if len(was) != len(now):
        was = now
    return f(**{n: A[o] if o in A else A[n] for n, o in zip(now, was)})


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def main(fn):
    out, args = sys.argv[1], json.loads(sys.argv[2])
    tr = Trace(out)
    random.seed(args["seed"])
    np.random.seed(args["seed"] % (2**32))
    rc = 0
    try:
        fn(tr, args, random.Random(args["seed"]))
    except CodeFailure as e:
        print("code under test:", e)
        traceback.print_exc(file=sys.stdout)
        rc = 3
    tr.close()
    sys.stdout.flush()
    os._exit(rc)


@contextlib.contextmanager
def code():
    """exceptions inside are failures of the code under test"""
    try:
        with quiet():
            yield
    except CodeFailure:
        raise
    except BaseException as e:  # SystemExit included
        raise CodeFailure(repr(e)) from e
