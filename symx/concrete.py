"""Run harnesses on the real package with concrete inputs (under /opt/venv).

usage: concrete.py JOBS.json RESULTS.json
JOBS: {"prop": ..., "jobs": [{"case":..., "inputs":...}, ...]}
"""
import importlib
import json
import math
import os
import shutil
import sys
import tempfile
import traceback
from fractions import Fraction

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


class Invalid(BaseException):
    """The inputs do not satisfy the assumptions."""


class Failed(BaseException):
    def __init__(self, msg):
        self.msg = msg


class ConcCtx:
    symbolic = False

    def __init__(self, case, inputs):
        import numpy as np

        self.np = np
        self.case = case
        self.inputs = inputs
        self.obs = []
        self.patched = []
        self.failures = []
        self.known_hits = {}
        self.tmp = None
        self.cwd = os.getcwd()

    def _in(self, name, default):
        v = self.inputs.get(name, default)
        if isinstance(v, dict) and "angle" in v:
            return float(v["angle"])
        if isinstance(v, str):
            f = Fraction(v)
            return f.numerator / f.denominator
        return v

    def real(self, name, lo=None, hi=None, grid=None):
        x = float(self._in(name, lo if lo is not None else 0.0))
        eps = 1e-9 * max(1.0, abs(x))
        if lo is not None and x < float(lo) - eps or hi is not None and x > float(hi) + eps:
            raise Invalid()
        return x

    def int(self, name, lo=None, hi=None):
        x = int(self._in(name, lo if lo is not None else 0))
        if lo is not None and x < lo or hi is not None and x > hi:
            raise Invalid()
        return x

    def bool(self, name):
        return bool(self._in(name, False))

    def angle(self, name):
        return float(self._in(name, 0.0))

    def choose(self, name, n):
        return self.int(name, 0, n - 1)

    def reals(self, name, n, lo=None, hi=None, grid=None):
        return [self.real(f"{name}{i}", lo, hi, grid) for i in range(n)]

    def ints(self, name, n, lo=None, hi=None):
        return [self.int(f"{name}{i}", lo, hi) for i in range(n)]

    def mod(self, name):
        return importlib.import_module("openptv_python." + name)

    def arr(self, v, kind="f"):
        return self.np.array(v, dtype={"f": self.np.float64, "i": self.np.int32, "b": bool, "u": self.np.uint8}[kind])

    def patch(self, module, name, fn):
        self.patched.append((module, name, getattr(module, name)))
        setattr(module, name, fn)

    def stub(self, full, fn):
        mod, name = full.rsplit(".", 1)
        m = importlib.import_module(mod)
        orig = getattr(m, name)
        for k, x in list(sys.modules.items()):
            if k.startswith("openptv_python") and getattr(x, name, None) is orig:
                self.patch(x, name, fn)
        self.patch(m, name, fn)

    def fs(self, *dirs):
        self.tmp = tempfile.mkdtemp(prefix="symx-fs-")
        os.chdir(self.tmp)
        for d in dirs:
            os.makedirs(d, exist_ok=True)
        return self

    def write_file(self, name, content):
        with open(name, "w", encoding="utf-8") as f:
            f.write(content)

    def read_file(self, name):
        try:
            with open(name, encoding="utf-8") as f:
                return f.read()
        except OSError:
            return None

    def files(self):
        r = []
        for d, _, fs in os.walk("."):
            r += [os.path.normpath(os.path.join(d, f)) for f in fs]
        return sorted(r)

    def parse(self, s, kind="f"):
        return int(s) if kind == "i" else float(s)

    def fields(self, line):
        return line.split()

    def fmt(self, template, *args):
        return template % args

    def end(self):
        for m, n, old in reversed(self.patched):
            setattr(m, n, old)
        self.patched = []
        if self.tmp:
            os.chdir(self.cwd)
            shutil.rmtree(self.tmp, ignore_errors=True)
            self.tmp = None

    def assume(self, c):
        if not c:
            raise Invalid()

    @staticmethod
    def and_(*cs):
        return all(bool(c) for c in cs)

    @staticmethod
    def or_(*cs):
        return any(bool(c) for c in cs)

    @staticmethod
    def not_(c):
        return not c

    @staticmethod
    def implies(a, b):
        return (not a) or bool(b)

    @staticmethod
    def ite(c, a, b):
        return a if c else b

    min = staticmethod(lambda *v: min(v))
    max = staticmethod(lambda *v: max(v))

    @staticmethod
    def isnan(x):
        return x != x

    @staticmethod
    def sqrt(x):
        return math.sqrt(x) if x >= 0 else math.nan

    sin = staticmethod(math.sin)
    cos = staticmethod(math.cos)

    def count(self, conds):
        return sum(1 for c in conds if c)

    def decide(self, c):
        return bool(c)

    def observe(self, name, v):
        self.obs.append((name, jsonable(v)))

    def check(self, cond, msg, exact=None, known=None):
        if bool(cond):
            return True
        if known is not None and bool(known[1]):
            self.known_hits[known[0]] = msg
            return True
        raise Failed(msg)

    def close(self, a, b, tol, msg, known=None, rel=None):
        if rel is not None:
            tol = tol * 1e-9 * (1e-9 + float(rel))
        d = float(a) - float(b)
        if math.isnan(d) or math.isinf(d):
            return self.check(a == b or (a != a and b != b), msg, known=known)
        return self.check(abs(d) <= tol, msg, known=known)

    def fail(self, msg, known=None):
        self.check(False, msg, known=known)

    def call(self, fn, *a, **k):
        try:
            return "ok", fn(*a, **k)
        except Exception as e:  # noqa: BLE001
            return "exc", e


def jsonable(v):
    import numpy as np

    if isinstance(v, np.generic):
        v = v.item()
    if isinstance(v, (np.ndarray, list, tuple)):
        return [jsonable(x) for x in v]
    if isinstance(v, (bool, int, float, str)) or v is None:
        return v
    return repr(type(v))


def run_job(hmod, job):
    case = job["case"]
    ctx = ConcCtx(case, job["inputs"])
    try:
        try:
            hmod.run(ctx, **case.get("args", {}))
            return {"outcome": "held", "obs": ctx.obs, "known": ctx.known_hits}
        finally:
            ctx.end()
    except Invalid:
        return {"outcome": "invalid"}
    except Failed as e:
        return {"outcome": "failed", "msg": e.msg, "obs": ctx.obs, "known": ctx.known_hits}
    except Exception as e:  # noqa: BLE001
        if isinstance(e, ModuleNotFoundError) and "openptv" in str(e):
            raise
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{os.path.basename(f.filename)}:{f.lineno} {f.name}" for f in tb][-4:]
        return {"outcome": "raised", "msg": f"raised {type(e).__name__}", "detail": f"{e}", "where": where,
                "obs": ctx.obs, "known": ctx.known_hits}


def main():
    with open(sys.argv[1]) as f:
        spec = json.load(f)
    sys.path.insert(0, spec.get("repo", "/repo"))
    cwd = tempfile.mkdtemp(prefix="symx-cwd-")
    os.chdir(cwd)
    out = sys.stdout
    sys.stdout = open(os.devnull, "w")
    import warnings

    warnings.simplefilter("ignore")
    hmod = importlib.import_module("checks." + spec["module"])
    res = []
    for j in spec["jobs"]:
        res.append(run_job(hmod, j))
        with open(sys.argv[2], "w") as f:
            json.dump(res, f)
    sys.stdout = out
    os.chdir("/")
    shutil.rmtree(cwd, ignore_errors=True)
    import openptv_python

    print(os.path.dirname(openptv_python.__file__))


if __name__ == "__main__":
    main()
