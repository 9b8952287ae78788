"""The interface a harness sees, in its symbolic form."""
import math
import sys
from fractions import Fraction

import z3

from . import core, loader, npshim, shims, text
from .core import SymBool, SymNum

WORLD = {}


def world(key, overrides, merge):
    if key not in WORLD:
        WORLD[key] = loader.World(overrides, merge)
    return WORLD[key]


class CaseStop(BaseException):
    pass


class SymCtx:
    symbolic = True

    def __init__(self, eng, case, hmod):
        self.eng = eng
        self.case = case
        cfg = getattr(hmod, "CONFIG", {})
        ov = dict(cfg.get("overrides", {}))
        ov.update(case.get("overrides", {}))
        merge = tuple(case.get("merge", cfg.get("merge", ())))
        self.w = world(repr((sorted(ov.items()), merge)), ov, merge)
        self.np = npshim.SHIM
        self.violations = []
        self.inconclusive = []
        self.known_hits = {}
        self.samples = []
        self.max_samples = case.get("samples", 4)
        self.reached = 0
        self.patched = []
        self.obs = []
        self.outcomes = {}

    # ------------------------------------------------------------ path lifecycle
    def begin(self):
        self.obs = []
        self.patched = []
        shims.VFS.clear()
        shims.DIRS.clear()
        shims.FS_ON[0] = False
        shims.OPENED.clear()

    def end(self):
        for m, n, old in reversed(self.patched):
            setattr(m, n, old)
        self.patched = []
        shims.FS_ON[0] = False

    def sample(self):
        if len(self.samples) >= self.max_samples and self.eng.st.paths % 97:
            return
        if len(self.samples) >= 3 * self.max_samples:
            return
        m = self.eng.path_model()
        if m is None:
            return
        vals = self.eng.nice_models(z3.BoolVal(True), m, grid=(4, 64), budget=1.0)[0]
        # evaluate observations under exactly these inputs
        s = self.eng.solver
        s.push()
        try:
            for n, x in self.eng.inputs.items():
                if isinstance(x, SymNum):
                    s.add(x.e == core.zval(vals[n]))
                elif isinstance(x, SymBool):
                    s.add(x.e == vals[n])
            late = self.eng.needed(*[t for _, v in self.obs for t in obs_terms(v)])
            s.add(*late)
            if late or not any(isinstance(x, tuple) for x in self.eng.inputs.values()):
                if s.check() != z3.sat:
                    return
                m = s.model()
            obs = [(n, obs_value(m, v)) for n, v in self.obs]
        finally:
            s.pop()
        self.samples.append({"inputs": vals, "obs": obs})

    # -------------------------------------------------------------------- inputs
    def _reg(self, name, x):
        if name in self.eng.inputs:
            raise core.EngineError("duplicate input " + name)
        self.eng.inputs[name] = x
        return x

    def real(self, name, lo=None, hi=None, grid=None):
        if grid:
            k = SymNum(z3.Int("in_" + name), True)
            x = SymNum(z3.ToReal(k.e) / grid, False)
            self._reg(name, x)
        else:
            x = self._reg(name, SymNum(z3.Real("in_" + name), False))
        if lo is not None:
            self.eng.assume(x >= lo)
        if hi is not None:
            self.eng.assume(x <= hi)
        return x

    def int(self, name, lo=None, hi=None):
        x = self._reg(name, SymNum(z3.Int("in_" + name), True))
        if lo is not None:
            self.eng.assume(x >= lo)
        if hi is not None:
            self.eng.assume(x <= hi)
        return x

    def bool(self, name):
        return self._reg(name, SymBool(z3.Bool("in_" + name)))

    def angle(self, name):
        """An arbitrary angle, known through its sine and cosine."""
        s = z3.Real("in_sin_" + name)
        c = z3.Real("in_cos_" + name)
        self.eng.define(s * s + c * c == 1)
        a = SymNum(z3.Real("in_ang_" + name), False, trig=(SymNum(s, False), SymNum(c, False)))
        self.eng.defs[("trig", z3.simplify(a.e).get_id())] = a.trig
        self.eng.keep.append(a)
        self._reg(name, ("angle", a.trig[0], a.trig[1]))
        return a

    def choose(self, name, n):
        """A concrete choice 0..n-1 (forks)."""
        return int(self.int(name, 0, n - 1))

    def reals(self, name, n, lo=None, hi=None, grid=None):
        return [self.real(f"{name}{i}", lo, hi, grid) for i in range(n)]

    def ints(self, name, n, lo=None, hi=None):
        return [self.int(f"{name}{i}", lo, hi) for i in range(n)]

    # --------------------------------------------------------------------- world
    def mod(self, name):
        return self.w.load("openptv_python." + name)

    def arr(self, v, kind="f"):
        return npshim.mk(v, kind)

    def patch(self, module, name, fn):
        self.patched.append((module, name, getattr(module, name)))
        setattr(module, name, fn)

    def stub(self, full, fn):
        """Replace a library function, e.g. scipy.linalg.lstsq."""
        shims.STUBS[full] = fn

    def fs(self, *dirs):
        shims.FS_ON[0] = True
        shims.VFS.clear()
        shims.DIRS.clear()
        shims.DIRS.add(".")
        for d in dirs:
            shims.DIRS.add(shims.norm(d))
        return self

    def write_file(self, name, content):
        shims.VFS[shims.norm(name)] = content

    def read_file(self, name):
        return shims.VFS.get(shims.norm(name))

    def files(self):
        return sorted(shims.VFS)

    def parse(self, s, kind="f"):
        """The number a field of a file denotes; ValueError if it is none."""
        s = text.resolve_pads(s)
        return text.parse_int(s) if kind == "i" else text.parse_float(s)

    def fields(self, line):
        return str.split(text.resolve_pads(line))

    def fmt(self, template, *args):
        return text.pct_format(template, args) if text.any_sym(args) else template % args

    # --------------------------------------------------------------------- logic
    def assume(self, c):
        self.eng.assume(c)

    @staticmethod
    def and_(*cs):
        r = True
        for c in cs:
            r = core.bool_and(r, npshim.truth(c))
        return r

    @staticmethod
    def or_(*cs):
        r = False
        for c in cs:
            r = core.bool_or(r, npshim.truth(c))
        return r

    @staticmethod
    def not_(c):
        return core.bool_not(npshim.truth(c))

    @staticmethod
    def implies(a, b):
        return core.implies(npshim.truth(a), npshim.truth(b))

    @staticmethod
    def ite(c, a, b):
        c = npshim.truth(c)
        if not isinstance(c, SymBool):
            return a if c else b
        return core.merge_values(c.e, core._unwrap_np(a), core._unwrap_np(b))

    @staticmethod
    def min(*v):
        r = v[0]
        for x in v[1:]:
            r = core.sym_min(r, x)
        return r

    @staticmethod
    def max(*v):
        r = v[0]
        for x in v[1:]:
            r = core.sym_max(r, x)
        return r

    @staticmethod
    def isnan(x):
        return npshim.np_isnan(x)

    @staticmethod
    def sqrt(x):
        return core.sym_sqrt(x)

    @staticmethod
    def sin(x):
        return core.sym_sin(x)

    @staticmethod
    def cos(x):
        return core.sym_cos(x)

    def count(self, conds):
        r = 0
        for c in conds:
            c = npshim.truth(c)
            r = r + (c.as_int() if isinstance(c, SymBool) else int(c))
        return r

    def decide(self, c):
        """Fork on a condition."""
        return bool(npshim.truth(c))

    # -------------------------------------------------------------------- checks
    def observe(self, name, v):
        self.obs.append((name, v))

    def check(self, cond, msg, exact=None, known=None):
        cond = npshim.truth(cond)
        self.reached += 1
        self.outcomes[msg] = self.outcomes.get(msg, 0) + 1
        if known is not None:
            kid, region = known
            if self.eng.prove(core.bool_or(cond, core.bool_not(npshim.truth(region))))[0] == "fails":
                self.known_hits[kid] = msg
            cond = core.bool_or(cond, npshim.truth(region))
            exact = None
        v, m = self.eng.prove(cond, exact)
        if v == "holds":
            return True
        if v == "unknown":
            self.inconclusive.append(msg)
            return None
        c = core.bterm(core.bool_not(cond))
        self.violations.append({"msg": msg, "cands": self.eng.nice_models(c, m)})
        raise CaseStop()

    def close(self, a, b, tol, msg, known=None, rel=None):
        """|a - b| <= tol (or tol*10^-9*(10^-9 + rel) for large quantities)."""
        a, b = core._unwrap_np(a), core._unwrap_np(b)
        for v in (a, b):
            if v is None or isinstance(v, float) and not math.isfinite(v):
                return self.check(isinstance(a, float) and isinstance(b, float) and (a == b or a != a and b != b), msg, known=known)
        d = a - b
        if not core.is_sym(d) and rel is None:
            return self.check(abs(d) <= tol, msg, known=known)
        exact = core.compare2("==", a, b)
        if rel is not None:
            tol = tol * 1e-9 * (1e-9 + rel)
        return self.check(self.and_(d <= tol, d >= -tol), msg, exact=exact, known=known)

    def fail(self, msg, known=None):
        self.check(False, msg, known=known)

    def call(self, fn, *a, **k):
        """Run fn; -> ('ok', value) or ('exc', exception)."""
        try:
            return "ok", fn(*a, **k)
        except Exception as e:  # noqa: BLE001 - engine signals are BaseException
            return "exc", e


def obs_terms(v):
    v = core._unwrap_np(v)
    if isinstance(v, (list, tuple)) or hasattr(v, "shape") and hasattr(v, "flat"):
        return [t for x in v for t in obs_terms(x)]
    return [v.e] if core.is_sym(v) else []


def obs_value(m, v):
    v = core._unwrap_np(v)
    if isinstance(v, (list, tuple)) or hasattr(v, "shape") and hasattr(v, "flat"):
        return [obs_value(m, x) for x in v]
    if core.is_sym(v):
        r = core.model_value(m, v)
        return float(r) if isinstance(r, Fraction) else r
    if isinstance(v, Fraction):
        return float(v)
    if isinstance(v, (bool, int, float, str)) or v is None:
        return v
    return repr(type(v))


def trace_functions(store):
    """Record which functions of the repository are executed (cheaply)."""
    mon = sys.monitoring
    tid = 3
    try:
        mon.use_tool_id(tid, "symx")
    except ValueError:
        return
    pre = loader.REPO.rstrip("/") + "/" + loader.PKG

    def start(code, off):
        if code.co_filename.startswith(pre) and not code.co_name.startswith("<"):
            store.add(f"{code.co_filename[len(pre) + 1:-3]}.{code.co_qualname}")
        return mon.DISABLE

    mon.register_callback(tid, mon.events.PY_START, start)
    mon.set_events(tid, mon.events.PY_START)
