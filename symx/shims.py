"""Stand-ins for the other modules the repository imports, and for builtins."""
import builtins
import io
import math
import os
import posixpath
import types
from collections import namedtuple

from . import core, npshim, text
from .core import SymBool, SymNum, _unwrap_np, is_sym
from .npshim import SHIM, bi_bool, bi_float, bi_int, mk


# ------------------------------------------------------------------------- numba
class NType:
    def __init__(self, name, kind, dims=0):
        self.name, self.kind, self.dims = name, kind, dims

    def __call__(self, *args):
        if len(args) == 1 and not isinstance(args[0], NType):
            return {"i": bi_int, "f": bi_float, "b": bi_bool}[self.kind](args[0])
        return Sig(self, args)

    def __getitem__(self, idx):
        return NType(self.name, self.kind, len(idx) if isinstance(idx, tuple) else 1)


class Sig:
    def __init__(self, ret, args):
        self.ret, self.args = ret, args


_NT = {"i": ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "intp", "int_"],
       "f": ["float32", "float64", "double", "f8", "f4"], "b": ["boolean", "bool_", "b1"]}
NTYPES = {n: NType(n, k) for k, v in _NT.items() for n in v}
NTYPES["void"] = NType("void", None)


def parse_sig(s):
    if isinstance(s, Sig):
        return s
    if isinstance(s, str):
        try:
            return eval(s, dict(NTYPES))
        except Exception:
            return None
    return None


def njit(*a, **k):
    if len(a) == 1 and callable(a[0]) and not isinstance(a[0], (NType, Sig)):
        return a[0]
    sig = a[0] if a else k.get("signature")
    if isinstance(sig, (list, tuple)):
        sig = sig[0] if len(sig) == 1 else None
    sig = parse_sig(sig)

    def deco(f):
        if sig is None:
            return f
        import functools

        @functools.wraps(f)
        def g(*args, **kw):
            args = list(args)
            for i, t in enumerate(sig.args):
                if i >= len(args) or not isinstance(t, NType) or t.dims or t.kind is None:
                    continue
                v = _unwrap_np(args[i])
                if isinstance(v, (SymNum, SymBool, int, float)):
                    args[i] = core.cast(v, t.kind) if not (
                        t.kind == "i" and isinstance(v, float) and not math.isfinite(v)) else v
            r = f(*args, **kw)
            if isinstance(sig.ret, NType) and not sig.ret.dims and sig.ret.kind in ("i", "f", "b"):
                v = _unwrap_np(r)
                if isinstance(v, (SymNum, SymBool, int, float)):
                    return core.cast(v, sig.ret.kind)
            return r

        g.py_func = f
        return g

    return deco


class NumbaShim(types.ModuleType):
    def __init__(self):
        super().__init__("numba")
        self.__dict__.update(NTYPES)
        self.njit = self.jit = self.vectorize = njit
        self.prange = sx_range
        self.types = self
        self.typed = types.ModuleType("numba.typed")
        self.typed.List = list
        self.typed.Dict = dict
        self.config = types.SimpleNamespace()

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise core.Unsupported("numba." + n)


# -------------------------------------------------------------------------- math
class MathShim(types.ModuleType):
    def __init__(self):
        super().__init__("math")
        for n in dir(math):
            if not n.startswith("_"):
                setattr(self, n, getattr(math, n))
        self.sqrt = self._sqrt
        self.sin = lambda x: core.sym_sin(x)
        self.cos = lambda x: core.sym_cos(x)
        self.tan = lambda x: npshim._tan(x)
        self.atan = lambda x: core.sym_arctan(x)
        self.asin = lambda x: core.sym_arcsin(x)
        self.acos = lambda x: core.sym_arccos(x)
        self.atan2 = npshim._arctan2
        self.floor = lambda x: core.sym_floor(x)
        self.ceil = lambda x: -core.sym_floor(-_unwrap_np(x)) if is_sym(_unwrap_np(x)) else math.ceil(x)
        self.trunc = lambda x: core.sym_trunc(_unwrap_np(x))
        self.fabs = lambda x: core.to_real(abs(_unwrap_np(x)))
        self.isnan = npshim.np_isnan
        self.isfinite = npshim.np_isfinite
        self.isinf = npshim.np_isinf
        self.fmod = npshim._fmod
        self.pow = npshim._pow
        self.hypot = lambda *a: SHIM.linalg.norm(list(a))
        self.dist = lambda p, q: SHIM.linalg.norm([a - b for a, b in zip(p, q)])
        self.copysign = self._copysign
        self.radians = lambda x: x * (math.pi / 180)
        self.degrees = lambda x: x * (180 / math.pi)
        self.isclose = self._isclose
        self.fsum = lambda v: sx_sum(v, 0.0)

    @staticmethod
    def _sqrt(x):
        x = _unwrap_np(x)
        if not is_sym(x):
            return math.sqrt(x)
        r = core.sym_sqrt(x)
        if isinstance(r, float) and math.isnan(r):
            raise ValueError("math domain error")
        return r

    @staticmethod
    def _copysign(x, y):
        x, y = _unwrap_np(x), _unwrap_np(y)
        if not is_sym(x) and not is_sym(y):
            return math.copysign(x, y)
        return core.ite(y >= 0, lambda: abs(x), lambda: -abs(x))

    @staticmethod
    def _isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
        d = abs(a - b)
        m = core.sym_max(abs(a), abs(b))
        return core.bool_or(d <= rel_tol * m, d <= abs_tol)


# ------------------------------------------------------------------ virtual files
VFS = {}
DIRS = set()
FS_ON = [False]  # with the virtual file system on, nothing reaches the disk
OPENED = []


def norm(p):
    return posixpath.normpath(os.fspath(p))


class VFile:
    def __init__(self, name, mode):
        self.name, self.mode = name, mode
        self.closed = False
        self.pos = 0
        if "r" in mode:
            self.data = text.resolve_pads(VFS[name])
        elif "a" in mode:
            self.data = VFS.get(name, "")
        else:
            self.data = ""
            VFS[name] = ""
        self.binary = "b" in mode

    def _chk(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def write(self, s):
        self._chk()
        if "r" in self.mode and "+" not in self.mode:
            raise io.UnsupportedOperation("not writable")
        if not isinstance(s, str):
            raise TypeError("write() argument must be str, not " + type(s).__name__)
        self.data += str(s)
        VFS[self.name] = self.data
        return len(s)

    def writelines(self, ls):
        for s in ls:
            self.write(s)

    def readline(self):
        self._chk()
        if "r" not in self.mode:
            raise io.UnsupportedOperation("not readable")
        i = self.data.find("\n", self.pos)
        j = len(self.data) if i < 0 else i + 1
        s = self.data[self.pos:j]
        self.pos = j
        return text.SymStr(s)

    def readlines(self):
        r = []
        while True:
            s = self.readline()
            if not s:
                return r
            r.append(s)

    def read(self, n=-1):
        self._chk()
        s = self.data[self.pos:] if n < 0 else self.data[self.pos:self.pos + n]
        self.pos += len(s)
        return text.SymStr(s)

    def __iter__(self):
        return self

    def __next__(self):
        s = self.readline()
        if not s:
            raise StopIteration
        return s

    def seek(self, p, w=0):
        self.pos = p

    def tell(self):
        return self.pos

    def flush(self):
        self._chk()

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


def vfs_open(name, mode="r", *a, **k):
    if not FS_ON[0]:
        if any(c in mode for c in "wax+"):
            raise core.Unsupported("write outside the virtual file system")
        return open(name, mode, *a, **k)
    if not isinstance(name, (str, os.PathLike)):
        raise TypeError(f"expected str, bytes or os.PathLike object, not {type(name).__name__}")
    n = norm(name)
    if text.has_tok(n):
        raise core.Unsupported("symbolic file name")
    if "r" in mode and n not in VFS:
        raise FileNotFoundError(2, "No such file or directory", n)
    if any(c in mode for c in "wa"):
        d = posixpath.dirname(n)
        if d and d not in DIRS:
            raise FileNotFoundError(2, "No such file or directory", n)
    f = VFile(n, mode)
    OPENED.append(f)
    return f


class VPath(str):
    """pathlib.Path over the virtual file system (string semantics suffice here)."""

    def __new__(cls, *parts):
        return str.__new__(cls, posixpath.join(*[os.fspath(p) for p in parts]) if parts else ".")

    def __truediv__(self, o):
        return VPath(self, o)

    def __rtruediv__(self, o):
        return VPath(o, self)

    @property
    def parent(self):
        return VPath(posixpath.dirname(self) or ".")

    @property
    def name(self):
        return posixpath.basename(self)

    @property
    def stem(self):
        return posixpath.splitext(self.name)[0]

    @property
    def suffix(self):
        return posixpath.splitext(self.name)[1]

    @property
    def parts(self):
        return tuple(p for p in self.split("/") if p)

    def with_suffix(self, s):
        return VPath(posixpath.splitext(self)[0] + s)

    def with_name(self, n):
        return VPath(posixpath.dirname(self), n)

    def exists(self):
        if not FS_ON[0]:
            return os.path.exists(self)
        return norm(self) in VFS or norm(self) in DIRS

    is_file = exists

    def is_dir(self):
        return norm(self) in DIRS

    def resolve(self):
        return self

    absolute = resolve
    expanduser = resolve

    def mkdir(self, *a, **k):
        DIRS.add(norm(self))

    def unlink(self, *a, **k):
        VFS.pop(norm(self), None)

    def open(self, mode="r", *a, **k):
        return vfs_open(self, mode)

    def read_text(self, *a, **k):
        with vfs_open(self) as f:
            return f.read()

    def write_text(self, s, *a, **k):
        with vfs_open(self, "w") as f:
            f.write(s)

    def as_posix(self):
        return str(self)

    def __fspath__(self):
        return str.__str__(self)


class PathlibShim(types.ModuleType):
    def __init__(self):
        super().__init__("pathlib")
        self.Path = self.PurePath = self.PosixPath = VPath


class OsPathShim(types.ModuleType):
    def __init__(self):
        super().__init__("os.path")
        for n in ("join", "basename", "dirname", "splitext", "normpath", "sep", "split", "isabs", "abspath"):
            setattr(self, n, getattr(posixpath, n))
        self.exists = self.isfile = lambda p: VPath(p).exists()
        self.isdir = lambda p: VPath(p).is_dir()


class OsShim(types.ModuleType):
    def __init__(self):
        super().__init__("os")
        self.path = OsPathShim()
        self.sep = "/"
        self.linesep = "\n"
        self.PathLike = os.PathLike
        self.fspath = os.fspath
        self.environ = dict(os.environ)
        self.getenv = lambda k, d=None: os.environ.get(k, d)
        self.remove = self.unlink = lambda p: VFS.pop(norm(p), None)
        self.makedirs = self.mkdir = lambda p, *a, **k: DIRS.add(norm(p))

    def getcwd(self):
        return "."

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise core.Unsupported("os." + n)


# -------------------------------------------------------------------------- yaml
class YamlShim(types.ModuleType):
    """The real yaml library; symbolic numbers travel as tokens."""

    def __init__(self):
        import yaml

        super().__init__("yaml")
        self._y = yaml
        for n in ("YAMLError", "FullLoader", "SafeLoader", "Loader", "Dumper", "SafeDumper", "UnsafeLoader", "BaseLoader"):
            setattr(self, n, getattr(yaml, n, None))

    def _out(self, x):
        x = _unwrap_np(x) if not isinstance(x, (str, dict, list, tuple)) else x
        if isinstance(x, SymBool):
            return bool(x)
        if isinstance(x, SymNum):
            return text.put(x, "d" if x.is_int else "r")
        if isinstance(x, dict):
            return {k: self._out(v) for k, v in x.items()}
        if isinstance(x, list):
            return [self._out(v) for v in x]
        if type(x) is tuple:
            return tuple(self._out(v) for v in x)
        if isinstance(x, text.SymStr):
            return str(x)
        if type(x) not in (str, int, float, bool, type(None)):
            return x
        return x

    def _in(self, x):
        if isinstance(x, str) and text.has_tok(x):
            t = text.find(x)
            if t is None:
                return text.SymStr(x)
            v = text.read_val(t)
            return v if text.is_int_text(t) else core.to_real(v)
        if isinstance(x, dict):
            return {k: self._in(v) for k, v in x.items()}
        if isinstance(x, list):
            return [self._in(v) for v in x]
        if type(x) is tuple:
            return tuple(self._in(v) for v in x)
        return x

    def _dump(self, data, stream, fn, kw):
        kw = dict(kw, allow_unicode=True)
        kw.setdefault("width", 100000)
        s = fn(self._out(data), **kw)
        if any(0xE000 <= ord(c) <= 0xE1FF for c in repr(data)) and "\\u" in s:
            raise core.Unsupported("yaml escapes")
        # tokens are plain scalars: no quoting of numbers
        import re

        s = re.sub(f"['\"]({text.OPEN}[\ue100-\ue1ff]+{text.CLOSE})['\"]", r"\1", s)
        if stream is None:
            return s
        stream.write(s)

    def dump(self, data, stream=None, Dumper=None, **kw):
        if Dumper is not None:
            kw["Dumper"] = Dumper
        return self._dump(data, stream, self._y.dump, kw)

    def safe_dump(self, data, stream=None, **kw):
        return self._dump(data, stream, self._y.safe_dump, kw)

    def _load(self, stream, fn):
        s = stream if isinstance(stream, str) else stream.read()
        return self._in(fn(str(s)))

    def load(self, stream, Loader=None):
        return self._load(stream, lambda s: self._y.load(s, Loader=Loader))

    def safe_load(self, stream):
        return self._load(stream, self._y.safe_load)

    def full_load(self, stream):
        return self._load(stream, self._y.full_load)


# ------------------------------------------------------------------------- scipy
class Missing(types.ModuleType):
    """A library that is outside the symbolic fragment: importable, not callable."""

    def __init__(self, name):
        super().__init__(name)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        full = f"{self.__name__}.{n}"
        if full in STUBS:
            return STUBS[full]
        return Missing(full)

    def __call__(self, *a, **k):
        if self.__name__ in STUBS:
            return STUBS[self.__name__](*a, **k)
        raise core.Unsupported(self.__name__)


STUBS = {}


# ---------------------------------------------------------------------- builtins
class _BTMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, (SymNum, SymBool)):
            k = npshim.elem_kind(x)
            return k == cls._k or (cls._k == "i" and k == "b")
        return isinstance(x, cls._real)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._real) if not isinstance(c, _BTMeta) else c is cls

    def __call__(cls, *a, **k):
        return cls._fn(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)

    def __repr__(cls):
        return repr(cls._real)

    def __or__(cls, o):
        return cls._real | o

    def __getattr__(cls, n):
        return getattr(cls._real, n)


def _bt(real, fn, k):
    return _BTMeta(real.__name__, (), {"_real": real, "_fn": staticmethod(fn), "_k": k, "_sx_kind": k})


INT = _bt(int, bi_int, "i")
FLOAT = _bt(float, bi_float, "f")
BOOL = _bt(bool, bi_bool, "b")


def sx_abs(x):
    return abs(x)


def sx_round(x, nd=None):
    x = _unwrap_np(x)
    return core.sym_round(x, nd) if is_sym(x) else (round(x) if nd is None else round(x, nd))


def _iter1(a):
    return list(a[0]) if len(a) == 1 else list(a)


def sx_min(*a, key=None, default=None, **k):
    v = _iter1(a)
    if not v:
        if default is not None:
            return default
        return builtins.min(v)
    if key is not None:
        ks = [key(x) for x in v]
        b = 0
        for i in range(1, len(v)):
            if builtins.bool(ks[i] < ks[b]):
                b = i
        return v[b]
    if any(isinstance(x, (tuple, str, list)) for x in v):
        return npshim.py_sorted(v)[0]
    r = v[0]
    for x in v[1:]:
        r = core.sym_min(r, x)
    return r


def sx_max(*a, key=None, default=None, **k):
    v = _iter1(a)
    if not v:
        if default is not None:
            return default
        return builtins.max(v)
    if key is not None:
        ks = [key(x) for x in v]
        b = 0
        for i in range(1, len(v)):
            if builtins.bool(ks[i] > ks[b]):
                b = i
        return v[b]
    r = v[0]
    for x in v[1:]:
        r = core.sym_max(r, x)
    return r


def sx_sum(it, start=0):
    r = start
    for x in it:
        if isinstance(x, SymBool):
            x = x.as_int()
        r = r + x
    return r


def sx_sorted(it, key=None, reverse=False):
    v = list(it)
    ks = [key(x) for x in v] if key else v
    idx = npshim.arg_sorted(ks, _lt if not reverse else (lambda a, b: _lt(b, a)))
    return [v[i] for i in idx]


def _lt(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        for x, y in zip(a, b):
            if builtins.bool(x < y):
                return True
            if builtins.bool(y < x):
                return False
        return len(a) < len(b)
    return a < b


def sx_all(it):
    return npshim.all_(it)


def sx_any(it):
    return npshim.any_(it)


def sx_range(*a):
    return builtins.range(*[int(x) if not isinstance(x, int) else x for x in a])


def sx_len(x):
    return builtins.len(x)


def sx_pow(a, b, *m):
    return a ** b if not m else builtins.pow(a, b, *m)


def sx_str(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if isinstance(x, text.SymStr):
            return x
    return builtins.str(*a, **k)


class _StrMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, builtins.str)

    def __subclasscheck__(cls, c):
        return c is cls or builtins.issubclass(c, builtins.str)

    def __call__(cls, *a, **k):
        return sx_str(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is builtins.str

    def __hash__(cls):
        return hash(builtins.str)

    def __getattr__(cls, n):
        return getattr(builtins.str, n)

    def __or__(cls, o):
        return builtins.str | o


STR = _StrMeta("str", (), {})


def sx_mod(a, b):
    if isinstance(a, str):
        if isinstance(b, tuple):
            b = tuple(x if isinstance(x, str) else _unwrap_np(x) for x in b)
        if text.any_sym(b):
            return text.pct_format(a, b)
        return str.__mod__(a, b)
    return a % b


def sx_not(x):
    x = _unwrap_np(x) if not isinstance(x, (list, dict, str, tuple)) else x
    if isinstance(x, SymBool):
        return ~x
    if isinstance(x, SymNum):
        return x == 0
    return not x


def _boolish(v):
    return isinstance(v, (bool, SymBool)) or type(v).__name__ in ("bool_", "bool")


def sx_and(*fs):
    return _logic(fs, True)


def sx_or(*fs):
    return _logic(fs, False)


def _logic(fs, is_and):
    """Short-circuit and/or over thunks; truth values without side effects are merged."""
    n = len(fs)
    for i, f in enumerate(fs):
        v = f()
        v = _unwrap_np(v) if not isinstance(v, (list, dict, str, tuple)) else v
        if i == n - 1:
            return v
        if isinstance(v, SymBool):
            rest = None
            try:
                with core.ENG.speculate():
                    rest = _logic(fs[i + 1:], is_and)
                    rest = _unwrap_np(rest)
            except (core.SpecAbort, Exception):
                rest = None
            if rest is not None and _boolish(rest):
                rest = rest if isinstance(rest, SymBool) else bool(rest)
                return core.bool_and(v, rest) if is_and else core.bool_or(v, rest)
            if bool(v) != is_and:
                return not is_and
            continue
        t = bool(v)
        if t != is_and:
            return v
    return v


def sx_ifexp(c, ft, ff):
    c = _unwrap_np(c) if not isinstance(c, (list, dict, str, tuple)) else c
    if isinstance(c, SymNum):
        c = c != 0
    if isinstance(c, SymBool):
        return core.ite(c, ft, ff)
    return ft() if c else ff()


def sx_print(*a, **k):
    return None


def sx_isinstance(x, t):
    return builtins.isinstance(x, t)


def sx_hash(x):
    return builtins.hash(x)


def sx_divmod(a, b):
    return a // b, a % b


BUILTINS = dict(vars(builtins))
BUILTINS.update(
    int=INT, float=FLOAT, bool=BOOL, str=STR, abs=sx_abs, round=sx_round, min=sx_min, max=sx_max, sum=sx_sum,
    sorted=sx_sorted, all=sx_all, any=sx_any, print=sx_print, open=vfs_open, range=builtins.range,
    pow=sx_pow, divmod=sx_divmod,
    _sx_mod=sx_mod, _sx_and=sx_and, _sx_or=sx_or, _sx_not=sx_not, _sx_ifexp=sx_ifexp,
)

NUMBA = NumbaShim()
MODULES = {
    "numpy": SHIM, "numba": NUMBA, "math": MathShim(), "pathlib": PathlibShim(), "os": OsShim(),
    "yaml": YamlShim(),
}
MODULES["os.path"] = MODULES["os"].path
MODULES["numpy.linalg"] = SHIM.linalg
