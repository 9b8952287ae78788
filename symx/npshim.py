"""A stand-in for numpy over symbolic values.

Arrays are numpy object arrays (class SymArray) that remember the logical element kind
(integer, float, boolean) in the dtype metadata; structured arrays are RecArray.
Functions not overridden here run numpy's own generic code on the object arrays.
"""
import itertools
import math
import types

import numpy as np

from . import core
from .core import SymBool, SymNum, _unwrap_np, is_sym

DT = {k: np.dtype("O", metadata={"k": k}) for k in "ifbO"}
DT["u"] = np.dtype("O", metadata={"k": "u"})  # uint8 images: integer without wrap


def kind_of(a):
    d = a.dtype
    if d.metadata and "k" in d.metadata:
        return d.metadata["k"]
    if d.kind in "iu":
        return "i"
    if d.kind in "fb":
        return d.kind
    return None


def infer_kind(a):
    k = kind_of(a)
    if k is not None:
        return k
    ks = {elem_kind(x) for x in a.flat}
    if "O" in ks:
        return "O"
    if "f" in ks:
        return "f"
    if "i" in ks:
        return "i"
    if "b" in ks:
        return "b"
    return "f"


def elem_kind(x):
    if isinstance(x, SymNum):
        return "i" if x.is_int else "f"
    if isinstance(x, (bool, np.bool_, SymBool)):
        return "b"
    if isinstance(x, (int, np.integer)):
        return "i"
    if isinstance(x, (float, np.floating)) or type(x).__name__ == "Fraction":
        return "f"
    return "O"


def coerce(x, k):
    if k in (None, "O"):
        return x
    if k == "u":
        k = "i"
    if isinstance(x, np.ndarray) and x.ndim == 0:
        x = x.item()
    if isinstance(x, np.generic):
        x = x.item()
    if x is None:
        return x
    if isinstance(x, str):
        return core.cast(bi_float(x) if k == "f" else bi_int(x), k)
    if k == "i" and isinstance(x, float) and not math.isfinite(x):
        raise ValueError("cannot convert float NaN or infinity to integer")
    return core.cast(x, k)


def wrap_scalar(x):
    if isinstance(x, (SymNum, SymBool)) or isinstance(x, np.generic):
        return x
    if isinstance(x, bool):
        return np.bool_(x)
    if isinstance(x, int):
        return np.int64(x) if -2 ** 63 <= x < 2 ** 63 else x
    if isinstance(x, float):
        return np.float64(x)
    return x


_vcoerce = {k: np.frompyfunc(lambda x, k=k: coerce(x, k), 1, 1) for k in "ifbu"}


def mk(a, kind=None):
    """Any array-like -> SymArray."""
    if isinstance(a, RecArray):
        return a
    if isinstance(a, SymArray) and (kind is None or kind_of(a) == kind):
        return a
    if not isinstance(a, np.ndarray):
        a = _nested(a)
    if a.dtype.kind in "USMmV":
        return a
    k = kind or infer_kind(a)
    if a.dtype != np.dtype("O"):
        a = a.astype(object)
    else:
        a = np.array(a, dtype=object, copy=True, subok=False)
    src = infer_kind(a) if kind_of(a) is None else kind_of(a)
    if k in _vcoerce and (src != k or kind is not None):
        a = np.asarray(_vcoerce[k](a), dtype=object)
    r = np.empty(a.shape, dtype=DT[k])
    if a.ndim == 0:
        r[()] = a.item() if isinstance(a, np.ndarray) else a
    else:
        r[...] = a
    return r.view(SymArray)


def _nested(x):
    """Nested sequences / scalars -> plain object ndarray."""
    if isinstance(x, np.ndarray):
        return x
    if isinstance(x, (SymNum, SymBool)) or np.isscalar(x) or x is None:
        r = np.empty((), dtype=object)
        r[()] = x.item() if isinstance(x, np.generic) else x
        return r
    if isinstance(x, Rec):
        x = tuple(x)
    if isinstance(x, (range, types.GeneratorType, map, filter, zip)):
        x = list(x)
    if hasattr(x, "__array__") and not isinstance(x, (list, tuple)):
        return np.asarray(x)
    if isinstance(x, (list, tuple)) or hasattr(x, "__len__"):
        parts = [_nested(v) for v in x]
        if not parts:
            return np.empty((0,), dtype=float)
        shp = parts[0].shape
        if any(p.shape != shp for p in parts):
            raise ValueError("setting an array element with a sequence: inhomogeneous shape")
        ks = [infer_kind(p) for p in parts]
        k = "O" if "O" in ks else "f" if "f" in ks else "i" if "i" in ks else "b"
        r = np.empty((len(parts),) + shp, dtype=object)
        for i, p in enumerate(parts):
            if k in "fi":
                p = _vcoerce[k](p) if p.size else p
            if not shp:
                r[i] = p.item() if isinstance(p, np.ndarray) else p
            else:
                r[i, ...] = p
        return r
    r = np.empty((), dtype=object)
    r[()] = x
    return r


def new(shape, kind, fill):
    if isinstance(shape, (SymNum,)):
        shape = int(shape)
    if isinstance(shape, (tuple, list)):
        shape = tuple(int(s) for s in shape)
    r = np.empty(shape, dtype=DT[kind])
    if callable(fill):
        flat = r.reshape(-1)
        for i in range(flat.size):
            flat[i] = fill()
    else:
        r[...] = coerce(fill, kind) if kind != "O" else fill
    return r.view(SymArray)


def uninit(kind):
    if core.ENG is None or not core.ENG.running:
        return {"i": 0, "u": 0, "f": 0.0, "b": False}.get(kind)
    if kind in ("i", "u"):
        return core.ENG.fresh_int("uninit")
    if kind == "b":
        return core.ENG.fresh_bool("uninit")
    if kind == "f":
        return core.ENG.fresh_real("uninit")
    return None


def norm_index(idx, shape):
    if isinstance(idx, tuple):
        out = []
        ax = 0
        n_real = sum(1 for i in idx if i is not None and i is not Ellipsis)
        for i in idx:
            if i is Ellipsis:
                out.append(i)
                ax += len(shape) - n_real
                continue
            if i is None:
                out.append(i)
                continue
            out.append(_norm1(i, shape[ax] if ax < len(shape) else 0))
            ax += i.ndim if isinstance(i, np.ndarray) and infer_kind(i) == "b" else 1
        return tuple(out)
    return _norm1(idx, shape[0] if shape else 0)


def _norm1(i, n):
    if isinstance(i, SymNum):
        if not i.is_int:
            raise IndexError("only integers, slices, ... are valid indices")
        if bool(core.bool_and(i >= 0, i < n)):
            return int(i)
        if bool(core.bool_and(i < 0, i >= -n)):
            return int(i)
        raise IndexError("index out of bounds")
    if isinstance(i, SymBool):
        return bool(i)
    if isinstance(i, slice):
        return slice(*[int(v) if isinstance(v, SymNum) else v for v in (i.start, i.stop, i.step)])
    if isinstance(i, list):
        i = mk(i)
    if isinstance(i, np.ndarray) and i.dtype == np.dtype("O"):
        k = infer_kind(i)
        if k == "b":
            return np.array([bool(v) for v in i.flat], dtype=bool).reshape(i.shape)
        if k in "iu":
            return np.array([_norm1(v, n) for v in i.flat], dtype=int).reshape(i.shape)
        if i.size == 0:
            return i.astype(int)
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    return i


class SymArray(np.ndarray):
    __array_priority__ = 10.0

    @property
    def _k(self):
        return infer_kind(self)

    def __getitem__(self, idx):
        r = np.ndarray.__getitem__(self, norm_index(idx, self.shape))
        if isinstance(r, np.ndarray):
            return r
        return wrap_scalar(r)

    def __setitem__(self, idx, v):
        idx = norm_index(idx, self.shape)
        k = kind_of(self)
        if isinstance(v, (RecArray, Rec)):
            raise core.Unsupported("record into array")
        if isinstance(v, np.ndarray) or isinstance(v, (list, tuple, range)):
            v = _nested(v)
            if k in _vcoerce and kind_of(v) != k:
                v = _vcoerce[k](np.asarray(v))
            if isinstance(v, np.ndarray) and v.ndim == 0:
                v = v.item()
        else:
            v = coerce(v, k)
        np.ndarray.__setitem__(self, idx, v)

    def _inplace(op, base):
        def f(self, o):
            if isinstance(o, (SymNum, SymBool)):
                self[...] = op(self, o)
                return self
            return base(self, o)
        return f

    __iadd__ = _inplace(lambda a, b: a + b, np.ndarray.__iadd__)
    __isub__ = _inplace(lambda a, b: a - b, np.ndarray.__isub__)
    __imul__ = _inplace(lambda a, b: a * b, np.ndarray.__imul__)
    __itruediv__ = _inplace(lambda a, b: a / b, np.ndarray.__itruediv__)
    del _inplace

    def __iter__(self):
        for i in range(self.shape[0]):
            yield self[i]

    def __reduce_ex__(self, p):
        raise core.Unsupported("pickling")

    def __deepcopy__(self, memo):
        return self.copy()

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous.")
        return bool(self.reshape(-1)[0])

    def __format__(self, spec):
        return format(self.item(), spec) if self.ndim == 0 else str(self)

    def __int__(self):
        return bi_int(self.reshape(-1)[0])

    def __float__(self):
        return bi_float(self.reshape(-1)[0])

    def __index__(self):
        return int(self.item())

    def __contains__(self, v):
        return any_((self == v).flat)

    def item(self, *a):
        if a:
            return self[a if len(a) > 1 else a[0]]
        return np.ndarray.item(self)

    def astype(self, t, copy=True, **k):
        kd = core.kind_of_type(t)
        if kd == "O":
            return self.copy()
        return mk(np.asarray(self).view(np.ndarray), kd)

    def view(self, *a, **k):
        if a and a[0] is np.ndarray:
            return np.ndarray.view(self, np.ndarray)
        return self

    def sort(self, axis=-1, kind=None, order=None):
        if self.ndim != 1:
            ax = axis % self.ndim
            res = sort_axis(self, ax)
        else:
            res = mk(py_sorted(list(self)), kind_of(self))
        self[...] = res

    def argsort(self, axis=-1, kind=None, order=None):
        if self.ndim != 1:
            raise core.Unsupported("argsort nd")
        return mk([i for i in arg_sorted(list(self))] or np.empty(0, int), "i")

    def argmin(self, axis=None, out=None):
        return arg_ext(self, axis, lambda a, b: a < b)

    def argmax(self, axis=None, out=None):
        return arg_ext(self, axis, lambda a, b: a > b)

    def nonzero(self):
        return nonzero(self)

    def all(self, axis=None, **k):
        return np_all(self, axis)

    def any(self, axis=None, **k):
        return np_any(self, axis)

    def mean(self, axis=None, **k):
        n = self.size if axis is None else self.shape[axis]
        if n == 0:
            return np.float64("nan")
        return self.sum(axis=axis) / n

    def round(self, nd=0):
        return SHIM.round(self, nd)

    def dot(self, o):
        return SHIM.dot(self, o)

    def tolist(self):
        return np.asarray(self).view(np.ndarray).tolist()

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        name = ufunc.__name__
        kw.pop("casting", None)
        kw.pop("subok", None)
        kw.pop("where", None) if kw.get("where") is True else None
        if out is not None:
            tgt = out[0] if isinstance(out, tuple) else out
            r = self.__array_ufunc__(ufunc, method, *inputs, **kw)
            tgt[...] = r
            return tgt
        return ufunc_call(ufunc, name, method, inputs, kw)

    def __array_function__(self, func, types_, args, kwargs):
        ov = OVERRIDES.get(func.__name__)
        if ov is not None:
            return ov(*args, **kwargs)
        return out_(super().__array_function__(func, types_, args, kwargs))


def plain(x):
    if isinstance(x, np.ndarray):
        return np.asarray(x).view(np.ndarray)
    return x


def out_(r):
    if isinstance(r, tuple) and type(r) is tuple:
        return tuple(out_(x) for x in r)
    if isinstance(r, list):
        return [out_(x) for x in r]
    if isinstance(r, np.ndarray) and not isinstance(r, RecArray):
        if r.ndim == 0:
            return wrap_scalar(r.item())
        if isinstance(r, SymArray):
            return r
        return mk(r)
    return r


def np_div(a, b):
    a, b = _unwrap_np(a), _unwrap_np(b)
    if not is_sym(b) and b == 0:
        if is_sym(a):
            if bool(a == 0):
                return math.nan
            return math.inf if bool(a > 0) else -math.inf
        a = float(a)
        return math.nan if a == 0 or math.isnan(a) else math.copysign(math.inf, a)
    if not is_sym(a) and not is_sym(b):
        return float(a) / b
    return a / b


def np_isnan(x):
    x = _unwrap_np(x)
    return False if is_sym(x) else math.isnan(x)


def np_isfinite(x):
    x = _unwrap_np(x)
    return True if is_sym(x) else math.isfinite(x)


def np_isinf(x):
    x = _unwrap_np(x)
    return False if is_sym(x) else math.isinf(x)


def _flt(f):
    def g(x):
        x = _unwrap_np(x)
        return f(x) if is_sym(x) or not isinstance(x, bool) else f(int(x))

    return g


def _floor(x):
    x = _unwrap_np(x)
    if not is_sym(x) and not math.isfinite(x):
        return x
    return core.to_real(core.sym_floor(x))


def _ceil(x):
    x = _unwrap_np(x)
    if not is_sym(x) and not math.isfinite(x):
        return x
    return core.to_real(-core.sym_floor(-x))


def _rint(x):
    x = _unwrap_np(x)
    return core.to_real(core.sym_round(x))


def _trunc(x):
    x = _unwrap_np(x)
    return core.to_real(core.sym_trunc(x))


def _sqrt(x):
    x = _unwrap_np(x)
    if not is_sym(x) and (math.isnan(x) or math.isinf(x)):
        return x if not x < 0 else math.nan
    return core.sym_sqrt(x)


def _tan(x):
    x = _unwrap_np(x)
    return core.sym_tan(x) if is_sym(x) else math.tan(x)


def _sign(x):
    x = _unwrap_np(x)
    if not is_sym(x):
        return (x > 0) - (x < 0) if not isinstance(x, float) else float((x > 0) - (x < 0))
    one = 1 if x.is_int else 1.0
    return core.ite(x > 0, lambda: one, lambda: core.ite(x < 0, lambda: -one, lambda: 0 * one))


def _fmod(a, b):
    a, b = _unwrap_np(a), _unwrap_np(b)
    if not is_sym(a) and not is_sym(b):
        return math.fmod(a, b)
    q = core.sym_trunc(a / b)
    return a - q * b


def _not(x):
    x = _unwrap_np(x)
    if isinstance(x, SymBool):
        return ~x
    if isinstance(x, SymNum):
        return x == 0
    return not x


def truth(x):
    x = _unwrap_np(x)
    if isinstance(x, SymNum):
        return x != 0
    if isinstance(x, SymBool):
        return x
    return bool(x)


def _and(a, b):
    return core.bool_and(truth(a), truth(b))


def _or(a, b):
    return core.bool_or(truth(a), truth(b))


def _arctan2(y, x):
    y, x = _unwrap_np(y), _unwrap_np(x)
    if not is_sym(y) and not is_sym(x):
        return math.atan2(y, x)
    return core.sym_atan2(y, x)


def _pow(a, b):
    a, b = _unwrap_np(a), _unwrap_np(b)
    if not is_sym(a) and not is_sym(b):
        return a ** b
    return a ** b


def _hypot(a, b):
    return _sqrt(a * a + b * b)


def _mod(a, b):
    return _unwrap_np(a) % _unwrap_np(b)


def _fdiv(a, b):
    return _unwrap_np(a) // _unwrap_np(b)


def _abs(x):
    return abs(_unwrap_np(x))


U1 = {
    "sqrt": (_sqrt, "f"), "sin": (core.sym_sin, "f"), "cos": (core.sym_cos, "f"), "tan": (_tan, "f"),
    "arctan": (core.sym_arctan, "f"), "arcsin": (core.sym_arcsin, "f"), "arccos": (core.sym_arccos, "f"),
    "floor": (_floor, "f"), "ceil": (_ceil, "f"), "rint": (_rint, "f"), "trunc": (_trunc, "f"),
    "isnan": (np_isnan, "b"), "isfinite": (np_isfinite, "b"), "isinf": (np_isinf, "b"),
    "logical_not": (_not, "b"), "absolute": (_abs, None), "fabs": (lambda x: core.to_real(_abs(x)), "f"),
    "sign": (_sign, None), "square": (lambda x: x * x, None),
    "negative": (lambda x: -_unwrap_np(x), None), "positive": (lambda x: x, None),
    "reciprocal": (lambda x: np_div(1, x), "f"),
    "deg2rad": (lambda x: x * (math.pi / 180), "f"), "rad2deg": (lambda x: x * (180 / math.pi), "f"),
    "radians": (lambda x: x * (math.pi / 180), "f"), "degrees": (lambda x: x * (180 / math.pi), "f"),
    "exp": (lambda x: math.exp(_unwrap_np(x)), "f"), "log": (lambda x: math.log(_unwrap_np(x)), "f"),
    "invert": (lambda x: _not(x) if isinstance(_unwrap_np(x), (bool, SymBool)) else ~_unwrap_np(x), None),
    "conjugate": (lambda x: x, None),
}
U2 = {
    "true_divide": (np_div, "f"), "divide": (np_div, "f"),
    "less": (lambda a, b: _unwrap_np(a) < _unwrap_np(b), "b"),
    "less_equal": (lambda a, b: _unwrap_np(a) <= _unwrap_np(b), "b"),
    "greater": (lambda a, b: _unwrap_np(a) > _unwrap_np(b), "b"),
    "greater_equal": (lambda a, b: _unwrap_np(a) >= _unwrap_np(b), "b"),
    "equal": (lambda a, b: _unwrap_np(a) == _unwrap_np(b), "b"),
    "not_equal": (lambda a, b: _unwrap_np(a) != _unwrap_np(b), "b"),
    "logical_and": (_and, "b"), "logical_or": (_or, "b"),
    "logical_xor": (lambda a, b: truth(a) != truth(b), "b"),
    "bitwise_and": (lambda a, b: _unwrap_np(a) & _unwrap_np(b), None),
    "bitwise_or": (lambda a, b: _unwrap_np(a) | _unwrap_np(b), None),
    "bitwise_xor": (lambda a, b: _unwrap_np(a) ^ _unwrap_np(b), None),
    "minimum": (core.sym_min, None), "maximum": (core.sym_max, None),
    "fmin": (core.sym_min, None), "fmax": (core.sym_max, None),
    "fmod": (_fmod, None), "remainder": (_mod, None), "floor_divide": (_fdiv, None),
    "arctan2": (_arctan2, "f"), "power": (_pow, None), "float_power": (_pow, "f"), "hypot": (_hypot, "f"),
    "add": (lambda a, b: _unwrap_np(a) + _unwrap_np(b), None),
    "subtract": (lambda a, b: _unwrap_np(a) - _unwrap_np(b), None),
    "multiply": (lambda a, b: _unwrap_np(a) * _unwrap_np(b), None),
    "left_shift": (lambda a, b: a << b, None), "right_shift": (lambda a, b: a >> b, None),
}
_FP1 = {k: np.frompyfunc(f, 1, 1) for k, (f, _) in U1.items()}
_FP2 = {k: np.frompyfunc(f, 2, 1) for k, (f, _) in U2.items()}
REDUCE = {"add": 0, "multiply": 1, "logical_and": True, "logical_or": False}


def wrapsym(x):
    """Make an operand acceptable to numpy ufuncs (symbolic scalars become 0-d arrays)."""
    if is_sym(x):
        r = np.empty((), dtype=object)
        r[()] = x
        return r
    if isinstance(x, np.ndarray):
        return plain(x)
    if isinstance(x, (list, tuple)):
        return plain(_nested(x))
    return x


def ufunc_call(ufunc, name, method, inputs, kw):
    if name == "matmul" and method == "__call__":
        return SHIM.dot(*inputs) if all(isinstance(x, np.ndarray) and x.ndim <= 2 for x in inputs) else out_(
            np.matmul(*[plain(mk(x)) for x in inputs]))
    if method == "__call__":
        ks = [infer_kind(x) if isinstance(x, np.ndarray) else elem_kind(x) if not isinstance(x, (list, tuple)) else "f"
              for x in inputs]
        ins = [wrapsym(x) for x in inputs]
        if name in U1 and len(ins) == 1:
            r, k = _FP1[name](ins[0]), U1[name][1]
        elif name in U2 and len(ins) == 2:
            r, k = _FP2[name](*ins), U2[name][1]
        else:
            raise core.Unsupported("ufunc " + name)
        if k is None:
            k = "f" if "f" in ks else "i" if ("i" in ks or "u" in ks) else ks[0]
            if k == "b" and name in ("add", "subtract", "multiply"):
                k = "i"
        if not isinstance(r, np.ndarray) or r.ndim == 0:
            return wrap_scalar(r.item() if isinstance(r, np.ndarray) else r)
        res = np.empty(r.shape, dtype=DT[k])
        res[...] = r
        return res.view(SymArray)
    if method == "reduce":
        a = inputs[0]
        axis = kw.get("axis", 0)
        keep = kw.get("keepdims", False)
        init = kw.get("initial", np._NoValue)
        return reduce_(name, a, axis, keep, init)
    if method == "outer":
        a, b = mk(inputs[0]), mk(inputs[1])
        return ufunc_call(ufunc, name, "__call__", (a.reshape(a.shape + (1,) * b.ndim), b), {})
    if method == "accumulate":
        a = mk(inputs[0])
        f = U2[name][0]
        acc, out = None, []
        for x in a:
            acc = x if acc is None else f(acc, x)
            out.append(acc)
        return mk(out, infer_kind(a))
    raise core.Unsupported(f"ufunc {name}.{method}")


def reduce_(name, a, axis, keepdims=False, initial=np._NoValue):
    a = mk(a)
    f = U2[name][0]
    k = infer_kind(a)
    if isinstance(axis, tuple):
        axis = None if len(axis) == a.ndim else axis
    if axis is None:
        acc = initial if initial is not np._NoValue and initial is not None else None
        if acc is None and name in ("logical_and", "logical_or"):
            acc = REDUCE[name]
        for x in a.flat:
            acc = x if acc is None else f(acc, x)
        if acc is None:
            if name not in REDUCE:
                raise ValueError("zero-size array to reduction operation which has no identity")
            acc = REDUCE[name]
            if k == "f" and not isinstance(acc, bool):
                acc = float(acc)
        if isinstance(acc, SymBool) and name == "add":
            acc = acc.as_int()
        return wrap_scalar(acc)
    axis = axis % a.ndim
    moved = np.moveaxis(plain(a), axis, -1)
    out = np.empty(moved.shape[:-1], dtype=object)
    for ix in np.ndindex(*moved.shape[:-1]):
        out[ix] = reduce_(name, mk(moved[ix], k), None)
    if keepdims:
        out = np.expand_dims(out, axis)
    if out.ndim == 0:
        return wrap_scalar(out.item())
    return mk(out)


def scalar_bin(op, s, arr, rev):
    uf = {"+": np.add, "-": np.subtract, "*": np.multiply, "/": np.true_divide, "//": np.floor_divide,
          "%": np.remainder, "<": np.less, "<=": np.less_equal, ">": np.greater, ">=": np.greater_equal,
          "==": np.equal, "!=": np.not_equal}[op]
    a, b = (arr, s) if rev else (s, arr)
    return ufunc_call(uf, uf.__name__, "__call__", (a, b), {})


# -------------------------------------------------------------- order statistics
def less(a, b):
    return a < b


def arg_sorted(vals, lt=None):
    """Stable insertion sort; every undecided comparison is a decision of the path."""
    lt = lt or less
    idx = []
    for i, v in enumerate(vals):
        j = len(idx)
        while j > 0 and bool(lt(v, vals[idx[j - 1]])):
            j -= 1
        idx.insert(j, i)
    return idx


def py_sorted(vals, key=None, reverse=False):
    ks = [key(v) for v in vals] if key else list(vals)
    if reverse:
        # stable descending
        idx = arg_sorted(ks, lambda a, b: b < a)
    else:
        idx = arg_sorted(ks)
    return [vals[i] for i in idx]


def sort_axis(a, ax):
    m = np.moveaxis(plain(a), ax, -1).copy()
    for ix in np.ndindex(*m.shape[:-1]):
        m[ix] = np.array(py_sorted(list(m[ix])), dtype=object)
    return mk(np.moveaxis(m, -1, ax), infer_kind(a))


def arg_ext(a, axis, better):
    a = mk(a)
    if axis is not None and a.ndim > 1:
        m = np.moveaxis(plain(a), axis, -1)
        out = np.empty(m.shape[:-1], dtype=object)
        for ix in np.ndindex(*m.shape[:-1]):
            out[ix] = arg_ext(m[ix], None, better)
        return mk(out, "i")
    v = list(a.flat)
    if not v:
        raise ValueError("attempt to get argmin of an empty sequence")
    b = 0
    for i in range(1, len(v)):
        if bool(better(v[i], v[b])):
            b = i
    return np.int64(b)


def nonzero(a):
    a = mk(a)
    if a.ndim == 0:
        a = a.reshape(1)
    hits = [ix for ix in np.ndindex(*a.shape) if bool(truth(np.ndarray.__getitem__(a, ix)))]
    return tuple(mk(np.array([h[d] for h in hits], dtype=int), "i") for d in range(a.ndim))


def all_(it):
    r = True
    for x in it:
        r = core.bool_and(r, truth(x))
        if r is False:
            return False
    return r


def any_(it):
    r = False
    for x in it:
        r = core.bool_or(r, truth(x))
        if r is True:
            return True
    return r


def np_all(a, axis=None, **k):
    if isinstance(a, RecArray):
        raise core.Unsupported("all of records")
    a = mk(a)
    if axis is None:
        return all_(a.flat)
    return reduce_("logical_and", a, axis)


def np_any(a, axis=None, **k):
    a = mk(a)
    if axis is None:
        return any_(a.flat)
    return reduce_("logical_or", a, axis)


# ------------------------------------------------------------- structured arrays
class RecDtype:
    def __init__(self, spec):
        self.fields_ = []
        for f in spec:
            name, t = f[0], f[1]
            shape = f[2] if len(f) > 2 else ()
            if isinstance(t, tuple) and len(t) == 2:
                t, shape = t
            if isinstance(shape, int):
                shape = (shape,)
            self.fields_.append((name, core.kind_of_type(t), tuple(shape)))
        self.names = tuple(f[0] for f in self.fields_)
        self.kind = "V"
        self.metadata = None

    def __eq__(self, o):
        return isinstance(o, RecDtype) and self.fields_ == o.fields_

    def __hash__(self):
        return hash(tuple(self.fields_))


class Rec:
    """A view of one record."""

    def __init__(self, arr, i):
        object.__setattr__(self, "_a", arr)
        object.__setattr__(self, "_i", i)

    @property
    def dtype(self):
        return self._a.dtype

    def _get(self, n):
        return self._a._f[n][self._i]

    def _set(self, n, v):
        self._a._f[n][self._i] = v

    def __getattr__(self, n):
        if n.startswith("__") or n not in self._a._f:
            raise AttributeError(n)
        return self._get(n)

    def __setattr__(self, n, v):
        if n not in self._a._f:
            raise AttributeError(n)
        self._set(n, v)

    def __getitem__(self, n):
        if isinstance(n, SymNum):
            n = int(n)
        if not isinstance(n, str):
            n = self.dtype.names[n]
        if n not in self._a._f:
            raise ValueError(f"no field of name {n}")
        return self._get(n)

    def __setitem__(self, n, v):
        if not isinstance(n, str):
            n = self.dtype.names[n]
        if n not in self._a._f:
            raise ValueError(f"no field of name {n}")
        self._set(n, v)

    def __iter__(self):
        for n in self.dtype.names:
            yield self._get(n)

    def __len__(self):
        return len(self.dtype.names)

    def tolist(self):
        return tuple(self)

    item = tolist

    def copy(self):
        r = RecArray.zeros((1,), self.dtype)
        r[0] = self
        return r[0]

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def __eq__(self, o):
        if isinstance(o, RecArray) and o.size == 1:
            o = o.reshape(-1)[0]
        if isinstance(o, tuple):
            o = list(o)
            vals = o
        elif isinstance(o, Rec):
            vals = [o[n] for n in self.dtype.names]
        else:
            return NotImplemented
        return BoolResult(all_(truth_all(self[n] == v) for n, v in zip(self.dtype.names, vals)))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else BoolResult(_not(r.v))

    def __repr__(self):
        return "Rec" + repr(tuple(self))


def truth_all(x):
    if isinstance(x, np.ndarray):
        return np_all(x)
    return x


def BoolResult(v):
    if isinstance(v, (SymBool,)):
        return v
    return np.bool_(v)


class RecArray:
    """Structured array with attribute access (np.recarray)."""

    __array_ufunc__ = None

    def __init__(self, shape, dtype, fields=None, attr=True):
        object.__setattr__(self, "_f", {})
        object.__setattr__(self, "dtype", dtype)
        object.__setattr__(self, "_attr", attr)
        if fields is not None:
            self._f.update(fields)
            n0 = dtype.fields_[0]
            sh = self._f[n0[0]].shape
            object.__setattr__(self, "shape", sh[: len(sh) - len(n0[2])])
        else:
            if not isinstance(shape, tuple):
                shape = (int(shape),)
            object.__setattr__(self, "shape", tuple(int(s) for s in shape))
            for n, k, sub in dtype.fields_:
                self._f[n] = new(self.shape + sub, k, lambda k=k: uninit(k))

    @classmethod
    def zeros(cls, shape, dtype):
        r = cls.__new__(cls)
        if not isinstance(shape, tuple):
            shape = (int(shape),)
        shape = tuple(int(s) for s in shape)
        f = {n: new(shape + sub, k, 0) for n, k, sub in dtype.fields_}
        r.__init__(None, dtype, f)
        return r

    @property
    def size(self):
        return int(np.prod(self.shape)) if self.shape else 1

    @property
    def ndim(self):
        return len(self.shape)

    def __len__(self):
        if not self.shape:
            raise TypeError("len() of unsized object")
        return self.shape[0]

    def __getattr__(self, n):
        if n.startswith("__") or n not in self._f:
            raise AttributeError(n)
        r = self._f[n]
        return r if r.ndim else r

    def __setattr__(self, n, v):
        if n not in self._f:
            raise AttributeError(n)
        self._f[n][...] = v

    def __getitem__(self, i):
        if isinstance(i, str):
            if i not in self._f:
                raise ValueError(f"no field of name {i}")
            return self._f[i]
        if isinstance(i, list) and i and isinstance(i[0], str):
            raise core.Unsupported("multi-field index")
        i = norm_index(i, self.shape)
        if isinstance(i, tuple) and all(isinstance(v, (int, np.integer)) for v in i):
            if len(i) == len(self.shape):
                self._chk(i)
                return Rec(self, i) if len(i) > 1 else Rec(self, int(i[0]))
        if isinstance(i, (int, np.integer)) and not isinstance(i, bool):
            if len(self.shape) == 1:
                n = self.shape[0]
                if not -n <= i < n:
                    raise IndexError(f"index {i} is out of bounds for axis 0 with size {n}")
                return Rec(self, int(i))
            if not self.shape:
                raise IndexError("too many indices for array")
        return RecArray(None, self.dtype, {n: self._f[n][i] for n in self.dtype.names})

    def _chk(self, i):
        for v, n in zip(i, self.shape):
            if not -n <= v < n:
                raise IndexError("index out of bounds")

    def __setitem__(self, i, v):
        if isinstance(i, str):
            self._f[i][...] = v
            return
        i = norm_index(i, self.shape)
        names = self.dtype.names
        if isinstance(v, (Rec, RecArray)):
            vals = [v[n] for n in names]
            vals = [x.copy() if isinstance(x, np.ndarray) else x for x in vals]
        elif isinstance(v, (tuple,)):
            vals = list(v)
        elif isinstance(v, list) and v and isinstance(v[0], (tuple, Rec)):
            w = from_tuples(v, self.dtype)
            vals = [w[n] for n in names]
        elif isinstance(v, np.ndarray) and v.ndim == 0:
            return self.__setitem__(i, v.item())
        else:
            vals = [v] * len(names)
        for n, x in zip(names, vals):
            self._f[n][i] = x

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def copy(self, *a):
        return RecArray(None, self.dtype, {n: a.copy() for n, a in self._f.items()})

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def view(self, *a, **k):
        return self

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], tuple):
            shape = shape[0]
        if shape == (-1,):
            shape = (self.size,)
        return RecArray(None, self.dtype, {n: self._f[n].reshape(shape + sub) for n, k, sub in self.dtype.fields_})

    def flatten(self):
        return self.reshape(-1).copy()

    ravel = flatten

    def tolist(self):
        return [tuple(r) for r in self]

    def _order(self, order):
        if order is None:
            order = []
        if isinstance(order, str):
            order = [order]
        return list(order) + [n for n in self.dtype.names if n not in order]

    def argsort(self, axis=-1, kind=None, order=None):
        names = self._order(order)

        def lt(a, b):
            for n in names:
                x, y = self._f[n][a], self._f[n][b]
                if isinstance(x, np.ndarray):
                    xs, ys = list(x.flat), list(y.flat)
                else:
                    xs, ys = [x], [y]
                for p, q in zip(xs, ys):
                    if bool(p < q):
                        return True
                    if bool(q < p):
                        return False
            return False

        return mk(arg_sorted(list(range(len(self))), lt), "i")

    def sort(self, axis=-1, kind=None, order=None):
        idx = self.argsort(order=order)
        for n in self.dtype.names:
            self._f[n][...] = self._f[n][idx].copy()

    def __eq__(self, o):
        if isinstance(o, Rec):
            return mk([self[i] == o for i in range(len(self))], "b")
        if isinstance(o, RecArray):
            if not self.shape:
                return all_(truth_all(self._f[n] == o._f[n]) for n in self.dtype.names)
            return mk([self[i] == o[i] for i in range(len(self))], "b")
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else ~r

    __hash__ = None

    def item(self):
        return tuple(self._f[n].item() if not s else self._f[n] for n, k, s in self.dtype.fields_)

    def astype(self, t, **k):
        return self.copy()

    def fill(self, v):
        self[...] = v

    def squeeze(self):
        return self

    def __repr__(self):
        return f"<RecArray {self.shape}>"


def stack_rec(x):
    return RecArray(None, x[0].dtype, {n: mk(np.stack([np.asarray(a._f[n]).view(np.ndarray) for a in x]), k)
                                       for n, k, sub in x[0].dtype.fields_})


def from_tuples(v, dtype):
    if isinstance(v, Rec):
        v = tuple(v)
    if isinstance(v, RecArray):
        return v.copy()
    if isinstance(v, tuple):
        r = RecArray.zeros((1,), dtype)
        r[0] = v
        return RecArray(None, dtype, {n: r._f[n][0] if s else r._f[n].reshape(()) for n, k, s in dtype.fields_})
    v = list(v)
    r = RecArray.zeros(len(v), dtype)
    for i, t in enumerate(v):
        r[i] = t
    return r


# ----------------------------------------------------------------- numpy functions
OVERRIDES = {}


def bi_int(x=0, *a):
    from . import text

    if isinstance(x, str):
        if a:
            return int(str(x), *a)
        return text.parse_int(x)
    x = _unwrap_np(x)
    if isinstance(x, SymBool):
        return x.as_int()
    if isinstance(x, SymNum):
        return core.sym_trunc(x)
    return int(x, *a)


def bi_float(x=0.0):
    from . import text

    if isinstance(x, str):
        return text.parse_float(x)
    x = _unwrap_np(x)
    if is_sym(x):
        return core.to_real(x)
    return float(x)


def bi_bool(x=False):
    x = _unwrap_np(x)
    if isinstance(x, SymNum):
        return x != 0
    if isinstance(x, SymBool):
        return x
    return bool(x)


class _TypeMeta(type):
    def __instancecheck__(cls, x):
        if is_sym(x):
            k = elem_kind(x)
            return cls._sx_kind == k and cls._any
        return isinstance(x, cls._real)

    def __subclasscheck__(cls, c):
        return c is cls or (isinstance(c, type) and type(c) is not _TypeMeta and issubclass(c, cls._real))

    def __call__(cls, x=0):
        if isinstance(x, (list, tuple, np.ndarray)) and not (isinstance(x, np.ndarray) and x.ndim == 0):
            return mk(x, cls._sx_kind)
        x = _unwrap_np(x)
        if isinstance(x, str):
            x = bi_float(x) if cls._sx_kind == "f" else bi_int(x)
        if is_sym(x):
            return core.cast(x, cls._sx_kind if cls._sx_kind != "u" else "i")
        return cls._real(x)

    def __eq__(cls, o):
        return cls is o or (isinstance(o, type) and o is cls._real)

    def __hash__(cls):
        return hash(cls._real)


def _mktype(name, real, kind, any_=True):
    return _TypeMeta(name, (), {"_real": real, "_sx_kind": kind, "_any": any_})


class _RecMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (RecArray,))

    def __call__(cls, shape, dtype=None, *a, **k):
        if isinstance(shape, (SymNum, np.integer)):
            shape = int(shape)
        return RecArray(shape, dtype_(dtype))


class recarray_(metaclass=_RecMeta):
    pass


class _RecordMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, Rec)


class record_(metaclass=_RecordMeta):
    pass


def dtype_(t, *a, **k):
    if isinstance(t, RecDtype):
        return t
    if isinstance(t, list):
        return RecDtype(t)
    if isinstance(t, _TypeMeta):
        return np.dtype(t._real)
    return np.dtype(t, *a, **k)


def _kd(dtype, default):
    if dtype is None:
        return default
    if isinstance(dtype, RecDtype):
        return dtype
    if isinstance(dtype, list):
        return RecDtype(dtype)
    if isinstance(dtype, np.dtype) and dtype == np.dtype("O") and not dtype.metadata:
        return "O"
    k = core.kind_of_type(dtype)
    return k


def elementwise(name):
    if name in U1:
        def f1(x, *a, dtype=None, out=None, **k):
            if isinstance(x, RecArray):
                raise core.Unsupported(name)
            if not isinstance(x, (np.ndarray, list, tuple)):
                return wrap_scalar(U1[name][0](x))
            r = ufunc_call(None, name, "__call__", (mk(x),), {})
            if out is not None:
                out[...] = r
                return out
            return r
        f1.__name__ = name
        return f1

    def f2(x, y, *a, out=None, **k):
        if not isinstance(x, (np.ndarray, list, tuple)) and not isinstance(y, (np.ndarray, list, tuple)):
            return wrap_scalar(U2[name][0](x, y))
        r = ufunc_call(None, name, "__call__", (x, y), {})
        if out is not None:
            out[...] = r
            return out
        return r
    f2.__name__ = name
    f2.reduce = lambda a, axis=0, **k: reduce_(name, mk(a), axis)
    f2.outer = lambda a, b: ufunc_call(None, name, "outer", (a, b), {})
    return f2


class NpShim(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")
        self.__dict__.update(
            ndarray=np.ndarray, nan=np.nan, NaN=np.nan, inf=np.inf, pi=np.pi, newaxis=None, e=np.e,
            recarray=recarray_, record=record_, dtype=dtype_, errstate=np.errstate, generic=np.generic,
            integer=_mktype("integer", np.integer, "i"), floating=_mktype("floating", np.floating, "f"),
            number=_mktype("number", np.number, "f"), finfo=np.finfo, iinfo=np.iinfo,
            float64=_mktype("float64", np.float64, "f"), float32=_mktype("float32", np.float32, "f"),
            int64=_mktype("int64", np.int64, "i"), int32=_mktype("int32", np.int32, "i"),
            int16=_mktype("int16", np.int16, "i"), int8=_mktype("int8", np.int8, "i"),
            int_=_mktype("int_", np.int_, "i"), uint8=_mktype("uint8", np.uint8, "i", False),
            uint16=_mktype("uint16", np.uint16, "i", False), uint32=_mktype("uint32", np.uint32, "i", False),
            uint=_mktype("uint", np.uint, "i", False), intp=_mktype("intp", np.intp, "i"),
            uint64=_mktype("uint64", np.uint64, "i", False),
            bool_=_mktype("bool_", np.bool_, "b"), float_=_mktype("float64", np.float64, "f"),
            linalg=Linalg(), testing=np.testing, ufunc=np.ufunc, typing=None,
        )
        for n in set(U1) | set(U2):
            self.__dict__[n] = elementwise(n)
        d = self.__dict__
        d["abs"] = d["absolute"]
        d["mod"] = d["remainder"]
        d["divide"] = d["true_divide"]
        d["atan2"] = d["arctan2"]
        d["hypot"] = elementwise("hypot")
        d["r_"] = R_()
        d["c_"] = C_()
        d["pow"] = d["power"]
        d["asin"], d["acos"], d["atan"] = d["arcsin"], d["arccos"], d["arctan"]
        d["random"] = Random()

    # creation ---------------------------------------------------------------
    def array(self, x, dtype=None, copy=True, order=None, ndmin=0, subok=False):
        if isinstance(x, (RecArray, Rec)) and dtype is None:
            return x.copy()
        k = _kd(dtype, None)
        if isinstance(k, RecDtype):
            if isinstance(x, (list, tuple)) and x and isinstance(x[0], RecArray):
                return stack_rec(x)
            return from_tuples(x, k)
        if isinstance(x, (list, tuple)) and x and isinstance(x[0], (Rec,)) and k is None:
            return from_tuples(list(x), x[0].dtype)
        if isinstance(x, (list, tuple)) and x and isinstance(x[0], RecArray) and k is None:
            return stack_rec(x)
        if k == "O":
            r = np.array(x, dtype=object)
            return r
        if isinstance(x, np.ndarray) and x.dtype.kind in "US":
            return x.copy()
        if isinstance(x, SymArray):
            r = x.astype(k) if k is not None and k != kind_of(x) else x.copy()
        else:
            if isinstance(x, (list, tuple)) and any(isinstance(v, str) for v in x) and k is None:
                return np.array(x)
            r = mk(x, k)
        while r.ndim < ndmin:
            r = r[None]
        return r

    def asarray(self, x, dtype=None, **k):
        kd = _kd(dtype, None)
        if isinstance(x, RecArray):
            return x
        if isinstance(x, SymArray) and (kd is None or kd == kind_of(x)):
            return x
        return self.array(x, dtype)

    def ascontiguousarray(self, x, dtype=None):
        r = self.asarray(x, dtype)
        return r.reshape(1) if isinstance(r, np.ndarray) and r.ndim == 0 else r

    asanyarray = asarray
    asfortranarray = asarray

    def zeros(self, shape, dtype=None, order=None):
        k = _kd(dtype, "f")
        if isinstance(k, RecDtype):
            return RecArray.zeros(shape, k)
        return new(shape, k, 0)

    def ones(self, shape, dtype=None, order=None):
        k = _kd(dtype, "f")
        return new(shape, k, 1)

    def full(self, shape, v, dtype=None, order=None):
        if isinstance(v, (np.ndarray, list, tuple)):
            v = mk(v)
            r = new(shape, _kd(dtype, infer_kind(v)), 0)
            r[...] = v
            return r
        k = _kd(dtype, elem_kind(_unwrap_np(v)))
        if isinstance(k, RecDtype):
            r = RecArray.zeros(shape, k)
            r[...] = v
            return r
        return new(shape, k, v)

    def empty(self, shape, dtype=None, order=None):
        k = _kd(dtype, "f")
        if isinstance(k, RecDtype):
            return RecArray(shape if isinstance(shape, tuple) else int(shape), k)
        return new(shape, k, lambda: uninit(k))

    def zeros_like(self, a, dtype=None, **k):
        if isinstance(a, RecArray):
            return RecArray.zeros(a.shape, a.dtype)
        a = mk(a)
        return new(a.shape, _kd(dtype, infer_kind(a)), 0)

    def ones_like(self, a, dtype=None, **k):
        a = mk(a)
        return new(a.shape, _kd(dtype, infer_kind(a)), 1)

    def empty_like(self, a, dtype=None, **k):
        if isinstance(a, RecArray):
            return RecArray(a.shape, a.dtype)
        a = mk(a)
        k = _kd(dtype, infer_kind(a))
        return new(a.shape, k, lambda: uninit(k))

    def full_like(self, a, v, dtype=None, **k):
        a = mk(a)
        return new(a.shape, _kd(dtype, infer_kind(a)), v)

    def eye(self, n, m=None, k=0, dtype=None, **kw):
        return mk(np.eye(int(n), m, k), _kd(dtype, "f"))

    def identity(self, n, dtype=None):
        return self.eye(n, dtype=dtype)

    def arange(self, *a, dtype=None, **k):
        a = [_unwrap_np(v) for v in a]
        if any(is_sym(v) for v in a):
            a = [int(v) for v in a]
        return mk(np.arange(*a), _kd(dtype, None))

    def linspace(self, a, b, n=50, **k):
        if is_sym(a) or is_sym(b):
            return mk([a + (b - a) * (i / (n - 1)) for i in range(n)], "f")
        return mk(np.linspace(a, b, n, **k), "f")

    def copy(self, a, **k):
        return a.copy() if isinstance(a, (np.ndarray, RecArray)) else mk(a)

    def atleast_1d(self, a):
        if isinstance(a, RecArray):
            return a if a.shape else a.reshape(1)
        a = mk(a)
        return a if a.ndim else a.reshape(1)

    def atleast_2d(self, a):
        a = mk(a)
        return a if a.ndim >= 2 else a.reshape(1, -1)

    # joining ----------------------------------------------------------------
    def concatenate(self, seq, axis=0, dtype=None, **k):
        seq = [mk(s) for s in seq]
        if any(isinstance(s, RecArray) for s in seq):
            return from_tuples([t for s in seq for t in s], seq[0].dtype)
        ks = [infer_kind(s) for s in seq if s.size]
        kd = "f" if "f" in ks or not ks else "i" if "i" in ks else "b"
        return mk(np.concatenate([plain(s) for s in seq], axis), kd)

    def stack(self, seq, axis=0, **k):
        return mk(np.stack([plain(mk(s)) for s in seq], axis))

    def vstack(self, seq, **k):
        return mk(np.vstack([plain(mk(s)) for s in seq]))

    def hstack(self, seq, **k):
        return mk(np.hstack([plain(mk(s)) for s in seq]))

    def column_stack(self, seq):
        return mk(np.column_stack([plain(mk(s)) for s in seq]))

    def append(self, a, v, axis=None):
        if isinstance(a, RecArray):
            if not isinstance(v, RecArray):
                v = from_tuples([v] if isinstance(v, (tuple, Rec)) else list(v), a.dtype)
            if not v.shape:
                v = v.reshape(1)
            return self.concatenate([a, v])
        if axis is None:
            a, v = mk(a).reshape(-1), mk(v).reshape(-1)
            axis = 0
        return self.concatenate([a, v], axis)

    # reductions -------------------------------------------------------------
    def sum(self, a, axis=None, **k):
        if isinstance(a, types.GeneratorType):
            a = list(a)
        a = mk(a)
        if infer_kind(a) == "b":
            a = a.astype("i")
        return reduce_("add", a, axis, **{x: y for x, y in k.items() if x == "keepdims"})

    def prod(self, a, axis=None, **k):
        return reduce_("multiply", a, axis)

    def mean(self, a, axis=None, **k):
        return mk(a).mean(axis)

    def average(self, a, axis=None, weights=None):
        if weights is None:
            return self.mean(a, axis)
        return self.sum(mk(a) * mk(weights), axis) / self.sum(mk(weights), axis)

    def max(self, a, axis=None, initial=np._NoValue, **k):
        return reduce_("maximum", a, axis, initial=initial)

    amax = max

    def min(self, a, axis=None, initial=np._NoValue, **k):
        return reduce_("minimum", a, axis, initial=initial)

    amin = min

    def nansum(self, a, axis=None):
        return self.sum(mk([0.0 if np_isnan(x) else x for x in mk(a).flat]), axis)

    def cumsum(self, a, axis=None, **k):
        return ufunc_call(None, "add", "accumulate", (mk(a),), {})

    def argmin(self, a, axis=None):
        return mk(a).argmin(axis)

    def argmax(self, a, axis=None):
        return mk(a).argmax(axis)

    def all(self, a, axis=None, **k):
        return np_all(a, axis)

    def any(self, a, axis=None, **k):
        return np_any(a, axis)

    def count_nonzero(self, a, axis=None):
        r = 0
        for x in mk(a).flat:
            t = truth(x)
            r = r + (t.as_int() if isinstance(t, SymBool) else int(t))
        return r

    def nonzero(self, a):
        return nonzero(a)

    def flatnonzero(self, a):
        return nonzero(mk(a).reshape(-1))[0]

    def argwhere(self, a):
        nz = nonzero(a)
        if not nz:
            return mk(np.empty((0, 0), int))
        return mk(np.array([plain(x) for x in nz], dtype=object).T.reshape(-1, len(nz)), "i")

    def where(self, c, *ab):
        if not ab:
            return nonzero(c)
        a, b = ab
        if not any(isinstance(v, (np.ndarray, list, tuple)) for v in (c, a, b)):
            return pick(c, a, b)
        ks = [infer_kind(x) if isinstance(x, np.ndarray) else elem_kind(_unwrap_np(x)) for x in (a, b)]
        kd = "f" if "f" in ks else "i" if "i" in ks else ks[0]
        r = np.frompyfunc(pick, 3, 1)(wrapsym(c), wrapsym(a), wrapsym(b))
        return mk(r, kd)

    def isin(self, a, b, **k):
        bs = list(mk(b).flat)
        return mk(np.frompyfunc(lambda x: any_(x == y for y in bs), 1, 1)(plain(mk(a))), "b")

    in1d = isin

    def array_equal(self, a, b, **k):
        if isinstance(a, RecArray) or isinstance(b, RecArray):
            return all_((a == b).flat) if a.shape == b.shape else False
        a, b = mk(a), mk(b)
        if a.shape != b.shape:
            return False
        return all_((a == b).flat) if a.ndim else truth(a.item() == b.item())

    def isclose(self, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        def f(x, y):
            x, y = _unwrap_np(x), _unwrap_np(y)
            return abs(x - y) <= atol + rtol * abs(y)
        if not isinstance(a, (np.ndarray, list, tuple)) and not isinstance(b, (np.ndarray, list, tuple)):
            return f(a, b)
        return mk(np.frompyfunc(f, 2, 1)(wrapsym(a), wrapsym(b)), "b")

    def allclose(self, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        r = self.isclose(a, b, rtol, atol)
        return all_(r.flat) if isinstance(r, np.ndarray) else r

    # sorting ----------------------------------------------------------------
    def sort(self, a, axis=-1, kind=None, order=None):
        a = a.copy() if isinstance(a, RecArray) else self.array(a)
        a.sort(order=order)
        return a

    def argsort(self, a, axis=-1, kind=None, order=None):
        return a.argsort(order=order) if isinstance(a, RecArray) else mk(a).argsort()

    def lexsort(self, keys, axis=-1):
        keys = [list(mk(k)) for k in keys][::-1]

        def lt(i, j):
            for k in keys:
                if bool(k[i] < k[j]):
                    return True
                if bool(k[j] < k[i]):
                    return False
            return False
        return mk(arg_sorted(list(range(len(keys[0]))), lt), "i")

    def unique(self, a, **k):
        if k:
            raise core.Unsupported("unique with options")
        a = mk(a)
        vals = py_sorted(list(a.flat))
        out = []
        for v in vals:
            if not out or bool(out[-1] != v):
                out.append(v)
        return mk(out or np.empty(0), infer_kind(a))

    def searchsorted(self, a, v, side="left", sorter=None):
        a = list(mk(a))

        def one(x):
            n = 0
            for y in a:
                if bool(y < x if side == "left" else y <= x):
                    n += 1
                else:
                    break
            return n
        if isinstance(v, (np.ndarray, list, tuple)):
            return mk([one(x) for x in v], "i")
        return np.int64(one(v))

    def clip(self, a, lo, hi, **k):
        if lo is not None:
            a = self.maximum(a, lo)
        if hi is not None:
            a = self.minimum(a, hi)
        return a

    def round(self, a, nd=0):
        if isinstance(a, np.ndarray):
            return mk(np.frompyfunc(lambda x: core.to_real(core.sym_round(x, nd)) if elem_kind(x) == "f" else x, 1, 1)(plain(a)), infer_kind(a))
        a = _unwrap_np(a)
        return core.sym_round(a, nd) if is_sym(a) else np.round(a, nd)

    around = round

    # linear algebra ---------------------------------------------------------
    def dot(self, a, b, out=None):
        if not isinstance(a, (np.ndarray, list, tuple)) or not isinstance(b, (np.ndarray, list, tuple)):
            return a * b
        a, b = mk(a), mk(b)
        r = np.dot(plain(a), plain(b))
        if isinstance(r, np.ndarray) and r.ndim:
            return mk(r)
        return wrap_scalar(r.item() if isinstance(r, np.ndarray) else r)

    def matmul(self, a, b):
        return self.dot(a, b)

    def vdot(self, a, b):
        return self.dot(mk(a).reshape(-1), mk(b).reshape(-1))

    def inner(self, a, b):
        return self.dot(a, b)

    def outer(self, a, b):
        a, b = mk(a).reshape(-1), mk(b).reshape(-1)
        return mk([[x * y for y in b] for x in a])

    def cross(self, a, b, **k):
        a, b = mk(a), mk(b)
        if a.ndim > 1 or b.ndim > 1:
            return mk([self.cross(x, y) for x, y in zip(a, b)])
        return mk([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])

    def trace(self, a):
        return self.sum(mk([a[i, i] for i in range(len(a))]))

    def diag(self, a, k=0):
        return mk(np.diag(plain(mk(a)), k))

    # text -------------------------------------------------------------------
    def fromstring(self, s, dtype=float, sep="", count=-1):
        from . import text

        s = text.resolve_pads(s)
        parts = str.split(s) if sep.strip() == "" else str.split(s, sep)
        k = _kd(dtype, "f")
        vals = []
        for p in parts:
            try:
                v = text.parse_float(p) if k == "f" else text.parse_int(p)
            except ValueError:
                break
            vals.append(v)
        return mk(vals if vals else np.empty(0), k)

    def savetxt(self, fname, X, fmt="%.18e", delimiter=" ", newline="\n", header="", footer="",
                comments="# ", encoding=None):
        from . import text, shims

        X = self.asarray(X)
        if X.ndim == 0:
            raise ValueError("Expected 1D or 2D array, got 0D array instead")
        if X.ndim == 1:
            X = X.reshape(-1, 1)
        ncol = X.shape[1]
        if isinstance(fmt, (list, tuple)):
            if len(fmt) != ncol:
                raise AttributeError("fmt has wrong shape")
            line = delimiter.join(fmt)
        else:
            n = fmt.count("%")
            if n == 1:
                line = delimiter.join([fmt] * ncol)
            elif n != ncol:
                raise ValueError(f"fmt has wrong number of % formats:  {fmt}")
            else:
                line = fmt
        own = not hasattr(fname, "write")
        fh = shims.vfs_open(fname, "w") if own else fname
        if header:
            fh.write(comments + header.replace("\n", "\n" + comments) + newline)
        for row in X:
            fh.write(text.pct_format(line, tuple(row)) + newline)
        if footer:
            fh.write(comments + footer + newline)
        if own:
            fh.close()

    def loadtxt(self, fname, dtype=float, comments="#", delimiter=None, skiprows=0, usecols=None,
                max_rows=None, unpack=False, ndmin=0, **kw):
        from . import text, shims

        own = not hasattr(fname, "readline")
        fh = shims.vfs_open(fname, "r") if own else fname
        rows = []
        skip = int(skiprows)
        while True:
            if max_rows is not None and len(rows) >= int(max_rows):
                break
            ln = fh.readline()
            if not ln:
                break
            if skip > 0:
                skip -= 1
                continue
            ln = str(ln)
            if comments and comments in ln:
                ln = ln[: ln.index(comments)]
            p = text.resolve_pads(ln)
            p = str.split(p) if delimiter is None else str.split(p, delimiter)
            if not p:
                continue
            if usecols is not None:
                uc = [usecols] if isinstance(usecols, int) else usecols
                p = [p[c] for c in uc]
            k = _kd(dtype, "f")
            rows.append([text.parse_float(v) if k == "f" else text.parse_int(v) for v in p])
        if own:
            fh.close()
        k = _kd(dtype, "f")
        r = mk(rows if rows else np.empty((0,)), k)
        r = self.squeeze(r) if ndmin == 0 and r.ndim > 1 else r
        while r.ndim < ndmin:
            r = r[None]
        return r.T if unpack else r

    genfromtxt = loadtxt

    def squeeze(self, a, **k):
        r = np.squeeze(plain(mk(a)), **k)
        return mk(r)

    def isscalar(self, x):
        return is_sym(x) or np.isscalar(x)

    def iterable(self, x):
        return not is_sym(x) and np.iterable(x)

    def ndim(self, x):
        return 0 if is_sym(x) else np.ndim(x)

    def shape(self, x):
        return () if is_sym(x) else mk(x).shape

    def size(self, x):
        return 1 if is_sym(x) else mk(x).size

    def fill_diagonal(self, a, v):
        for i in range(min(a.shape)):
            a[i, i] = v

    def sinh(self, x):
        return np.sinh(x)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        real = getattr(np, n)
        if isinstance(real, type) or not callable(real):
            return real
        return Fallback(n, real)


class Fallback:
    def __init__(self, n, f):
        self.n, self.f = n, f

    def __call__(self, *a, **k):
        if a and isinstance(a[0], RecArray):
            return self.rec(*a, **k)
        sym = [False]

        def conv(x):
            if is_sym(x):
                sym[0] = True
            if isinstance(x, (Rec, RecArray)):
                raise core.Unsupported(f"numpy.{self.n} of records")
            if isinstance(x, SymArray):
                sym[0] = sym[0] or any(is_sym(v) for v in x.flat)
                return plain(x)
            if isinstance(x, (list, tuple)):
                t = [conv(v) for v in x]
                return t if isinstance(x, list) else tuple(t)
            if isinstance(x, _TypeMeta):
                return x._real
            return x
        try:
            return out_(self.f(*[conv(x) for x in a], **{q: conv(v) for q, v in k.items()}))
        except Exception as e:
            if sym[0] or isinstance(e, TypeError):
                raise core.Unsupported(f"numpy.{self.n}: {e}")
            raise

    def rec(self, x, *a, **k):
        if self.n not in ("resize", "delete", "roll", "flip", "flipud", "repeat", "tile", "take", "compress", "array_split", "split"):
            raise core.Unsupported(f"numpy.{self.n} of records")
        if self.n == "resize" and not len(x):
            return RecArray.zeros(a[0] if a else k["new_shape"], x.dtype)
        idx = self.f(np.arange(len(x)), *a, **k)
        return [x[i] for i in idx] if isinstance(idx, list) else x[idx]


def pick(c, a, b):
    c = truth(c)
    if isinstance(c, SymBool):
        return core.ite(c, lambda: _unwrap_np(a), lambda: _unwrap_np(b))
    return a if c else b


class R_:
    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        parts = []
        for k in key:
            if isinstance(k, slice):
                parts.append(mk(np.r_[k]))
            elif isinstance(k, (np.ndarray, list, tuple)):
                parts.append(mk(k).reshape(-1))
            else:
                parts.append(mk([_unwrap_np(k)]))
        return SHIM.concatenate(parts)


class C_:
    def __getitem__(self, key):
        cols = [mk(k) for k in key]
        return mk(np.column_stack([plain(c) for c in cols]))


class Linalg(types.ModuleType):
    def __init__(self):
        super().__init__("numpy.linalg")
        self.LinAlgError = np.linalg.LinAlgError

    def norm(self, x, ord=None, axis=None, keepdims=False):
        x = mk(x)
        if ord not in (None, 2, "fro"):
            raise core.Unsupported("norm ord")
        if axis is None or x.ndim == 1:
            s = 0.0
            for v in x.flat:
                s = s + v * v
            return wrap_scalar(_sqrt(s))
        return SHIM.sqrt(reduce_("add", x * x, axis, keepdims))

    def det(self, a):
        a = mk(a)
        n = a.shape[0]
        if n == 1:
            return a[0, 0]
        if n == 2:
            return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
        r = 0.0
        for j in range(n):
            minor = mk([[a[i, c] for c in range(n) if c != j] for i in range(1, n)])
            r = r + (-1) ** j * a[0, j] * self.det(minor)
        return r

    def inv(self, a):
        if core.ENG.opaque_linalg:
            return self._opaque(a)
        a = mk(a)
        n = a.shape[0]
        d = self.det(a)
        if bool(d == 0):
            raise np.linalg.LinAlgError("Singular matrix")

        def cof(i, j):
            m = mk([[a[r, c] for c in range(n) if c != j] for r in range(n) if r != i])
            return (-1) ** (i + j) * self.det(m) if n > 1 else 1.0
        return mk([[cof(j, i) / d for j in range(n)] for i in range(n)])

    def solve(self, a, b):
        return SHIM.dot(self.inv(a), b)

    def _opaque(self, a):
        """An arbitrary matrix with a non-negative diagonal: for (pseudo)inverses of normal equations, whose values nothing may depend on."""
        a = mk(a)
        r, c = a.shape
        out = [[core.ENG.fresh_real("inv") for _ in range(r)] for _ in range(c)]
        for i in range(min(r, c)):
            core.ENG.define(out[i][i].e >= 0)
            core.ENG.nonneg[out[i][i].e.get_id()] = True
        return mk(out)

    def pinv(self, a, *args, **k):
        if core.ENG.opaque_linalg:
            return self._opaque(a)
        raise core.Unsupported("numpy.linalg.pinv")

    def matrix_rank(self, a, *args, **k):
        if core.ENG.opaque_linalg:
            r = core.ENG.fresh_int("rank")
            core.ENG.define(core.z3.And(r.e >= 0, r.e <= min(mk(a).shape)))
            return r
        raise core.Unsupported("numpy.linalg.matrix_rank")

    def __getattr__(self, n):
        raise core.Unsupported("numpy.linalg." + n)


class Random(types.ModuleType):
    def __init__(self):
        super().__init__("numpy.random")

    def __getattr__(self, n):
        raise core.Unsupported("numpy.random." + n)


SHIM = NpShim()
for _n in ("all any where argmin argmax sort argsort nonzero flatnonzero argwhere sum prod mean average max amax min "
           "amin cumsum count_nonzero isin array_equal isclose allclose unique searchsorted clip round around dot "
           "vdot inner outer cross trace concatenate stack vstack hstack column_stack append copy zeros_like "
           "ones_like empty_like full_like atleast_1d atleast_2d lexsort savetxt squeeze fill_diagonal ndim shape size diag").split():
    OVERRIDES[_n] = getattr(SHIM, _n)
OVERRIDES["norm"] = SHIM.linalg.norm
OVERRIDES["det"] = SHIM.linalg.det
OVERRIDES["inv"] = SHIM.linalg.inv
