"""Symbolic numbers inside text.

Formatting a symbolic number yields a token (private-use characters) that stands for
its decimal rendering.  Reading the token back yields the value that the printed digits
denote: the number itself for integers and for full-precision renderings, and an
arbitrary number within half a unit of the last printed digit otherwise.
A field width produces a padding mark in front of the token; whether it is blank is a
decision about the value, taken when the text is read and only if it matters.
"""
import re

import z3
from fractions import Fraction

from . import core

OPEN, CLOSE, PAD, PADZ = "\ue000", "\ue001", "\ue002", "\ue003"
BASE = 0xE100
TOK = re.compile(f"{OPEN}([\ue100-\ue1ff]+){CLOSE}")
PADTOK = re.compile(f"{PAD}{OPEN}([\ue100-\ue1ff]+){CLOSE}")
SPEC = re.compile(r"^(?:(.)?([<>=^]))?([-+ ])?(#)?(0)?(\d+)?(,)?(?:\.(\d+))?([a-zA-Z%])?$")
PCT = re.compile(r"%(?:\((\w+)\))?([-+ #0]*)(\*|\d+)?(?:\.(\d+))?([diouxXeEfFgGcrs%])")


class Tok:
    __slots__ = ("val", "conv", "prec", "width", "read")

    def __init__(self, val, conv, prec, width):
        self.val, self.conv, self.prec, self.width = val, conv, prec, width
        self.read = None


def _enc(i):
    s = ""
    while True:
        s = chr(BASE + i % 256) + s
        i //= 256
        if i == 0:
            return s


def _dec(s):
    n = 0
    for c in s:
        n = n * 256 + ord(c) - BASE
    return n


def put(val, conv="", prec=None, width=0, left=False):
    eng = core.ENG
    eng.tokens.append(Tok(val, conv, prec, width))
    t = OPEN + _enc(len(eng.tokens) - 1) + CLOSE
    if width:
        return t + " " if left else PAD + t
    return t


def make_token(eng, val, spec):
    if isinstance(val, core.SymBool):
        return format(bool(val), spec)
    if spec == "":
        return put(val, "r" if not val.is_int else "d")
    m = SPEC.match(spec)
    if not m:
        raise core.Unsupported(f"format spec {spec!r}")
    fill, align, sign, alt, zero, width, comma, prec, conv = m.groups()
    width = int(width) if width else 0
    prec = int(prec) if prec is not None else None
    if conv is None:
        conv = "d" if val.is_int else ("r" if prec is None else "g")
    if conv == "d" and not val.is_int:
        raise ValueError("Unknown format code 'd' for object of type 'float'")
    if conv in "fFeEgG" and prec is None:
        prec = 6
    return put(val, conv, prec, 0 if zero else width, left=align == "<")


def has_tok(s):
    return isinstance(s, str) and (OPEN in s or PAD in s)


def find(s):
    """The single token a stripped string consists of, or None."""
    m = TOK.fullmatch(s)
    if m is None:
        return None
    i = _dec(m.group(1))
    return core.ENG.tokens[i] if i < len(core.ENG.tokens) else None


def read_val(t):
    """The number denoted by the printed digits."""
    if t.read is None:
        x = t.val
        if t.conv in ("d", "i", "r", "s", "u") or x.is_int and t.conv in "fF":
            t.read = x
            if t.conv in ("d", "i", "u") and not x.is_int:
                t.read = core.sym_trunc(x)
        else:
            v = core.ENG.fresh_real("printed")
            eng = core.ENG
            p = t.prec
            if t.conv in "fF":
                h = z3.RealVal(Fraction(1, 2 * 10 ** p) + Fraction(1, 10 ** 12))
                eng.define(z3.And(v.e - x.r() <= h, x.r() - v.e <= h))
                eng.keep.append(v)
            else:
                d = p if t.conv in "eE" else max(p, 1) - 1
                k = z3.RealVal(Fraction(1, 2 * 10 ** d) * Fraction(1001, 1000))
                ax = z3.If(x.r() >= 0, x.r(), -x.r())
                eng.define(z3.And(v.e - x.r() <= k * ax, x.r() - v.e <= k * ax))
            t.read = v
    return t.read


def is_int_text(t):
    return t.conv in ("d", "i", "u")


def resolve_pads(s):
    """Decide, where it matters, whether padding marks are blank."""
    if PAD not in s:
        return s
    out = []
    pos = 0
    for m in PADTOK.finditer(s):
        out.append(s[pos:m.start()])
        prev = s[m.start() - 1] if m.start() else "\n"
        t = core.ENG.tokens[_dec(m.group(1))]
        if prev.isspace():
            out.append(" ")
        elif bool(narrower(t)):
            out.append(" ")
        out.append(m.group(0)[1:])
        pos = m.end()
    out.append(s[pos:])
    return "".join(out)


def narrower(t):
    """Is the rendering shorter than the field?"""
    x = t.val
    if t.conv in ("d", "i", "u"):
        p, h = -1, 0
    elif t.conv in "fF":
        p = t.prec if t.prec else -1
        h = Fraction(1, 2 * 10 ** t.prec)
    else:
        return True
    digits = t.width - 1 - p  # width available to sign and integer digits
    if t.conv in ("d", "i", "u") and not x.is_int:
        x = core.sym_trunc(x)
    # len < width  <=>  (x >= 0 and int digits < digits) or (x < 0 and int digits + 1 < digits)
    hi = 10 ** max(digits - 1, 0) - h
    lo = -(10 ** max(digits - 2, 0)) + h
    a = x < hi
    b = x > lo
    if isinstance(a, bool) and isinstance(b, bool):
        return a and b
    return core.mkbool(z3.And(core.bterm(a), core.bterm(b)))


class SymStr(str):
    """Text read from a (virtual) file; keeps its type through common operations."""

    def _w(self, v):
        return SymStr(v)

    def strip(self, *a):
        return SymStr(str.strip(self, *a))

    def rstrip(self, *a):
        return SymStr(str.rstrip(self, *a))

    def lstrip(self, *a):
        return SymStr(str.lstrip(self, *a))

    def split(self, *a, **k):
        return [SymStr(v) for v in str.split(self, *a, **k)]

    def splitlines(self, *a):
        return [SymStr(v) for v in str.splitlines(self, *a)]

    def replace(self, *a):
        return SymStr(str.replace(self, *a))

    def __getitem__(self, i):
        return SymStr(str.__getitem__(self, i))

    def __add__(self, o):
        return SymStr(str.__add__(self, o))


def parse_int(s):
    """int(text)"""
    t = find(str.strip(s)) if has_tok(s) else None
    if t is None:
        if has_tok(s):
            raise ValueError("invalid literal for int()")
        return int(str(s))
    if not is_int_text(t):
        raise ValueError("invalid literal for int() with base 10: a decimal number")
    return read_val(t)


def parse_float(s):
    t = find(str.strip(s)) if has_tok(s) else None
    if t is None:
        if has_tok(s):
            raise ValueError("could not convert string to float")
        return float(str(s))
    return core.to_real(read_val(t))


def pct_format(fmt, args):
    """fmt % args with symbolic arguments."""
    if not isinstance(args, tuple):
        args = (args,)
    out = []
    pos = 0
    ai = 0
    for m in PCT.finditer(fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        name, flags, width, prec, conv = m.groups()
        if conv == "%":
            out.append("%")
            continue
        if width == "*" or name:
            raise core.Unsupported("format " + m.group(0))
        if ai >= len(args):
            raise TypeError("not enough arguments for format string")
        a = core._unwrap_np(args[ai])
        ai += 1
        if isinstance(a, core.SymBool):
            a = bool(a)
        if not isinstance(a, core.SymNum):
            out.append(m.group(0) % (a,))
            continue
        w = int(width) if width else 0
        p = int(prec) if prec is not None else None
        if "0" in flags:
            w = 0
        if conv in "diu":
            if not a.is_int:
                a = core.sym_trunc(a)
                if not isinstance(a, core.SymNum):
                    out.append(m.group(0) % (a,))
                    continue
            out.append(put(a, "d", None, w, "-" in flags))
        elif conv in "fFeEgG":
            out.append(put(core.to_real(a), conv, 6 if p is None else p, w, "-" in flags))
        elif conv in "sr":
            out.append(put(a, "d" if a.is_int else "r", None, w, "-" in flags))
        else:
            raise core.Unsupported("format " + m.group(0))
    if ai != len(args):
        raise TypeError("not all arguments converted during string formatting")
    out.append(fmt[pos:])
    return "".join(out)


def any_sym(v):
    if isinstance(v, tuple):
        return any(any_sym(x) for x in v)
    return core.is_sym(core._unwrap_np(v)) if not isinstance(v, str) else False
