"""C02: lens distortion follows the Brown-affine model and is undone by correction."""
from checks.common import cal

PROP = "C02"
BOUNDS = ("model formula, neutral parameters and pure scale and shear: all points of a 40 mm sensor and all coefficients; undoing radial and decentering distortion: "
          "all points along the axes for 8 coefficient sets, and all coefficients of moderate size, one at a time, at 4 (thorough 8) points")
OUTSIDE = "undoing distortion with several large coefficients at once; distortions beyond a few percent of the image radius, for which the iteration need not converge"
ASSUMPTIONS = ["real arithmetic", "the decentering and radial terms of y are taken at the already displaced x, as in the original library"]
CONFIG = {"qtimeout": 8000, "expand": True}

NEUTRAL = [0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 0.0]
IDX = {"k1": 0, "k2": 1, "k3": 2, "p1": 3, "p2": 4}
PTS = [(6.0, 4.5), (-8.0, 6.0), (3.0, -4.0), (0.0, 5.0), (-4.0, -3.0), (0.375, 0.5), (7.5, -10.0), (-2.5, 6.0)]
SETS = [{k: g} for k in IDX for g in (1, -1)]


def cases(tier):
    deep = tier == "thorough"
    cs = [{"name": n, "args": {"what": n}} for n in ("neutral", "shift", "formula", "origin", "scale", "shear", "shifted")]
    for k in IDX:
        for i, p in enumerate(PTS if deep else PTS[:4]):
            for sign in (1, -1):
                cs.append({"name": f"coef-{k}-{i}-{'np'[sign > 0]}", "args": {"what": "coef", "k": k, "p": p, "sign": sign, "tol": None if k == "k1" else 0.01}, "cost": 20})
            cs.append({"name": f"mixed-{k}-{i}", "args": {"what": "coef", "k": k, "p": p, "sign": (-1) ** i, "scx": (1.25, 0.875)[i % 2], "tol": 0.01}, "cost": 20})
            if deep and k in ("k2", "p1", "p2"):
                cs.append({"name": f"fine-{k}-{i}", "args": {"what": "coef", "k": k, "p": p, "sign": (-1) ** i}, "cost": 90})
    for i, s in enumerate(SETS):
        for ax in range(2):
            cs.append({"name": f"axis-{i}-{ax}", "args": {"what": "axis", "s": s, "ax": ax}, "cost": 30})
    return cs


def run(ctx, what, **k):
    globals()[what](ctx, ctx.mod("trafo"), **k)


def ap(ctx, she=None, **v):
    a = list(NEUTRAL)
    for n, x in v.items():
        a[IDX[n]] = x
    return a


def point(ctx, lo=-20, hi=20):
    return ctx.real("x", lo, hi), ctx.real("y", lo, hi)


def neutral(ctx, T):
    x, y = point(ctx, -1000, 1000)
    a = ctx.arr(NEUTRAL)
    for f, n in ((T.distort_brown_affine, "distorting"), (T.correct_brown_affine, "correcting")):
        u, v = f(x, y, a)
        ctx.observe(n, [u, v])
        ctx.close(u, x, 1e-9, n + " with neutral parameters keeps x")
        ctx.close(v, y, 1e-9, n + " with neutral parameters keeps y")


def shift(ctx, T):
    """Without distortion only the principal point matters."""
    x, y = point(ctx)
    xh, yh = ctx.real("xh", -5, 5), ctx.real("yh", -5, 5)
    c = cal(ctx, None, None, [xh, yh, 100.0])
    u, v = T.flat_to_dist(x, y, c)
    ctx.observe("dist", [u, v])
    ctx.close(u, x + xh, 1e-9, "the principal point is added to x")
    ctx.close(v, y + yh, 1e-9, "the principal point is added to y")
    u, v = T.dist_to_flat(x, y, c)
    ctx.observe("flat", [u, v])
    ctx.close(u, x - xh, 1e-9, "the principal point is taken off x")
    ctx.close(v, y - yh, 1e-9, "the principal point is taken off y")
    ctx.close(c.int_par.xh, xh, 0, "the calibration keeps its principal point")


def model(ctx, x, y, k, sin, cos):
    """The documented formulas."""
    q = x * x + y * y
    rad = k[0] * q + k[1] * q * q + k[2] * q * q * q
    x2 = x + x * rad + k[3] * (q + 2 * x * x) + 2 * k[4] * x * y
    y2 = y + y * rad + k[4] * (q + 2 * y * y) + 2 * k[3] * x2 * y
    return k[5] * x2 - sin * y2, cos * y2


def formula(ctx, T):
    x, y = point(ctx)
    k = [ctx.real(f"k{i}", -0.01, 0.01) for i in range(5)] + [ctx.real("scx", 0.5, 2)]
    she = ctx.angle("she")
    u, v = T.distort_brown_affine(x, y, ctx.arr(k + [she]))
    ctx.observe("dist", [u, v])
    U, V = model(ctx, x, y, k, ctx.sin(she), ctx.cos(she))
    ctx.close(u, U, 1e-6, "x follows the model", rel=1e3)
    ctx.close(v, V, 1e-6, "y follows the model", rel=1e3)


def shifted(ctx, T):
    """The sensor-level conversions distort about the sensor centre."""
    x, y = point(ctx, -10, 10)
    xh, yh = ctx.real("xh", -5, 5), ctx.real("yh", -5, 5)
    k = [ctx.real(f"k{i}", -0.001, 0.001) for i in range(5)] + [ctx.real("scx", 0.5, 2)]
    c = cal(ctx, None, None, [xh, yh, 100.0], None, k + [0.0])
    u, v = T.flat_to_dist(x, y, c)
    U, V = model(ctx, x + xh, y + yh, k, 0, 1)
    ctx.close(u, U, 1e-6, "distortion acts on coordinates relative to the sensor centre", rel=1e3)
    ctx.close(v, V, 1e-6, "distortion acts on coordinates relative to the sensor centre", rel=1e3)


def origin(ctx, T):
    k = [ctx.real(f"k{i}", -1, 1) for i in range(5)] + [ctx.real("scx", 0.5, 2)]
    she = ctx.angle("she")
    for f in (T.distort_brown_affine, T.correct_brown_affine):
        u, v = f(0.0, 0.0, ctx.arr(k + [she]))
        ctx.check(ctx.and_(u == 0, v == 0), "the sensor centre stays where it is")


def scale(ctx, T):
    x, y = point(ctx)
    s = ctx.real("s", 0.875, 1.125)
    a = ctx.arr([0.0] * 5 + [s, 0.0])
    u, v = T.distort_brown_affine(x, y, a)
    ctx.close(u, s * x, 1e-9, "scaling acts on x")
    ctx.close(v, y, 1e-9, "scaling keeps y")
    u, v = T.correct_brown_affine(u, v, a)
    ctx.observe("back", [u, v])
    ctx.close(u, x, 1e-6, "correcting undoes scaling")
    ctx.close(v, y, 1e-6, "correcting undoes scaling")


def shear(ctx, T):
    x, y = point(ctx)
    s = 1.0 + ctx.choose("s", 3) / 16.0
    she = (-0.0625, -0.015625, 0.03125, 0.125)[ctx.choose("she", 4)]
    a = ctx.arr([0.0] * 5 + [s, she])
    u, v = T.distort_brown_affine(x, y, a)
    u, v = T.correct_brown_affine(u, v, a)
    ctx.observe("back", [u, v])
    ctx.close(u, x, 1e-6, "correcting undoes scale and shear")
    ctx.close(v, y, 1e-6, "correcting undoes scale and shear")


def back(ctx, T, x, y, a, tol, within):
    """Distort and correct about the sensor centre, with a principal point."""
    c = cal(ctx, None, None, [0.5, -0.25, 100.0], None, a)
    u, v = T.flat_to_dist(x - 0.5, y + 0.25, c)
    X, Y = T.dist_to_flat(u, v, c, tol) if tol else T.dist_to_flat(u, v, c)
    ctx.observe("back", [X, Y])
    ctx.close(X, x - 0.5, within, "correcting a distorted point returns the point (x)")
    ctx.close(Y, y + 0.25, within, "correcting a distorted point returns the point (y)")


def coef(ctx, T, k, p, sign, scx=1.0, tol=None):
    """The displacement is up to 5e-4 of the radius."""
    r = (p[0] * p[0] + p[1] * p[1]) ** 0.5
    size = 5e-4 / r ** {"k1": 2, "k2": 4, "k3": 6, "p1": 1, "p2": 1}[k]
    v = ctx.real(k, size / 4, size) if sign > 0 else ctx.real(k, -size, -size / 4)
    a = ap(ctx, **{k: v})
    a[5] = scx
    back(ctx, T, p[0], p[1], a, tol, (1e-5 if tol else 2e-6) * r)


def axis(ctx, T, s, ax):
    """The displacement is up to 1e-3 (2e-4) of the coordinate."""
    (k, sign), = s.items()
    t = ctx.real("t", -10, 10)
    v = sign * {"k2": 5e-4, "k3": 2e-4}.get(k, 1e-3) / 10.0 ** {"k1": 2, "k2": 4, "k3": 6, "p1": 1, "p2": 1}[k]
    back(ctx, T, t if ax == 0 else 0.0, t if ax else 0.0, ap(ctx, **{k: v}), 0.02, 5e-5)
