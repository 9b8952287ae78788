"""C04: traced rays obey refraction at the glass."""
from fractions import Fraction

from checks.common import cal, cpar

PROP = "C04"
BOUNDS = ("every camera position, glass distance, thickness and set of refractive indices for 6 (thorough 14) viewing directions, camera rotations and glass orientations; "
          "every image point of a line of the sensor for fixed cameras; refractive indices between 1 and 2 with the incoming medium the thinnest")
OUTSIDE = "image points, indices and positions all free at once; total reflection; binary rounding"
ASSUMPTIONS = ["real arithmetic"]
CONFIG = {"qtimeout": 10000, "expand": True}

# image point, angles, glass direction
VIEWS = [((3.0, 4.0, 12.0), None, (0, 0, 1)),
         ((0.0, 0.0, 50.0), None, (0, 0, 1)),
         ((-4.0, 2.0, 60.0), (0.25, -0.5, 1.0), (0, 0, 1)),
         ((1.5, -0.5, 20.0), (0.0, 0.5, 0.0), (3, 0, 4)),
         ((0.5, 0.75, 8.0), (-0.25, 0.375, 0.125), (2, -3, 6)),
         ((8.0, -6.0, 24.0), (0.0, 0.0, 0.0), (0, 3, 4)),
         ((-8.0, -6.0, 24.0), (3.0, 0.25, -2.0), (1, 2, -2)),
         ((2.0, 1.0, 10.0), (0.0, 1.5, 0.0), (1, 0, 0)),
         ((2.0, -1.0, 10.0), (0.0, -1.5, 0.5), (-4, 3, 0)),
         ((0.0, 3.0, 10.0), (-1.5, 0.0, 0.0), (0, 1, 0)),
         ((1e-3, 0.0, 100.0), None, (0, 0, 1)),
         ((20.0, 0.0, 15.0), None, (0, 0, 1)),
         ((0.0, -7.0, 24.0), (0.125, 0.0, 0.0), (0, 7, 24)),
         ((5.0, 5.0, 50.0), (0.25, 0.25, 0.25), (2, -1, 2))]
INDICES = [(1.0, 1.5, 1.25), (1.0, 1.0, 1.0), (1.0, 1.0, 1.375), (1.0, 1.5, 1.0), (1.25, 1.25, 1.25)]


def cases(tier):
    deep = tier == "thorough"
    cs = []
    for v in range(len(VIEWS) if deep else 6):
        for k in range(2):
            cs.append({"name": f"media-{v}-{k}", "args": {"what": "media", "v": v, "k": k}, "cost": 20})
        cs.append({"name": f"equal-{v}", "args": {"what": "equal", "v": v}, "cost": 20})
        for i in range(len(INDICES) if deep else 2):
            cs.append({"name": f"place-{v}-{i}", "args": {"what": "place", "v": v, "i": i}})
    for i in range(len(INDICES) if deep else 3):
        cs.append({"name": f"line-{i}", "args": {"what": "line", "i": i}, "cost": 30})
    return cs


def run(ctx, what, **k):
    globals()[what](ctx, ctx.mod("ray_tracing"), **k)


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def sq(a):
    return dot(a, a)


def direction(ctx, c, img):
    v = [img[0], img[1], -img[2]]
    return [dot([c.ext_par.dm[i][j].item() if hasattr(c.ext_par.dm[i][j], "item") else c.ext_par.dm[i][j] for j in range(3)], v) for i in range(3)]


def judge(ctx, X, out, pos, w, g, glen, d, n, tol=1e-6, glass=True):
    """Everything the refraction law says about the ray along w (any length) through the glass with unit normal g."""
    n1, n2, n3 = n
    X, out = [X[i] for i in range(3)], [out[i] for i in range(3)]
    ctx.observe("X", X)
    ctx.observe("out", out)
    ctx.close(dot(X, g), glen, tol, "the point lies on the far glass surface")
    ctx.close(sq(out), 1, tol, "the direction behind the glass has unit length")
    ctx.check(dot(out, g) < 0, "the ray leaves away from the camera")
    ctx.close(dot(cross(w, g), out), 0, tol, "the ray stays in the plane of incidence")
    # parallel parts: n sin is kept
    wp = [w[i] - dot(w, g) * g[i] for i in range(3)]
    op = [out[i] - dot(out, g) * g[i] for i in range(3)]
    ctx.check(dot(wp, op) >= -tol, "the ray goes on to the same side")
    ctx.close(n3 * n3 * sq(op) * sq(w), n1 * n1 * sq(wp), tol, "Snell's law holds between the outer media")
    # the path inside the glass
    s = (glen + d - dot(pos, g)) / dot(w, g)
    b = [X[i] - pos[i] - s * w[i] for i in range(3)]
    ctx.close(dot(cross(w, g), b), 0, tol * 10, "the path in the glass stays in the plane of incidence")
    bp = [b[i] - dot(b, g) * g[i] for i in range(3)]
    ctx.check(dot(bp, wp) >= -tol, "the path in the glass goes on to the same side")
    if glass:
        ctx.close(n2 * n2 * sq(bp) * sq(w), n1 * n1 * sq(wp) * sq(b), tol * 100, "Snell's law holds in the glass")


def view(ctx, v):
    img, ang, g = VIEWS[v]
    c = cal(ctx, None, list(ang or (0.0, 0.0, 0.0)), [0.0, 0.0, img[2]], None)
    return img, c, direction(ctx, c, img), g


def scene(ctx, c, gi, free):
    """Camera position, glass distance and thickness."""
    n = int((gi[0] ** 2 + gi[1] ** 2 + gi[2] ** 2) ** 0.5)
    g = [Fraction(x, n) if ctx.symbolic else x / n for x in gi]
    m = ctx.real("m", 1, 100)
    if free:
        pos = [ctx.real(f"pos{i}", -500, 500) for i in range(3)]
        d = ctx.real("d", 0, 20)
    else:
        pos, d = [3.0 + 112 * gi[0], -2.0 + 112 * gi[1], 1.0 + 112 * gi[2]], 4.0
    c.set_pos(ctx.arr(pos))
    c.set_glass_vec(ctx.arr([x * m / n if not x % n else x * (m / n) for x in gi]))
    ctx.assume(dot(pos, g) >= m + d + 1)
    return pos, m, d, g


def media(ctx, R, v, k):
    """All refractive indices."""
    img, c, w, gi = view(ctx, v)
    pos, m, d, g = scene(ctx, c, gi, False)
    n1, n2, n3 = (1.0, ctx.real("n2", 1, 2), ctx.real("n3", 1, 2)) if k == 0 else (ctx.real("n1", 1, 1.25), 1.5, 1.25)
    X, out = R.ray_tracing(img[0], img[1], c, cpar(ctx, n1=n1, n2=[n2], d=[d], n3=n3).mm)
    judge(ctx, X, out, pos, w, g, m, d, (n1, n2, n3), glass=gi[2] == 1 or not ctx.symbolic)


def place(ctx, R, v, i):
    """All places of the camera and the glass."""
    img, c, w, gi = view(ctx, v)
    pos, m, d, g = scene(ctx, c, gi, True)
    n = INDICES[i]
    X, out = R.ray_tracing(img[0], img[1], c, cpar(ctx, n1=n[0], n2=[n[1]], d=[d], n3=n[2]).mm)
    judge(ctx, X, out, pos, w, g, m, d, n)
    if n[0] == n[1] == n[2]:
        straight(ctx, X, out, pos, w)


def equal(ctx, R, v):
    """All indices that are equal."""
    img, c, w, gi = view(ctx, v)
    pos, m, d, g = scene(ctx, c, gi, False)
    n = ctx.real("n", 1, 2)
    X, out = R.ray_tracing(img[0], img[1], c, cpar(ctx, n1=n, n2=[n], d=[d], n3=n).mm)
    straight(ctx, X, out, pos, w)


def straight(ctx, X, out, pos, w):
    ln = sq(w) ** 0.5
    ctx.observe("X", [X[i] for i in range(3)])
    for i in range(3):
        ctx.close(out[i] * ln, w[i], 1e-6, "without refraction the ray keeps its direction")
    t = [X[i] - pos[i] for i in range(3)]
    for i in range(3):
        ctx.close(cross(t, w)[i], 0, 1e-5, "without refraction the point lies on the straight line of sight")
    ctx.check(dot(t, w) > 0, "the point lies in front of the camera")


def line(ctx, R, i):
    """All image points along a line of the sensor."""
    n = INDICES[i]
    x = ctx.real("x", -20, 20)
    c = cal(ctx, None, [0.0, 0.0, 0.0], [0.0, 0.0, 40.0], None)
    g = [0.0, 0.0, 1.0]
    pos, m, d = [3.0, -2.0, 100.0], 16.0, 4.0
    c.set_pos(ctx.arr(pos))
    c.set_glass_vec(ctx.arr([0.0, 0.0, m]))
    X, out = R.ray_tracing(x, 0.0, c, cpar(ctx, n1=n[0], n2=[n[1]], d=[d], n3=n[2]).mm)
    judge(ctx, X, out, pos, [x, 0.0, -40.0], g, m, d, n)
