"""C09: triangulation averages the pairwise ray intersections of the seeing cameras."""
from checks.common import cal, cpar

PROP = "C09"
BOUNDS = ("ray pairs: all positions (-100..100) for several fixed direction pairs, and directions with one or two free components; "
          "positions: all visibility patterns of 2-4 cameras with at least two seeing, all traced rays and pairwise results; arrays of up to 3 points")
OUTSIDE = "parallel rays; points seen by fewer than two cameras; the ray tracing (C04)"
ASSUMPTIONS = ["real arithmetic"]
CONFIG = {"qtimeout": 8000}

DIRS = {"axes": ((1, 0, 0), (0, 1, 0)), "cams": ((0.6, 0, -0.8), (-0.6, 0, -0.8)), "gen": ((1, 2, -2), (2, -1, -3)),
        "long": ((3, 0, 4), (0, 0, 2)), "near": ((0.125, 0, -1), (0, 0, -1)), "back": ((0, 0.6, -0.8), (0.6, 0.0, 0.8))}


def cases(tier):
    deep = tier == "thorough"
    cs = [{"name": f"skew-{k}", "args": {"what": "skew", "k": k}, "cost": 20} for k in DIRS]
    cs += [{"name": f"free-{i}", "args": {"what": "free", "i": i}, "cost": 40} for i in range(4)]
    cs += [{"name": f"meet-{k}", "args": {"what": "meet", "k": k}, "cost": 20} for k in ("cams", "gen", "near")]
    for n in (2, 3, 4):
        for m in range(1 << n):
            if bin(m).count("1") >= 2:
                cs.append({"name": f"mean-{n}-{m:0{n}b}", "args": {"what": "mean", "n": n, "mask": m}, "cost": 5})
    cs += [{"name": f"rays-{m:04b}", "args": {"what": "rays", "mask": m}, "cost": 20} for m in ((3, 5, 7, 11, 15) if deep else (3, 7, 13))]
    cs += [{"name": f"many-{n}-{c}", "args": {"what": "many", "n": n, "cams": c}, "cost": 10} for n in (0, 1, 2, 3) for c in (2, 4)]
    cs += [{"name": f"real-{c}", "args": {"what": "real", "cams": c}, "cost": 30} for c in (2, 3)]
    return cs


def run(ctx, what, **k):
    globals()[what](ctx, ctx.mod("orientation"), **k)


def dot(a, b):
    return sum(p * q for p, q in zip(a, b))


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def skew(ctx, O, k):
    """Both rays, seen from the ends of their common perpendicular; every pair of rays of these directions is one of these."""
    a, b = DIRS[k]
    joined(ctx, O, a, b)


def joined(ctx, O, a, b, small=False):
    n = cross(a, b)
    m = ctx.reals("m", 3, -100, 100) if not small else [ctx.real("m0", -10, 10), 2.0, -3.0]
    s, t = ctx.real("s", -50, 50), ctx.real("t", -50, 50) if not small else 1.5
    h = ctx.real("h", -10, 10)
    v1 = [m[q] + h * n[q] / 2 + s * a[q] for q in range(3)]
    v2 = [m[q] - h * n[q] / 2 + t * b[q] for q in range(3)]
    arrs = [ctx.arr(list(v)) for v in (v1, a, v2, b)]
    d, p = O.skew_midpoint(*arrs)
    for q in range(3):
        ctx.close(p[q], m[q], 1e-5, "the position is the midpoint of the shortest connection")
    ctx.check(d >= 0, "the distance is not negative")
    ctx.close(d * d, h * h * dot(n, n), 1e-4, "the distance is the length of the shortest connection")
    for x, v in zip(arrs, (v1, a, v2, b)):
        ctx.check(ctx.and_(*[x[q] == v[q] for q in range(3)]), "the rays are not changed")


def free(ctx, O, i):
    """Directions with free components."""
    if i == 0:
        a, b = [0.0, 0.0, -1.0], [ctx.real("u", 0.125, 4), 0.0, -1.0]
    elif i == 1:
        a, b = [0.0, ctx.real("u", 0.125, 4), -1.0], [1.0, 0.0, -1.0]
    elif i == 2:
        a, b = [0.0, 0.0, ctx.real("u", 0.125, 4)], [0.0, ctx.real("w", 0.125, 4), 1.0]
    else:
        a, b = [ctx.real("u", 1, 4), 0.0, 0.0], [0.5, ctx.real("w", 0.125, 4), 0.0]
    joined(ctx, O, a, b, small=True)


def meet(ctx, O, k):
    """Rays through one point meet there."""
    a, b = DIRS[k]
    p = ctx.reals("p", 3, -100, 100)
    s, t = ctx.real("s", -50, 50), ctx.real("t", -50, 50)
    d, r = O.skew_midpoint(ctx.arr([p[q] + s * a[q] for q in range(3)]), ctx.arr(list(a)), ctx.arr([p[q] + t * b[q] for q in range(3)]), ctx.arr(list(b)))
    ctx.close(d, 0, 1e-4, "intersecting rays have no distance")
    for q in range(3):
        ctx.close(r[q], p[q], 1e-5, "intersecting rays give their intersection")


UNUSED = -1e10


def setup(ctx, O, n, mask):
    cals = [cal(ctx, [float(i), 0.0, 0.0]) for i in range(n)]
    mm = ctx.mod("parameters").MultimediaPar()
    ts = [[ctx.real(f"x{i}", -50, 50), ctx.real(f"y{i}", -50, 50)] if mask >> i & 1 else [UNUSED, (0.0, UNUSED)[i % 2]] for i in range(n)]
    ctx.check(ctx.mod("constants").COORD_UNUSED == UNUSED, "the mark of cameras not seeing the point")
    return cals, mm, ts


def which(cals, k):
    return [i for i, c in enumerate(cals) if c is k][0]


def mean(ctx, O, n, mask):
    """All pairwise results."""
    cals, mm, ts = setup(ctx, O, n, mask)
    pair, seen = {}, set()

    def trace(x, y, k, m):
        i = which(cals, k)
        ctx.check(mask >> i & 1 and m is mm, "only seeing cameras are traced")
        ctx.check(ctx.and_(x == ts[i][0], y == ts[i][1]), "the camera's own target is traced")
        return ctx.arr([100.0 + i, 0.0, 0.0]), ctx.arr([0.0, 200.0 + i, 1.0])

    def skewed(v1, d1, v2, d2):
        i, j = int(v1[0]) - 100, int(v2[0]) - 100
        ctx.check(int(d1[1]) == 200 + i and int(d2[1]) == 200 + j, "each vertex is used with its own direction")
        key = (min(i, j), max(i, j))
        ctx.check(i != j and key not in seen, "each pair is used once")
        seen.add(key)
        if key not in pair:
            pair[key] = (ctx.real(f"d{key[0]}{key[1]}", 0, 10), [ctx.real(f"p{key[0]}{key[1]}{q}", -100, 100) for q in range(3)])
        d, p = pair[key]
        return d, ctx.arr(list(p))

    ctx.patch(O, "ray_tracing", trace)
    ctx.patch(O, "skew_midpoint", skewed)
    d, p = O.point_position(ctx.arr(ts), n, mm, cals)
    vis = [i for i in range(n) if mask >> i & 1]
    pairs = {(i, j) for i in vis for j in vis if i < j}
    ctx.check(seen == pairs, "all pairs of seeing cameras are used")
    ctx.close(d, sum(pair[q][0] for q in pairs) / len(pairs), 1e-6, "the quality is the mean distance")
    for q in range(3):
        ctx.close(p[q], sum(pair[k][1][q] for k in pairs) / len(pairs), 1e-6, "the position is the mean of the pairwise positions")


RAYS = ((0.6, 0, -0.8), (-0.6, 0, -0.8), (0, 0.6, -0.8), (0.48, -0.36, -0.8))


def middle(v1, a, v2, b):
    """Midpoint of the shortest connection, from the normal equations."""
    w = [p - q for p, q in zip(v1, v2)]
    A, B, C = dot(a, a), dot(a, b), dot(b, b)
    s = (B * dot(b, w) - C * dot(a, w)) / (A * C - B * B)
    t = (A * dot(b, w) - B * dot(a, w)) / (A * C - B * B)
    return [(v1[q] + s * a[q] + v2[q] + t * b[q]) / 2 for q in range(3)]


def rays(ctx, O, mask):
    """All rays of fixed directions, with the real intersection."""
    n = 4
    cals, mm, ts = setup(ctx, O, n, mask)
    vs = [[ctx.real(f"v{i}{q}", -100, 100) for q in range(3)] if mask >> i & 1 else [0.0] * 3 for i in range(n)]
    ctx.patch(O, "ray_tracing", lambda x, y, k, m: (ctx.arr(list(vs[which(cals, k)])), ctx.arr(list(RAYS[which(cals, k)]))))
    d, p = O.point_position(ctx.arr(ts), n, mm, cals)
    vis = [i for i in range(n) if mask >> i & 1]
    ms = [middle(vs[i], RAYS[i], vs[j], RAYS[j]) for i in vis for j in vis if i < j]
    for q in range(3):
        ctx.close(p[q], sum(m[q] for m in ms) / len(ms), 1e-4, "the position is the mean midpoint of the pairwise shortest connections")
    ctx.check(d >= 0, "the quality is not negative")


def many(ctx, O, n, cams):
    """Each point of an array gets its own result."""
    cals = [cal(ctx) for _ in range(cams)]
    mm = ctx.mod("parameters").MultimediaPar()
    ts = [[[ctx.real(f"x{p}{i}", -50, 50), 1.0 + 10 * p + i] for i in range(cams)] for p in range(n)]
    if n > 1 and cams > 2:
        ts[1][2] = [UNUSED, UNUSED]
    pts = [ctx.reals(f"p{p}", 3, -100, 100) for p in range(n)]
    ds = ctx.reals("d", n, 0, 10)

    def one(t, k, m, c):
        p = [q for q in range(n) if abs(float(t[0][1]) - ts[q][0][1]) < 1e-9][0]
        ctx.check(k == cams and m is mm and len(c) == cams and all(a is b for a, b in zip(c, cals)), "every point is determined with all cameras")
        for i in range(cams):
            ctx.check(ctx.and_(t[i][0] == ts[p][i][0], t[i][1] == ts[p][i][1]), "every point is determined from its own targets")
        return ds[p], ctx.arr(list(pts[p]))

    ctx.patch(O, "point_position", one)
    r, c = O.multi_cam_point_positions(ctx.arr(ts) if n else ctx.np.zeros((0, cams, 2)), mm, cals)
    ctx.check(r.shape == (n, 3) and len(c) == n, "one position and one quality per point")
    for p in range(n):
        ctx.check(c[p] == ds[p], "each point has its own quality")
        for q in range(3):
            ctx.check(r[p][q] == pts[p][q], "each point has its own position")


def real(ctx, O, cams):
    """Nothing stubbed: pinhole cameras around a point."""
    cals = [cal(ctx, pos, [0.0, 0.0, 0.0], [0.0, 0.0, 50.0], [0.0, 0.0, 1.0]) for pos in ([-60.0, 0.0, 80.0], [60.0, 0.0, 80.0], [0.0, 45.0, 60.0])[:cams]]
    mm = ctx.mod("parameters").MultimediaPar(nlay=1, n1=1.0, n2=[1.0], d=[0.0], n3=1.0)
    s = (0.0, 1.0, -2.5)[ctx.choose("s", 3)]
    # the point (0, 0, 0) seen by the cameras; the first is off by s across the epipolar plane
    ts = [[50 * 60.0 / 80, s], [-50 * 60.0 / 80, 0.0], [0.0, -50 * 45.0 / 60]][:cams]
    r, c = O.multi_cam_point_positions(ctx.arr([ts, ts]), mm, cals)
    ctx.check(r.shape == (2, 3), "a position for every point")
    if s == 0:
        for p in range(2):
            ctx.close(c[p], 0, 1e-6, "intersecting rays meet")
            for q in range(3):
                ctx.close(r[p][q], 0, 1e-6, "intersecting rays give their intersection")
    else:
        for p in range(2):
            ctx.check(c[p] > 0, "rays that miss each other have a distance")
