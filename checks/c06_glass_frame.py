"""C06: the glass-relative coordinate transform is invertible."""
from checks.common import cal, cpar

PROP = "C06"
BOUNDS = ("all points and camera positions (-1000..1000) and glass thicknesses (0..50) for glass vectors of fixed direction (axes, (1,2,2), (2,3,6), (-4,4,7), (2,-6,3)) "
          "and all lengths (0.125..200); thorough: all glass vectors, as far as the time budget goes")
OUTSIDE = "other glass directions (quick); a zero glass vector; binary rounding"
ASSUMPTIONS = ["real arithmetic"]
CONFIG = {"qtimeout": 10000}

DIRS = {"z": (0, 0, 1, 1), "-z": (0, 0, -1, 1), "x": (1, 0, 0, 1), "y": (0, -1, 0, 1), "122": (1, 2, 2, 3), "236": (2, 3, 6, 7), "447": (-4, 4, 7, 9), "263": (2, -6, 3, 7)}


def cases(tier):
    deep = tier == "thorough"
    cs = [{"name": f"frame-{k}-{L}", "args": {"k": k, "L": L}, "cost": 20} for k in DIRS for L in (0.5, 30, 200)]
    cs += [{"name": f"length-{k}", "args": {"k": k, "L": None}, "cost": 100} for k in DIRS]
    cs += [{"name": f"any-{k}", "args": {"k": k, "L": 30, "free": True}, "cost": 100} for k in ("zx", "xy", "all") if deep]
    cs += [{"name": f"below-{k}", "args": {"k": k, "L": 30, "below": True}, "cost": 10} for k in ("z", "236")]
    cs += [{"name": f"thin-{k}", "args": {"k": k, "L": 2, "thin": True}, "cost": 10} for k in ("x", "122")]
    return cs


def dot(a, b):
    return sum(p * q for p, q in zip(a, b))


def run(ctx, k, L, below=False, thin=False, free=False):
    M = ctx.mod("multimed")
    if free:
        u = [ctx.real(f"u{a}", -50, 50) if a in k or k == "all" else 0.0 for a in "xyz"]
        ctx.assume(ctx.or_(*[v > 0.125 for v in u], *[v < -0.125 for v in u]))
        n, L = ctx.sqrt(dot(u, u)), 1
    else:
        *u, n = DIRS[k]
    if L is None:
        L = ctx.real("L", 0.125, 200)
    g = [L * q for q in u]
    L = L * n
    # distances times the length of the direction, which keeps everything rational
    def along(v):
        return dot(v, u) / n

    c = ctx.reals("c", 3, -1000, 1000)
    e = ctx.real("below", -50, 50) if below else 0
    p = [c[q] + e * u[q] for q in range(3)] if below else ctx.reals("p", 3, -1000, 1000)
    d = 0.0 if thin else ctx.real("d", 0, 50)
    kal = cal(ctx, c, [0.0, 0.0, 0.0], [0.0, 0.0, 50.0], g)
    mm = ctx.mod("parameters").MultimediaPar(nlay=1, n1=1.0, n2=[1.5], d=[d], n3=1.25)
    pos = ctx.arr(p)
    pt, cp, cc, z0 = M.trans_cam_point(kal.ext_par, mm, kal.glass_par, pos)
    tol = 1e-5
    ctx.close(along(cp), L, tol, "the point's crossing lies on the far glass plane")
    ctx.close(along(cc), L + d, tol, "the camera's crossing lies on the near glass plane")
    hp, hc = along(p) - L, along(c) - L
    for q in range(3):
        ctx.close(cp[q], p[q] - hp * u[q] / n, tol, "the point's crossing is its foot point on the glass")
        ctx.close(cc[q], c[q] - (hc - d) * u[q] / n, tol, "the camera's crossing is its foot point on the glass")
    ctx.close(pt[2], hp, tol, "the point's height is counted from the far glass plane")
    ctx.close(z0, hc, tol, "the camera's height is counted from the far glass plane")
    ctx.close(pt[1], 0, tol, "the point lies in the plane of the frame's first axis")
    ctx.check(pt[0] >= 0, "the distance along the glass is not negative")
    # squared distance of the two foot points
    w = [p[q] - hp * u[q] / n - (c[q] - hc * u[q] / n) for q in range(3)]
    ctx.close(pt[0] * pt[0], dot(w, w), 1e-2, "the distance along the glass is that of the foot points")
    back = M.back_trans_point(pt, mm, kal.glass_par, cp, cc)
    for q in range(3):
        ctx.close(back[q], p[q], tol, "transforming back gives the point")
    ctx.check(ctx.and_(*[pos[q] == p[q] for q in range(3)]), "the point is not changed")
    ctx.check(ctx.and_(*[kal.glass_par[q] == g[q] for q in range(3)]), "the glass vector is not changed")
    ctx.check(ctx.and_(kal.ext_par.x0 == c[0], kal.ext_par.y0 == c[1], kal.ext_par.z0 == c[2]), "the camera is not changed")
