"""C27: search windows and the measuring volume cover what they must."""
from checks.common import cal, cpar

PROP = "C27"
BOUNDS = ("windows: 1-4 cameras, all eight corner projections and the centre projection of one camera arbitrary, or all displacement limits and "
          "positions with affine projections; volumes: 1-2 cameras, all rays of the four sensor corners of one camera, all layer limits "
          "and given extents")
OUTSIDE = "the projection and the ray tracing themselves (C04, C05)"
ASSUMPTIONS = ["real arithmetic", "rays are not parallel to the depth planes"]
CONFIG = {"qtimeout": 6000, "merge": ("track", "multimed")}


def cases(tier):
    deep = tier == "thorough"
    cs = [{"name": f"corners-{n}-{k}", "args": {"what": "corners", "cams": n, "me": k}, "cost": 50} for n, k in ((1, 0), (2, 0), (3, 1), (4, 3))]
    cs += [{"name": f"pair-{a}-{b}", "args": {"what": "corners", "cams": 1, "me": 0, "free": (a, b)}, "cost": 20}
           for a in range(8) for b in range(a + 1, 8) if deep or (a + b) % 7 == 0]
    cs += [{"name": f"limits-{n}", "args": {"what": "limits", "cams": n}, "cost": 50} for n in (1, 2, 4)]
    cs += [{"name": f"rays-{n}-{k}", "args": {"what": "rays", "cams": n, "me": k}, "cost": 40} for n, k in ((1, 0), (2, 1), (4, 2))]
    cs += [{"name": f"ray-{c}", "args": {"what": "ray", "corner": c}, "cost": 40} for c in range(4)]
    cs += [{"name": f"layers-{n}", "args": {"what": "layers", "cams": n}, "cost": 40} for n in (1, 2)]
    cs += [{"name": "real", "args": {"what": "real"}, "cost": 10}, {"name": "start", "args": {"what": "start"}, "cost": 10}]
    return cs


def run(ctx, what, **k):
    globals()[what](ctx, **k)


LO, HI = (-1.5, -2.25, -0.75), (1.25, 0.5, 3.5)
IMX, IMY = 640, 480


def tpar(ctx, lo, hi):
    return ctx.mod("parameters").TrackParTuple(dvxmin=lo[0], dvxmax=hi[0], dvymin=lo[1], dvymax=hi[1], dvzmin=lo[2], dvzmax=hi[2],
                                               dangle=100.0, dacc=1.0, add=0, dsumg=0.0, dn=0.0, dnx=0.0, dny=0.0)


def box(p, lo, hi):
    return [[p[d] + (hi[d] if q >> d & 1 else lo[d]) for d in range(3)] for q in range(8)]


def camera(ctx, cals, k):
    return [i for i, c in enumerate(cals) if c is k][0]


def window(ctx, r, i, centre, pts):
    """The window of camera i is the bounding box of the projections, clipped to the image."""
    def clip(v, hi):
        return ctx.min(ctx.max(v, 0), hi)

    def fold(f, vs):
        m = vs[0]
        for v in vs[1:]:
            m = f(m, v)
        return m

    xr, xl, yd, yu = r
    xs, ys = [p[0] for p in pts], [p[1] for p in pts]
    for nm, got, want in (("right", xr[i], clip(fold(ctx.max, xs), IMX) - centre[0]), ("left", xl[i], centre[0] - clip(fold(ctx.min, xs), IMX)),
                          ("lower", yd[i], clip(fold(ctx.max, ys), IMY) - centre[1]), ("upper", yu[i], centre[1] - clip(fold(ctx.min, ys), IMY))):
        ctx.close(got, want, 1e-6, f"the {nm} edge of the window is that of the clipped projections of the corners")


def corners(ctx, cams, me, free=None):
    """Arbitrary projections of the corners."""
    T = ctx.mod("track")
    cp = cpar(ctx, IMX, IMY, 0.5, 0.25, num_cams=cams)
    cals = [cal(ctx) for _ in range(cams)]
    p = (0.5, 1.0, -2.0)
    pts = box(p, LO, HI) + [list(p)]
    proj = {}
    for i in range(cams):
        for q in range(9):
            if i == me and (free is None or q in free or q == 8):
                proj[i, q] = (ctx.real(f"x{q}", -3000, 4000), ctx.real(f"y{q}", -3000, 4000))
            else:
                proj[i, q] = (300.0 + 10 * i + q, 200.0 - 5 * i + 3 * q)

    def project(pt, k, mm):
        q = [j for j in range(9) if all(abs(float(pt[d]) - pts[j][d]) < 1e-9 for d in range(3))]
        ctx.check(len(q) == 1, "only the position and the corners of the displacement box are projected")
        x, y = proj[camera(ctx, cals, k), q[0]]
        return (x - IMX / 2) * 0.5, (IMY / 2 - y) * 0.25

    ctx.patch(T, "img_coord", project)
    r = T.searchquader(ctx.arr(list(p)), tpar(ctx, LO, HI), cp, cals)
    for i in range(cams):
        window(ctx, r, i, proj[i, 8], [proj[i, q] for q in range(8)])


def limits(ctx, cams):
    """Arbitrary limits and positions, affine projections."""
    T = ctx.mod("track")
    cp = cpar(ctx, IMX, IMY, 0.5, 0.25, num_cams=cams)
    cals = [cal(ctx) for _ in range(cams)]
    m = [((8, 1, -2, 320), (-1, 6, 0.5, 240)), ((-4, 2, 6, 100), (2, -3, 4, 50)), ((0, 5, 1, 10), (7, 0, -1, 400)), ((1, 1, 1, 0), (1, -1, 2, 0))][:cams]

    def at(i, pt):
        return tuple(sum(a * b for a, b in zip(row, pt)) + row[3] for row in m[i])

    def project(pt, k, mm):
        x, y = at(camera(ctx, cals, k), pt)
        return (x - IMX / 2) * 0.5, (IMY / 2 - y) * 0.25

    ctx.patch(T, "img_coord", project)
    p = ctx.reals("p", 3, -100, 100)
    lo, hi = ctx.reals("lo", 3, -100, 50), ctx.reals("hi", 3, -50, 100)
    arr = ctx.arr(p)
    r = T.searchquader(arr, tpar(ctx, lo, hi), cp, cals)
    for d in range(3):
        ctx.check(arr[d] == p[d], "the position is not changed")
    pts = box(p, lo, hi)
    for i in range(cams):
        window(ctx, r, i, at(i, p), [at(i, q) for q in pts])


def volume(ctx, vp, cp, cals, given):
    """Calls volumedimension; given: xmax, xmin, ymax, ymin."""
    return ctx.mod("multimed").volumedimension(*given, vp.z_max_lay[1], vp.z_min_lay[0], vp, cp, cals)


def vpar(ctx, zmin, zmax):
    return ctx.mod("parameters").VolumePar(x_lay=[-10.0, 10.0], z_min_lay=list(zmin), z_max_lay=list(zmax), cn=0.1, cnx=0.1, cny=0.1, csumg=0.1,
                                           corrmin=30.0, eps0=0.1)


def extents(ctx, r, given, zs, rays):
    """rays: the (position, direction) of all sensor corners of all cameras."""
    lo, hi = zs
    xmax, xmin, ymax, ymin, zmax, zmin = r
    ctx.check(ctx.and_(zmin == lo, zmax == hi), "the depth limits are the extreme ones of the two layers")
    e = [given[0], given[1], given[2], given[3]]
    for pos, a in rays:
        for z in (lo, hi):
            f = (z - pos[2]) / a[2]
            x, y = pos[0] + f * a[0], pos[1] + f * a[1]
            e = [ctx.max(e[0], x), ctx.min(e[1], x), ctx.max(e[2], y), ctx.min(e[3], y)]
    for nm, got, want in zip(("greatest x", "smallest x", "greatest y", "smallest y"), (xmax, xmin, ymax, ymin), e):
        ctx.close(got, want, 1e-6, f"the {nm} is that of the sensor-corner rays at the depth limits and the given extent")


DIST = [1e-6, 0.0, 0.0, 1e-5, -2e-5, 1.0, 0.01]


def sensor(ctx, cp, k):
    """The corrected metric position of the four sensor corners."""
    tr = ctx.mod("trafo")
    pts = []
    for x in (0.0, cp.imx):
        for y in (0.0, cp.imy):
            u, v = tr.pixel_to_metric(x, y, cp)
            pts.append(tr.correct_brown_affine(u - k.int_par.xh, v - k.int_par.yh, k.added_par))
    return pts


def traced(ctx, cp, cals, ray):
    M = ctx.mod("multimed")
    pts = [sensor(ctx, cp, k) for k in cals]

    def trace(x, y, k, mm):
        i = camera(ctx, cals, k)
        q = [j for j in range(4) if abs(float(x) - float(pts[i][j][0])) + abs(float(y) - float(pts[i][j][1])) < 1e-6]
        ctx.check(len(q) == 1 and mm is cp.mm, "the rays of the corrected sensor corners are traced")
        pos, a = ray[i, q[0]]
        return ctx.arr(list(pos)), ctx.arr(list(a))

    ctx.patch(M, "ray_tracing", trace)


def rays(ctx, cams, me):
    cp = cpar(ctx, 320, 200, 0.5, 0.25, num_cams=cams)
    cals = [cal(ctx, prim=[1.0 + i, -0.5 * i, 50.0], added=DIST) for i in range(cams)]
    ray = {}
    for i in range(cams):
        for q in range(4):
            u = 1.0 if q & 1 else -1.0
            if i == me:
                ray[i, q] = ([ctx.real(f"px{q}", -100, 100), ctx.real(f"py{q}", -100, 100), 4.0 + q],
                             [ctx.real(f"ax{q}", -1, 1), ctx.real(f"ay{q}", -1, 1), -0.5 if q & 1 else -0.75])
            else:
                ray[i, q] = ([u, 2 * u, 5.0], [u / 4, u / 8, -0.5])
    traced(ctx, cp, cals, ray)
    g = (ctx.real("xmax", -50, 100), ctx.real("xmin", -100, 50), ctx.real("ymax", -50, 100), ctx.real("ymin", -100, 50))
    r = volume(ctx, vpar(ctx, (-20.0, -10.0), (15.0, 5.0)), cp, cals, g)
    extents(ctx, r, g, (-20.0, 15.0), ray.values())


def ray(ctx, corner):
    """One arbitrary ray, also in depth."""
    cp = cpar(ctx, 320, 200, 0.5, 0.25, num_cams=1)
    cals = [cal(ctx, prim=[1.0, -0.5, 50.0])]
    rs = {(0, q): ([0.0, 0.0, 0.0], [0.0, 0.0, -1.0]) for q in range(4)}
    az = ctx.real("az", -1, 1)
    ctx.assume(ctx.or_(az < -0.125, az > 0.125))
    rs[0, corner] = ([ctx.real("px", -100, 100), 3.0, ctx.real("pz", -100, 100)], [ctx.real("ax", -1, 1), 0.25, az])
    traced(ctx, cp, cals, rs)
    g = (1.0, -1.0, 2.0, -2.0)
    lo, hi = ctx.real("lo", -100, 100), ctx.real("hi", -100, 100)
    ctx.assume(lo <= hi)
    r = volume(ctx, vpar(ctx, (lo, lo + 1), (hi, hi - 1)), cp, cals, g)
    extents(ctx, r, g, (lo, hi), rs.values())


def layers(ctx, cams):
    """Arbitrary layer limits and given extents."""
    cp = cpar(ctx, 320, 200, 0.5, 0.25, num_cams=cams)
    cals = [cal(ctx, prim=[1.0, -0.5, 50.0]) for _ in range(cams)]
    rs = {(i, q): ([10.0 * i, -5.0 * i, 5.0 + i], [0.5 if q & 1 else -0.5, 0.25 if q & 2 else -0.25, -0.75]) for i in range(cams) for q in range(4)}
    traced(ctx, cp, cals, rs)
    z = ctx.reals("z", 4, -100, 100)
    g = (ctx.real("xmax", -50, 100), ctx.real("xmin", -100, 50), ctx.real("ymax", -50, 100), ctx.real("ymin", -100, 50))
    vp = vpar(ctx, z[:2], z[2:])
    r = volume(ctx, vp, cp, cals, g)
    extents(ctx, r, g, (ctx.min(z[0], z[1]), ctx.max(z[2], z[3])), rs.values())
    for i in range(2):
        ctx.check(ctx.and_(vp.z_min_lay[i] == z[i], vp.z_max_lay[i] == z[2 + i]), "the volume parameters are not changed")


def real(ctx):
    """A camera without glass looking down; the extents follow from the pinhole."""
    cp = cpar(ctx, 200, 100, 0.25, 0.5, num_cams=1)
    cals = [cal(ctx, [10.0, 20.0, 100.0], [0.0, 0.0, 0.0], [0.0, 0.0, 50.0], [0.0, 0.0, 1.0])]
    lo, hi = ctx.real("lo", -50, 0), ctx.real("hi", 0, 50)
    r = volume(ctx, vpar(ctx, (lo, lo), (hi, hi)), cp, cals, (0.0, 0.0, 0.0, 0.0))
    # half the sensor is 25 by 25; the lower limit is farther away
    ext = 25 * (100 - lo) / 50
    for got, want in zip(r[:4], (ctx.max(10 + ext, 0), ctx.min(10 - ext, 0), ctx.max(20 + ext, 0), ctx.min(20 - ext, 0))):
        ctx.close(got, want, 1e-6, "the volume spans the field of view at the lower depth limit")


def start(ctx):
    """A tracking run starts with the volume of its cameras."""
    cp = cpar(ctx, 200, 100, 0.25, 0.5, num_cams=1)
    cals = [cal(ctx, [10.0, 20.0, 100.0], [0.0, 0.0, 0.0], [0.0, 0.0, 50.0], [0.0, 0.0, 1.0])]
    lo = ctx.real("lo", -50, 0)
    x0, x1 = ctx.real("x0", -200, 0), ctx.real("x1", 0, 200)
    vp = vpar(ctx, (lo, lo), (25.0, 30.0))
    vp.x_lay = [x0, x1]
    sp = ctx.mod("parameters").SequencePar(img_base_name=["img/c0.%04d"], first=1, last=4)
    a, b = ctx.reals("a", 3, -9, 0), ctx.reals("b", 3, 0, 9)
    run_ = ctx.mod("tracking_run").TrackingRun(sp, tpar(ctx, a, b), vp, cp, 4, 20, "res/rt_is", "res/ptv_is", "res/added", cals, 0.0001)
    ext = 25 * (100 - lo) / 50
    ctx.close(vp.x_lay[1], ctx.max(x1, 10 + ext), 1e-6, "the run's volume spans the field of view in x")
    ctx.close(vp.x_lay[0], ctx.min(x0, 10 - ext), 1e-6, "the run's volume spans the field of view in x")
    ctx.check(ctx.and_(run_.ymax >= 20 + ext - 1e-6, run_.ymin <= 20 - ext + 1e-6), "the run's volume spans the field of view in y")
    ctx.check(ctx.and_(vp.z_min_lay[0] == lo, vp.z_max_lay[1] == 30), "the run's depth limits are the extreme ones")
    ctx.close(run_.lmax * run_.lmax, sum((q - p) * (q - p) for p, q in zip(a, b)), 1e-6, "the longest displacement is the diagonal of the displacement box")
