"""C25: grid sorting assigns each calibration point its nearest detected target."""
from checks.common import cal, cpar

PROP = "C25"
BOUNDS = ("up to 3 known points and 3 detected targets, all projections, target positions, radii and image sizes; files of up to 3 points; "
          "the projection is an arbitrary function of the point")
OUTSIDE = "more points and targets; binary rounding of distances"
ASSUMPTIONS = ["real arithmetic", "the search radius bounds the distance in each image direction, as documented for the search region"]
CONFIG = {"qtimeout": 5000}


def cases(tier):
    cs = []
    for nf, nt in [(0, 2), (1, 0), (1, 1), (1, 2), (1, 3), (2, 1), (2, 2)] + ([(1, 4), (2, 3), (3, 2)] if tier == "thorough" else []):
        cs.append({"name": f"sort-{nf}-{nt}", "args": {"what": "sort", "nf": nf, "nt": nt}, "cost": 4 ** nf * 3 ** nt})
    nf = 3 if tier == "thorough" else 2
    cs.append({"name": f"sort-{nf}-3-line", "args": {"what": "sort", "nf": nf, "nt": 3, "line": True}, "cost": 200})
    cs.append({"name": "sort-1-5-line", "args": {"what": "sort", "nf": 1, "nt": 5, "line": True}, "cost": 200})
    for n in (0, 1, 2, 3):
        cs.append({"name": f"nearest-{n}", "args": {"what": "nearest", "n": n}, "cost": 3 ** n})
    for n in (0, 1, 3):
        cs.append({"name": f"block-{n}", "args": {"what": "block", "n": n}})
    for cam in range(4):
        cs.append({"name": f"manual-{cam}", "args": {"what": "manual", "cam": cam}})
    cs.append({"name": "radius", "args": {"what": "radius"}})
    cs.append({"name": "real", "args": {"what": "real"}})
    return cs


def run(ctx, what, **k):
    globals()[what](ctx, ctx.mod("sortgrid"), **k)


def tgt(ctx, i, x, y):
    return ctx.mod("tracking_frame_buf").Target(pnr=50 + i, x=x, y=y, n=3 + i, nx=2 + i, ny=1 + i, sumg=100 + i, tnr=20 + i)


def inside(ctx, px, py, t, eps):
    return ctx.and_(t[0] > px - eps, t[0] < px + eps, t[1] > py - eps, t[1] < py + eps)


def d2(px, py, t):
    return (px - t[0]) * (px - t[0]) + (py - t[1]) * (py - t[1])


def sort(ctx, S, nf, nt, line=False):
    imx, imy = (100, 80) if line or nf + nt > 2 else (ctx.int("imx", 1, 5000), ctx.int("imy", 1, 5000))
    c = cpar(ctx, imx, imy, 0.5, 0.25)
    eps = 20 if line else ctx.real("eps", 0, 1000)
    px = ctx.reals("px", nf, -2000, 6000)
    py = ctx.reals("py", nf, -2000, 6000) if not line else [30] * nf
    tx = ctx.reals("tx", nt, -100, 6000) if not line or nt < 4 else [20, 40, 52, 66, 97]
    ty = ctx.reals("ty", nt, -100, 6000) if not line else [30] * nt
    fix = ctx.arr([[10.0 + i, 20.0 + i, 30.0 + i] for i in range(nf)]) if nf else ctx.np.zeros((0, 3))
    kal = ctx.mod("calibration").Calibration()
    seen = []

    def project(p, k, mm):
        i = int(p[0]) - 10
        ctx.check([float(v) for v in p] == [10.0 + i, 20.0 + i, 30.0 + i] and k is kal and mm is c.mm, "the known point is projected with the given camera")
        seen.append(i)
        return (px[i] - imx / 2) * 0.5, (imy / 2 - py[i]) * 0.25

    ctx.patch(S, "img_coord", project)
    ts = [tgt(ctx, i, tx[i], ty[i]) for i in range(nt)]
    r = S.sortgrid(kal, c, nf, fix, eps, ts)
    ctx.check(len(r) == nf, "one entry per known point")
    ctx.check(len(set(id(t) for t in r)) == nf, "entries are separate targets")
    for i in range(nf):
        near = ctx.and_(px[i] > -eps, py[i] > -eps, px[i] < imx + eps, py[i] < imy + eps)
        got = r[i]
        if got.pnr == -999:
            for j in range(nt):
                ctx.check(ctx.not_(ctx.and_(near, inside(ctx, px[i], py[i], (tx[j], ty[j]), eps))), "a point near the image with a target nearby gets one")
            continue
        ctx.check(got.pnr == i, "an assigned target carries the number of the point")
        j = int(got.n) - 3
        ctx.check(0 <= j < nt and got.nx == 2 + j and got.ny == 1 + j and got.sumg == 100 + j and got.tnr == 20 + j, "the assigned target is a detected one")
        ctx.check(ctx.and_(got.x == tx[j], got.y == ty[j]), "the assigned target keeps its position")
        ctx.check(near, "a point that projects off the image gets no target")
        ctx.check(inside(ctx, px[i], py[i], (tx[j], ty[j]), eps), "the assigned target lies within the search radius")
        for q in range(nt):
            if q != j:
                ctx.check(ctx.or_(ctx.not_(inside(ctx, px[i], py[i], (tx[q], ty[q]), eps)),
                                  d2(px[i], py[i], (tx[q], ty[q])) >= d2(px[i], py[i], (tx[j], ty[j]))), "the assigned target is the nearest")
    for i, t in enumerate(ts):
        ctx.check(ctx.and_(t.x == tx[i], t.y == ty[i], t.n == 3 + i, t.tnr == 20 + i, t.pnr == 50 + i), "the detected targets are not changed")


def nearest(ctx, S, n):
    x, y, eps = ctx.real("x", -1000, 1000), ctx.real("y", -1000, 1000), ctx.real("eps", 0, 500)
    tx, ty = ctx.reals("tx", n, -1000, 1000), ctx.reals("ty", n, -1000, 1000)
    j = int(S.nearest_neighbour_pix([tgt(ctx, i, tx[i], ty[i]) for i in range(n)], x, y, eps))
    ctx.observe("j", j)
    ctx.check(j == -999 or 0 <= j < n, "an index or the unused mark")
    for i in range(n):
        ins = inside(ctx, x, y, (tx[i], ty[i]), eps)
        if j == -999:
            ctx.check(ctx.not_(ins), "a target within the radius is found")
        elif i == j:
            ctx.check(ins, "the found target lies within the radius")
        else:
            ctx.check(ctx.or_(ctx.not_(ins), d2(x, y, (tx[i], ty[i])) >= d2(x, y, (tx[j], ty[j]))), "the nearest target is found")


def block(ctx, S, n):
    ctx.fs("cal")
    pn = ctx.ints("n", n, 0, 100000)
    xs = [ctx.reals(f"p{i}", 3, -10000, 10000) for i in range(n)]
    ctx.write_file("cal/block.txt", "".join(ctx.fmt("%d %s %s %s\n", pn[i], *xs[i]) for i in range(n)))
    r = S.read_calblock("cal/block.txt")
    ctx.check(r.size == n, "one entry per line of the calibration block")
    r = r.reshape(-1)
    for i in range(n):
        ctx.check(r[i].pnr == pn[i], "point numbers are read")
        for q, f in enumerate("xyz"):
            ctx.close(r[i][f], xs[i][q], 1e-6, "point positions are read")
    ctx.check(S.read_calblock("cal/none.txt").size == 0, "a missing file gives no points")


def manual(ctx, S, cam):
    """The four points clicked in one camera's image."""
    ctx.fs("cal")
    O = ctx.mod("orientation")
    n = 6
    pick = [[(3 * c + 2 * i) % n + 1 for i in range(4)] for c in range(4)]
    pick[cam] = [6, ctx.choose("a", 2) + 2, 1, 4 + ctx.choose("b", 2)]
    lines = ctx.choose("lines", 2)
    sep = "\n" if lines else " "
    ctx.write_file("cal/man_ori.par", "".join(sep.join(str(v) for v in p) + "\n" for p in pick))
    xs = [ctx.reals(f"p{i}", 3, -10000, 10000) for i in range(n)]
    ctx.write_file("cal/block.txt", "".join(ctx.fmt("%d %s %s %s\n", i + 1, *xs[i]) for i in range(n)))
    r = O.read_man_ori_fix("cal/block.txt", "cal/man_ori.par", cam)
    ctx.check(r is not None and len(r) == 4, "four points are read")
    for i in range(4):
        for q in range(3):
            ctx.close(r[i][q], xs[pick[cam][i] - 1][q], 1e-6, "the points clicked in the camera are returned in the order of the clicks")
    fix, num = O.read_calblock("cal/block.txt")
    ctx.check(num == n and len(fix) == n, "one entry per line of the calibration block")
    for i in range(n):
        for q in range(3):
            ctx.close(fix[i][q], xs[i][q], 1e-6, "point positions are read")
    ctx.write_file("cal/man_ori.par", "".join("\n".join(["1", "2", "9", "3"]) + "\n" for p in pick))
    ctx.check(O.read_man_ori_fix("cal/block.txt", "cal/man_ori.par", cam) is None, "an unknown point gives no result")


def radius(ctx, S):
    ctx.fs("cal")
    v = ctx.int("v", 0, 10000)
    ctx.write_file("cal/sortgrid.par", ctx.fmt("%d\n", v))
    ctx.check(S.read_sortgrid_par("cal/sortgrid.par") == v, "the radius is read from its file")
    ctx.check(S.read_sortgrid_par("cal/none.par") == ctx.mod("constants").SORTGRID_EPS, "a missing file gives the default radius")


def real(ctx, S):
    """With the real projection, for one camera without glass."""
    c = cpar(ctx, 200, 200, 0.01, 0.01)
    k = cal(ctx, [0.0, 0.0, 100.0], [0.0, 0.0, 0.0], [0.0, 0.0, 50.0], [0.0, 0.0, 1.0])
    dx = ctx.real("dx", -3, 3)
    dy = ctx.real("dy", -3, 3)
    # the point (1, -0.5, 0) projects to the metric position (0.5, -0.25)
    ts = [tgt(ctx, 0, 100 + 50 + dx, 100 + 25 + dy), tgt(ctx, 1, 100 + 50 + 10, 100 + 25)]
    r = S.sortgrid(k, c, 1, ctx.arr([[1.0, -0.5, 0.0]]), 2.5, ts)
    ins = ctx.and_(dx > -2.49, dx < 2.49, dy > -2.49, dy < 2.49)
    out = ctx.or_(dx < -2.51, dx > 2.51, dy < -2.51, dy > 2.51)
    ctx.check(ctx.implies(ins, r[0].pnr == 0), "the target near the projection is assigned")
    ctx.check(ctx.implies(out, r[0].pnr == -999), "no target far from the projection is assigned")
