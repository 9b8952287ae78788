"""C10: the epipolar candidate search returns exactly the admissible targets."""
from checks.common import cal, cpar

PROP = "C10"
BOUNDS = ("quick: up to 3 targets with symbolic positions, symbolic start point of the segment, symbolic tolerance, on 8 segment "
          "directions; up to 2 targets with symbolic sizes and brightness; search start: all list lengths 1..40 and selected "
          "lengths up to 20480 with the searched position anywhere in windows of 4 list places; thorough: 4 targets, all windows")
OUTSIDE = ("binary rounding (positions on the edge of the band); segment directions other than the listed ones; lens distortion "
           "of the sensor corners other than none and pure scale; more than 40 admissible targets beyond their first 40")
ASSUMPTIONS = ["real arithmetic instead of IEEE doubles", "the list is sorted by x and pnr indexes the target list"]
CONFIG = {"qtimeout": 4000}

# segment direction (dx, dy) with rational slope and length
DIRS = {"right": (4, 0), "up-right": (4, 3), "down-right": (4, -3), "left": (-4, 0), "up-left": (-4, 3), "down-left": (-3, -4),
        "point": (0, 0), "long": (12, 5)}
SPEC_NUM = [63, 64, 65, 127, 128, 129, 255, 256, 511, 1000]
BIG_NUM = [4095, 4096, 8190, 8191, 8192, 12287, 16383, 20479, 20480]


def cases(tier):
    cs = []
    deep = tier == "thorough"
    for d in DIRS:
        for n in ((1, 2, 3) if not deep else (1, 2, 3, 4)):
            if n == 3 and d not in ("up-right", "down-left", "right") and not deep:
                continue
            cs.append({"name": f"band-{d}-{n}", "args": {"what": "band", "d": d, "n": n}, "cost": 4 ** n})
    cs.append({"name": "vertical", "args": {"what": "vertical", "n": 2}, "cost": 20})
    for n in (1, 2):
        cs.append({"name": f"quality-{n}", "args": {"what": "quality", "n": n}, "cost": 6 ** n})
    for q in range(4):
        cs.append({"name": f"score-{q}", "args": {"what": "score", "n": 2, "vary": q}, "cost": 6})
    cs.append({"name": "off-sensor", "args": {"what": "sensor", "n": 1}, "cost": 10})
    cs.append({"name": "many", "args": {"what": "many", "n": 42}, "cost": 30})
    for lo in range(1, 41, 8):
        cs.append({"name": f"start-{lo}", "args": {"what": "start", "nums": list(range(lo, lo + 8)), "win": None}, "cost": 40})
    for num in SPEC_NUM:
        cs.append({"name": f"start-{num}", "args": {"what": "start", "nums": [num], "win": None if num < 600 or deep else 96}, "cost": 40})
    for num in BIG_NUM:
        cs.append({"name": f"start-{num}", "args": {"what": "start", "nums": [num], "win": 2048 if deep else 24}, "cost": 60})
    return cs


LISTS = {}


def mkcrd(ctx, rows):
    E = ctx.mod("epi")
    crd = ctx.np.recarray((len(rows),), dtype=E.Coord2d_dtype)
    for i, (p, x, y) in enumerate(rows):
        crd[i].pnr, crd[i].x, crd[i].y = p, x, y
    return crd


def target(ctx, pnr, n, nx, ny, sumg):
    return ctx.mod("tracking_frame_buf").Target(pnr=pnr, x=0.0, y=0.0, n=n, nx=nx, ny=ny, sumg=sumg, tnr=-1)


def vpar(ctx, eps0, cn=0.0, cnx=0.0, cny=0.0, csumg=0.0):
    P = ctx.mod("parameters")
    v = P.VolumePar()
    v.eps0, v.cn, v.cnx, v.cny, v.csumg = eps0, cn, cnx, cny, csumg
    return v


def compare(ctx, got, rows, admissible, dist, corr, msg=""):
    """got lists exactly the admissible rows, in order, with their distance and score."""
    k = len(got)
    ctx.observe("n", k)
    idx = [int(got[i].pnr) for i in range(k)]
    ctx.observe("idx", idx)
    ctx.check(all(a < b for a, b in zip(idx, idx[1:])), "candidates are in list order without repetition")
    for j in range(len(rows)):
        if j in idx:
            ctx.check(admissible[j], "a returned candidate is admissible")
            g = got[idx.index(j)]
            if dist is not None:
                ctx.close(g.tol, dist[j], 1e-6, "the candidate carries its distance from the segment's line")
            if corr is not None:
                ctx.close(g.corr, corr[j], 1e-4, "the candidate carries its quality score")
        else:
            ctx.check(ctx.not_(admissible[j]), "an admissible target is not missed")


def ratio(ctx, a, b):
    return ctx.ite(ctx.and_(a == 0, b == 0), 0, ctx.ite(a <= b, a / ctx.ite(b == 0, 1, b), b / ctx.ite(a == 0, 1, a)))


def run(ctx, what, d=None, n=0, nums=None, win=None, vary=None):
    F = ctx.mod("find_candidate")
    if what in ("band", "vertical"):
        eps = ctx.real("eps", grid=256)
        ctx.assume(ctx.and_(eps > 0, eps <= 1))
        xa, ya = ctx.real("xa", -10, 10), ctx.real("ya", -10, 10)
        dx, dy = DIRS[d] if d else (0, 5)
        xb, yb = xa + dx, ya + dy
        c = cpar(ctx, 1000, 1000, 0.0625, 0.0625)
        k = cal(ctx)
        xs, ys = [], []
        for i in range(n):
            x = ctx.real(f"x{i}", -20, 20)
            y = ctx.real(f"y{i}", -20, 20)
            if xs:
                ctx.assume(xs[-1] <= x)
            xs.append(x)
            ys.append(y)
        # targets are stored in the opposite order
        rows = [(n - 1 - i, xs[i], ys[i]) for i in range(n)]
        pix = [target(ctx, i, 10 + i, 4, 3 + i, 100 + 10 * i) for i in range(n)]
        got = F.find_candidate(mkcrd(ctx, rows), pix, n, xa, ya, xb, yb, 11, 4, 5, 110, vpar(ctx, eps), c, k)
        x0, x1 = (xa, xb) if dx >= 0 else (xb, xa)
        y0, y1 = (ya, yb) if dy >= 0 else (yb, ya)
        ln = {(0, 0): 1, (4, 0): 4, (-4, 0): 4, (12, 5): 13}.get((dx, dy), 5)
        adm, dist, corr = [], [], []
        for i in range(n):
            x, y = xs[i], ys[i]
            box = ctx.and_(x > x0 - eps, x < x1 + eps, y > y0 - eps, y < y1 + eps)
            if what == "vertical":
                t = x - xa
            elif (dx, dy) == (0, 0):
                t = y - ya
            else:
                t = (dx * (y - ya) - dy * (x - xa)) / ln
            dd = ctx.max(t, -t)
            dist.append(dd)
            adm.append(ctx.and_(box, dd < eps))
            p = n - 1 - i
            r = [min(11, 10 + p) / max(11, 10 + p), 1.0, min(5, 3 + p) / max(5, 3 + p), min(110, 100 + 10 * p) / max(110, 100 + 10 * p)]
            corr.append((4 * r[3] + 2 * r[0] + r[1] + r[2]) * (110 + 100 + 10 * p))
        if dx == 0:
            # a vertical line is widened by a hair: keep clear of the edge
            for i in range(n):
                for dd in (dist[i], xs[i] - x0 + eps, xs[i] - x1 - eps):
                    dd = dd - eps if dd is dist[i] else dd
                    ctx.assume(ctx.or_(dd < -1e-6, dd > 1e-6))
        if what == "vertical":
            idx = [int(got[i].pnr) for i in range(len(got))]
            for j in range(n):
                ctx.check(adm[j] if j in idx else ctx.not_(adm[j]), "exactly the targets in a vertical band are returned")
            return
        compare(ctx, got, rows, adm, dist, corr)
    elif what in ("quality", "score"):
        c = cpar(ctx, 1000, 1000, 0.0625, 0.0625)
        k = cal(ctx)
        rows = [(i, 1.0 + i, 0.0) for i in range(n)]
        lim = [0.25, 0.5, 0.375, 0.125]
        if what == "quality":
            lim = [ctx.real(f"lim{i}", 0, 1, grid=16) for i in range(4)] if n == 1 else lim
        top = 40
        ref = [ctx.int(f"ref{i}", 0 if n == 1 else 1, top) for i in range(4)] if what == "quality" and n == 1 else [9, 3, 4, 77]
        dim = []
        for i in range(n):
            dim.append([ctx.int(f"d{i}_{q}", 0, top if q < 3 else 400) if what == "quality" or q == vary else [8, 3, 4, 90][q]
                        for q in range(4)])
        pix = [target(ctx, i, *dim[i]) for i in range(n)]
        v = vpar(ctx, 0.5, lim[0], lim[1], lim[2], lim[3])
        got = F.find_candidate(mkcrd(ctx, rows), pix, n, 0.0, 0.0, 10.0, 0.0, ref[0], ref[1], ref[2], ref[3], v, c, k)
        adm, corr = [], []
        for i in range(n):
            r = [ratio(ctx, ref[q], dim[i][q]) for q in range(4)]
            adm.append(ctx.and_(r[0] >= lim[0], r[1] >= lim[1], r[2] >= lim[2], r[3] > lim[3]))
            corr.append((4 * r[3] + 2 * r[0] + r[1] + r[2]) * (ref[3] + dim[i][3]))
        compare(ctx, got, rows, adm, [0.0] * n, corr if what == "score" else None)
    elif what == "sensor":
        # one target in the middle of the segment; the segment's box may leave the sensor
        px = 0.03125
        imx, imy = 640, 480
        s = ctx.choose("scale", 2)
        xh, yh = (ctx.real("xh", -1, 1), ctx.real("yh", -1, 1)) if s == 0 else (0.0, 0.0)
        c = cpar(ctx, imx, imy, px, px)
        sc = [1.0, 2.0][s]
        k = cal(ctx, prim=[xh, yh, 100.0], added=[0.0, 0.0, 0.0, 0.0, 0.0, sc, 0.0])
        xa, ya = ctx.real("xa", -40, 40), ctx.real("ya", -40, 40)
        mirror = ctx.choose("mirror", 2)
        xb, yb = xa + 4, ya + (3 if not mirror else -3)
        xm, ym = xa + 2, (ya + yb) / 2
        got = F.find_candidate(mkcrd(ctx, [(0, xm, ym)]), [target(ctx, 0, 5, 5, 5, 5)], 1, xa, ya, xb, yb, 5, 5, 5, 5,
                               vpar(ctx, 0.125), c, k)
        # sensor limits in flat coordinates (the scale acts on x)
        L, R = (-imx * px / 2 - xh) / sc, (imx * px / 2 - xh) / sc
        B, T = -imy * px / 2 - yh, imy * px / 2 - yh
        y0, y1 = (ya, yb) if not mirror else (yb, ya)
        off = ctx.or_(xb <= L, xa >= R, y1 <= B, y0 >= T)
        ctx.observe("n", len(got))
        margin = ctx.or_(*[ctx.and_(a - b < 1e-4, b - a < 1e-4) for a, b in ((xb, L), (xa, R), (y1, B), (y0, T))])
        ctx.assume(ctx.not_(margin))
        ctx.check(off if len(got) == 0 else ctx.not_(off), "candidates are returned exactly when the segment is not off the sensor")
    elif what == "many":
        c = cpar(ctx, 1000, 1000, 0.0625, 0.0625)
        k = cal(ctx)
        cap = F.MAXCAND
        y = [ctx.real(f"y{i}", -1, 1) for i in range(3)]
        pos = {0: 0, 20: 1, cap: 2}
        rows = [(i, i * 0.125, y[pos[i]] if i in pos else 0.0) for i in range(cap + 2)]
        got = F.find_candidate(mkcrd(ctx, rows), [target(ctx, i, 5, 5, 5, 5) for i in range(cap + 2)], cap + 2, 0.0, 0.0, 10.0, 0.0,
                               5, 5, 5, 5, vpar(ctx, 0.5), c, k)
        idx = [int(got[i].pnr) for i in range(len(got))]
        ok = [ctx.decide(ctx.and_(r[2] > -0.5, r[2] < 0.5)) if i in pos else True for i, r in enumerate(rows)]
        want = [i for i in range(cap + 2) if ok[i]][:cap]
        ctx.observe("idx", idx)
        ctx.check(idx == want, "the first admissible targets are returned up to the capacity")
    else:
        num = nums[ctx.choose("num", len(nums))] if len(nums) > 1 else nums[0]
        # list position of the segment start: the targets sit at x = 0, 1, 2, ...
        if win is None:
            t0 = -1 + 4 * ctx.choose("win", (num + 1) // 4 + 1)
        else:
            lo, hi = list(range(0, win // 2)), list(range(max(0, num // 4 - win // 2), num // 4))
            t0 = -1 + 4 * (lo + hi)[ctx.choose("win", len(lo) + len(hi))]
        xa = ctx.real("xa", t0, t0 + 4)
        ctx.assume(xa * 2 != 2 * t0 + 1)
        crd = LISTS.get((num, ctx.symbolic))
        if crd is None:
            crd = ctx.np.recarray((num,), dtype=ctx.mod("epi").Coord2d_dtype)
            crd.x[:] = ctx.np.arange(num) * 1.0
            crd.y[:] = 0.0
            crd.pnr[:] = 0
            LISTS.clear()
            LISTS[(num, ctx.symbolic)] = crd
        c = cpar(ctx, 100000, 100, 1.0, 1.0)
        k = cal(ctx)
        got = F.find_candidate(crd, [target(ctx, 0, 5, 5, 5, 5)], num, xa, 0.0, xa + 1, 0.0, 5, 5, 5, 5, vpar(ctx, 0.5), c, k)
        idx = [int(got[i].pnr) for i in range(len(got))]
        want = [j for j in range(max(0, t0 - 2), min(num, t0 + 8)) if ctx.decide(ctx.and_(j > xa - 0.5, j < xa + 1.5))]
        ctx.observe("idx", idx)
        ctx.check(idx == want, "no admissible target is missed because of where the search starts")
