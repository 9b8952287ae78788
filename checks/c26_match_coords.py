"""C26: corrected coordinates stay paired with their targets and sorted by x."""
from checks.common import cal, cpar

PROP = "C26"
BOUNDS = "up to 4 targets (5 thorough) with arbitrary positions, corrected positions and numbers, up to 4 looked up numbers"
OUTSIDE = "more targets"
ASSUMPTIONS = ["the lens correction is an arbitrary function of the metric position (its own behaviour is C02)", "real arithmetic"]
CONFIG = {"qtimeout": 5000}


def cases(tier):
    deep = tier == "thorough"
    cs = []
    for n in range(0, 6 if deep else 5):
        for reset in (False, True):
            if n < 4 or deep or reset:
                cs.append({"name": f"match-{n}-{reset}", "args": {"what": "match", "n": n, "reset": reset}, "cost": 5 ** n})
    for n in range(0, 4):
        cs.append({"name": f"arrays-{n}", "args": {"what": "arrays", "n": n}})
    for n, m in [(0, 0), (1, 1), (2, 2), (3, 3), (3, 2), (2, 3), (0, 2)] + ([(4, 4)] if deep else []):
        cs.append({"name": f"lookup-{n}-{m}", "args": {"what": "lookup", "n": n, "m": m}, "cost": 4 ** n})
    cs.append({"name": "real", "args": {"what": "real"}})
    return cs


def run(ctx, what, **k):
    globals()[what](ctx, ctx.mod("tracking_frame_buf"), **k)


def match(ctx, F, n, reset):
    c = cpar(ctx, 1280, 1025, 0.125, 0.0625)
    kal = cal(ctx)
    fx, fy = ctx.reals("fx", n, -100, 100), ctx.reals("fy", n, -100, 100)
    pn = ctx.ints("pnr", n, -1, 1000) if n < 4 else [40, 41, 42, 43, 44][:n]
    ts, calls = [], []
    for i in range(n):
        ts.append(F.Target(pnr=pn[i], x=10.0 + 7 * i, y=20.5 + 3 * i, n=i + 1, nx=i + 2, ny=i + 3, sumg=i + 4, tnr=i + 5))
    order = [2, 0, 3, 1, 4]
    if n > 2:
        # positions in the image are in another order than in the list
        for i in range(n):
            ts[i].x = 10.0 + 7 * order[i]

    def flat(x, y, k, tol=0.00001):
        ctx.check(k is kal and tol == 1e-3, "the correction gets the given camera and tolerance")
        for i in range(n):
            if abs(float(x) - (ts[i].x - 640.0) * 0.125) < 1e-9 and abs(float(y) - (512.5 - ts[i].y) * 0.0625) < 1e-9:
                calls.append(i)
                return fx[i], fy[i]
        ctx.fail("the correction gets the metric position of a target")

    ctx.patch(F, "dist_to_flat", flat)
    old = [(t.x, t.y, t.n, t.nx, t.ny, t.sumg, t.tnr) for t in ts]
    r = F.match_coords(ts, c, kal, 1e-3, reset_numbers=reset)
    ctx.check(len(r) == n and sorted(set(calls)) == list(range(n)), "one entry per target")
    want = list(range(n)) if reset else pn
    for a in range(n - 1):
        ctx.check(r[a].x <= r[a + 1].x, "entries are sorted by x")
    # every entry is the corrected position and the number of one target, every target has its entry
    used = ctx.or_(True)
    for a in range(n):
        ctx.check(ctx.or_(*[ctx.and_(r[a].x == fx[i], r[a].y == fy[i], r[a].pnr == want[i]) for i in range(n)]),
                  "an entry holds the flat coordinates and the number of its own target")
    for i in range(n):
        here = lambda a, i: ctx.and_(r[a].x == fx[i], r[a].y == fy[i], r[a].pnr == want[i])
        # as many entries as targets carry this position and number
        k = ctx.count([ctx.and_(fx[i] == fx[j], fy[i] == fy[j], want[i] == want[j]) for j in range(n)])
        ctx.check(ctx.count([here(a, i) for a in range(n)]) == k, "every target has exactly one entry")
        t = ts[i]
        ctx.check((t.x, t.y, t.n, t.nx, t.ny, t.sumg, t.tnr) == old[i], "targets keep their data")
        ctx.check(t.pnr == want[i], "targets are renumbered only when asked for")


def records(ctx, F, n, pn):
    r = ctx.np.recarray((n,), dtype=ctx.mod("epi").Coord2d_dtype)
    xs, ys = ctx.reals("x", n, -1000, 1000), ctx.reals("y", n, -1000, 1000)
    for i in range(n):
        r[i].x, r[i].y, r[i].pnr = xs[i], ys[i], pn[i]
    return r, xs, ys


def arrays(ctx, F, n):
    pn = ctx.ints("pnr", n, -1, 100000)
    r, xs, ys = records(ctx, F, n, pn)
    pos, num = F.matched_coords_as_arrays(r)
    ctx.check(tuple(pos.shape) == (n, 2) and tuple(num.shape) == (n,), "arrays hold one row per entry")
    ctx.observe("a", [pos, num])
    for i in range(n):
        ctx.check(ctx.and_(pos[i, 0] == xs[i], pos[i, 1] == ys[i], num[i] == pn[i]), "arrays hold the data of the entries in their order")
        ctx.check(ctx.and_(r[i].x == xs[i], r[i].y == ys[i], r[i].pnr == pn[i]), "the entries are not changed")


def lookup(ctx, F, n, m):
    pn = ctx.ints("pnr", n, 0, 100000)
    for i in range(n):
        for j in range(i):
            ctx.assume(pn[i] != pn[j])
    r, xs, ys = records(ctx, F, n, pn)
    want = ctx.ints("want", m, 0, 100000)
    for i in range(m):
        for j in range(i):
            ctx.assume(want[i] != want[j])
    pos = F.get_by_pnrs(r, ctx.arr(want, "i") if m else ctx.np.zeros(0))
    ctx.check(tuple(pos.shape) == (m, 2), "one position per number")
    for k in range(m):
        for i in range(n):
            ctx.check(ctx.implies(want[k] == pn[i], ctx.and_(pos[k, 0] == xs[i], pos[k, 1] == ys[i])), "each number has its own position")
        ctx.check(ctx.implies(ctx.and_(*[want[k] != p for p in pn]), ctx.and_(pos[k, 0] == F.COORD_UNUSED, pos[k, 1] == F.COORD_UNUSED)),
                  "a number without target has no position")


def real(ctx, F):
    """With the real correction of a camera with a shifted principal point and no distortion."""
    c = cpar(ctx, 1280, 1024, 0.125, 0.125)
    xh, yh = ctx.real("xh", -5, 5), ctx.real("yh", -5, 5)
    kal = cal(ctx, prim=[xh, yh, 70.0])
    xs, ys = ctx.reals("x", 2, 0, 1280), ctx.reals("y", 2, 0, 1024)
    for i in range(2):
        ctx.assume(ctx.or_((xs[i] - 640) * 0.125 - xh > 0.001, (xs[i] - 640) * 0.125 - xh < -0.001))
    r = F.match_coords([F.Target(pnr=5, x=xs[0], y=ys[0]), F.Target(pnr=9, x=xs[1], y=ys[1])], c, kal)
    for a in range(2):
        p = ctx.ite(r[a].pnr == 5, 0, 1)
        x, y = ctx.ite(p == 0, xs[0], xs[1]), ctx.ite(p == 0, ys[0], ys[1])
        ctx.close(r[a].x, (x - 640) * 0.125 - xh, 1e-6, "flat coordinates are the metric position less the principal point")
        ctx.close(r[a].y, (512 - y) * 0.125 - yh, 1e-6, "flat coordinates are the metric position less the principal point")
    ctx.check(ctx.and_(r[0].x <= r[1].x, r[0].pnr + r[1].pnr == 14), "entries are sorted by x and keep their numbers")
