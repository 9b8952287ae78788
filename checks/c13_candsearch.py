"""C13: the tracking image search returns the nearest eligible targets of the window."""
from checks.common import cpar

PROP = "C13"
BOUNDS = ("up to 2 targets with everything symbolic (positions, matched marks, centre, four window distances), 3 targets with symbolic "
          "centre and positions, 6 targets in a row with symbolic centre (order and capacity); search start: all list lengths 1..40 and "
          "selected lengths up to 20480 with the centre anywhere in windows of 4 list places; thorough: 3 targets all symbolic, all windows")
OUTSIDE = "more than 6 targets inside one window; list lengths other than the listed ones; binary rounding of distances"
ASSUMPTIONS = ["real arithmetic instead of IEEE doubles", "targets are sorted by y"]
CONFIG = {"qtimeout": 4000}

IMX, IMY = 640, 480
SPEC_NUM = [63, 64, 65, 127, 128, 129, 255, 256, 511, 1000]
BIG_NUM = [4095, 4096, 8190, 8191, 8192, 12287, 16383, 20479, 20480]


def cases(tier):
    deep = tier == "thorough"
    cs = []
    for f in ("near", "rest"):
        cs.append({"name": f"{f}-0", "args": {"what": f, "n": 0}, "cost": 1})
        cs.append({"name": f"{f}-1", "args": {"what": f, "n": 1}, "cost": 10})
        cs.append({"name": f"{f}-2", "args": {"what": f, "n": 2, "win": not deep}, "cost": 200})
        cs.append({"name": f"{f}-2w", "args": {"what": f, "n": 2, "marks": True}, "cost": 200})
        cs.append({"name": f"{f}-3", "args": {"what": f, "n": 3, "win": True, "marks": not deep, "cx": True}, "cost": 300})
        cs.append({"name": f"{f}-line", "args": {"what": f, "n": 6, "line": True}, "cost": 300})
        cs.append({"name": f"{f}-plane", "args": {"what": f, "n": 5, "line": True, "plane": True}, "cost": 300})
        for lo in range(1, 41, 8):
            cs.append({"name": f"{f}-start-{lo}", "args": {"what": f, "nums": list(range(lo, lo + 8))}, "cost": 40})
        for num in SPEC_NUM:
            cs.append({"name": f"{f}-start-{num}", "args": {"what": f, "nums": [num], "win": None if num < 300 or deep else 96}, "cost": 40})
        for num in BIG_NUM:
            cs.append({"name": f"{f}-start-{num}", "args": {"what": f, "nums": [num], "win": 2048 if deep else 20}, "cost": 60})
    return cs


LISTS = {}


def tgt(ctx, i, x, y, tnr):
    return ctx.mod("tracking_frame_buf").Target(pnr=i, x=x, y=y, n=1, nx=1, ny=1, sumg=1, tnr=tnr)


def search(ctx, what, ts, cx, cy, w, c):
    T = ctx.mod("track")
    if what == "near":
        p = T.candsearch_in_pix(ts, len(ts), cx, cy, *w, c)
        return [int(v) for v in p]
    p = [-1] * 4
    k = T.candsearch_in_pix_rest(ts, len(ts), cx, cy, *w, p, c)
    p = [int(v) for v in p]
    ctx.check(int(k) == (1 if p[0] >= 0 else 0), "the search among unmatched targets says whether it found one")
    ctx.check(p[1:] == [-1] * 3, "the search among unmatched targets writes one place")
    return p


def run(ctx, what, n=0, win=None, nums=None, marks=False, line=False, plane=False, cx=False):
    if nums:
        return start(ctx, what, nums, win)
    c = cpar(ctx, IMX, IMY)
    if line:
        x0, y0 = ctx.real("cx", 90, 130), 100.5 if not plane else ctx.real("cy", 90, 110)
        xs = [103, 110, 98, 121, 101, 116][:n]
        ys = [100, 100, 101, 101, 101, 102][:n] if not plane else [96, 98, 100, 103, 105][:n]
        m = [ctx.int(f"tnr{i}", -1, 5) if i in (1, 4) and not plane else (3 if what == "near" else -1) for i in range(n)]
        w = [50, 50, 50, 50]
    else:
        x0 = ctx.real("cx", -10, IMX + 10)
        y0 = ctx.real("cy", -10, IMY + 10)
        if cx:
            ctx.assume(ctx.and_(x0 > 5, x0 < 600, y0 >= 0, y0 < 400))
        xs = ctx.reals("x", n, -20, IMX + 20)
        ys = ctx.reals("y", n, -20, IMY + 20)
        for a, b in zip(ys, ys[1:]):
            ctx.assume(a <= b)
        m = [ctx.int(f"tnr{i}", -1, 5) if not marks or i == 1 else (4 if what == "near" else -1) for i in range(n)]
        w = [ctx.real(f"w{i}", 0, 700) for i in range(4)] if not win else [7, 11, 5, 13]
    ts = [tgt(ctx, i, xs[i], ys[i], m[i]) for i in range(n)]
    p = search(ctx, what, ts, x0, y0, w, c)
    ctx.observe("p", p)
    xmin, xmax = ctx.max(x0 - w[0], 0), ctx.min(x0 + w[1], IMX)
    ymin, ymax = ctx.max(y0 - w[2], 0), ctx.min(y0 + w[3], IMY)
    inside = ctx.and_(x0 >= 0, x0 <= IMX, y0 >= 0, y0 <= IMY)
    elig, d2 = [], []
    for i in range(n):
        elig.append(ctx.and_(inside, xs[i] > xmin, xs[i] < xmax, ys[i] > ymin, ys[i] < ymax,
                             (m[i] != -1) if what == "near" else (m[i] == -1)))
        d2.append((xs[i] - x0) * (xs[i] - x0) + (ys[i] - y0) * (ys[i] - y0))
    verify(ctx, p, elig, d2, 4 if what == "near" else 1)


def verify(ctx, p, elig, d2, cap):
    n = len(elig)
    got = [i for i in p if i >= 0]
    ctx.check(p == got + [-1] * (len(p) - len(got)), "found targets come first, the other places are empty")
    ctx.check(len(set(got)) == len(got) and all(i < n for i in got) and len(got) <= cap, "each target at most once")
    for i in got:
        ctx.check(elig[i], "a found target lies in the window and is of the searched kind")
    for a, b in zip(got, got[1:]):
        ctx.check(d2[a] <= d2[b], "found targets come in order of distance")
    for i in range(n):
        if i not in got:
            if len(got) < cap:
                ctx.check(ctx.not_(elig[i]), "an eligible target is not missed")
            else:
                ctx.check(ctx.or_(ctx.not_(elig[i]), d2[i] >= d2[got[-1]]), "the nearest eligible targets are taken")


def start(ctx, what, nums, win):
    num = nums[ctx.choose("num", len(nums))] if len(nums) > 1 else nums[0]
    if win is None:
        t0 = -1 + 4 * ctx.choose("win", (num + 1) // 4 + 1)
    else:
        lo, hi = list(range(0, win // 2)), list(range(max(0, num // 4 - win // 2), num // 4))
        t0 = -1 + 4 * (lo + hi)[ctx.choose("win", len(lo) + len(hi))]
    y0 = ctx.real("y0", t0, t0 + 4)
    ctx.assume(ctx.and_(y0 >= 0, y0 <= num + 2))
    key = (num, ctx.symbolic, what)
    ts = LISTS.get(key)
    if ts is None:
        LISTS.clear()
        ts = LISTS[key] = [tgt(ctx, i, 100, i, 2 if what == "near" else -1) for i in range(num)]
    p = search(ctx, what, ts, 100.25, y0, [3, 3, 1.375, 1.375], cpar(ctx, 1000, num + 2))
    ctx.observe("p", p)
    idx = [j for j in range(max(1, t0 - 2), min(num, t0 + 8)) if ctx.decide(ctx.and_(j > y0 - 1.375, j < y0 + 1.375))]
    ctx.check(all(j < 0 or j in idx for j in p), "a found target lies in the window")
    got = [j for j in p if j >= 0]
    cap = 4 if what == "near" else 1
    ctx.check(len(got) == min(cap, len(idx)) and len(set(got)) == len(got), "no eligible target is missed because of where the search starts")
    for a, b in zip(got, got[1:]):
        ctx.check((a - y0) * (a - y0) <= (b - y0) * (b - y0), "found targets come in order of distance")
    if cap == 1 and got:
        for j in idx:
            ctx.check((got[0] - y0) * (got[0] - y0) <= (j - y0) * (j - y0), "the nearest is found")
