"""C23: target recognition reports the connected bright spots of the image."""
from itertools import product

from checks.common import cpar

PROP = "C23"
BOUNDS = ("images of 4x4 to 6x9 pixels with up to 6 (thorough 9) pixels of arbitrary grey value (0..255), the others dark or of fixed value; all thresholds, discontinuities and "
          "size limits (symbolic one group at a time); searched regions inside, at and beyond the image border; up to 4 cameras' thresholds")
OUTSIDE = "more free pixels; spots larger than the waiting list; the alternative peak_fit functions"
ASSUMPTIONS = ["real arithmetic for the centre"]
CONFIG = {"qtimeout": 5000, "constants": {"MAX_TARGETS": 60}}
LIMIT = {"quick": 400}

# '.': dark, '?': free, digits: fixed at ten times that plus 5, '#': 255
SHAPES = {
    "square": ["....", ".??.", ".??.", "...."],
    "row": [".......", ".?????.", "......."],
    "column": ["...", ".?.", ".?.", ".?.", ".?.", "..."],
    "plus": [".....", "..?..", ".???.", "..?..", "....."],
    "bend": [".....", ".??..", "..?..", "..??.", "....."],
    "diag": [".....", ".??..", ".....", "..??.", "....."],
    "touch": [".....", ".?...", "..?..", ".?.?.", "....."],
    "edge": ["?...", "?#?.", ".?..", "...."],
    "rim": ["..?.", ".???", "..?.", "...?"],
    "bridge": [".......", ".9???9.", "...?...", "......."],
    "fixed": ["......", ".3?9..", ".?1?..", "..7#..", "......"],
    "ring": [".....", ".???.", ".?.?.", ".555.", "....."],
    "two": [".........", ".??...??.", ".?.....?.", "........."],
    "full": [".....", ".???.", ".???.", ".???.", "....."],
    "wide": ["......", ".????.", ".?..?.", "......"],
    "valley": [".....", ".?9?.", "..?..", ".?8..", "....."],
}
QUICK = ("square", "row", "column", "plus", "bend", "diag", "touch", "edge", "rim", "bridge", "fixed")


def cases(tier):
    deep = tier == "thorough"
    cs = []
    for s in SHAPES if deep else QUICK:
        for mode in ("loose", "disco") + (("all",) if deep and s in QUICK[:8] else ()):
            cs.append({"name": f"{s}-{mode}", "args": {"shape": s, "mode": mode}, "deadline": 400 if deep else 200, "cost": 4 ** sum(r.count("?") for r in SHAPES[s])})
    for s in ("square", "row", "bend") + (("plus", "two") if deep else ()):
        for mode in ("limits", "thres"):
            cs.append({"name": f"{s}-{mode}", "args": {"shape": s, "mode": mode}, "cost": 600})
    for i, r in enumerate(((1, 3, 1, 3), (0, 2, 0, 4), (2, 5, 1, 4), (1, 4, 2, 3), (0, 5, 0, 5), (2, 3, 2, 3), (2, 2, 1, 4))):
        cs.append({"name": f"region-{i}", "args": {"shape": "touch" if i % 2 else "plus", "mode": "loose", "region": r}, "cost": 300})
    cs.append({"name": "direct", "args": {"shape": "square", "mode": "loose", "direct": True, "region": (-3, 9, -1, 7)}, "cost": 100})
    cs.append({"name": "outside", "args": {"shape": "square", "mode": "outside"}})
    return cs


def run(ctx, shape, mode, region=None, direct=False):
    S = ctx.mod("segmentation")
    rows = SHAPES[shape]
    h, w = len(rows), len(rows[0])
    g = {}
    for i, r in enumerate(rows):
        for j, c in enumerate(r):
            g[i, j] = ctx.int(f"g{i}{j}", 0, 255) if c == "?" else 0 if c == "." else 255 if c == "#" else int(c) * 10 + 5
    img = ctx.arr([[g[i, j] for j in range(w)] for i in range(h)], "u")
    cp = cpar(ctx, w, h, 0.5, 0.5)
    thres = ctx.int("thres", 0, 255) if mode in ("thres", "all") else 20
    disco = ctx.int("disco", 0, 255) if mode in ("disco", "all") else 255
    lim = dict(nnmin=1, nnmax=100, nxmin=1, nxmax=100, nymin=1, nymax=100, sumg_min=0)
    if mode == "limits":
        lim = {k: ctx.int(k, 0, 2000 if k == "sumg_min" else 6) for k in lim}
    cam = 2
    tp = ctx.mod("parameters").TargetPar(gvthresh=[250, 3, thres, 1], discont=disco, **lim)
    if mode == "outside":
        for q in ((0, w + 1, 0, h), (0, w, 0, h + 1)):
            r = ctx.call(S.target_recognition, img, tp, cam, cp, q[:2], q[2:])
            ctx.check(r[0] == "exc", "a region larger than the image is refused")
        return
    if direct:
        got = S.targ_rec(img, tp, *region, cp, cam)
    elif region is None:
        got = S.target_recognition(img, tp, cam, cp)
    else:
        got = S.target_recognition(img, tp, cam, cp, region[:2], region[2:])
    for i in range(h):
        for j in range(w):
            ctx.check(img[i, j] == g[i, j], "the image is not modified")
    x0, x1, y0, y1 = region or (0, w, 0, h)
    # the outermost pixels of the image are never searched
    x0, x1, y0, y1 = max(x0, 1), min(x1, w - 1), max(y0, 1), min(y1, h - 1)
    region_ = [(i, j) for i in range(y0, y1) for j in range(x0, x1)]
    bright = [p for p in region_ if rows[p[0]][p[1]] != "." and ctx.decide(g[p] > thres)]
    near = {p: [q for q in bright if abs(p[0] - q[0]) + abs(p[1] - q[1]) == 1] for p in bright}
    ctx.observe("n", [(int(t.n), int(t.nx), int(t.ny), int(t.pnr)) for t in got])
    for k, t in enumerate(got):
        ctx.check(t.pnr == k and t.tnr == -1, "targets are numbered in order and belong to no correspondence")
    # every target is a connected set of bright pixels and no two share a pixel
    sets = [s for s in connected(bright, near)]
    cand = [[s for s in sets if len(s) == int(t.n) and extent(s) == (int(t.nx), int(t.ny))] for t in got]

    def sums(t, s):
        e = {p: g[p] - thres for p in s}
        tot = sum(e.values())
        return ctx.and_(t.sumg == tot, near_(ctx, (t.x - 0.5) * tot, sum(e[p] * p[1] for p in s)), near_(ctx, (t.y - 0.5) * tot, sum(e[p] * p[0] for p in s)))

    if got:
        alts = []
        for combo in product(*cand):
            if all(not a & b for n, a in enumerate(combo) for b in combo[:n]):
                alts.append(ctx.and_(*[sums(t, s) for t, s in zip(got, combo)]))
        ctx.check(ctx.or_(*alts) if alts else False, "the targets are disjoint connected sets of bright pixels with these measures")
    for t in got:
        ctx.check(ctx.and_(t.n >= lim["nnmin"], t.n <= lim["nnmax"], t.nx >= lim["nxmin"], t.nx <= lim["nxmax"], t.ny >= lim["nymin"], t.ny <= lim["nymax"],
                           t.sumg + t.n * thres > lim["sumg_min"]), "every target meets the limits")
    # isolated spots that vary no more than the discontinuity allows
    for s in components(bright, near):
        around = {(i + a, j + b) for i, j in s for a in (-1, 0, 1) for b in (-1, 0, 1)} - s
        if any(q in bright for q in around):
            continue
        iso = [g[q] <= thres for q in around if q not in region_]
        lo, hi = ctx.min(*[g[p] for p in s]), ctx.max(*[g[p] for p in s])
        nx, ny = extent(s)
        fits = ctx.and_(*iso, hi - lo <= disco, len(s) >= lim["nnmin"], len(s) <= lim["nnmax"], nx >= lim["nxmin"], nx <= lim["nxmax"], ny >= lim["nymin"], ny <= lim["nymax"],
                        sum(g[p] for p in s) > lim["sumg_min"])
        hits = [sums(t, s) for t in got if int(t.n) == len(s) and extent(s) == (int(t.nx), int(t.ny))]
        ctx.check(ctx.implies(fits, ctx.or_(*hits) if hits else False), "an isolated spot that meets the limits is reported")
        inside = [t for t in got]
        # any target whose centre lies within the isolated spot's extent is that spot, and there is one
        ys, xs = [p[0] for p in s], [p[1] for p in s]
        here = [ctx.and_(t.x - 0.5 >= min(xs), t.x - 0.5 <= max(xs), t.y - 0.5 >= min(ys), t.y - 0.5 <= max(ys)) for t in inside]
        if len(bright) == len(s) and here:
            ctx.check(ctx.implies(fits, len(got) == 1), "an isolated spot is reported once")


def near_(ctx, a, b):
    return ctx.and_(a - b < 1e-6, b - a < 1e-6)


def extent(s):
    ys, xs = [p[0] for p in s], [p[1] for p in s]
    return max(xs) - min(xs) + 1, max(ys) - min(ys) + 1


def components(bright, near):
    left, out = set(bright), []
    while left:
        s, todo = set(), [min(left)]
        while todo:
            p = todo.pop()
            if p not in s:
                s.add(p)
                todo += near[p]
        left -= s
        out.append(s)
    return out


def connected(bright, near):
    """All connected sets."""
    seen = set()
    todo = [frozenset([p]) for p in bright]
    while todo:
        s = todo.pop()
        if s in seen:
            continue
        seen.add(s)
        for p in s:
            for q in near[p]:
                if q not in s:
                    todo.append(s | {q})
    return sorted(seen, key=sorted)
