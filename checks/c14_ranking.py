"""C14: candidate ranking keeps each multiply-seen particle once, most-seen first."""
from checks.common import cpar

PROP = "C14"
BOUNDS = ("two cameras: tables with 6 symbolic places over particles 0..2 and empty; three and four cameras: 6 symbolic places over "
          "particles 0..2 and empty plus fixed filled or empty places; registering: up to 3 (thorough 5) targets with symbolic "
          "particle numbers, positions along a row and centre, every camera index")
OUTSIDE = "tables with more distinct particles or more symbolic places; order among particles seen equally often"
ASSUMPTIONS = ["the table was filled from the empty state, every place marked for its own camera"]
CONFIG = {"qtimeout": 4000}

# fixed parts of the tables: None = symbolic, else the particle number
TABLES = {
    "2-a": [[None, None, -1, -1], [None, None, -1, -1]],
    "2-b": [[None, None, None, -1], [None, 1, -1, -1]],
    "2-c": [[None, 0, 1, -1], [None, None, 1, -1]],
    "2-d": [[-1, None, 2, 1], [None, -1, None, 2]],
    "2-full": [[0, 1, 2, 3], [3, None, 1, None]],
    "3-a": [[None, -1, -1, -1], [None, None, -1, -1], [None, -1, -1, -1]],
    "3-b": [[0, 1, 2, None], [None, 2, -1, -1], [None, 0, -1, -1]],
    "4-a": [[None, 2, -1, -1], [None, -1, -1, -1], [None, 1, -1, -1], [None, -1, 2, -1]],
    "4-b": [[None, 0, 1, 2], [1, None, -1, -1], [2, -1, None, -1], [0, 1, -1, -1]],
    "1": [[None, None, None, None]],
    "2-none": [[-1] * 4, [-1] * 4],
}
DEEP = {
    "2-six": [[None, None, None, -1], [None, None, None, -1]],
    "3-six": [[None, None, -1, -1], [None, None, -1, -1], [None, None, 1, -1]],
    "4-six": [[None, None, -1, -1], [None, None, -1, -1], [None, 0, -1, -1], [None, 1, -1, -1]],
}


def cases(tier):
    deep = tier == "thorough"
    tabs = dict(TABLES, **DEEP) if deep else TABLES
    cs = [{"name": "rank-" + k, "args": {"what": "rank", "tab": k}, "cost": 4 ** sum(v is None for r in t for v in r)} for k, t in tabs.items()]
    for cams, cam in ((1, 0), (2, 0), (2, 1), (4, 2), (4, 3)):
        for n in (0, 1, 2, 3) + ((5,) if deep else ()):
            if n < 2 or cam == 1 or deep:
                cs.append({"name": f"register-{cams}-{cam}-{n}", "args": {"what": "register", "cams": cams, "cam": cam, "n": n}, "cost": 6 ** n})
    cs.append({"name": "volume-2", "args": {"what": "volume"}, "cost": 100})
    return cs


def run(ctx, what, tab=None, cams=0, cam=0, n=0):
    T = ctx.mod("track")
    if what == "rank":
        return rank(ctx, T, dict(TABLES, **DEEP)[tab])
    if what == "volume":
        return volume(ctx, T)
    register(ctx, T, cams, cam, n)


def rank(ctx, T, tab):
    nc = len(tab)
    fp = ctx.np.recarray((nc * 4,), dtype=T.Foundpix_dtype)
    T.reset_foundpix_array(fp, nc * 4, nc)
    val = []
    for c in range(nc):
        for s in range(4):
            v = tab[c][s]
            if v is None:
                v = ctx.int(f"f{c}{s}", -1, 2)
            val.append((c, v))
            if isinstance(v, int) and v == -1 and not ctx.symbolic:
                continue
            fp[4 * c + s].ftnr = v
            fp[4 * c + s].whichcam[c] = 1 if tab[c][s] is not None and v != -1 else ctx.ite(v != -1, 1, 0)
    k = int(T.sort_candidates_by_freq(fp, nc))
    ctx.observe("k", k)
    got = [(int(fp[i].ftnr), int(fp[i].freq)) for i in range(nc * 4)]
    ctx.observe("got", got)
    count = {}
    for p in range(4):
        count[p] = ctx.count([ctx.or_(*[v == p for c, v in val if c == cc]) for cc in range(nc)])
    single = ctx.and_(*[count[p] <= 1 for p in count])
    known = ("single-seen", single)
    ctx.check(0 <= k <= nc * 4, "the number of ranked particles is within the table")
    listed = [g[0] for g in got[:k]]
    ctx.check(len(set(listed)) == k and all(g >= 0 for g in listed), "every ranked particle is listed once")
    for p in count:
        ctx.check((count[p] >= 2) if p in listed else ctx.not_(count[p] >= 2),
                  "exactly the particles seen in two or more cameras are ranked", known=known)
    for p, f in got[:k]:
        ctx.check(count[p] == f, "a particle is counted with the number of cameras that saw it")
    for a, b in zip(got[:k], got[1:k]):
        ctx.check(a[1] >= b[1], "the most-seen particles come first")
    ctx.check(all(g == (-1, 0) for g in got[k:]), "the other places are empty", known=known)


def targets(ctx, n, pre=""):
    B = ctx.mod("tracking_frame_buf")
    t = [ctx.int(f"{pre}tnr{i}", -1, 6) for i in range(n)]
    return t, [B.Target(pnr=i, x=100 + 10 * i, y=50, n=1, nx=1, ny=1, sumg=1, tnr=t[i]) for i in range(n)]


def register(ctx, T, cams, cam, n):
    c = cpar(ctx, 640, 480, num_cams=cams)
    t, ts = targets(ctx, n)
    cx = ctx.real("cx", 80, 170)
    fp = ctx.np.recarray((cams * 4,), dtype=T.Foundpix_dtype)
    T.reset_foundpix_array(fp, cams * 4, cams)
    T.register_closest_neighbs(ts, n, cam, cx, 50.25, 16, 23, 2, 2, fp[4 * cam:], c)
    elig = [ctx.and_(cx - 16 < 100 + 10 * i, 100 + 10 * i < cx + 23, t[i] != -1) for i in range(n)]
    got = [fp[i].ftnr for i in range(cams * 4)]
    ctx.observe("got", got)
    for i in range(cams * 4):
        for j in range(cams):
            w = fp[i].whichcam[j]
            ctx.check(ctx.implies(w != 0, ctx.and_(w == 1, j == cam, i // 4 == cam, got[i] != -1)), "only its own camera is marked, for filled places only")
            if j == cam and i // 4 == cam:
                ctx.check(ctx.implies(got[i] != -1, w == 1), "a filled place is marked for its camera")
        if i // 4 != cam:
            ctx.check(got[i] == -1, "places of other cameras stay empty")
    mine = got[4 * cam: 4 * cam + 4]
    for g in mine:
        ctx.check(ctx.or_(g == -1, *[ctx.and_(elig[i], g == t[i]) for i in range(n)]), "a registered number belongs to a target of the window")
    ctx.check(ctx.count([g != -1 for g in mine]) == ctx.count(elig) if n <= 4 else True, "exactly as many numbers as targets in the window")
    if n <= 4:
        for i in range(n):
            same = [ctx.and_(elig[j], t[j] == t[i]) for j in range(n)]
            ctx.check(ctx.implies(elig[i], ctx.count([g == t[i] for g in mine]) == ctx.count(same)), "every target of the window is registered")
    else:
        for i in range(n):
            closer = ctx.count([ctx.and_(elig[j], (100 + 10 * j - cx) * (100 + 10 * j - cx) <= (100 + 10 * i - cx) * (100 + 10 * i - cx)) for j in range(n)])
            ctx.check(ctx.implies(ctx.and_(elig[i], closer <= 4), ctx.or_(*[g == t[i] for g in mine])), "the nearest four are registered")


def volume(ctx, T):
    """The whole candidate search of a predicted position with two cameras."""
    B = ctx.mod("tracking_frame_buf")
    c = cpar(ctx, 640, 480, num_cams=2)
    frm = B.Frame(2, 4)
    tn = []
    for cam in range(2):
        t, ts = targets(ctx, 2, f"c{cam}")
        tn.append(t)
        frm.targets[cam] = ts
        frm.num_targets[cam] = 2
    lim = [[12, 20, 3, 2], [13, 8, 4, 6]]
    right, left, down, up = [[lim[cam][q] for cam in range(2)] for q in range(4)]
    ctx.patch(T, "searchquader", lambda *a: (ctx.arr(right), ctx.arr(left), ctx.arr(down), ctx.arr(up)))

    class Run:
        cpar = c
        tpar = None
        cal = [None, None]

    cx = [ctx.real("cx0", 90, 125), ctx.real("cx1", 104, 106)]
    w = T.sorted_candidates_in_volume(ctx.arr([0, 0, 0]), ctx.arr([[cx[0], 50.5], [cx[1], 50.5]]), frm, Run())
    got = [(int(w[i].ftnr), int(w[i].freq)) for i in range(len(w))]
    ctx.observe("got", got)
    end = [i for i, g in enumerate(got) if g[0] == -1]
    ctx.check(bool(end), "the list ends with an empty place")
    got = got[: end[0]]
    count = {}
    for p in range(7):
        see = []
        for cam in range(2):
            see.append(ctx.or_(*[ctx.and_(tn[cam][i] == p, cx[cam] - lim[cam][1] < 100 + 10 * i, 100 + 10 * i < cx[cam] + lim[cam][0]) for i in range(2)]))
        count[p] = ctx.count(see)
    known = ("single-seen", ctx.and_(*[count[p] <= 1 for p in count]))
    for p in count:
        ctx.check((count[p] == 2) if (p, 2) in got else ctx.not_(count[p] == 2), "exactly the particles seen in both cameras are candidates", known=known)
    ctx.check(len(got) == len(set(got)), "every candidate once")
    ctx.check(all(f == 2 for _, f in got), "candidates are counted", known=known)
