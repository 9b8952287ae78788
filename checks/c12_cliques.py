"""C12: quadruplets, triplets and pairs are proposed exactly when they are mutually consistent."""
import itertools

PROP = "C12"
BOUNDS = ("2-4 cameras, quick: camera lists with 0..2 candidates each out of 2 targets per camera (one base target for "
          "quadruplets and triplets), symbolic candidate indices, symbolic scores with concrete distances, symbolic usage marks, "
          "symbolic quality limit; thorough: 3 targets and more base targets")
OUTSIDE = "zero epipolar distance (infinite quality); overflow of the scratch buffer; more targets per camera"
ASSUMPTIONS = ["real arithmetic instead of IEEE doubles", "a target is listed at most once as candidate of another target"]
CONFIG = {"overrides": {"constants": {"MAXCAND": 4}}, "qtimeout": 4000}


def cases(tier):
    deep = tier == "thorough"
    cs = []
    for ns in itertools.product((1, 2), repeat=3):
        for rest in ((1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 2), (0, 1, 1), (1, 1, 0)):
            if (sum(ns) + sum(rest) > 8 or sum(ns) == 4 and sum(rest) == 3) and not deep:
                continue
            cs.append({"name": f"quad-{''.join(map(str, ns + rest))}", "args": {"what": "quad", "n": list(ns + rest)},
                       "cost": 2 ** (sum(ns) + sum(rest))})
    cs.append({"name": "quad-bases", "args": {"what": "quad", "n": [1] * 6, "base": 2}, "cost": 300})
    V = None
    for nm, cams, n, m in (("3-1", 3, [1] * 6, V), ("3-2", 3, [2] * 6, [[0, 0], [1, 1], [2, 0]]),
                           ("3-var", 3, [1, 1, 0, V, 0, 0], [[0, 0], [2, 0]]), ("3-var2", 3, [V, V, 0, 1, 0, 0], [[1, 0]]),
                           ("4-013", 4, [1, 0, 1, 0, 1, 0], [[0, 0], [3, 1]]),
                           ("4-023", 4, [0, 1, 1, 0, 0, 1], [[2, 0]]), ("4-123", 4, [0, 0, 0, 1, 1, 1], [[1, 0], [3, 1]]),
                           ("4-all", 4, [1] * 6, []),
                           ("4-some", 4, [1, 1, 0, 1, 0, 1], [[2, 0]]), ("4-rest", 4, [0, 1, 1, 0, 1, 2], [[3, 0]]),
                           ) + ((("3-vv", 3, [V] * 6, V), ("4-v", 4, [1] * 6, V), ("4-vs", 4, [1, 2, 0, 1, 1, 1], V)) if deep else ()):
        cs.append({"name": f"trip-{nm}", "args": {"what": "trip", "cams": cams, "n": n, "marks": m}, "cost": 400})
    for nm, cams, n, m in (
            ("2", 2, [V] * 6, V), ("3a", 3, [V, 0, 0, 1, 0, 0], [[0, 0], [1, 0]]), ("3b", 3, [1, V, 0, 0, 0, 0], [[2, 0], [2, 1]]),
            ("3c", 3, [0, 1, 0, V, 0, 0], [[1, 1], [2, 1]]), ("4a", 4, [1, 0, 0, 0, 0, 1], [[0, 0], [3, 1]]),
            ("4b", 4, [0, 1, 0, 0, 1, 0], [[2, 0], [1, 1]]), ("4c", 4, [0, 0, 1, 1, 0, 0], [[0, 1], [3, 0]]),
            ("4d", 4, [2, 2, 1, 0, 0, 1], [[3, 1]])) + ((("3v", 3, [V] * 6, V), ("4v", 4, [1] * 6, V)) if deep else ()):
        cs.append({"name": f"pair-{nm}", "args": {"what": "pair", "cams": cams, "n": n, "marks": m}, "cost": 200 * cams})
    for cams in (2, 3):
        cs.append({"name": f"lists-{cams}", "args": {"what": "lists", "cams": cams}, "cost": 50})
    return cs


PAIRS = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)]
DIST = [1, 2, 4, 8, 16, 32]


class Lists:
    """Symbolic adjacency lists, and their meaning."""

    def __init__(self, ctx, cams, T, counts, first):
        C = ctx.mod("correspondences")
        self.ctx, self.T, self.cams = ctx, T, cams
        self.a = C.safely_allocate_adjacency_lists(cams, [T] * cams)
        self.listed, self.score, self.single = {}, {}, {}
        for q, (c1, c2) in enumerate(PAIRS):
            if c2 >= cams:
                continue
            for i in range(T):
                e = self.a[c1][c2][i]
                live = i < first[c1]
                e.p1 = i
                nm = f"{c1}{c2}{i}"
                if not live:
                    e.n = 0
                    n = 0
                elif counts[q] is None:
                    n = ctx.int("n" + nm, 0, 2)
                    e.n = n
                else:
                    n = counts[q]
                    e.n = n
                p, s = [], []
                for j in range(2 if counts[q] is None else counts[q]):
                    if not live:
                        break
                    p.append(ctx.int(f"p{nm}_{j}", 0, T - 1))
                    s.append(ctx.int(f"s{nm}_{j}", 1, 1000))
                    if j:
                        ctx.assume(ctx.or_(p[0] != p[1], n < 2))
                    # slots beyond the count keep their zeros
                    e.p2[j] = ctx.ite(j < n, p[j], 0) if counts[q] is None else p[j]
                    e.corr[j] = ctx.ite(j < n, s[j], 0) if counts[q] is None else s[j]
                    e.dist[j] = ctx.ite(j < n, DIST[q] + j, 0) if counts[q] is None else DIST[q] + j
                self.single[c1, c2, i] = n == 1
                for b in range(T):
                    hits = [ctx.and_(j < n, p[j] == b) for j in range(len(p))]
                    self.listed[c1, c2, i, b] = ctx.or_(*hits)
                    sc, di = 0, DIST[q]
                    for j in range(len(p)):
                        sc = ctx.ite(hits[j], s[j], sc)
                        di = ctx.ite(hits[j], DIST[q] + j, di)
                    self.score[c1, c2, i, b] = (sc, di)


def run(ctx, what, n=None, cams=4, base=1, marks=None):
    C = ctx.mod("correspondences")
    T = 2
    if what == "lists":
        return lists(ctx, C, cams)
    first = [base] + [T] * 3 if what == "quad" else [T] * 4
    if what == "trip" and (cams == 4 or n[0] is None or n[0] > 1):
        first = [1] + [T] * 3
    if what == "trip" and marks == []:
        first = [1, 1, 1, 1]
        first[2] = T
    L = Lists(ctx, cams, T, n, first)
    accept = ctx.int("accept", 0, 300)
    dt = ctx.mod("tracking_frame_buf").n_tupel_dtype
    size = 40
    con = ctx.np.recarray((size,), dtype=dt)
    con.p = 0
    con.corr = 0.0
    use = ctx.np.zeros((cams, T), dtype=ctx.np.int32)
    if what != "quad":
        for c in range(cams):
            for i in range(T):
                if i < first[c] and (marks is None or [c, i] in marks):
                    use[c, i] = ctx.int(f"u{c}{i}", 0, 1)
    counts = [first[c] for c in range(cams)]
    if what == "quad":
        k = C.four_camera_matching(L.a, base, accept, con, size)
        sets = [(0, 1, 2, 3)]
    elif what == "trip":
        k = C.three_camera_matching(L.a, cams, counts, accept, con, size, use)
        sets = list(itertools.combinations(range(cams), 3))
    else:
        k = C.consistent_pair_matching(L.a, cams, counts, accept, con, size, use)
        sets = list(itertools.combinations(range(cams), 2))
    k = int(k)
    ctx.observe("k", k)
    rows = [[con[r].p[c] for c in range(cams)] for r in range(k)]
    ctx.observe("rows", rows)
    ctx.observe("corr", [con[r].corr for r in range(k)])
    total = 0
    for cs in sets:
        for t in itertools.product(range(T), repeat=len(cs)):
            conds, sc, di = [], 0, 0
            for (x, c1), (y, c2) in itertools.combinations(list(zip(t, cs)), 2):
                conds.append(L.listed[c1, c2, x, y])
                s, d = L.score[c1, c2, x, y]
                sc, di = sc + s, di + d
            if what == "pair":
                conds.append(L.single[cs[0], cs[1], t[0]])
            if what != "quad":
                conds += [use[c, x] == 0 for c, x in zip(cs, t)]
            good = ctx.and_(sc > accept * di, *conds)
            inside = {c: x for c, x in zip(cs, t)}
            match = [ctx.and_(*[(row[c] == inside[c]) if c in inside else (row[c] < 0) for c in range(cams)]) for row in rows]
            cnt = ctx.count(match)
            ctx.check(cnt == ctx.ite(good, 1, 0), "a clique is proposed once if it is consistent, free and good, and not at all otherwise")
            for m, r in zip(match, range(k)):
                q = con[r].corr
                ctx.check(ctx.implies(m, ctx.and_(q * di - sc <= 1e-6 * sc, sc - q * di <= 1e-6 * sc)),
                          "quality is the sum of the scores over the sum of the distances")
            total = total + cnt
    ctx.check(total == k, "only proper cliques are proposed")


def lists(ctx, C, cams):
    """The candidate lists hold what the epipolar search returned for the right targets."""
    E = ctx.mod("epi")
    P = ctx.mod("parameters")
    B = ctx.mod("tracking_frame_buf")
    T = [2, 1, 2][:cams]
    cpar = P.ControlPar(num_cams=cams)
    frm = B.Frame(cams, 4)
    vpar = P.VolumePar()
    corrected, ids = [], []
    cals = [f"cal{c}" for c in range(cams)]
    for c in range(cams):
        frm.num_targets[c] = T[c]
        ts = []
        rec = ctx.np.recarray((T[c],), dtype=E.Coord2d_dtype)
        for i in range(T[c]):
            ts.append(B.Target(pnr=i, x=0.0, y=0.0, n=100 * c + i + 1, nx=10 * c + i + 5, ny=10 * c + i + 7, sumg=1000 * c + i + 9, tnr=-1))
            rec[i].pnr, rec[i].x, rec[i].y = T[c] - 1 - i, 0.25 * c + i, -0.5 * c - i
        frm.targets[c] = ts
        corrected.append(rec)
    calls = []

    def epi(xl, yl, cal1, cal2, mm, vp):
        ctx.check(mm is cpar.mm and vp is vpar, "the epipolar segment uses the experiment's media and volume")
        return (float(xl), float(yl), cals.index(cal1), cals.index(cal2))

    res = {}

    def find(crd, pix, num, xa, ya, xb, yb, n, nx, ny, sumg, vp, cp, cal):
        c1, c2 = int(xb), int(yb)
        i = int(round(float(xa) - 0.25 * c1))
        ctx.check(abs(float(ya) + 0.5 * c1 + i) < 1e-9, "the segment belongs to the target")
        ctx.check(crd is corrected[c2] and pix is frm.targets[c2] and num == T[c2] and cal is cals[c2],
                  "candidates are searched in the other camera's list")
        p = T[c1] - 1 - i
        t = frm.targets[c1][p]
        ctx.check((n, nx, ny, sumg) == (t.n, t.nx, t.ny, t.sumg), "the search uses the target's own size and brightness")
        k = ctx.choose(f"k{c1}{c2}{i}", T[c2] + 1)
        out = ctx.np.recarray((k,), dtype=E.Candidate_dtype)
        for j in range(k):
            out[j].pnr = j
            out[j].tol = ctx.real(f"d{c1}{c2}{i}{j}", 0, 1, grid=64)
            out[j].corr = ctx.int(f"c{c1}{c2}{i}{j}", 0, 100)
        res[c1, c2, i] = out
        return out

    ctx.patch(C, "epi_mm", epi)
    ctx.patch(C, "find_candidate", find)
    a = C.safely_allocate_adjacency_lists(cams, T)
    C.match_pairs(a, corrected, frm, vpar, cpar, cals)
    for c1 in range(cams):
        for c2 in range(c1 + 1, cams):
            for i in range(T[c1]):
                ctx.check((c1, c2, i) in res, "every target is searched in every later camera")
                r, e = res[c1, c2, i], a[c1][c2][i]
                ctx.check(e.p1 == i, "the list names its own target")
                ctx.check(e.n == len(r), "every candidate is listed")
                for j in range(len(r)):
                    ctx.check(e.p2[j] == r[j].pnr, "candidate index")
                    ctx.close(e.corr[j], r[j].corr, 1e-9, "candidate score")
                    ctx.close(e.dist[j], r[j].tol, 1e-9, "candidate distance")
    ctx.check(len(res) == sum(T[c] * (cams - 1 - c) for c in range(cams)), "no other pair of cameras is searched")
