"""C16: backward tracking only adds consistent links."""
from checks.common import cal, cpar

PROP = "C16"
BOUNDS = ("backward runs over 4-5 (thorough 6) frames of up to 3 particles at arbitrary positions on a line, every placement of the forward links listed by the cases; "
          "every candidate relation that comes from a search radius or from seeing everything; adding of particles on and off")
OUTSIDE = "larger frames, other components of the positions; how candidates are found in the images (C28); which particles adding would add"
ASSUMPTIONS = ["the candidate search, the position of unlinked targets and the angle and acceleration of two displacements are replaced by simple functions of the positions "
               "(their own properties: C28, C09, C29)", "no two candidates have the same score"]
CONFIG = {"qtimeout": 4000}
LIMIT = {"quick": 400}

DANGLE, DACC, VMIN, VMAX = 40.0, 4.0, -5.5, 6.5
LX = 30.0
BASES = ("res/rt_is", "res/ptv_is", "res/added")
IMG = "img/c0.%04d"


def cases(tier):
    deep = tier == "thorough"
    cs = []

    def add(name, n, links=(), cost=10, **k):
        cs.append({"name": name, "args": {"n": n, "links": links, **k}, "cost": cost, "deadline": 500 if deep else 150})

    # links: (frame, i, j): particle i of the frame is linked to particle j of the next
    add("start", (0, 1, 1, 1), ((3, 0, 0),))
    add("gap", (1, 1, 1, 1), ((3, 0, 0), (1, 0, 0)))
    add("whole", (1, 1, 1, 1), ((3, 0, 0),))
    add("linked", (1, 1, 1, 1), ((3, 0, 0), (2, 0, 0), (1, 0, 0)))
    add("no-next", (1, 1, 1, 1), ((2, 0, 0), (1, 0, 0)))
    add("nothing", (1, 1, 1, 1))
    add("taken", (0, 1, 2, 2), ((3, 0, 0), (3, 1, 1), (2, 0, 0)))
    add("taken-2", (1, 1, 2, 2), ((3, 0, 0), (3, 1, 1), (2, 0, 1), (1, 0, 0)))
    add("two-candidates", (0, 2, 1, 1), ((3, 0, 0),))
    add("two-kinds", (1, 2, 1, 1), ((3, 0, 0), (1, 0, 1)), cost=40)
    add("compete", (0, 1, 2, 2), ((3, 0, 1), (3, 1, 0)), cost=30)
    add("compete-gap", (1, 1, 2, 2), ((3, 0, 1), (3, 1, 0), (1, 0, 0)), cost=40)
    add("second-step", (2, 1, 1, 1), ((3, 0, 0), (2, 0, 0)))
    add("near", (1, 1, 1, 1), ((3, 0, 0),), near=True, cost=30)
    add("near-gap", (1, 2, 1, 1), ((3, 0, 0), (1, 0, 0)), near=True, cost=30)
    add("adding", (1, 1, 1, 1), ((3, 0, 0),), ghost=True)
    add("adding-none", (1, 0, 1, 1), ((3, 0, 0),), ghost=True)
    add("five", (1, 1, 1, 1, 1), ((4, 0, 0), (2, 0, 0)))
    add("five-start", (0, 1, 1, 1, 1), ((4, 0, 0), (3, 0, 0)))
    if deep:
        add("deep-compete", (1, 2, 2, 2), ((3, 0, 1), (3, 1, 0), (1, 0, 0)), cost=3000)
        add("deep-three", (0, 1, 3, 3), ((3, 0, 1), (3, 1, 0), (3, 2, 2)), cost=1000)
        add("deep-candidates", (1, 3, 1, 1), ((3, 0, 0), (1, 0, 1)), cost=1000)
        add("deep-six", (1, 1, 1, 1, 1, 1), ((5, 0, 0), (3, 0, 0), (1, 0, 0)), cost=300)
        add("deep-first", (2, 2, 1, 1), ((3, 0, 0), (2, 0, 0), (1, 0, 1)), cost=300)
        add("deep-near", (1, 2, 2, 2), ((3, 0, 1), (3, 1, 0), (1, 0, 0)), near=True, cost=3000)
    return cs


def run(ctx, n, links, near=False, ghost=False):
    T = ctx.mod("track")
    ctx.fs("res", "img")
    nf = len(n)
    xs = {f: [ctx.real(f"x{f}_{i}", -40, 40) for i in range(n[f - 1])] for f in range(1, nf + 1)}
    nxt = {f: [-2] * len(xs[f]) for f in xs}
    prv = {f: [-1] * len(xs[f]) for f in xs}
    for f, i, j in links:
        nxt[f][i], prv[f + 1][j] = j, i
    for f in xs:
        ctx.write_file(f"{BASES[0]}.{f}", f"{n[f - 1]}\n" + "".join(ctx.fmt(f"{i + 1} %s 0.0 0.0 0 -1 -1 -1\n", x) for i, x in enumerate(xs[f])))
        ctx.write_file(f"{BASES[1]}.{f}", f"{n[f - 1]}\n" + "".join(ctx.fmt(f"{prv[f][i]} {nxt[f][i]} %s 0.0 0.0\n", x) for i, x in enumerate(xs[f])))
        ctx.write_file(f"{BASES[2]}.{f}", f"{n[f - 1]}\n" + "".join(ctx.fmt(f"{prv[f][i]} {nxt[f][i]} %s 0.0 0.0 2\n", x) for i, x in enumerate(xs[f])))
        ctx.write_file(f"img/c0.{f:04d}_targets", "2\n0 10.0 20.0 1 1 1 5 0\n1 11.0 21.0 1 1 1 7 -1\n")

    spare = ctx.real("spare", -40, 40) if ghost else 0.0


    def seen(m, center):
        return not near or ctx.decide(abs(m - center) < 5)

    def candidates(center, proj, frm, run):
        # the frame's particles are candidates when they are near
        c = [(i, 2 + i % 3) for i in range(frm.num_parts) if seen(frm.path_info[i].x[0], center[0])]
        w = ctx.np.recarray((len(c) + 1,), dtype=T.Foundpix_dtype)
        for r, (i, q) in enumerate(c + [(-1, 0)]):
            w[r].ftnr, w[r].freq = i, q
        return w

    def ang(start, pred, cand):
        return 10 * abs(pred - start) + 5 * abs(cand - pred), abs(pred - cand)

    ctx.patch(T, "sorted_candidates_in_volume", candidates)
    ctx.patch(T, "assess_new_position", lambda pos, frm, run: (3 if ghost else 0, ctx.arr([[spare, 0.0]]), [[1, 0, -1, -1]]))
    ctx.patch(T, "point_position", lambda v2, *a: (0.1, ctx.arr([v2[0][0], 0.0, 0.0])))
    ctx.patch(T, "angle_acc", lambda a, b, c: ang(a[0], b[0], c[0]))
    ctx.patch(T, "point_to_pixel", lambda p, *a: ctx.arr([3 * p[0] + 1.0, 4 * p[0] - 2.0]))
    ctx.patch(ctx.mod("tracking_run"), "volumedimension", lambda *a: (LX, -LX, 5.0, -5.0, 10.0, -10.0))
    P = ctx.mod("parameters")
    tp = P.TrackParTuple(VMIN, VMAX, -1.5, 1.5, -2.0, 2.0, DANGLE, DACC, 1 if ghost else 0, 0.0, 0.0, 0.0, 0.0)
    vp = P.VolumePar(x_lay=[-LX, LX], z_min_lay=[-10.0, -10.0], z_max_lay=[10.0, 10.0], cn=0.1, cnx=0.1, cny=0.1, csumg=0.1, corrmin=30.0, eps0=0.1)
    cals = [cal(ctx, [10.0, 20.0, 100.0], [0.0, 0.0, 0.0], [0.0, 0.0, 50.0], [0.0, 0.0, 1.0])]
    tr = ctx.mod("tracking_run").TrackingRun(P.SequencePar(img_base_name=[IMG], first=1, last=nf), tp, vp, cpar(ctx, 200, 100, 0.25, 0.5, num_cams=1), 4, 8,
                                             *BASES, cals, 0.0001)
    lmax = tr.lmax

    # what should come out
    def ok(angle, acc):
        return ctx.decide(ctx.or_(ctx.and_(acc < DACC, angle < DANGLE), acc < DACC / 10))

    wn, wp = {f: list(v) for f, v in nxt.items()}, {f: list(v) for f, v in prv.items()}
    total = 0
    for f in range(nf - 1, 1, -1):
        best = {}
        for h, x1 in enumerate(xs[f]):
            if wn[f][h] < 0 or wp[f][h] != -1:
                continue
            x0 = xs[f + 1][wn[f][h]]
            x2 = 2 * x1 - x0
            opts = []
            for m, x3 in enumerate(xs[f - 1]):
                if seen(x3, x2) and ctx.decide(ctx.and_(VMIN < x1 - x3, x1 - x3 < VMAX)):
                    angle, acc = ang(x1, x2, x3)
                    if ok(angle, acc):
                        opts.append((((abs(x1 - x3) + abs(x0 - x1)) / 2 / lmax + acc / DACC + angle / DANGLE) / (2 + m % 3), m))
            for i, o in enumerate(opts):
                for p in opts[:i]:
                    ctx.assume(ctx.or_(o[0] - p[0] > 1e-6, p[0] - o[0] > 1e-6))
                if h not in best or ctx.decide(o[0] < best[h][0]):
                    best[h] = o
        for h in sorted(best):
            m = best[h][1]
            if wn[f - 1][m] != -2:
                continue
            if wp[f - 1][m] != -1:
                x0, x1, x3, x4 = xs[f + 1][wn[f][h]], xs[f][h], xs[f - 1][m], xs[f - 2][wp[f - 1][m]]
                if not ok(*ang(x3, x4, (5 * x3 - 4 * x1 + x0) * 0.5)):
                    continue
            wp[f][h], wn[f - 1][m] = m, h
        total += sum(p != -1 for p in wp[f])

    got = T.trackback_c(tr)

    gn, gp, cnt = {}, {}, {}
    for f in xs:
        L = ctx.read_file(f"{BASES[1]}.{f}").split("\n")
        cnt[f] = int(L[0])
        rows = [ctx.fields(r) for r in L[1:1 + cnt[f]]]
        gp[f], gn[f] = [int(ctx.parse(r[0], "i")) for r in rows], [int(ctx.parse(r[1], "i")) for r in rows]
        ctx.check(cnt[f] >= len(xs[f]) if ghost else cnt[f] == len(xs[f]), "the frames keep their particles")
        for i in range(len(xs[f])):
            ctx.check(nxt[f][i] < 0 or gn[f][i] == nxt[f][i], "a link found by forward tracking stays")
            ctx.check(prv[f][i] < 0 or gp[f][i] == prv[f][i], "a link found by forward tracking stays")
    ctx.observe("links", (gn, gp))
    for f in xs:
        for i, m in enumerate(gn[f]):
            ctx.check(m == -2 or (f < nf and 0 <= m < cnt[f + 1] and gp[f + 1][m] == i), "links are mutual")
        for i, m in enumerate(gp[f]):
            ctx.check(m == -1 or (f > 1 and 0 <= m < cnt[f - 1] and gn[f - 1][m] == i), "links are mutual")
            if m != -1 and (i >= len(xs[f]) or prv[f][i] != m):
                ctx.check(gn[f][i] >= 0, "a predecessor is added only to a particle with a successor")
                if not ghost:
                    ctx.check(nxt[f - 1][m] == -2, "only particles without a successor are linked")
                    x1, x3, x0 = xs[f][i], xs[f - 1][m], xs[f + 1][gn[f][i]]
                    angle, acc = ang(x1, 2 * x1 - x0, x3)
                    ctx.check(ctx.and_(VMIN < x1 - x3, x1 - x3 < VMAX), "an added link satisfies the velocity limits")
                    ctx.check(ctx.or_(ctx.and_(acc < DACC, angle < DANGLE), acc < DACC / 10), "an added link satisfies the acceleration and angle limits")
    if not ghost:
        for f in xs:
            ctx.check(gn[f][:len(xs[f])] == wn[f] and gp[f][:len(xs[f])] == wp[f], "exactly the best candidates that are free and fit are linked")
    if not ghost:
        ctx.close(got, total / (nf - 2), 1e-9, "the average number of links is returned")


