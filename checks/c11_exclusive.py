"""C11: a target belongs to at most one correspondence, best matches first."""
import itertools

PROP = "C11"
BOUNDS = ("selection: up to 4 candidates (thorough 5) with symbolic target indices, quality and usage marks, 2-4 cameras; final "
          "result: 1-4 cameras with up to 2 targets each, every candidate list of at most one or two entries with symbolic indices "
          "(scores concrete) or symbolic scores (lists concrete)")
OUTSIDE = "more targets; overflow of the candidate buffers; order of candidates of equal quality"
ASSUMPTIONS = ["the epipolar search is replaced by an arbitrary candidate relation"]
CONFIG = {"overrides": {"constants": {"MAXCAND": 4, "NMAX": 10, "MAX_TARGETS": 4}}, "qtimeout": 4000}
PAIRS = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)]


def cases(tier):
    deep = tier == "thorough"
    cs = [{"name": f"take-{c}-{n}", "args": {"what": "take", "cams": c, "n": n}, "cost": 10 ** n}
          for c, n in ((2, 0), (2, 1), (2, 2), (3, 2), (4, 2)) + (((2, 3), (3, 3), (4, 3), (2, 4), (4, 4)) if deep else ())]
    cs += [{"name": f"take-{c}-3h", "args": {"what": "take", "cams": c, "n": 3, "half": True}, "cost": 9000} for c in (2, 3, 4)]
    cs.append({"name": "take-order-4", "args": {"what": "take", "cams": 2, "n": 4, "fixed": True}, "cost": 5000})
    for cams in (2, 3, 4):
        for z in (0, 1):
            # one candidate in every list, symbolic
            cs.append({"name": f"lists-{cams}-{z}", "args": {"what": "final", "cams": cams, "T": [2] * cams if cams < 4 else [2, 1, 2, 1],
                                                             "mode": "lists", "z": z}, "cost": 900})
    cs.append({"name": "lists-4-b", "args": {"what": "final", "cams": 4, "T": [1, 2, 1, 2], "mode": "lists", "z": 0}, "cost": 900})
    cs.append({"name": "lists-4-all", "args": {"what": "final", "cams": 4, "T": [2, 1, 1, 1], "mode": "lists", "z": 0, "allcam": 1}, "cost": 90})
    for cams in (2, 3, 4):
        cs.append({"name": f"none-{cams}", "args": {"what": "final", "cams": cams, "T": [2] * cams, "mode": "none", "z": 0}, "cost": 9})
        cs.append({"name": f"empty-{cams}", "args": {"what": "final", "cams": cams, "T": [2, 0, 1, 2][:cams], "mode": "lists", "z": 0}, "cost": 9})
    for cams in (2, 3, 4):
        for tpl in ("ident", "cross", "full"):
            cs.append({"name": f"score-{cams}-{tpl}", "args": {"what": "final", "cams": cams, "mode": tpl, "z": 0,
                                                               "T": [2] * cams if cams < 3 or tpl == "ident" else ([2, 2, 1] if cams == 3 else [1, 2, 1, 1])}, "cost": 500})
    for n in (1, 2, 3):
        cs.append({"name": f"single-{n}", "args": {"what": "single", "n": n}})
    return cs


def run(ctx, what, cams=4, n=0, **k):
    C = ctx.mod("correspondences")
    if what == "take":
        return take(ctx, C, cams, n, **k)
    if what == "single":
        return single(ctx, C, n)
    return final(ctx, C, cams, **k)


def take(ctx, C, cams, n, fixed=False, half=False):
    dt = ctx.mod("tracking_frame_buf").n_tupel_dtype
    src = ctx.np.recarray((n,), dtype=dt)
    dst = ctx.np.recarray((n + 1,), dtype=dt)
    dst.p = -7
    dst.corr = 0.0
    T = 2 if n > 2 or cams > 2 else 3
    use = ctx.np.zeros((cams, T), dtype=ctx.np.int32)
    rows, q = [], []
    for i in range(n):
        q.append(ctx.int(f"q{i}", 1, 9))
        if fixed:
            p = [[0, 0], [0, 1], [1, 0], [1, 1]][i]
        else:
            p = [ctx.int(f"p{i}{c}", -2 if c < 2 else -1, T - 1) for c in range(min(cams, 2)) if not (half and i == 2 and c == 1)] + ([0] if half and i == 2 else []) + [i % T, (i + 1) % T][: max(0, cams - 2)]
        src[i].corr = q[i]
        for c in range(4):
            src[i].p[c] = p[c] if c < cams else -1
        rows.append(p)
    for i, j in itertools.combinations(range(n), 2):
        ctx.assume(q[i] != q[j])
    u0 = {}
    for c in range(cams):
        for t in range(T):
            u0[c, t] = ctx.int(f"u{c}{t}", 0, 1) if t == 0 and c < (1 if half else 2) else 0
            use[c, t] = u0[c, t]
    k = int(C.take_best_candidates(src, dst, cams, use))
    ctx.observe("k", k)
    got = [([dst[r].p[c] for c in range(cams)], dst[r].corr) for r in range(k)]
    ctx.observe("corr", [g[1] for g in got])
    for a, b in zip(got, got[1:]):
        ctx.check(a[1] > b[1], "taken candidates come in descending quality")
    taken = []
    for i in range(n):
        taken.append(ctx.or_(*[ctx.and_(g[1] == q[i], *[g[0][c] == rows[i][c] for c in range(cams)]) for g in got]))
    ctx.check(ctx.count(taken) == k, "only candidates are taken, each once")

    def shares(a, b):
        return ctx.or_(*[ctx.and_(a[c] >= 0, a[c] == b[c]) for c in range(cams)])

    def used(a):
        return ctx.or_(*[ctx.and_(a[c] == t, u0[c, t] > 0) for c in range(cams) for t in range(T)])

    for i in range(n):
        ctx.check(ctx.implies(taken[i], ctx.not_(used(rows[i]))), "no target that is in use is taken")
        for j in range(n):
            if j > i:
                ctx.check(ctx.not_(ctx.and_(taken[i], taken[j], shares(rows[i], rows[j]))), "no target is taken twice")
        better = ctx.or_(*[ctx.and_(taken[j], q[j] > q[i], shares(rows[i], rows[j])) for j in range(n) if j != i])
        ctx.check(ctx.or_(taken[i], used(rows[i]), better), "a candidate is left out only if it conflicts with a better one or a used target")
    for c in range(cams):
        for t in range(T):
            hit = ctx.or_(u0[c, t] > 0, *[ctx.and_(taken[i], rows[i][c] == t) for i in range(n)])
            ctx.check((use[c, t] > 0) == hit if isinstance(hit, bool) else ctx.and_(
                ctx.implies(hit, use[c, t] > 0), ctx.implies(use[c, t] > 0, hit)), "exactly the targets in use are marked")


def single(ctx, C, n):
    B = ctx.mod("tracking_frame_buf")
    E = ctx.mod("epi")
    P = ctx.mod("parameters")
    ts = [B.Target(pnr=i, x=1.5 + i, y=7.0 - i, n=1, nx=1, ny=1, sumg=1, tnr=-1) for i in range(n)]
    perm = list(itertools.permutations(range(n)))
    perm = perm[ctx.choose("perm", len(perm))]
    rec = ctx.np.recarray((n,), dtype=E.Coord2d_dtype)
    for i in range(n):
        rec[i].pnr, rec[i].x, rec[i].y = perm[i], ctx.real(f"x{i}", -9, 9), 0.0
    cp = P.ControlPar(num_cams=1)
    pos, ids, num = C.py_correspondences([ts], [rec], [None], P.VolumePar(), cp)
    ctx.check(num == n and len(pos) == 1 and len(ids) == 1, "one camera: every target is its own correspondence")
    for i in range(n):
        ctx.check(ids[0][0, i] == perm[i], "identifier of the target")
        ctx.check(pos[0][0, i, 0] == ts[perm[i]].x, "position x of the target")
        ctx.check(pos[0][0, i, 1] == ts[perm[i]].y, "position y of the target")
        ctx.check(ts[perm[i]].tnr == i, "the target carries the number of its correspondence")


def final(ctx, C, cams, T, mode, z, allcam=0):
    B = ctx.mod("tracking_frame_buf")
    E = ctx.mod("epi")
    P = ctx.mod("parameters")
    cp = P.ControlPar(num_cams=cams)
    cp.all_cam_flag = allcam
    vp = P.VolumePar()
    accept = 5
    vp.corrmin = accept
    cals = [f"cal{c}" for c in range(cams)]
    targets, flat = [], []
    for c in range(cams):
        targets.append([B.Target(pnr=i, x=10.0 * c + i, y=100.0 + 10 * c - i, n=1, nx=1, ny=1, sumg=1, tnr=-1) for i in range(T[c])])
        rec = ctx.np.recarray((T[c],), dtype=E.Coord2d_dtype)
        for i in range(T[c]):
            rec[i].pnr, rec[i].x, rec[i].y = T[c] - 1 - i, float(i), float(c)
        flat.append(rec)
    ctx.patch(C, "epi_mm", lambda xl, yl, c1, c2, mm, v: (float(xl), float(yl), float(cals.index(c1)), float(cals.index(c2))))
    edge, score, single_ = {}, {}, {}

    def find(crd, pix, num, xa, ya, xb, yb, *rest):
        i, c1, c2 = int(xa), int(xb), int(yb)
        if mode == "lists":
            n = min(1, T[c2])
        elif mode == "none":
            n = 0
        elif mode == "ident":
            n = 1 if i < T[c2] else 0
        else:
            n = T[c2]
        out = ctx.np.recarray((n,), dtype=E.Candidate_dtype)
        p, s, d = [], [], []
        for j in range(n):
            nm = f"{c1}{c2}{i}{j}"
            q = PAIRS.index((c1, c2))
            if mode == "lists":
                p.append(ctx.int("p" + nm, 0, T[c2] - 1) if (q + z) % 2 == 0 or cams < 4 else (i + z) % T[c2])
                s.append([31, 17, 93, 40, 58, 66][q] * (1 + i) + 4 * z * i * q)
            else:
                p.append(i if mode == "ident" else (T[c2] - 1 - j if mode == "cross" else j))
                s.append(ctx.int("s" + nm, 1, 90) if q % 2 == 0 and i == 0 or cams < 4 or mode == "ident" and i else [31, 17, 93, 40, 58, 66][q] * (1 + i) + j)
            d.append([1, 2, 1, 2, 1, 2][q])
            out[j].pnr, out[j].corr, out[j].tol = p[j], s[j], d[j]
        for b in range(T[c2]):
            hit = [p[j] == b for j in range(n)]
            edge[c1, c2, i, b] = ctx.or_(*hit)
            sc, di = 0, 1
            for j in range(n):
                sc, di = ctx.ite(hit[j], s[j], sc), ctx.ite(hit[j], d[j], di)
            score[c1, c2, i, b] = (sc, di)
        single_[c1, c2, i] = n == 1
        return out

    ctx.patch(C, "find_candidate", find)
    pos, ids, num = C.py_correspondences(targets, flat, cals, vp, cp)
    ctx.check(len(pos) == cams - 1 and len(ids) == cams - 1, "one list per clique size")
    groups, total = [], 0
    seen = {c: [] for c in range(cams)}
    used = {(c, t): False for c in range(cams) for t in range(T[c])}
    for g in range(cams - 1):
        size = cams - g
        m = ids[g].shape[1]
        ctx.observe(f"m{size}", m)
        for r in range(m):
            row = [int(ids[g][c, r]) for c in range(cams)]
            ctx.observe(f"row{total}", row)
            groups.append((size, row))
            ctx.check(sum(1 for v in row if v >= 0) == size, "a clique has one target in as many cameras as its size says")
            for c in range(cams):
                if row[c] < 0:
                    continue
                ctx.check(row[c] not in seen[c], "a target appears at most once over all correspondences")
                seen[c].append(row[c])
                t = targets[c][row[c]]
                ctx.check(t.tnr == total, "a used target carries the number of its correspondence")
                ctx.check(pos[g][c, r, 0] == t.x, "the position is the target's (x)")
                ctx.check(pos[g][c, r, 1] == t.y, "the position is the target's (y)")
                used[c, T[c] - 1 - row[c]] = True
            total += 1
    ctx.check(num == total, "the total is the number of correspondences")
    for c in range(cams):
        for i in range(T[c]):
            if i not in seen[c]:
                ctx.check(targets[c][i].tnr == -1, "an unused target carries no number")
    # soundness and maximality with respect to the candidate relation
    sizes = {4: [4], 3: [3], 2: [2]}
    order = []
    for size in range(cams, 1, -1):
        if size < cams and allcam:
            for sz, row in groups:
                ctx.check(sz == cams, "with all cameras required only complete cliques are reported")
            break
        for cs in itertools.combinations(range(cams), size):
            for t in itertools.product(*[range(T[c]) for c in cs]):
                conds, sc, di = [], 0, 0
                for (x, c1), (y, c2) in itertools.combinations(list(zip(t, cs)), 2):
                    conds.append(edge[c1, c2, x, y])
                    a, b = score[c1, c2, x, y]
                    sc, di = sc + a, di + b
                if size == 2:
                    conds.append(single_[cs[0], cs[1], t[0]])
                good = ctx.and_(sc > accept * di, *conds)
                row = [T[c] - 1 - t[cs.index(c)] if c in cs else -1 for c in range(cams)]
                rep = any(sz == size and all((v < 0 and w < 0) or v == w for v, w in zip(row, r)) for sz, r in groups)
                if rep:
                    ctx.check(good, "a reported correspondence is a consistent clique of sufficient quality")
                else:
                    ctx.check(ctx.or_(ctx.not_(good), any(used[c, x] for c, x in zip(cs, t))),
                              "a consistent clique is left out only if one of its targets is used")
