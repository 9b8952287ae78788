"""C29: motion criteria measure what they say."""
PROP = "C29"
BOUNDS = ("all real positions (-1000..1000), limits and sizes; the angle is decided through its cosine and its range 0..200 gon; "
          "for parallel displacements with rounded quotients (relative error up to 2^-51)")
OUTSIDE = "a particle that does not move has no angle; binary rounding other than that of quotients"
ASSUMPTIONS = ["real arithmetic; of the arc cosine, the cosine and the range of its result are known"]
CONFIG = {"qtimeout": 4000, "vtimeout": 10000}


def cases(tier):
    cs = [{"name": f"{w}", "args": {"what": w}} for w in ("same", "opposite", "centre", "predict", "ratio")]
    cs += [{"name": f"{w}-{f}", "args": {"what": w, "fam": f}, "cost": 20} for w in ("acc", "anglecos", "anglerange")
           for f in ("v236", "v122", "w263", "w212", "xy", "yz", "zx", "all") if tier == "thorough" or f != "all" and (w != "acc" or f in ("v236", "w263", "xy"))]
    cs += [{"name": f"bounds-{i}", "args": {"what": "bounds", "i": i}} for i in range(3)]
    cs += [{"name": f"{'rounded' if r else 'parallel'}-{n}", "args": {"what": "parallel", "k": k, "rounded": r}, "config": {"rounded": r}}
           for n, k in (("2", 2.0), ("half", 0.5), ("3", 3.0), ("back", -2.0)) for r in (True, False)]
    cs += [{"name": f"perp-{i}", "args": {"what": "perp", "i": i}} for i in range(3)]
    return cs


def run(ctx, what, **k):
    globals()[what](ctx, ctx.mod("track"), **k)


def vecs(ctx, n):
    return [ctx.arr(ctx.reals(nm, 3, -1000, 1000)) for nm in ("s", "p", "c")[:n]]


def keep(ctx, vs, old):
    for v, o in zip(vs, old):
        for q in range(3):
            ctx.check(v[q] == o[q], "the arguments are not changed")


def lemma(ctx, v0, v1):
    """Lagrange's identity says this is always so; it spares the solver from finding it."""
    dot, n0, n1 = sum(a * b for a, b in zip(v0, v1)), sum(v * v for v in v0), sum(v * v for v in v1)
    if ctx.symbolic:
        ctx.assume(dot * dot <= n0 * n1)
    return dot, n0, n1


def family(ctx, fam):
    """A start and two displacements: one of a fixed direction or both in a coordinate plane (or all of them)."""
    s = ctx.reals("s", 3, -1000, 1000)
    if fam[0] in "vw":
        t = ctx.real("t", 0.25, 100)
        u = [t * int(q) for q in fam[1:]]
        v = ctx.reals("v", 3, -1000, 1000)
        return (s, u, v) if fam[0] == "v" else (s, v, u)
    v0, v1 = ctx.reals("v", 3, -1000, 1000), ctx.reals("w", 3, -1000, 1000)
    if fam != "all":
        z = 3 - sum("xyz".index(q) for q in fam)
        v0[z] = v1[z] = 0.0
    return s, v0, v1


def acc(ctx, T, fam):
    s, v0, v1 = family(ctx, fam)
    ctx.assume(ctx.or_(*[v != 0 for v in v0]))
    ctx.assume(ctx.or_(*[v != 0 for v in v1]))
    lemma(ctx, v0, v1)
    A = [ctx.arr(s), ctx.arr([s[q] + v0[q] for q in range(3)]), ctx.arr([s[q] + v1[q] for q in range(3)])]
    old = [[v[q] for q in range(3)] for v in A]
    a = T.angle_acc(*A)[1]
    ctx.check(a >= 0, "the acceleration is not negative")
    ctx.close(a * a, sum((v0[q] - v1[q]) * (v0[q] - v1[q]) for q in range(3)), 1e-5, "the acceleration is the distance of predicted and actual displacement")
    keep(ctx, A, old)


def same(ctx, T):
    s, p = vecs(ctx, 2)
    ctx.assume(ctx.or_(*[p[q] != s[q] for q in range(3)]))
    r = T.angle_acc(s, p, ctx.arr([p[0], p[1], p[2]]))
    ctx.observe("r", r)
    ctx.close(r[0], 0, 1e-9, "equal displacements enclose no angle")
    ctx.close(r[1], 0, 1e-9, "equal displacements have no acceleration")


def opposite(ctx, T):
    d = ctx.reals("d", 3, -500, 500)
    ctx.assume(ctx.or_(*[ctx.or_(v >= 0.125, v <= -0.125) for v in d]))
    s = [3.0, -7.0, 11.0]
    r = T.angle_acc(ctx.arr(s), ctx.arr([s[q] + d[q] for q in range(3)]), ctx.arr([s[q] - d[q] for q in range(3)]))
    ctx.close(r[0], 200, 1e-4, "opposite displacements enclose 200 gon")
    ctx.close(r[1] * r[1], 4 * (d[0] * d[0] + d[1] * d[1] + d[2] * d[2]), 1e-6, "opposite displacements differ by twice their length")


def moving(ctx, fam):
    s, v0, v1 = family(ctx, fam)
    dot, n0, n1 = lemma(ctx, v0, v1)
    ctx.assume(n0 >= 1e-4)
    ctx.assume(n1 >= 1e-4)
    return ctx.arr(s), ctx.arr([s[q] + v0[q] for q in range(3)]), ctx.arr([s[q] + v1[q] for q in range(3)]), dot, n0, n1


PI = 3.141592653589793


def anglecos(ctx, T, fam):
    """cos(angle) |v0| |v1| = v0 . v1"""
    s, p, c, dot, n0, n1 = moving(ctx, fam)
    r = T.angle_acc(s, p, c)
    co = ctx.cos(r[0] * (PI / 200))
    ctx.check(ctx.or_(ctx.and_(co >= 0, dot >= 0), ctx.and_(co <= 0, dot <= 0), ctx.and_(co <= 1e-9, co >= -1e-9), ctx.and_(dot <= 1e-6, dot >= -1e-6)),
              "the angle is acute exactly when the displacements point the same way")
    err = co * co * n0 * n1 - dot * dot
    ctx.check(ctx.and_(err <= 1e-4 * n0 * n1, err >= -1e-4 * n0 * n1), "the angle is the angle between the displacements", exact=co * co * n0 * n1 == dot * dot)


def anglerange(ctx, T, fam):
    s, p, c, dot, n0, n1 = moving(ctx, fam)
    r = T.angle_acc(s, p, c)
    ctx.check(ctx.and_(r[0] >= 0, r[0] <= 200.001), "the angle lies between 0 and 200 gon")


def perp(ctx, T, i):
    a, b = ctx.real("a", -100, 100), ctx.real("b", -100, 100)
    for v in (a, b):
        ctx.assume(ctx.or_(v >= 0.01, v <= -0.01))
    s = ctx.reals("s", 3, -100, 100)
    p, c = list(s), list(s)
    p[i] = p[i] + a
    c[(i + 1) % 3] = c[(i + 1) % 3] + b
    r = T.angle_acc(ctx.arr(s), ctx.arr(p), ctx.arr(c))
    ctx.close(r[0], 100, 1e-3, "perpendicular displacements enclose 100 gon")


def parallel(ctx, T, k, rounded=False):
    """Floating point must not lose the angle of displacements along one line."""
    d = ctx.reals("d", 3, 0.25, 8)
    ctx.assume(ctx.and_(d[0] < d[1], d[1] < d[2]))
    s = ctx.reals("s", 3, -10, 10)
    # the counterexample of the rounding model is a region: the real code is tried at several points of it
    for i in range(100 if rounded and not ctx.symbolic else 1):
        e = [v + i * 0.1 for v in d]
        r = T.angle_acc(ctx.arr(s), ctx.arr([s[q] + e[q] for q in range(3)]), ctx.arr([s[q] + k * e[q] for q in range(3)]))
        ctx.check(ctx.not_(ctx.isnan(r[0])), "displacements along one line have an angle")
        if not rounded:
            ctx.close(r[0], 0 if k > 0 else 200, 1e-4, "displacements in one direction enclose no angle, in opposite directions 200 gon")


def centre(ctx, T):
    s, p = vecs(ctx, 2)
    old = [[v[q] for q in range(3)] for v in (s, p)]
    r = T.search_volume_center_moving(s, p)
    ctx.observe("r", r)
    ctx.check(len(r) == 3, "three coordinates")
    for q in range(3):
        ctx.close(r[q] - p[q], p[q] - s[q], 1e-6, "the search centre continues the last displacement")
    keep(ctx, (s, p), old)


def predict(ctx, T):
    a, b, o = ctx.arr(ctx.reals("a", 2, -1000, 1000)), ctx.arr(ctx.reals("b", 2, -1000, 1000)), ctx.arr([0.5, 0.5])
    old = [[v[q] for q in range(2)] for v in (a, b)]
    T.predict(a, b, o)
    ctx.observe("o", o)
    for q in range(2):
        ctx.close(o[q] - b[q], b[q] - a[q], 1e-6, "the prediction continues the last displacement")
        ctx.check(ctx.and_(a[q] == old[0][q], b[q] == old[1][q]), "the arguments are not changed")


def bounds(ctx, T, i):
    P = ctx.mod("parameters")
    lim = ctx.reals("l", 6, -100, 100)
    v = ctx.reals("v", 3, -200, 200)
    tp = P.TrackPar(dvxmin=lim[0], dvxmax=lim[1], dvymin=lim[2], dvymax=lim[3], dvzmin=lim[4], dvzmax=lim[5], dangle=10.0, dacc=1.0, add=1)
    t = P.convert_track_par_to_tuple(tp)
    for j in range(3):
        if j != i:
            ctx.assume(ctx.and_(v[j] > lim[2 * j], v[j] < lim[2 * j + 1]) if i else True)
    ok = T.pos3d_in_bounds(ctx.arr(v), t)
    want = ctx.and_(*[ctx.and_(v[j] > lim[2 * j], v[j] < lim[2 * j + 1]) for j in range(3)])
    ctx.check(ctx.or_(ctx.and_(ok, want), ctx.and_(ctx.not_(ok), ctx.not_(want))), "a displacement is accepted exactly when every component lies strictly within its limits")


def ratio(ctx, T):
    F = ctx.mod("find_candidate")
    a, b = ctx.real("a", 0, 100000), ctx.real("b", 0, 100000)
    q, w = F.quality_ratio(a, b), F.quality_ratio(b, a)
    if ctx.decide(ctx.and_(a == 0, b == 0)):
        ctx.check(q == 0, "two empty targets are not similar")
        return
    ctx.observe("q", q)
    lo, hi = ctx.min(a, b), ctx.max(a, b)
    ctx.close(q * hi, lo, 1e-6, "the ratio of the smaller to the larger")
    ctx.check(ctx.and_(q <= 1, q >= 0), "the ratio lies between 0 and 1")
    ctx.close(w, q, 1e-12, "the order of the targets does not matter")
