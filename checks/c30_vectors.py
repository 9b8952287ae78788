"""C30: vector helpers compute their textbook definitions."""
PROP = "C30"
BOUNDS = "all real three-vectors with components -10^6..10^6 and scale factors (unit vectors: length at least 10^-10)"
OUTSIDE = "binary rounding; overflow"
ASSUMPTIONS = ["real arithmetic instead of IEEE doubles"]
CONFIG = {"qtimeout": 8000}
W = ("norm", "norm3", "diff", "dot", "cross", "add", "subt", "scale", "unit", "zero", "copy", "setinit", "algebra", "triangle", "cmp")


def cases(tier):
    return [{"name": w, "args": {"what": w}} for w in W]


def vec(ctx, n, m=10 ** 6):
    v = ctx.reals(n, 3, -m, m)
    return v, ctx.arr(v)


def run(ctx, what):
    V = ctx.mod("vec_utils")
    a, A = vec(ctx, "a")
    b, B = vec(ctx, "b")
    k = ctx.real("k", -10 ** 6, 10 ** 6)
    tol = 1e-3
    sq = lambda v: v[0] * v[0] + v[1] * v[1] + v[2] * v[2]

    def eq(r, w, msg):
        ctx.check(len(r) == 3, msg + " (three components)")
        for q in range(3):
            ctx.close(r[q], w[q], tol, msg)

    if what == "norm":
        n = V.vec_norm(A)
        ctx.check(n >= 0, "a norm is not negative")
        ctx.close(n * n, sq(a), 1, "the norm is the root of the sum of squares", rel=sq(a))
    elif what == "norm3":
        n = V.norm(a[0], a[1], a[2])
        ctx.check(n >= 0, "a norm is not negative")
        ctx.close(n * n, sq(a), 1, "the norm of components is the root of the sum of squares", rel=sq(a))
    elif what == "diff":
        n = V.vec_diff_norm(A, B)
        d = [a[q] - b[q] for q in range(3)]
        ctx.check(n >= 0, "a norm is not negative")
        ctx.close(n * n, sq(d), 1, "the difference norm is the norm of the difference", rel=sq(d))
    elif what == "dot":
        ctx.close(V.vec_dot(A, B), a[0] * b[0] + a[1] * b[1] + a[2] * b[2], 1, "dot product")
    elif what == "cross":
        c = V.vec_cross(A, B)
        for q in range(3):
            i, j = (q + 1) % 3, (q + 2) % 3
            ctx.close(c[q], a[i] * b[j] - a[j] * b[i], 1, "cross product")
    elif what == "add":
        eq(V.vec_add(A, B), [a[q] + b[q] for q in range(3)], "sum")
    elif what == "subt":
        eq(V.vec_subt(A, B), [a[q] - b[q] for q in range(3)], "difference")
    elif what == "scale":
        r = V.vec_scalar_mul(A, k)
        for q in range(3):
            ctx.close(r[q], a[q] * k, 1, "scaling")
    elif what == "unit":
        ctx.assume(sq(a) >= 1e-20)
        u = V.unit_vector(A)
        ctx.close(u[0] * u[0] + u[1] * u[1] + u[2] * u[2], 1, 1e-9, "a unit vector has unit length")
        for q in range(3):
            i, j = (q + 1) % 3, (q + 2) % 3
            ctx.close(u[i] * a[j], u[j] * a[i], 1e-3, "a unit vector has the direction of its source")
        ctx.check(u[0] * a[0] + u[1] * a[1] + u[2] * a[2] > 0, "a unit vector does not reverse its source")
    elif what == "zero":
        u = V.unit_vector(ctx.arr([0.0, 0.0, 0.0]))
        eq(u, [0, 0, 0], "the zero vector has no direction")
    elif what == "copy":
        c = V.vec_copy(A)
        eq(c, a, "a copy equals its source")
        c[0] = c[0] + 1
        A[1] = A[1] + 2
        ctx.close(A[0], a[0], 0, "changing a copy leaves its source")
        ctx.close(c[1], a[1], 0, "changing the source leaves its copy")
        A = ctx.arr(a)
        r = V.vec_add(A, ctx.arr([0.0, 0.0, 0.0]))
        r[0] = r[0] + 1
        ctx.close(A[0], a[0], 0, "results are new vectors")
        r = V.vec_scalar_mul(A, 1.0)
        r[0] = r[0] + 1
        ctx.close(A[0], a[0], 0, "results are new vectors")
        r = V.vec_subt(A, ctx.arr([0.0, 0.0, 0.0]))
        r[0] = r[0] + 1
        ctx.close(A[0], a[0], 0, "results are new vectors")
    elif what == "setinit":
        eq(V.vec_set(a[0], a[1], a[2]), a, "setting components")
        eq(V.vec_init(3), [0, 0, 0], "a new vector is zero")
    elif what == "algebra":
        c = V.vec_cross(A, B)
        ctx.check(V.vec_dot(A, c) == 0 if ctx.symbolic else True, "a cross product is perpendicular to its factors")
        ctx.check(V.vec_dot(B, c) == 0 if ctx.symbolic else True, "a cross product is perpendicular to its factors")
        d = V.vec_cross(B, A)
        for q in range(3):
            ctx.close(d[q], -c[q], 1, "the cross product changes sign with its factors")
        ctx.close(V.vec_dot(A, B), V.vec_dot(B, A), 1, "the dot product does not depend on the order")
        s = V.vec_subt(V.vec_add(A, B), B)
        eq(s, a, "subtracting undoes adding")
    elif what == "triangle":
        n, m = V.vec_diff_norm(A, B), V.vec_diff_norm(B, A)
        ctx.close(n * n, m * m, 1, "distance is symmetric", rel=n * n)
        z = V.vec_diff_norm(A, ctx.arr(a))
        ctx.close(z, 0, 1e-6, "no distance to itself")
    elif what == "cmp":
        ctx.check(V.vec_cmp(A, ctx.arr(a), 1e-6), "a vector equals itself")
        j = ctx.choose("j", 3)
        ctx.assume(ctx.and_(k >= 100, k <= 1000))
        o = list(a)
        o[j] = o[j] + k
        ctx.check(ctx.not_(V.vec_cmp(A, ctx.arr(o), 1e-6)), "clearly different vectors are not equal")
        return
    if what not in ("copy", "cmp"):
        for q in range(3):
            ctx.check(ctx.and_(A[q] == a[q], B[q] == b[q]), "the arguments are not changed")
