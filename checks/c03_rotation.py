"""C03: the camera rotation matrix is the rotation its three angles describe."""
import itertools

PROP = "C03"
BOUNDS = ("arbitrary angles (through their sines and cosines); all setter orders of the five parameter groups on one camera while a "
          "second one exists; every parameter an arbitrary real")
OUTSIDE = "binary rounding of sines and cosines"
ASSUMPTIONS = ["real arithmetic; sin^2 + cos^2 = 1 is all that is known of the functions"]
CONFIG = {"qtimeout": 20000}


def cases(tier):
    cs = [{"name": f"matrix-{h}", "args": {"what": "matrix", "how": h}} for h in ("set", "update", "init", "twice")]
    cs += [{"name": f"ortho-{i}{j}", "args": {"what": "ortho", "ij": (i, j)}} for i in range(3) for j in range(i, 3)
           if not i or i < j or tier == "thorough"]  # unit length of the other rows follows from these and the determinant
    cs += [{"name": f"det-{i}", "args": {"what": "ortho", "ij": (i, -1)}} for i in range(3)]
    cs += [{"name": f"setters-{i}", "args": {"what": "setters", "first": i}, "cost": 20} for i in range(5)]
    cs.append({"name": "matrix-own", "args": {"what": "own"}})
    cs.append({"name": "constructor", "args": {"what": "ctor"}})
    cs.append({"name": "shapes", "args": {"what": "shapes"}})
    return cs


def product(ctx, a):
    (so, co), (sp, cp), (sk, ck) = [(ctx.sin(v), ctx.cos(v)) for v in a]
    x = [[1, 0, 0], [0, co, -so], [0, so, co]]
    y = [[cp, 0, sp], [0, 1, 0], [-sp, 0, cp]]
    z = [[ck, -sk, 0], [sk, ck, 0], [0, 0, 1]]
    mul = lambda p, q: [[sum(p[i][k] * q[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
    return mul(mul(x, y), z)


def matrix_is(ctx, c, a, msg):
    m, w = c.get_rotation_matrix(), product(ctx, a)
    for i in range(3):
        for j in range(3):
            ctx.close(m[i, j], w[i][j], 1e-9, msg)
            ctx.close(c.ext_par["dm"][i, j], w[i][j], 1e-9, msg)


def run(ctx, what, **k):
    C = ctx.mod("calibration")
    globals()[what](ctx, C, **k)


def matrix(ctx, C, how):
    a = [ctx.angle(f"a{i}") for i in range(3)]
    other = C.Calibration()
    if how == "init":
        c = C.Calibration()
        matrix_is(ctx, c, [0.0, 0.0, 0.0], "a new camera is not rotated")
        return
    c = C.Calibration()
    if how == "set":
        c.set_angles(ctx.arr(a))
    elif how == "twice":
        c.set_angles(ctx.arr([a[1], a[2], a[0]]))
        c.set_angles([a[0], a[1], a[2]])
    else:
        c.ext_par["omega"], c.ext_par["phi"], c.ext_par["kappa"] = a
        c.update_rotation_matrix()
    ctx.observe("dm", [c.get_rotation_matrix()[i, j] for i in range(3) for j in range(3)])
    matrix_is(ctx, c, a, "the matrix is the product of the rotations about x, y and z")
    got = c.get_angles()
    for i in range(3):
        ctx.check(got[i] == a[i], "angles read back as set")
    matrix_is(ctx, other, [0.0, 0.0, 0.0], "another camera is not affected")


def ortho(ctx, C, ij):
    a = [ctx.angle(f"a{i}") for i in range(3)]
    c = C.Calibration()
    c.set_angles(ctx.arr(a))
    m = c.get_rotation_matrix()
    i, j = ij
    if j >= 0:
        d = sum(m[i, k] * m[j, k] for k in range(3))
        ctx.close(d, 1 if i == j else 0, 1e-9, "the matrix is orthonormal")
    else:
        # row i is the cross product of the other two: determinant +1 given orthonormal rows
        p, q = (i + 1) % 3, (i + 2) % 3
        for k in range(3):
            r, s = (k + 1) % 3, (k + 2) % 3
            ctx.close(m[p, r] * m[q, s] - m[p, s] * m[q, r], m[i, k], 1e-9, "the determinant is +1")


def setters(ctx, C, first):
    names = ["pos", "angles", "prim", "added", "glass"]
    perms = [p for p in itertools.permutations(range(5)) if p[0] == first]
    order = perms[ctx.choose("order", len(perms))]
    c, d = C.Calibration(), C.Calibration()
    size = [3, 3, 3, 7, 3]
    val = [ctx.reals(names[g], size[g], -1000, 1000) for g in range(5)]
    old = state(d)
    separate = ctx.choose("separate", 2)
    for g in order:
        v = ctx.arr(val[g])
        if g == 3 and separate:
            for fn, sl in ((c.set_radial_distortion, slice(0, 3)), (c.set_decentering, slice(3, 5)), (c.set_affine_distortion, slice(5, 7))):
                part = ctx.arr(val[g][sl])
                fn(part)
                part[0] = 77
        else:
            [c.set_pos, c.set_angles, c.set_primary_point, c.set_added_par, c.set_glass_vec][g](v)
        for i in range(size[g]):
            v[i] = -5000 - i  # the camera keeps its own copy
    got = state(c)
    want = val[0] + val[1] + val[2] + val[3] + val[4]
    for i, (g, w) in enumerate(zip(got, want)):
        ctx.check(g == w, "parameters read back as they were set")
    parts = list(c.get_radial_distortion()) + list(c.get_decentering()) + list(c.get_affine())
    for g, w in zip(parts, val[3]):
        ctx.check(g == w, "distortion parts read back as they were set")
    matrix_is(ctx, c, val[1], "the matrix follows the angles")
    for g, w in zip(state(d), old):
        ctx.check(g == w, "another camera is not affected")
    e = C.Calibration()
    for g, w in zip(state(e), old):
        ctx.check(g == w, "a new camera is not affected")
    i = ctx.choose("inc", 4)
    nm = ["x0", "kappa", "cc", "yh"][i]
    by = ctx.real("by", -1, 1)
    c.increment_attribute(nm, by)
    pos = [0, 5, 8, 7][i]
    for q, (g, w) in enumerate(zip(state(c), want)):
        ctx.check(g == (w + by if q == pos else w), "incrementing changes only the named parameter")


def state(c):
    return list(c.get_pos()) + list(c.get_angles()) + list(c.get_primary_point()) + [c.added_par[i] for i in range(7)] + [c.glass_par[i] for i in range(3)]


def own(ctx, C):
    """A matrix set directly reads back and is the camera's own."""
    c, d = C.Calibration(), C.Calibration()
    v = ctx.reals("m", 9, -1, 1)
    m = ctx.arr(v).reshape(3, 3)
    c.set_rotation_matrix(m)
    m[0, 0] = 5
    got = c.get_rotation_matrix()
    for i in range(9):
        ctx.check(got[i // 3, i % 3] == v[i], "the matrix reads back as set")
    got[1, 1] = 7
    ctx.check(c.get_rotation_matrix()[1, 1] == v[4], "the matrix handed out is a copy")
    matrix_is(ctx, d, [0.0, 0.0, 0.0], "another camera is not affected")


def ctor(ctx, C):
    a, b = C.Calibration(), C.Calibration()
    neutral = [0.0] * 9 + [0, 0, 0, 0, 0, 1, 0] + [0, 0, 1]
    for g, w in zip(state(a), neutral):
        ctx.check(g == w, "a new camera has neutral parameters")
    v = ctx.real("v", -9, 9)
    a.ext_par["x0"] = v
    a.int_par["cc"] = v
    a.added_par[0] = v
    a.glass_par[1] = v
    a.ext_par["dm"][0, 1] = v
    for g, w in zip(state(b) + state(C.Calibration()), neutral * 2):
        ctx.check(g == w, "cameras share no state")
    ctx.check(b.ext_par["dm"][0, 1] == 0, "cameras share no matrix")


def shapes(ctx, C):
    c = C.Calibration()
    n = ctx.choose("n", 5)
    for nm, fn, ok in (("pos", c.set_pos, 3), ("angles", c.set_angles, 3), ("prim", c.set_primary_point, 3), ("radial", c.set_radial_distortion, 3),
                       ("decentering", c.set_decentering, 2), ("affine", c.set_affine_distortion, 2), ("glass", c.set_glass_vec, 3)):
        st, e = ctx.call(fn, ctx.arr([1.0] * n))
        ctx.check((st == "ok") == (n == ok), "an array of the wrong length is refused")
