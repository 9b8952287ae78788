"""C07: refraction table lookups interpolate inside the table and refuse outside it."""
from checks.common import cal, cpar

PROP = "C07"
BOUNDS = ("tables of 1-4 by 1-4 nodes (thorough 6 by 5) with arbitrary entries; cell sizes 1, 2 and 0.5; arbitrary origins; all query points up to "
          "three cells outside, in the directions along the axes and (3, 4), and in all directions for 2 by 2 (thorough 3 by 3) tables; filling: one camera and volume, "
          "with an arbitrary bilinear shift factor")
OUTSIDE = "larger tables; the direct iterative computation of the shift factor (stubbed); tables filled for another volume"
ASSUMPTIONS = ["real arithmetic", "on the outermost row and column, which have no cell beyond, the lookup may give the entry or leave the point to the direct computation"]
CONFIG = {"qtimeout": 8000}


def cases(tier):
    deep = tier == "thorough"
    cs = []
    for nr, nz in [(1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 4)] + ([(6, 5), (5, 6)] if deep else []):
        for d in ("x", "-y", "34"):
            if d == "34" or nr + nz < 6 or deep:
                cs.append({"name": f"look-{nr}-{nz}-{d}", "args": {"what": "look", "nr": nr, "nz": nz, "d": d}, "cost": nr * nz * 4})
    cs += [{"name": f"look-{n}-{n}-any", "args": {"what": "look", "nr": n, "nz": n, "d": "any"}, "cost": 80} for n in ((2, 3) if deep else (2,))]
    cs += [{"name": f"cell-{i}", "args": {"what": "look", "nr": 3, "nz": 3, "d": "34", "rw": rw}, "cost": 30} for i, rw in enumerate((1, 0.5))]
    cs += [{"name": f"node-{nr}-{nz}", "args": {"what": "node", "nr": nr, "nz": nz}, "cost": 20} for nr, nz in ((2, 2), (3, 4), (4, 3))]
    cs += [{"name": f"use-{k}", "args": {"what": "use", "k": k}, "cost": 20} for k in range(3)]
    cs += [{"name": "fill", "args": {"what": "fill"}, "cost": 40}]
    return cs


def run(ctx, what, **k):
    globals()[what](ctx, ctx.mod("multimed"), **k)


def table(ctx, nr, nz):
    return [[ctx.real(f"e{i}{j}", 0, 2) for j in range(nz)] for i in range(nr)]


def expect(ctx, e, nr, nz, r, z, got, msg=""):
    """r, z: the radial distance and height in cells."""
    ctx.check(ctx.implies(ctx.or_(z < 0, z > nz - 1, r > nr - 1), got == 0), "outside the table the lookup gives zero" + msg)
    for i in range(nr):
        for j in range(nz):
            if i < nr - 1 and j < nz - 1:
                a, b = r - i, z - j
                want = e[i][j] * (1 - a) * (1 - b) + e[i][j + 1] * (1 - a) * b + e[i + 1][j] * a * (1 - b) + e[i + 1][j + 1] * a * b
                inside = ctx.and_(r >= i, r < i + 1, z >= j, z < j + 1)
                if ctx.decide(inside):
                    ctx.close(got, want, 1e-6, "inside the table the lookup gives the bilinear interpolation" + msg)
            else:
                # the border
                here = ctx.and_(r >= i, r < i + 1, z >= j, z < j + 1, r <= nr - 1, z <= nz - 1)
                if not ctx.decide(here):
                    continue
                a, b = r - i, z - j
                if i == nr - 1 and j == nz - 1:
                    want = e[i][j]
                elif i == nr - 1:
                    want = e[i][j] * (1 - b) + e[i][j + 1] * b
                else:
                    want = e[i][j] * (1 - a) + e[i + 1][j] * a
                ctx.check(ctx.or_(got == 0, ctx.and_(got - want < 1e-9, want - got < 1e-9)), "on the border the lookup gives the entries or zero" + msg)


def look(ctx, M, nr, nz, d, rw=2):
    e = table(ctx, nr, nz)
    o = ctx.reals("o", 3, -200, 200) if d != "any" else [1.0, -2.0, 5.0]
    z = ctx.real("z", -3, nz + 3)
    if d == "any":
        x, y = ctx.real("x", -nr - 3, nr + 3), ctx.real("y", -nr - 3, nr + 3)
        r = ctx.sqrt(x * x + y * y)
    else:
        t = ctx.real("t", 0, nr + 3)
        x, y = {"x": (t, 0), "-y": (0, -t), "34": (t * 3 / 5, t * 4 / 5)}[d]
        r = t
    pos = ctx.arr([o[0] + x * rw, o[1] + y * rw, o[2] + z * rw])
    got = M.fast_get_mmf_from_mmlut(rw, ctx.arr(o), ctx.arr([v for row in e for v in row]), nz, nr, pos)
    expect(ctx, e, nr, nz, r, z, got)


def calib(ctx, e, nr, nz, o, rw):
    k = cal(ctx, [1.0, 2.0, 100.0], [0.0, 0.0, 0.0], [0.0, 0.0, 50.0], [0.0, 0.0, 1.0])
    k.mmlut.origin[0], k.mmlut.origin[1], k.mmlut.origin[2] = o
    k.mmlut.nr, k.mmlut.nz, k.mmlut.rw = nr, nz, rw
    k.mmlut_data = ctx.arr(e)
    return k


def node(ctx, M, nr, nz):
    """Exactly at a node that has a cell beyond, through the calibration."""
    e = table(ctx, nr, nz)
    o = (10.0, -20.0, 30.0)
    k = calib(ctx, e, nr, nz, o, 2)
    i, j = ctx.choose("i", nr - 1), ctx.choose("j", nz - 1)
    got = M.get_mmf_from_mmlut(k, ctx.arr([o[0], o[1] - 2 * i, o[2] + 2 * j]))
    ctx.close(got, e[i][j], 1e-9, "at a node the lookup gives the entry")


def use(ctx, M, k):
    """The shift factor is the table's inside it and the directly computed one outside."""
    nr, nz = 3, 3
    e = [[ctx.real(f"e{i}{j}", 0.5, 2) for j in range(nz)] for i in range(nr)]
    o = (10.0, -20.0, 30.0)
    kal = calib(ctx, e, nr, nz, o, 2)
    direct = ctx.real("direct", 0.5, 2)
    mm = ctx.mod("parameters").MultimediaPar(nlay=1, n1=1.0, n2=[1.5], d=[2.0], n3=1.25)
    t, z = ctx.real("t", 0, 6), ctx.real("z", -3, 6)
    pos = ctx.arr([o[0] + 2 * t, o[1], o[2] + 2 * z])
    seen = []

    def stub(nlay, n1, n2, n3, d, x0, y0, z0, p):
        ctx.check(nlay == 1 and n1 == 1 and list(n2) == [1.5] and n3 == 1.25 and list(d) == [2.0] and (x0, y0, z0) == (1.0, 2.0, 100.0),
                  "the direct computation gets the camera and the media")
        ctx.check(ctx.and_(*[a == b for a, b in zip(p, pos)]), "the direct computation gets the point")
        seen.append(1)
        return direct

    ctx.patch(M, "fast_multimed_r_nlay", stub)
    if k == 1:
        kal.mmlut_data = ctx.np.zeros((0, 0))
    if k == 2:
        mm = ctx.mod("parameters").MultimediaPar(nlay=1, n1=1.0, n2=[1.0], d=[2.0], n3=1.0)
    got = M.multimed_r_nlay(kal, mm, pos)
    xq, yq = M.multimed_nlay(kal, mm, pos)
    for g, p, c in ((xq, pos[0], 1.0), (yq, pos[1], 2.0)):
        ctx.close(g, c + (p - c) * got, 1e-6, "the apparent point is the point shifted by the factor")
    if k == 2:
        ctx.check(got == 1, "without refraction nothing is shifted")
    elif k == 1:
        ctx.check(got == direct, "without a table the factor is computed directly")
    else:
        if seen:
            border = ctx.or_(t >= nr - 1, z >= nz - 1, z < 0)
            ctx.check(border, "inside the table the factor is not computed directly")
            ctx.check(got == direct, "outside the table the factor is computed directly")
        else:
            expect(ctx, e, nr, nz, t, z, got)


def fill(ctx, M):
    """The table holds the directly computed factor of each node."""
    c = [ctx.real(f"c{q}", 0.125, 2) for q in range(4)]

    def f(r, z):
        return c[0] + c[1] * r + c[2] * z + c[3] * r * z

    def stub(nlay, n1, n2, n3, d, x0, y0, z0, p):
        # the nodes lie on the x axis of the glass frame
        r = abs(float(p[0] - x0)) if float(p[1] - y0) == 0 else float(((p[0] - x0) ** 2 + (p[1] - y0) ** 2) ** 0.5)
        ctx.check(abs(float(z0) - zc) < 1e-9, "the direct computation uses the camera's height over the glass")
        return f(r, float(p[2]) - 0.0)

    ctx.patch(M, "fast_multimed_r_nlay", stub)
    cp = cpar(ctx, 20, 10, 0.125, 0.25, num_cams=1, n2=(1.5,), d=(2.0,), n3=1.25)
    kal = cal(ctx, [10.0, 20.0, 100.0], [0.0, 0.0, 0.0], [0.0, 0.0, 50.0], [0.0, 0.0, 10.0])
    vp = ctx.mod("parameters").VolumePar(x_lay=[-10.0, 10.0], z_min_lay=[1.0, 3.0], z_max_lay=[2.5, 5.0], cn=0.1, cnx=0.1, cny=0.1, csumg=0.1, corrmin=30.0, eps0=0.1)
    # in the glass frame the camera stands over the origin; the point's height is counted from the glass
    x, zc = M.trans_cam_point(kal.ext_par, cp.mm, kal.glass_par, ctx.arr([10.0, 20.0, 5.0]))[0], \
        float(M.trans_cam_point(kal.ext_par, cp.mm, kal.glass_par, ctx.arr([10.0, 20.0, 5.0]))[3])
    r = M.init_mmlut(vp, cp, kal)
    lut = r.mmlut
    nr, nz, rw = int(lut.nr), int(lut.nz), float(lut.rw)
    ctx.check(rw > 0 and nr >= 2 and nz >= 2 and r.mmlut_data.shape == (nr, nz), "the table has its announced size")
    o = [float(v) for v in lut.origin]
    for i in range(nr):
        for j in range(nz):
            ctx.close(r.mmlut_data[i][j], f(i * rw, o[2] + j * rw), 1e-6, "each entry is the directly computed factor of its node")
    # half the field of view at the farthest depth of the volume; heights over the glass from -6 to -10 or so
    lo = [float(M.trans_cam_point(kal.ext_par, cp.mm, kal.glass_par, ctx.arr([10.0, 20.0, z]))[0][2]) for z in (1.0, 5.0)]
    ctx.check(o[2] <= lo[0] and o[2] + (nz - 1) * rw >= lo[1], "the table covers the depths of the volume")
    t, u = ctx.real("t", 0, (nr - 1) * rw), ctx.real("u", 0, (nz - 1) * rw)
    got = M.get_mmf_from_mmlut(r, ctx.arr([o[0] + t, o[1], o[2] + u]))
    ctx.check(ctx.implies(ctx.and_(t < (nr - 1) * rw, u < (nz - 1) * rw), ctx.and_(got - f(t, o[2] + u) < 1e-6, f(t, o[2] + u) - got < 1e-6)),
              "a bilinear shift factor is interpolated exactly")
