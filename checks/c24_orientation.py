"""C24: calibration adjusts only what it is told to and restores probes."""
from checks.common import cal, cpar

PROP = "C24"
BOUNDS = ("derivatives: any camera position, angles, steps and projection values; orientations of up to 4 (thorough 6) points: all flags, any corrections from the "
          "linear solver in up to 2 (thorough 3) rounds, all use flags and unmatched points; initial parameters arbitrary")
OUTSIDE = "the values of the derivatives over the distortion and glass parameters; precision estimates; convergence on real scenes"
ASSUMPTIONS = ["the projection is a fixed formula in the camera's parameters (its own properties: C05), lens correction another",
               "the linear solver returns arbitrary corrections; matrix inverses for the precision estimate are arbitrary"]
CONFIG = {"qtimeout": 4000, "opaque_linalg": True, "overrides": {"constants": {"NUM_ITER": 3}}, "merge": ("orientation",)}
LIMIT = {"quick": 300}

EXT = ("x0", "y0", "z0", "omega", "phi", "kappa")
ANGLES = (3, 4, 5, 15)   # corrections of angles are fixed values: their sines stay numbers
FLAGS = ("ccflag", "xhflag", "yhflag", "k1flag", "k2flag", "k3flag", "p1flag", "p2flag", "scxflag", "sheflag")


def cases(tier):
    deep = tier == "thorough"
    cs = [{"name": f"deriv-{k}", "args": {"what": "deriv", "k": k}} for k in range(3)]
    for n in (5,) + ((7,) if deep else ()):
        for rounds in (1, 2) + ((3,) if deep else ()):
            cs.append({"name": f"adjust-{n}-{rounds}", "args": {"what": "adjust", "n": n, "rounds": rounds}, "cost": 30 * rounds})
        cs.append({"name": f"diverge-{n}", "args": {"what": "diverge", "n": n}, "cost": 50})
    for use in range(4):
        cs.append({"name": f"points-{use}", "args": {"what": "points", "use": use, "n": 6 if deep else 4}, "cost": 40})
        cs.append({"name": f"full-{use}", "args": {"what": "full", "use": use, "n": 6 if deep else 4}, "cost": 40})
    cs.append({"name": "full-array", "args": {"what": "full", "use": 0, "n": 4, "array": True}, "cost": 40})
    cs.append({"name": "full-diverge", "args": {"what": "diverge", "n": 5, "full": True}, "cost": 40})
    for conv in (True, False):
        cs.append({"name": f"raw-{conv}", "args": {"what": "raw", "conv": conv}, "cost": 30})
    return cs


def run(ctx, what, **k):
    O = ctx.mod("orientation")

    def img_coord(pos, c, mm):
        e, i, a, g = c.ext_par, c.int_par, c.added_par, c.glass_par
        u = 2 * (pos[0] - e.x0) + 3 * e.dm[0][1] + 5 * e.dm[1][2] * pos[2] - e.z0 + i.cc * 2 + i.xh + g[0] * 3 + a[0]
        v = (pos[1] - e.y0) - 4 * e.dm[2][0] + e.dm[0][0] * pos[1] + e.z0 * 3 - i.cc + i.yh * 2 - g[1] + g[2] * 2 + a[4]
        return u, v

    ctx.patch(O, "img_coord", img_coord)
    ctx.patch(O, "correct_brown_affine", lambda x, y, ap, *r: (x * 2 + ap[2], y - x))
    globals()[what](ctx, O, img_coord, **k)


def start(ctx, sym=(), angles=None):
    f = (lambda n, a, b: ctx.real(n, a, b) if not sym or n in sym else (a + 3 * b) / 4.0)
    c = cal(ctx, [f("x0", -100, 100), f("y0", -100, 100), f("z0", 50, 500)], angles or [0.25, -0.5, 0.125],
            [f("xh", -1, 1), f("yh", -1, 1), f("cc", 10, 200)], [f("g0", -10, 10), f("g1", -10, 10), f("g2", 20, 100)],
            [f(f"a{i}", -0.01, 0.01) for i in range(5)] + [f("a5", 0.5, 2), f("a6", -0.1, 0.1)])
    return c


def plain(v):
    return {k: x.item() if hasattr(x, "item") else x for k, x in v.items()}


def values(c):
    e, i = c.ext_par, c.int_par
    return plain({**{k: getattr(e, k) for k in EXT}, "cc": i.cc, "xh": i.xh, "yh": i.yh, **{f"a{k}": c.added_par[k] for k in range(7)}, **{f"g{k}": c.glass_par[k] for k in range(3)}})


def same(ctx, c, v, msg, tol=1e-9, dm=True):
    w = values(c)
    for k in v:
        ctx.close(w[k], v[k], tol, msg)
    if dm:
        fresh = cal(ctx, None, [v["omega"], v["phi"], v["kappa"]])
        for a in range(3):
            for b in range(3):
                ctx.close(c.ext_par.dm[a][b], fresh.ext_par.dm[a][b], max(tol, 1e-9), "the rotation matrix fits the angles")


def deriv(ctx, O, proj, k):
    ang = [[0.25, -0.5, 0.125], [0.0, 0.0, 0.0], [ctx.real("om", -3, 3), ctx.real("ph", -3, 3), ctx.real("ka", -3, 3)]][k]
    c = start(ctx, angles=ang)
    v = values(c)
    dpos = ctx.real("dpos", 0.001, 1)
    dang = ctx.real("dang", 0.001, 1) if k == 2 else 0.0625
    pos = ctx.arr([ctx.real("px", -10, 10), ctx.real("py", -10, 10), ctx.real("pz", -10, 10)])
    xd, yd = O.num_deriv_exterior(c, cpar(ctx), dpos, dang, pos)
    same(ctx, c, v, "the calibration is as it was")
    f0 = proj(pos, remade(ctx, v), None)
    for i, name in enumerate(EXT):
        step = dpos if i < 3 else dang
        f1 = proj(pos, remade(ctx, {**v, name: v[name] + step}), None)
        ctx.close(xd[i] * step, f1[0] - f0[0], 1e-6, "x derivatives are difference quotients over each parameter in order")
        ctx.close(yd[i] * step, f1[1] - f0[1], 1e-6, "y derivatives are difference quotients over each parameter in order")
    ctx.check(len(xd) == 6 and len(yd) == 6, "six derivatives each")


def remade(ctx, v):
    return cal(ctx, [v["x0"], v["y0"], v["z0"]], [v["omega"], v["phi"], v["kappa"]], [v["xh"], v["yh"], v["cc"]], [v[f"g{i}"] for i in range(3)], [v[f"a{i}"] for i in range(7)])


def scene(ctx, n, unmatched=False):
    """Known points and their targets."""
    T = ctx.mod("tracking_frame_buf").Target
    fix = [[float(3 * i), float((i * i) % 5), float(i % 3)] for i in range(n)]
    pix = []
    for i in range(n):
        pnr = i
        if unmatched and i < 3:
            pnr = (i, -999, i + 1)[ctx.choose(f"m{i}", 3)]
        pix.append(T(pnr=pnr, x=100.0 + 7 * i, y=50.0 + (11 * i) % 13, n=1, nx=1, ny=1, sumg=1, tnr=-1))
    return ctx.arr(fix), pix


def flags(ctx, use=0, on=None):
    P = ctx.mod("parameters")
    f = {k: on if on is not None else bool(ctx.choose(k, 2)) if k == "sheflag" else ctx.bool(k) for k in FLAGS}
    return P.OrientPar(useflag=use, **f), f


class Solver:
    """Returns the given corrections, and keeps what it was asked."""

    def __init__(self, ctx, betas, names=("scipy.linalg.lstsq",)):
        self.ctx, self.betas, self.asked = ctx, betas, []
        for n in names:
            ctx.stub(n, self)

    def __call__(self, A, y, *a, **k):
        n = A.shape[1]
        self.asked.append(([[A[i, j] for j in range(n)] for i in range(A.shape[0])], [y[i] for i in range(A.shape[0])]))
        b = self.betas[min(len(self.asked), len(self.betas)) - 1]
        return self.ctx.arr(list(b[:n])), 0.0, n, None


def added(ctx, f, v, beta, interf):
    """The parameters after a correction."""
    w = dict(v)
    for i, k in enumerate(EXT):
        w[k] = w[k] + beta[i]
    for i, (k, fl) in enumerate(zip(("cc", "xh", "yh", "a0", "a1", "a2", "a3", "a4", "a5", "a6"), FLAGS)):
        w[k] = w[k] + ctx.ite(f[fl], beta[6 + i], 0)
    return w


def small(ctx, b):
    return ctx.and_(*[ctx.and_(x < 1e-5 - 1e-8, x > -1e-5 + 1e-8) for x in b])


def adjust(ctx, O, proj, n, rounds):
    c = start(ctx, ("x0", "a0", "cc", "yh") if rounds == 1 else "none")
    v = values(c)
    fix, pix = scene(ctx, n)
    fp, f = flags(ctx)
    interf = fp.interfflag = ctx.choose("interf", 2)
    m = 18 if interf else 16
    betas = []
    for r in range(rounds):
        b = [ctx.real(f"b{r}_{i}", -0.25, 0.25) if i not in ANGLES else 0.0625 if r < rounds - 1 else 0.0000005 * i for i in range(18)]
        if r == rounds - 1:
            ctx.assume(small(ctx, b))
        else:
            ctx.assume(ctx.or_(*[ctx.or_(x > 2e-4, x < -2e-4) for x in b[:m]]))
        betas.append(b)
    s = Solver(ctx, betas)
    r = O.orient(c, cpar(ctx), n, fix, pix, fp, ctx.np.zeros(20), 0.0625, 0.0625)
    ctx.observe("rounds", len(s.asked))
    ctx.check(r is not None and len(r) == 2 * n + 10, "a converged orientation returns its residuals")
    ctx.check(len(s.asked) == rounds, "the orientation ends when all corrections are small")
    w = v
    for b in betas:
        w = added(ctx, f, w, b, interf)
    g = [values(c)[f"g{i}"] for i in range(3)]
    if interf:
        w = {**w, **{f"g{i}": g[i] for i in range(3)}}
    same(ctx, c, w, "parameters that are switched off keep their values and the others receive the corrections", 1e-6)
    for i, (k, fl) in enumerate(zip(("cc", "xh", "yh", "a0", "a1", "a2", "a3", "a4", "a5", "a6"), FLAGS)):
        ctx.check(ctx.or_(f[fl], ctx.and_(values(c)[k] - v[k] < 1e-9, v[k] - values(c)[k] < 1e-9)), "a parameter that is switched off keeps its value")


def diverge(ctx, O, proj, n, full=False):
    c = start(ctx, "none")
    v = values(c)
    fix, pix = scene(ctx, n)
    fp, f = flags(ctx)
    fp.interfflag = ctx.choose("interf", 2)
    big = (0, 4, 9, 16)[ctx.choose("big", 4 if fp.interfflag else 3)]
    b = [ctx.real(f"b{i}", -0.015625, 0.015625) if i in (0, big) and i not in ANGLES else 0.0078125 if i == big else 0.00000025 * i for i in range(18)]
    ctx.assume(ctx.or_(b[big] > 2e-4, b[big] < -2e-4))
    Solver(ctx, [b])
    if full:
        r = ctx.call(lambda: O.full_calibration(c, fix, pix, cpar(ctx), fp, 0.0625, 0.0625))
        ctx.check(r[0] == "exc" and isinstance(r[1], ValueError), "a calibration that does not converge raises an error")
    else:
        r = O.orient(c, cpar(ctx), n, fix, pix, fp, ctx.np.zeros(20), 0.0625, 0.0625)
        ctx.check(r is None, "an orientation that does not converge returns nothing")
    same(ctx, c, v, "an orientation that does not converge leaves the calibration as it was")


def taking_part(pix, use):
    return [i for i, t in enumerate(pix) if t.pnr == i and not (use == 1 and i % 2 == 0 or use == 2 and i % 2 == 1 or use == 3 and i % 3 == 0)]


def equations(ctx, proj, v, cp, fix, pix, used):
    """Observed minus projected, for each point that takes part."""
    P2M = ctx.mod("trafo").pixel_to_metric
    c = remade(ctx, v)
    out = []
    for i in used:
        x, y = P2M(pix[i].x, pix[i].y, cp)
        x, y = x * 2 + v["a2"], y - x
        u, w = proj(fix[i], c, None)
        out += [x - u, y - w]
    return out


def points(ctx, O, proj, use, n):
    """The equations handed to the solver."""
    c = start(ctx, ("x0", "z0", "cc", "xh"))
    v = values(c)
    fix, pix = scene(ctx, n, True)
    fp, f = flags(ctx, use, on=0)
    # as many equations as unknowns leave no precision to estimate
    fp.interfflag = 1 if len(taking_part(pix, use)) == 3 else 0
    on = ctx.choose("on", 2)
    for k in FLAGS[on::2]:
        setattr(fp, k, 1)
    s = Solver(ctx, [[0.0] * 18])
    r = O.orient(c, cpar(ctx), n, fix, pix, fp, ctx.np.zeros(20), 0.0625, 0.0625)
    used = taking_part(pix, use)
    want = equations(ctx, proj, v, cpar(ctx), fix, pix, used)
    A, y = s.asked[0]
    ctx.check(r is not None, "an orientation without corrections converges")
    for k, d in enumerate(want):
        ctx.close(y[k], d, 1e-6, "each matched and selected point contributes observed minus projected position")
        for i, name in enumerate(EXT + ("cc",)):
            moved = proj(fix[used[k // 2]], remade(ctx, {**v, name: v[name] + 0.0625}), None)[k % 2]
            now = proj(fix[used[k // 2]], remade(ctx, v), None)[k % 2]
            ctx.close(A[k][i] * 0.0625, moved - now, 1e-6, "with the difference quotients over the adjusted parameters")
        ctx.close(r[k], -d, 1e-6, "the residuals are those of the points in order")
    for j in range(10):
        row = A[len(want) + j]
        fixed = not getattr(fp, FLAGS[j])
        ctx.check(all(x == 0 for i, x in enumerate(row) if i != 6 + j), "each parameter has one equation of its own")
        ctx.close(row[6 + j], 1e10 if fixed else 1.0, 1e-3, "which fixes it when it is switched off")
        ctx.close(y[len(want) + j], 0.0, 1e-6, "at its initial value")
    same(ctx, c, v, "no corrections, no change")


def full(ctx, O, proj, use, n, array=False):
    c = start(ctx, ("x0", "y0", "xh"))
    v = values(c)
    fix, pix = scene(ctx, n, not array)
    fp, f = flags(ctx, use, on=0)
    # as many equations as unknowns leave no precision to estimate
    fp.interfflag = 1 if len(taking_part(pix, use)) == 3 else 0
    Solver(ctx, [[0.0] * 18])
    cp = cpar(ctx)
    arg = ctx.arr([[t.x, t.y] for t in pix]) if array else pix
    res, used, err = O.full_calibration(c, fix, arg, cp, fp, 0.0625, 0.0625)
    part = taking_part(pix, use)
    want = equations(ctx, proj, v, cp, fix, pix, part)
    ctx.check(len(res) == len(part) and [int(u) for u in used] == part, "the points that took part are reported")
    for k in range(len(part)):
        ctx.close(res[k][0], -want[2 * k], 1e-6, "with their own residuals")
        ctx.close(res[k][1], -want[2 * k + 1], 1e-6, "with their own residuals")


def raw(ctx, O, proj, conv):
    """The exterior alone."""
    c = start(ctx, ("x0", "z0", "cc", "a4") if conv else "none")
    v = values(c)
    fix, pix = scene(ctx, 4)
    b0 = [ctx.real(f"b{i}", -1, 1) for i in range(6)]
    ctx.assume(ctx.or_(*[ctx.or_(x > 0.11, x < -0.11) for x in b0]))
    b1 = [ctx.real(f"d{i}", -0.09, 0.09) for i in range(6)]
    s = Solver(ctx, [b0, b1] if conv else [b0])
    r = O.external_calibration(c, fix, ctx.arr([[t.x, t.y] for t in pix]), cpar(ctx))
    ctx.check(bool(r) == conv, "success is reported when the corrections become small")
    w = values(c)
    if conv:
        want = {k: v[k] + b0[i] + b1[i] for i, k in enumerate(EXT)}
        for k in want:
            ctx.close(w[k], want[k], 1e-6, "the exterior receives the corrections")
    for k in ("cc", "xh", "yh", "g0", "g1", "g2"):
        ctx.close(w[k], v[k], 1e-9, "interior and glass stay")
    vv = {**v, **{f"a{i}": 0.0 for i in range(7)}, "a5": 1.0}
    A, y = s.asked[0]
    for k in range(8):
        x, yy = ctx.mod("trafo").pixel_to_metric(pix[k // 2].x, pix[k // 2].y, cpar(ctx))
        d = (x, yy)[k % 2] - proj(fix[k // 2], remade(ctx, vv), None)[k % 2]
        ctx.close(y[k], d, 1e-6, "each point contributes observed minus projected position")
