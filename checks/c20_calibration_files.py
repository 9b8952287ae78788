"""C20: calibration files round-trip."""
from checks.c03_rotation import matrix_is, state

PROP = "C20"
BOUNDS = "all 19 parameters symbolic (position and principal point -10^5..10^5, angles -10..10, distortion and glass -1000..1000), with and without distortion file, through every reading and writing function"
OUTSIDE = "larger magnitudes"
ASSUMPTIONS = ["a printed decimal denotes any number within half a unit of its last digit", "real arithmetic"]
CONFIG = {"qtimeout": 10000}


def cases(tier):
    cs = [{"name": f"{w}-{r}-{a}", "args": {"w": w, "r": r, "add": a}, "cost": 5}
          for w in ("write", "write_ori", "write_calibration") for r in ("from_file", "read_ori", "read_calibration") for a in (True, False)
          if w == "write" or r == "from_file"]
    cs.append({"name": "two", "args": {"w": "write", "r": "from_file", "add": True, "two": True}})
    cs.append({"name": "missing", "args": {"w": None, "r": None, "add": True}})
    return cs


PREC = [5.1e-9] * 6 + [5.1e-5] * 3 + [5.1e-9] * 7 + [1.1e-12] * 3


def mk(ctx, C, pre=""):
    c = C.Calibration()
    v = ctx.reals(pre + "pos", 3, -10 ** 5, 10 ** 5) + ctx.reals(pre + "ang", 3, -10, 10) + ctx.reals(pre + "prim", 3, -10 ** 5, 10 ** 5) \
        + ctx.reals(pre + "add", 7, -1000, 1000) + ctx.reals(pre + "glass", 3, -1000, 1000)
    c.set_pos(ctx.arr(v[:3]))
    c.set_angles(ctx.arr(v[3:6]))
    c.set_primary_point(ctx.arr(v[6:9]))
    c.set_added_par(ctx.arr(v[9:16]))
    c.set_glass_vec(ctx.arr(v[16:]))
    return c, v


def run(ctx, w, r, add, two=False):
    C = ctx.mod("calibration")
    P = ctx.mod("calibration").Path
    ctx.fs("cal")
    if w is None:
        st, e = ctx.call(C.Calibration.from_file, P("cal/none.ori"), None)
        ctx.check(st == "exc" and isinstance(e, IOError), "a missing file is reported")
        return
    sets = [mk(ctx, C, p) for p in (("a", "b") if two else ("a",))]
    names = []
    for i, (c, v) in enumerate(sets):
        ori, par = f"cal/cam{i + 1}.tif.ori", f"cal/cam{i + 1}.tif.addpar" if add else None
        names.append((ori, par))
        if w == "write":
            c.write(ori, par)
        elif w == "write_ori":
            ctx.check(C.write_ori(c.ext_par, c.int_par, c.glass_par, c.added_par, ori, par), "writing succeeds")
        else:
            ctx.check(C.write_calibration(c, ori, par), "writing succeeds")
        for g, x in zip(state(c), v):
            ctx.check(g == x, "writing does not change the calibration")
        # the matrix in the file is the camera's
        m = c.get_rotation_matrix()
        f = ctx.fields(ctx.read_file(ori))
        ctx.check(len(f) == 21, "the file holds 21 numbers")
        for q in range(9):
            ctx.close(ctx.parse(f[6 + q]), m[q // 3, q % 3], 5.1e-8, "the file holds the rotation matrix")
    ctx.check(ctx.files() == sorted(f for n in names for f in n if f), "exactly these files are written")
    for (c, v), (ori, par) in zip(sets, names):
        fn = {"from_file": C.Calibration.from_file, "read_ori": C.read_ori, "read_calibration": C.read_calibration}[r]
        back = fn(P(ori), P(par) if par else None)
        got = state(back)
        want = v[:9] + (v[9:16] if add else [0, 0, 0, 0, 0, 1, 0]) + v[16:]
        ctx.check(len(back.glass_par) == 3 and len(back.added_par) == 7, "sizes of the parameter groups")
        for i, (g, x) in enumerate(zip(got, want)):
            what = "position" if i < 3 else "angles" if i < 6 else "interior orientation" if i < 9 else "distortion" if i < 16 else "glass vector"
            ctx.close(g, x, PREC[i], f"{what} round-trips to the printed precision" if add or what != "distortion" else "no distortion file gives neutral distortion")
        matrix_is(ctx, back, [back.ext_par[n].item() if not ctx.symbolic else back.get_angles()[j] for j, n in enumerate(("omega", "phi", "kappa"))],
                  "the matrix is the one of the angles")
