"""C28: particles added during tracking are fully registered."""
from checks.common import cal, cpar

PROP = "C28"
BOUNDS = ("adding: 1-4 cameras with 2 targets each, frames with 0-2 particles (with and without spare room, symbolic contents), "
          "one or two additions with symbolic candidate tables; assessing: 2-3 cameras with up to 2 targets each, symbolic projected "
          "position, target positions along a row and matched marks, arbitrary lens correction")
OUTSIDE = "larger frames; the projection itself (C05)"
ASSUMPTIONS = ["real arithmetic instead of IEEE doubles", "the projection of the position into each camera is an arbitrary pixel"]
CONFIG = {"qtimeout": 4000}


def cases(tier):
    deep = tier == "thorough"
    cs = []
    for cams in (1, 2, 3, 4):
        for parts in (0, 1, 2):
            for spare in (0, 2):
                if cams in (2, 4) or parts == 1 and spare == 0 or deep:
                    cs.append({"name": f"add-{cams}-{parts}-{spare}", "args": {"what": "add", "cams": cams, "parts": parts, "spare": spare}, "cost": 3 ** cams})
    cs.append({"name": "add-read", "args": {"what": "add", "cams": 2, "parts": 1, "spare": 0, "read": True}, "cost": 20})
    for cams in (1, 2) + ((3,) if deep else ()):
        cs.append({"name": f"twice-{cams}", "args": {"what": "add", "cams": cams, "parts": 1, "spare": 1, "times": 2}, "cost": 9 ** cams})
    for cams, n in ((1, 1), (2, 1), (2, 2), (3, 1), (4, 1)):
        cs.append({"name": f"assess-{cams}-{n}", "args": {"what": "assess", "cams": cams, "n": n}, "cost": 7 ** (cams * n)})
    return cs


def run(ctx, what, cams, **k):
    if what == "add":
        add(ctx, cams, **k)
    else:
        assess(ctx, cams, **k)


def add(ctx, cams, parts, spare, times=1, read=False):
    T = ctx.mod("track")
    B = ctx.mod("tracking_frame_buf")
    nt = 2
    if read:
        # a frame as the library reads it
        ctx.fs("res", "img")
        ctx.write_file("res/rt_is.7", f"{parts}\n" + "".join(f"{i + 1} {i}.5 2.0 3.0 {i} 1 -1 -1\n" for i in range(parts)))
        frm = B.Frame(cams, 3)
        for c in range(cams):
            ctx.write_file(f"img/c{c}.0007_targets", f"{nt}\n" + "".join(f"{i} {i}.0 2.0 1 1 1 9 {i if c else 1 - i}\n" for i in range(nt)))
        ok = frm.read("res/rt_is", "", "", [f"img/c{c}.%04d" for c in range(cams)], 7)
        ctx.check(ok and frm.num_parts == parts, "the frame is read")
    else:
        frm = B.Frame(cams, nt)
        size = parts + spare
        frm.path_info = [B.Pathinfo() for _ in range(size)]
        frm.correspond = ctx.np.recarray((size,), dtype=B.Corres_dtype)
        for i in range(size):
            frm.correspond[i].nr = i + 1 if i < parts else 0
            for c in range(4):
                frm.correspond[i].p[c] = ctx.int(f"p{i}{c}", -1, 1) if i < parts and c < cams else -1
            if i < parts:
                frm.path_info[i].x = ctx.arr([ctx.real(f"x{i}", -9, 9), 0.5, 1.5])
                frm.path_info[i].prev_frame, frm.path_info[i].next_frame = ctx.int(f"prev{i}", -1, 5), ctx.int(f"next{i}", -2, 5)
            else:
                # left over from an earlier use of the place
                frm.path_info[i].prev_frame, frm.path_info[i].next_frame = ctx.int(f"oldp{i}", -1, 5), 3
        for c in range(cams):
            frm.targets[c] = [B.Target(pnr=i, x=3.0 * i, y=4.0 + c, n=5, nx=2, ny=3, sumg=70, tnr=ctx.int(f"t{c}{i}", -1, 4)) for i in range(nt)]
            frm.num_targets[c] = nt
        frm.num_parts = parts
    before = snap(frm, parts, cams, nt)
    tnr = {(c, i): frm.targets[c][i].tnr for c in range(cams) for i in range(nt)}
    for r in range(times):
        pos = [ctx.real(f"pos{r}{d}", -20, 20) for d in range(3)]
        cand = [[ctx.choose(f"c{r}{c}", nt + 1) - 1, ctx.int(f"d{r}{c}", -1, 1), -1, -1] for c in range(cams)]
        arr = ctx.arr(pos)
        ci = ctx.np.array([[-1] * 4 for _ in range(cams)])
        for c in range(cams):
            for q in range(4):
                ci[c, q] = cand[c][q]
        T.add_particle(frm, arr, ci)
        me = parts + r
        ctx.check(frm.num_parts == me + 1, "exactly one particle is added")
        ctx.check(len(frm.path_info) > me and len(frm.correspond) > me, "the frame has room for the particle")
        arr[0] = 99
        p = frm.path_info[me]
        for d in range(3):
            ctx.check(p.x[d] == pos[d], "the particle has the given position")
        ctx.check(ctx.and_(p.prev_frame == -1, p.next_frame == -2), "the particle has no links")
        ctx.check(p.prio == B.PRIO_DEFAULT, "the particle has default priority")
        ctx.observe(f"corr{r}", [frm.correspond[me].p[c] for c in range(4)])
        for c in range(4):
            ctx.check(frm.correspond[me].p[c] == (cand[c][0] if c < cams else -1),
                      "the correspondence names the given target of each camera and none elsewhere")
        if any(c[0] >= 0 for c in cand):
            ctx.check(frm.correspond[me].nr == me, "the correspondence carries the particle's number")
        for c in range(cams):
            if cand[c][0] >= 0:
                tnr[c, cand[c][0]] = me
            for i in range(nt):
                ctx.check(frm.targets[c][i].tnr == tnr[c, i], "exactly the given targets carry the particle's number")
    after = snap(frm, parts, cams, nt)
    for k in before:
        ctx.check(before[k] == after[k], f"nothing else changes ({k.split(' ')[0]})")


def snap(frm, parts, cams, nt):
    s = {}
    for i in range(parts):
        p, q = frm.path_info[i], frm.correspond[i]
        for d in range(3):
            s[f"position {i}{d}"] = p.x[d]
        s[f"link {i}p"], s[f"link {i}n"], s[f"prio {i}"] = p.prev_frame, p.next_frame, p.prio
        s[f"number {i}"] = q.nr
        for c in range(4):
            s[f"correspondence {i}{c}"] = q.p[c]
    for c in range(cams):
        for i in range(nt):
            t = frm.targets[c][i]
            for f in ("pnr", "x", "y", "n", "nx", "ny", "sumg"):
                s[f"target {c}{i}{f}"] = getattr(t, f)
        s[f"count {c}"] = frm.num_targets[c]
    return s


def assess(ctx, cams, n):
    T = ctx.mod("track")
    B = ctx.mod("tracking_frame_buf")
    cp = cpar(ctx, 640, 480, 0.5, 0.5, num_cams=cams)
    frm = B.Frame(cams, n)
    cals = [cal(ctx) for _ in range(cams)]
    px = [(ctx.real(f"u{c}", -1, 20), ctx.real(f"v{c}", 96, 104) if c == 0 and n == 1 else 100.5) for c in range(cams)]
    ctx.patch(T, "point_to_pixel", lambda p, k, c: ctx.arr(px[[i for i in range(cams) if cals[i] is k][0]]))
    flat = {}

    def d2f(x, y, k, tol):
        c = [i for i in range(cams) if cals[i] is k][0]
        return (x * 2 + c, y * 4 - c)

    ctx.patch(T, "dist_to_flat", d2f)
    tnr, xs = {}, {}
    for c in range(cams):
        ts = []
        for i in range(n):
            tnr[c, i] = ctx.int(f"t{c}{i}", -1, 3) if c < 2 or i == 0 else -1
            xs[c, i] = 3 + 5 * i if n > 1 else ctx.real(f"x{c}", 0, 18) if c < 2 else 7
            ts.append(B.Target(pnr=i, x=xs[c, i], y=100.0 + i, n=1, nx=1, ny=1, sumg=1, tnr=tnr[c, i]))
        frm.targets[c] = ts
        frm.num_targets[c] = n

    class Run:
        cpar = cp
        cal = cals
        flatten_tol = 1e-5

    k, pos, cand = T.assess_new_position(ctx.arr([1, 2, 3]), frm, Run())
    ctx.observe("k", k)
    got = [int(cand[c][0]) for c in range(cams)]
    ctx.observe("got", got)
    ctx.check(k == sum(1 for g in got if g >= 0), "the number of cameras with a target nearby")
    for c in range(cams):
        ctx.check(all(int(cand[c][q]) == -1 for q in range(1, 4)), "only one target per camera")
        u, v = px[c]
        d = lambda i: (xs[c, i] - u) * (xs[c, i] - u) + (100 + i - v) * (100 + i - v)
        near = [ctx.and_(tnr[c, i] == -1, u >= 0, xs[c, i] > u - 3, xs[c, i] < u + 3, xs[c, i] > 0, 100 + i > v - 3, 100 + i < v + 3) for i in range(n)]
        for i in range(n):
            if got[c] == i:
                ctx.check(near[i], "the returned target is unmatched and near")
                x, y = (xs[c, i] - 320) * 0.5, (240 - (100 + i)) * 0.5
                ctx.close(pos[c][0], x * 2 + c, 1e-9, "its corrected position is returned (x)")
                ctx.close(pos[c][1], y * 4 - c, 1e-9, "its corrected position is returned (y)")
            elif got[c] < 0:
                ctx.check(ctx.not_(near[i]), "a camera with an unmatched target nearby is counted")
            else:
                ctx.check(ctx.implies(near[i], d(i) >= d(got[c])), "the nearest target is taken")
        if got[c] < 0:
            ctx.check(ctx.and_(pos[c][0] == -1e10, pos[c][1] == -1e10), "a camera without target is marked as not seeing")
