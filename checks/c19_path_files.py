"""C19: particle and linkage files round-trip."""

PROP = "C19"
BOUNDS = ("0-3 (thorough 6) particles, all values symbolic (positions -10^5..10^5, integers -10^6..10^6); with and without linkage and "
          "priority files; three base names and frame numbers")
OUTSIDE = "larger magnitudes; priorities that are not integers"
ASSUMPTIONS = ["a printed decimal denotes any number within half a unit of its last digit"]
CONFIG = {"qtimeout": 4000}


def cases(tier):
    deep = tier == "thorough"
    cs = [{"name": f"round-{n}-{m}", "args": {"n": n, "mode": m}, "cost": 3 ** n}
          for n in (0, 1, 2, 3) + ((6,) if deep else ()) for m in ("all", "none", "link", "prio")]
    cs += [{"name": f"part-{n}-{k}", "args": {"n": n, "k": k, "mode": "all"}, "cost": 9} for n, k in ((1, 0), (3, 2))]
    cs += [{"name": f"buf-{m}", "args": {"n": 2, "mode": m, "buf": True}, "cost": 20} for m in ("all", "none")]
    cs.append({"name": "noprio", "args": {"n": 2, "mode": "link", "noprio": True}, "cost": 9})
    cs.append({"name": "again", "args": {"n": 1, "mode": "all", "again": True}, "cost": 9})
    return cs


def mk(ctx, n):
    B = ctx.mod("tracking_frame_buf")
    cor = ctx.np.recarray((n,), dtype=B.Corres_dtype)
    path, vals = [], []
    for i in range(n):
        v = {"x": [ctx.real(f"x{i}{d}", -10 ** 5, 10 ** 5) for d in range(3)],
             "p": [ctx.int(f"p{i}{c}", -10 ** 6, 10 ** 6) for c in range(4)],
             "prev": ctx.int(f"prev{i}", -10 ** 6, 10 ** 6), "next": ctx.int(f"next{i}", -10 ** 6, 10 ** 6),
             "prio": ctx.int(f"prio{i}", -10 ** 6, 10 ** 6)}
        cor[i].nr = ctx.int(f"nr{i}", -9, 10 ** 6)
        for c in range(4):
            cor[i].p[c] = v["p"][c]
        path.append(B.Pathinfo(x=ctx.arr(v["x"]), prev_frame=v["prev"], next_frame=v["next"], prio=v["prio"]))
        vals.append(v)
    return cor, path, vals


def run(ctx, n, mode, k=None, buf=False, again=False, noprio=False):
    B = ctx.mod("tracking_frame_buf")
    ctx.fs("res", "img")
    base, num = [("res/rt_is", 1), ("res/corr", 10001), ("rt_is", 123456789)][ctx.choose("base", 3)]
    link, prio = "res/ptv_is", "res/added"
    if again:
        B.write_path_frame(*mk_old(ctx, B), 2, base, link, prio, num)
    cor, path, vals = mk(ctx, n)
    k = n if k is None else k
    vals = vals[:k]
    if buf:
        frame(ctx, B, cor, path, vals, base, link, prio, num, mode)
        return
    if noprio:
        ctx.check(B.write_path_frame(cor, path, k, base, link, "", num), "writing without priorities succeeds")
        ctx.check(ctx.files() == sorted([f"{base}.{num}", f"{link}.{num}"]), "two files are written without priorities")
        got = B.read_path_frame(base, link, "", num)
        same(ctx, B, got[0], got[1], vals, mode)
        return
    ctx.check(B.write_path_frame(cor, path, k, base, link, prio, num), "writing succeeds")
    ctx.check(ctx.files() == sorted([f"{base}.{num}", f"{link}.{num}", f"{prio}.{num}"]), "the three files are written")
    L = [ctx.read_file(f"{f}.{num}").split("\n") for f in (base, link, prio)]
    for f in L:
        ctx.check(f[-1] == "" and len(f) == k + 2 and int(f[0]) == k, "each file has the number of particles and one line per particle")
    for i in range(k):
        a, b, c = [ctx.fields(f[i + 1]) for f in L]
        ctx.check(len(a) == 8 and len(b) == 5 and len(c) == 6, "number of fields per line")
        ctx.check(ctx.parse(a[0], "i") == i + 1, "correspondences are numbered from one")
        for d in range(3):
            for q in (a[1 + d], b[2 + d], c[2 + d]):
                ctx.close(ctx.parse(q), vals[i]["x"][d], 5.1e-4, "position in its place")
        for d in range(4):
            ctx.check(ctx.parse(a[4 + d], "i") == vals[i]["p"][d], "target index in its place")
        for q in (b, c):
            ctx.check(ctx.and_(ctx.parse(q[0], "i") == vals[i]["prev"], ctx.parse(q[1], "i") == vals[i]["next"]), "links in their place")
        ctx.check(ctx.parse(c[5], "i") == vals[i]["prio"], "priority in its place")
    got = B.read_path_frame(base, link if mode in ("all", "link") else "", prio if mode in ("all", "prio") else "", num)
    same(ctx, B, got[0], got[1], vals, mode)


def mk_old(ctx, B):
    cor = ctx.np.recarray((2,), dtype=B.Corres_dtype)
    for i in range(2):
        cor[i].nr = i
        for c in range(4):
            cor[i].p[c] = 9
    return cor, [B.Pathinfo(prev_frame=7, next_frame=8, prio=9) for _ in range(2)]


def same(ctx, B, cor, path, vals, mode):
    n = len(vals)
    ctx.check(len(cor) == n and len(path) == n, "the same number of particles is read")
    ctx.observe("p", [[cor[i].p[c] for c in range(4)] for i in range(n)])
    for i in range(n):
        v, p = vals[i], path[i]
        ctx.check(cor[i].nr == i + 1, "particles are numbered from one")
        for c in range(4):
            ctx.check(cor[i].p[c] == v["p"][c], "target indices round-trip")
        ctx.check(len(p.x) == 3, "a position has three components")
        for d in range(3):
            ctx.close(p.x[d], v["x"][d], 5.1e-4, "positions round-trip to the printed precision")
        if mode in ("all", "link"):
            ctx.check(ctx.and_(p.prev_frame == v["prev"], p.next_frame == v["next"]), "links round-trip")
        else:
            ctx.check(p.prev_frame == -1 and p.next_frame == -2, "without linkage file the links are the defaults")
        if mode in ("all", "prio"):
            ctx.check(p.prio == v["prio"], "priority round-trips")
        else:
            ctx.check(p.prio == 4, "without priority file the priority is the default")
        ctx.check(p.inlist == 0, "no link candidates after reading")
        ctx.check(len(p.decis) >= 80 and len(p.linkdecis) >= 80, "room for link candidates after reading")
    for i in range(n):
        for j in range(i):
            ctx.check(path[i] is not path[j] and path[i].decis is not path[j].decis and path[i].linkdecis is not path[j].linkdecis,
                      "particles do not share their lists")


def frame(ctx, B, cor, path, vals, base, link, prio, num, mode):
    """Through the frame and the frame buffer."""
    n = len(vals)
    fb = B.FrameBuf(4, 1, 2, base, link, prio, ["img/c.%04d"])
    f = fb.buf[0]
    f.correspond, f.path_info, f.num_parts = cor, path, n
    f.targets = [[B.Target(pnr=0, x=1.0, y=2.0, n=1, nx=1, ny=1, sumg=1, tnr=0)]]
    f.num_targets = [1]
    ctx.check(fb.write_frame_from_start(num), "writing succeeds")
    how = ctx.choose("how", 2)
    if how == 0:
        fb.read_frame_at_end(num, mode == "all")
    else:
        ctx.check(fb.disk_read_frame_at_end(num, mode == "all"), "reading succeeds")
    g = fb.buf[3]
    ctx.check(g is not f and g.num_parts == n and [int(t) for t in g.num_targets] == [1], "the frame is read into the last place")
    same(ctx, B, g.correspond, g.path_info, vals, mode)
    pos = g.positions()
    ctx.check(pos.shape == (n, 3), "one position per particle")
    for i in range(n):
        for d in range(3):
            ctx.check(pos[i, d] == g.path_info[i].x[d], "positions in the order of the particles")
