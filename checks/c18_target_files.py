"""C18: target files round-trip."""

PROP = "C18"
BOUNDS = "0-4 (thorough 8) targets, all fields symbolic: integers -10^7..10^7, positions -10^6..10^6; five base names and frame numbers"
OUTSIDE = "larger magnitudes; base names without a frame number pattern"
ASSUMPTIONS = ["a printed decimal denotes any number within half a unit of its last digit"]
CONFIG = {"qtimeout": 4000}

BASES = [("img/cam1.%04d", 1), ("img/cam1.%04d", 10000), ("img/c%d_", 42), ("img/cam2.%05d", 123456789), ("sample_%04d", 7)]
FIELDS = ("pnr", "x", "y", "n", "nx", "ny", "sumg", "tnr")


def cases(tier):
    deep = tier == "thorough"
    cs = [{"name": f"round-{n}", "args": {"n": n}, "cost": 3 ** n} for n in (0, 1, 2, 3, 4) + ((6, 8) if deep else ())]
    cs += [{"name": f"part-{n}-{k}", "args": {"n": n, "k": k}, "cost": 9} for n, k in ((1, 0), (2, 1), (3, 2))]
    cs.append({"name": "again", "args": {"n": 2, "again": 1}, "cost": 9})
    cs.append({"name": "again-0", "args": {"n": 2, "again": 0}, "cost": 9})
    cs.append({"name": "frame", "args": {"n": 2, "frame": True}, "cost": 20})
    cs.append({"name": "bad", "args": {"n": 1, "bad": True}, "cost": 5})
    return cs


def mk(ctx, n, pre=""):
    B = ctx.mod("tracking_frame_buf")
    out = []
    for i in range(n):
        v = {f: ctx.int(f"{pre}{f}{i}", -10 ** 7, 10 ** 7) for f in FIELDS if f not in "xy"}
        v["x"], v["y"] = ctx.real(f"{pre}x{i}", -10 ** 6, 10 ** 6), ctx.real(f"{pre}y{i}", -10 ** 6, 10 ** 6)
        out.append((B.Target(**v), v))
    return [t for t, _ in out], [v for _, v in out]


def run(ctx, n, k=None, again=None, frame=False, bad=False):
    B = ctx.mod("tracking_frame_buf")
    ctx.fs("img")
    base, num = BASES[ctx.choose("base", len(BASES))]
    name = base % num + "_targets"
    if bad:
        # a line of the wrong length is refused
        ctx.write_file(name, "1\n" + " ".join("1" for _ in range([7, 9][ctx.choose("len", 2)])) + "\n")
        st, e = ctx.call(B.read_targets, base, num)
        ctx.check(st == "exc", "a malformed line is refused")
        return
    if again is not None:
        old, _ = mk(ctx, 3, "old")
        ctx.check(B.write_targets(old, 3, base, num), "writing succeeds")
        n = again
    ts, vals = mk(ctx, n)
    k = n if k is None else k
    if frame:
        frm = B.Frame(2, 2)
        frm.num_parts = 0
        frm.targets = [ts, ts[:1]]
        frm.num_targets = [2, 1]
        bases = [base, "img/other.%04d"]
        ctx.check(frm.write("img/rt_is", "img/ptv_is", "img/added", bases, num), "writing succeeds")
        got = B.Frame(2, 1)
        ctx.check(got.read("img/rt_is", "img/ptv_is", "img/added", bases, num), "reading succeeds")
        ctx.check([int(v) for v in got.num_targets] == [2, 1], "number of targets of each camera")
        same(ctx, got.targets[0], vals)
        same(ctx, got.targets[1], vals[:1])
        return
    ctx.check(B.write_targets(ts, k, base, num), "writing succeeds")
    vals = vals[:k]
    ctx.check(ctx.files() == [name], "exactly the target file is written")
    lines = ctx.read_file(name).split("\n")
    ctx.check(lines[-1] == "" and len(lines) == k + 2, "one line per target after the count")
    ctx.check(int(lines[0]) == k, "the file starts with the number of targets")
    for ln, v in zip(lines[1:], vals):
        f = ctx.fields(ln)
        ctx.check(len(f) == 8, "eight fields per line")
        for i, nm in enumerate(FIELDS):
            if nm in "xy":
                ctx.close(ctx.parse(f[i]), v[nm], 5.1e-5, f"field {nm} in its place")
            else:
                ctx.check(ctx.parse(f[i], "i") == v[nm], f"field {nm} in its place")
    for t, v in zip(ts, vals):
        ctx.check(ctx.and_(*[getattr(t, f) == v[f] for f in FIELDS]), "writing does not change the targets")
    same(ctx, B.read_targets(base, num), vals)


def same(ctx, back, vals):
    ctx.check(len(back) == len(vals), "reading returns the same number of targets")
    for b, v in zip(back, vals):
        for f in FIELDS:
            if f in "xy":
                ctx.close(getattr(b, f), v[f], 5.1e-5, f"{f} round-trips to the printed precision")
            else:
                ctx.check(getattr(b, f) == v[f], f"{f} round-trips")
    ctx.observe(f"back{len(vals)}", [[getattr(b, f) for f in FIELDS if f not in "xy"] for b in back])
