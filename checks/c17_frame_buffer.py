"""C17: the frame buffer presents frames in sequence order."""
from checks.common import cal, cpar

PROP = "C17"
BOUNDS = ("buffers of 2-5 frames: all sequences of up to 4 (thorough 5) reads, advances and steps back, then writing; frames of one camera with one "
          "target and one particle with symbolic contents; runs over 4-6 (thorough 8) frames, forward, backward and both, with up to 3 particles per frame that have no candidates")
OUTSIDE = "longer operation sequences; what linking does to the frames (C15, C16); sequences of fewer than four frames"
ASSUMPTIONS = ["in runs, the search for continuations finds nothing"]
CONFIG = {"qtimeout": 4000}

OPS = ("read", "next", "prev", "links")


def cases(tier):
    deep = tier == "thorough"
    cs = []
    for n in (2, 3, 4, 5):
        for first in range(4):
            cs.append({"name": f"ops-{n}-{OPS[first]}", "args": {"what": "ops", "n": n, "first": first, "k": 4 if deep else 3}, "cost": 50})
    for n, k in ((3, 6), (4, 8), (4, 6), (5, 10)):
        cs.append({"name": f"order-{n}-{k}", "args": {"what": "order", "n": n, "k": k}})
    for n in (2, 3, 4):
        cs.append({"name": f"inverse-{n}", "args": {"what": "inverse", "n": n}})
        cs.append({"name": f"queue-{n}", "args": {"what": "queue", "n": n}})
        cs.append({"name": f"write-{n}", "args": {"what": "write", "n": n}})
    for n in (4, 5, 6) + ((8,) if deep else ()):
        for parts in (0, 1) + ((3,) if deep else ()):
            for w in ("forward", "backward", "both"):
                cs.append({"name": f"{w}-{n}-{parts}", "args": {"what": w, "n": n, "parts": parts}, "cost": 20 * n})
    return cs


def run(ctx, what, **k):
    ctx.fs("res", "img")
    globals()[what](ctx, ctx.mod("tracking_frame_buf"), **k)


BASES = ("res/rt_is", "res/ptv_is", "res/added")
IMG = "img/c0.%04d"


def put(ctx, f, parts=1, links=True, nxt=-2):
    """The files of frame f; returns what is in them."""
    xs = [ctx.real(f"x{f}_{i}", -900, 900) for i in range(parts)]
    tag = ctx.int(f"tag{f}", 0, 100000)
    ctx.write_file(f"{BASES[0]}.{f}", f"{parts}\n" + "".join(ctx.fmt(f"{i + 1} %s 2.0 3.0 0 -1 -1 -1\n", xs[i]) for i in range(parts)))
    if links:
        ctx.write_file(f"{BASES[1]}.{f}", f"{parts}\n" + "".join(ctx.fmt(f"-1 {nxt} %s 2.0 3.0\n", xs[i]) for i in range(parts)))
        ctx.write_file(f"{BASES[2]}.{f}", f"{parts}\n" + "".join(ctx.fmt(f"-1 {nxt} %s 2.0 3.0 {i}\n", xs[i]) for i in range(parts)))
    ctx.write_file(f"img/c0.{f:04d}_targets", ctx.fmt("2\n0 10.0 20.0 1 1 1 %d 0\n1 11.0 21.0 1 1 1 7 -1\n", tag))
    return xs, tag


def buffer(ctx, B, n):
    return B.FrameBuf(n, 1, 5, *BASES, [IMG])


def holds(ctx, fr, what, msg, links=None):
    """The frame holds this content (None: it was never read)."""
    if what is None:
        ctx.check(fr.num_parts == 0 and fr.num_targets[0] == 0, msg)
        return
    xs, tag = what
    ctx.check(fr.num_parts == len(xs) and fr.num_targets[0] == 2 and len(fr.path_info) >= len(xs) and len(fr.targets[0]) >= 2, msg)
    for i, x in enumerate(xs):
        ctx.close(fr.path_info[i].x[0], x, 1e-6, msg)
    ctx.check(ctx.and_(fr.targets[0][0].sumg == tag, fr.targets[0][1].sumg == 7), msg)
    if links is not None:
        for i in range(len(xs)):
            ctx.check(fr.path_info[i].next_frame == (5 if links else -2), "links are read only when asked for")


def ops(ctx, B, n, first, k):
    """Any sequence of operations."""
    fb = buffer(ctx, B, n)
    want = [None] * n
    links = [None] * n
    for f in range(k + 1):
        op = first if f == 0 else ctx.choose(f"op{f}", 4)
        if op in (0, 3):
            c = put(ctx, f + 3, nxt=5)
            if op == 3 and f % 2:
                ctx.check(fb.disk_read_frame_at_end(f + 3, True), "reading succeeds")
            else:
                fb.read_frame_at_end(f + 3, op == 3)
            want[-1], links[-1] = c, op == 3
        elif op == 1:
            fb.fb_next()
            want, links = want[1:] + want[:1], links[1:] + links[:1]
        else:
            fb.fb_prev()
            want, links = want[-1:] + want[:-1], links[-1:] + links[:-1]
        ctx.check(len(fb.buf) == n, "the buffer keeps its length")
        for i in range(n):
            holds(ctx, fb.buf[i], want[i], "each position holds the frame that was read for it", links[i])
    ctx.check(len(set(id(f) for f in fb.buf)) == n, "the positions are separate frames")
    before = {p: ctx.read_file(p) for p in ctx.files()}
    if want[0] is None:
        return
    fb.write_frame_from_start(77)
    for p in before:
        ctx.check(ctx.read_file(p) == before[p], "writing touches no other frame's files")
    written(ctx, 77, want[0], 5 if links[0] else -2)


def written(ctx, f, what, nxt, prev=-1, times=1):
    xs, tag = what
    for b in BASES:
        ctx.check(f"{b}.{f}" in ctx.files(), "each frame is written under its number")
    L = [ctx.read_file(f"{b}.{f}").split("\n") for b in BASES]
    ctx.check(all(int(q[0]) == len(xs) for q in L), "the frame's own particles are written")
    for i, x in enumerate(xs):
        a, b, c = [ctx.fields(q[i + 1]) for q in L]
        ctx.close(ctx.parse(a[1]), x, times * 5.1e-4, "the frame's own particles are written")
        for q in (b, c):
            ctx.close(ctx.parse(q[2]), x, times * 5.1e-4, "the frame's own particles are written")
            ctx.check(ctx.parse(q[0], "i") == prev and ctx.parse(q[1], "i") == nxt, "the frame's own links are written")
    t = ctx.read_file(f"img/c0.{f:04d}_targets").split("\n")
    ctx.check(int(t[0]) == 2 and ctx.parse(ctx.fields(t[1])[6], "i") == tag, "the frame's own targets are written")


def order(ctx, B, n, k):
    """Reading and advancing shows the frames in the order read."""
    fb = buffer(ctx, B, n)
    c = []
    for f in range(k):
        c.append(put(ctx, f + 1, links=False))
        fb.read_frame_at_end(f + 1)
        last = c[-n:]
        for i, w in enumerate(reversed(last)):
            holds(ctx, fb.buf[n - 1 - i], w, "the positions hold the frames in the order they were read")
        fb.fb_next()
        for i, w in enumerate(reversed(c[-(n - 1):])):
            holds(ctx, fb.buf[n - 2 - i], w, "after advancing, the frames have moved up by one")


def inverse(ctx, B, n):
    fb = buffer(ctx, B, n)
    a = list(fb.buf)
    k = 1 + ctx.choose("k", 5)
    for _ in range(k):
        fb.fb_next()
    ctx.check(list(map(id, fb.buf)) == [id(a[(i + k) % n]) for i in range(n)], "advancing moves every frame up by one")
    for _ in range(k):
        fb.fb_prev()
    ctx.check(list(map(id, fb.buf)) == list(map(id, a)), "going back undoes advancing")
    for _ in range(k):
        fb.fb_prev()
    ctx.check(list(map(id, fb.buf)) == [id(a[(i - k) % n]) for i in range(n)], "going back moves every frame down by one")


def queue(ctx, B, n):
    """Pushing and popping."""
    fb = B.FrameBufBase([None] * n, n, 1)
    model = []
    for s in range(6):
        if ctx.choose(f"push{s}", 2):
            it = B.Frame(1, 1)
            fb.push(it)
            if len(model) < n:
                model.append(it)
        else:
            got = fb.pop()
            ctx.check(got is (model.pop(0) if model else None), "frames are popped in the order they were pushed")
        ctx.check(fb.size == len(model), "the number of frames in the queue")


def write(ctx, B, n):
    """Frames written under other numbers read back the same."""
    fb = buffer(ctx, B, n)
    cs = [put(ctx, f + 1, nxt=4) for f in range(n)]
    for f in range(n):
        fb.read_frame_at_end(f + 1, True)
        fb.fb_next()
    fb.fb_prev()
    for f in range(n):
        holds(ctx, fb.buf[0], cs[f], "the frames come round in the order they were read")
        ctx.check(fb.write_frame_from_start(50 + f), "writing succeeds")
        fb.fb_next()
    for f in range(n):
        written(ctx, 50 + f, cs[f], 4)
        written(ctx, f + 1, cs[f], 4)


def session(ctx, first, last):
    cp = cpar(ctx, 200, 100, 0.25, 0.5, num_cams=1)
    cals = [cal(ctx, [10.0, 20.0, 100.0], [0.0, 0.0, 0.0], [0.0, 0.0, 50.0], [0.0, 0.0, 1.0])]
    P = ctx.mod("parameters")
    vp = P.VolumePar(x_lay=[-10.0, 10.0], z_min_lay=[-10.0, -10.0], z_max_lay=[10.0, 10.0], cn=0.1, cnx=0.1, cny=0.1, csumg=0.1, corrmin=30.0, eps0=0.1)
    tp = P.TrackParTuple(-1.0, 1.0, -1.0, 1.0, -1.0, 1.0, 100.0, 1.0, 0, 0.0, 0.0, 0.0, 0.0)
    return ctx.mod("tracking_run").TrackingRun(P.SequencePar(img_base_name=[IMG], first=first, last=last), tp, vp, cp, 4, 20, *BASES, cals, 0.0001)


def setup(ctx, B, n, parts, **k):
    first = (1, 7, 10095)[ctx.choose("first", 3)]
    last = first + n - 1
    cs = {f: put(ctx, f, parts, **k) for f in range(first, last + 1)}
    reads = []
    orig = B.read_path_frame

    def rec(*a, **kw):
        reads.append(int(kw["frame_num"] if "frame_num" in kw else a[3]))
        return orig(*a, **kw)

    ctx.patch(B, "read_path_frame", rec)
    T = ctx.mod("track")
    ctx.patch(T, "sorted_candidates_in_volume", lambda *a: none(ctx, T))
    return first, last, cs, reads, T


def none(ctx, T):
    w = ctx.np.recarray((1,), dtype=T.Foundpix_dtype)
    w[0].ftnr = -1
    w[0].freq = 0
    return w


def track(ctx, T, run, first, last):
    T.track_forward_start(run)
    for step in range(first, last):
        T.trackcorr_c_loop(run, step)
    T.trackcorr_c_finish(run, last)


def check_run(ctx, first, last, cs, reads, nxt, times=1):
    ctx.check(sorted(reads) == list(range(first, last + 1)), "each frame of the sequence is read once")
    names = sorted([f"{b}.{f}" for b in BASES for f in cs] + [f"img/c0.{f:04d}_targets" for f in cs])
    ctx.check(sorted(ctx.files()) == names, "the frames of the sequence are written and no others")
    for f in cs:
        written(ctx, f, cs[f], nxt, times=times)


def forward(ctx, B, n, parts):
    first, last, cs, reads, T = setup(ctx, B, n, parts, links=False)
    track(ctx, T, session(ctx, first, last), first, last)
    check_run(ctx, first, last, cs, reads, -2)


def backward(ctx, B, n, parts):
    first, last, cs, reads, T = setup(ctx, B, n, parts)
    T.trackback_c(session(ctx, first, last))
    check_run(ctx, first, last, cs, reads, -2)


def both(ctx, B, n, parts):
    first, last, cs, reads, T = setup(ctx, B, n, parts, links=False)
    track(ctx, T, session(ctx, first, last), first, last)
    check_run(ctx, first, last, cs, reads, -2)
    del reads[:]
    T.trackback_c(session(ctx, first, last))
    check_run(ctx, first, last, cs, reads, -2, 2)
