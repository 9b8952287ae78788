"""C15: forward tracking leaves mutually consistent links."""
from checks.common import cal, cpar

PROP = "C15"
BOUNDS = ("one forward step (and two in a row) over frames of up to 3, 3 and 3 particles (thorough more combinations) at arbitrary positions on a line, with and without predecessors; "
          "every candidate relation that comes from a search radius or from seeing everything; candidates seen in 2-4 cameras; up to one unlinked position offered per frame; "
          "adding of particles on and off")
OUTSIDE = "larger frames, other components of the positions; how candidates are found in the images (C28); the frame used after the last one"
ASSUMPTIONS = ["the candidate search, the position of unlinked targets and the angle and acceleration of two displacements are replaced by simple functions of the positions "
               "(their own properties: C28, C09, C29)", "no two candidates have the same score"]
CONFIG = {"qtimeout": 4000}
LIMIT = {"quick": 400}

# angle limit, acceleration limit, velocity limits
DANGLE, DACC, VMIN, VMAX = 40.0, 4.0, -5.5, 6.5
LX = 30.0


def cases(tier):
    deep = tier == "thorough"
    cs = []

    def add(name, cost=10, **k):
        cs.append({"name": name, "args": k, "cost": cost, "deadline": 500 if deep else 150})

    for p in ((), (0,)):
        t = "moving" if p else "fresh"
        add(f"{t}-111", n=(1, 1, 1), prev=p)
        add(f"{t}-121", n=(1, 2, 1), prev=p)
        add(f"{t}-112", n=(1, 1, 2), prev=p)
        add(f"{t}-211", n=(2, 1, 1), prev=p)
        add(f"{t}-110", n=(1, 1, 0), prev=p)
        add(f"{t}-120", n=(1, 2, 0), prev=p)
        add(f"{t}-near", n=(1, 1, 1), prev=p, near=True)
        add(f"{t}-ghost", n=(1, 1, 0), prev=p, ghost=True, cost=20)
        add(f"{t}-ghost-add", n=(1, 1, 0), prev=p, ghost=True, add=True, cost=20)
        add(f"{t}-ghost-only", n=(1, 0, 0), prev=p, ghost=True, add=True)
        add(f"{t}-ghost-only-off", n=(1, 0, 0), prev=p, ghost=True)
    add("empty", n=(0, 1, 1))
    add("none", n=(1, 0, 1))
    add("pair", n=(2, 1, 0), prev=(0, 1), cost=30)
    add("pair-swap", n=(2, 1, 0), prev=(1, 0), cost=30)
    add("pair-two", n=(2, 2, 0), prev=(0, 1), cost=300)
    add("three", n=(3, 1, 0), prev=(0, 1, 2), cost=100)
    add("fresh-pair", n=(2, 2, 1), cost=300)
    add("one-moving", n=(2, 1, 1), prev=(-1, 1), cost=50)
    add("ghost-pair", n=(2, 1, 0), prev=(0, 1), ghost=True, add=True, cost=100)
    add("two-steps", n=(1, 1, 1), then=True, cost=50)
    if deep:
        add("three-two", n=(3, 2, 0), prev=(0, 1, 2), cost=3000)
        add("fresh-222", n=(2, 2, 2), cost=3000)
        add("moving-222", n=(2, 2, 2), prev=(0, 1), cost=3000)
        add("moving-121-ghost", n=(1, 2, 1), prev=(0,), ghost=True, add=True, cost=300)
        add("pair-ghost", n=(2, 1, 1), prev=(0, 1), ghost=True, add=True, cost=600)
        add("near-222", n=(2, 2, 1), prev=(0, -1), near=True, cost=1000)
        add("chain", n=(1, 3, 1), prev=(0,), cost=300)
        add("two-steps-2", n=(2, 1, 1), then=True, cost=500)
    return cs


class Scene:
    """Frames, and the stand-ins for what finds candidates in them."""

    def __init__(self, ctx, near, ghost, add):
        self.ctx, self.near, self.ghost, self.add = ctx, near, ghost, add
        self.T = ctx.mod("track")
        self.frames = []
        self.looks = {}
        for f in ("sorted_candidates_in_volume", "assess_new_position", "point_position", "angle_acc", "point_to_pixel"):
            ctx.patch(self.T, f, getattr(self, f))

    def frame(self, tag, n, max_targets=8):
        ctx = self.ctx
        fr = ctx.mod("tracking_frame_buf").Frame(1, max_targets)
        fr.num_parts, fr.num_targets = n, [2]
        fr.xs = [ctx.real(f"{tag}{i}", -40, 40) for i in range(n)]
        for i in range(n):
            fr.path_info[i].x = ctx.arr([fr.xs[i], 0.0, 0.0])
            fr.correspond[i].p = [-1] * 4
        fr.seen = list(range(n))[::-1] if tag == "c" else list(range(n))
        # an unlinked position that the frame's spare targets give
        fr.spare = (3, ctx.real(f"{tag}g", -40, 40)) if self.ghost else (0, 0.0)
        self.frames.append(fr)
        return fr

    def candidates(self, fr, center):
        return [(i, 2 + i % 3) for i in fr.seen if not self.near or self.ctx.decide(abs(fr.xs[i] - center) < 5)]

    def sorted_candidates_in_volume(self, center, proj, frm, run):
        ctx = self.ctx
        self.looks.setdefault(id(frm), []).append((center[0], [proj[0][0], proj[0][1]]))
        c = self.candidates(frm, center[0])
        w = ctx.np.recarray((len(c) + 1,), dtype=self.T.Foundpix_dtype)
        for r, (i, f) in enumerate(c + [(-1, 0)]):
            w[r].ftnr, w[r].freq = i, f
        return w

    def assess_new_position(self, pos, frm, run):
        q, x = frm.spare
        return q, self.ctx.arr([[x, 0.0]]), [[1 if q else -1, 0, -1, -1]]

    def point_position(self, v2, num_cams, mm, cals):
        return 0.1, self.ctx.arr([v2[0][0], 0.0, 0.0])

    def angle_acc(self, start, pred, cand):
        return self.ang(start[0], pred[0], cand[0])

    def ang(self, start, pred, cand):
        return 10 * abs(pred - start) + 5 * abs(cand - pred), abs(pred - cand)

    def point_to_pixel(self, point, cal, cp):
        return self.ctx.arr([3 * point[0] + 1.0, 4 * point[0] - 2.0])

    # what a step must do

    def ok(self, angle, acc):
        c = self.ctx
        return c.decide(c.or_(c.and_(acc < DACC, angle < DANGLE), acc < DACC / 10))

    def step(self, A, B, C, D, lmax):
        """Best successor and score of each of B's particles; what is added to C and D."""
        ctx, bounds = self.ctx, lambda d: ctx.decide(ctx.and_(VMIN < d, d < VMAX))
        best, newc, newd = {}, [], []
        for h, x1 in enumerate(B.xs):
            p = B.prev0[h]
            x0 = A.xs[p] if p >= 0 else None
            x2 = 2 * x1 - x0 if p >= 0 else x1
            opts = []
            for m, fm in self.candidates(C, x2):
                x3 = C.xs[m]
                x5 = (5 * x3 - 4 * x1 + x0) * 0.5 if p >= 0 else 2 * x3 - x1
                for k, fk in self.candidates(D, x5):
                    x4 = D.xs[k]
                    if bounds(x4 - x3):
                        angle, acc = self.ang(x3, x4, x5)
                        if p >= 0:
                            a0, c0 = self.ang(x1, x2, x3)
                            angle, acc = (angle + a0) / 2, (acc + c0) / 2
                        if self.ok(angle, acc):
                            opts.append((((abs(x1 - x3) + abs(x4 - x3)) / 2 / lmax + acc / DACC + angle / DANGLE) / (fm + fk), m))
                q, x4 = D.spare
                if q >= 2 and ctx.decide(ctx.and_(-LX < x4, x4 < LX)) and bounds(x3 - x4):
                    angle, acc = self.ang(x3, x4, x5)
                    if self.ok(angle, acc):
                        opts.append((((abs(x1 - x3) + abs(x4 - x3)) / 2 / lmax + acc / DACC + angle / DANGLE) / (q + fm), m))
                        if self.add:
                            newd.append(x4)
                if not opts and p >= 0 and bounds(x3 - x1):
                    angle, acc = self.ang(x1, x2, x3)
                    if self.ok(angle, acc):
                        opts.append((((abs(x1 - x3) + abs(x0 - x1)) / 2 / lmax + acc / DACC + angle / DANGLE) / fm, m))
            if not opts and p >= 0 and self.add and self.candidates(C, x2):
                q, x3 = C.spare
                if q >= 2 and ctx.decide(ctx.and_(-LX < x3, x3 < LX)) and bounds(x2 - x3):
                    angle, acc = self.ang(x1, x2, x3)
                    if self.ok(angle, acc):
                        opts.append((((abs(x1 - x3) + abs(x0 - x1)) / 2 / lmax + acc / DACC + angle / DANGLE) / q, len(C.xs) + len(newc)))
                        newc.append(x3)
            if opts:
                b = opts[0]
                for o in opts[1:]:
                    if o[1] != b[1]:
                        ctx.assume(ctx.or_(o[0] - b[0] > 1e-6, b[0] - o[0] > 1e-6))
                    if ctx.decide(o[0] < b[0]):
                        b = o
                best[h] = b
        return best, newc, newd


def run(ctx, n, prev=(), near=False, ghost=False, add=False, then=False):
    s = Scene(ctx, near, ghost, add)
    fb, T, tr = buffer(ctx, s, n, prev, add, then)
    for i in range(2 if then else 1):
        A, B, C, D = fb.buf
        one(ctx, s, fb, T, tr, A, B, C, D, i)


def buffer(ctx, s, n, prev, add, then):
    B = ctx.mod("tracking_frame_buf")
    T = s.T
    frs = [s.frame("z", len(prev) if prev else 1), s.frame("a", n[0]), s.frame("b", n[1]), s.frame("c", n[2])]
    for i, p in enumerate(prev):
        if 0 <= p < len(prev):
            frs[0].path_info[p].next_frame = i
            frs[1].path_info[i].prev_frame = p
    P = ctx.mod("parameters")
    tp = P.TrackParTuple(VMIN, VMAX, -1.5, 1.5, -2.0, 2.0, DANGLE, DACC, 1 if add else 0, 0.0, 0.0, 0.0, 0.0)
    vp = P.VolumePar(x_lay=[-LX, LX], z_min_lay=[-10.0, -10.0], z_max_lay=[10.0, 10.0], cn=0.1, cnx=0.1, cny=0.1, csumg=0.1, corrmin=30.0, eps0=0.1)
    cp = cpar(ctx, 200, 100, 0.25, 0.5, num_cams=1)
    cals = [cal(ctx, [10.0, 20.0, 100.0], [0.0, 0.0, 0.0], [0.0, 0.0, 50.0], [0.0, 0.0, 1.0])]
    ctx.patch(ctx.mod("tracking_run"), "volumedimension", lambda *a: (LX, -LX, 5.0, -5.0, 10.0, -10.0))
    tr = ctx.mod("tracking_run").TrackingRun(P.SequencePar(img_base_name=["img/c0.%04d"], first=1, last=9), tp, vp, cp, 4, 8, "res/rt_is", "res/ptv_is", "res/added", cals, 0.0001)
    more = []
    if then:
        more = [s.frame("d", 1)]

    class Buf(B.FrameBuf):
        def write_frame_from_start(self, num):
            self.written.append((num, self.buf[0]))
            return True

        def disk_read_frame_at_end(self, num, links=False):
            self.reads.append((num, links))
            if more:
                self.buf[-1] = more.pop(0)
            return True

        def read_frame_at_end(self, num, links=False):
            return self.disk_read_frame_at_end(num, links)

    fb = Buf(4, 1, 8, "res/rt_is", "res/ptv_is", "res/added", ["img/c0.%04d"])
    fb.written, fb.reads = [], []
    fb.buf = type(fb.buf)(frs)
    tr.fb = fb
    return fb, T, tr


def one(ctx, s, fb, T, tr, A, B, C, D, i):
    """One step."""
    lmax = tr.lmax
    for fr in (B, C):
        for h in range(len(fr.xs)):
            if (fr is C) or fr.path_info[h].prev_frame < 0:
                fr.correspond[h].p[0] = 0 if h % 2 == 0 else -1
        fr.targets[0][0].x, fr.targets[0][0].y = 17.5, 18.5
    B.prev0 = [int(B.path_info[h].prev_frame) for h in range(len(B.xs))]
    z0 = [(int(p.prev_frame), int(p.next_frame)) for p in A.path_info[:len(A.xs)]]
    nC, nD = len(C.xs), len(D.xs)
    best, newc, newd = s.step(A, B, C, D, lmax)
    s.looks.clear()
    step = 1 + i
    before = (tr.npart, tr.nlinks)
    T.trackcorr_c_loop(tr, step)

    links = [int(p.next_frame) for p in B.path_info[:len(B.xs)]]
    backs = [int(p.prev_frame) for p in C.path_info[:C.num_parts]]
    ctx.observe(f"links{i}", (links, backs))
    ctx.check(B.num_parts == len(B.xs), "the tracked frame keeps its particles")
    for h, n in enumerate(links):
        ctx.check(n == -2 or (0 <= n < C.num_parts and backs[n] == h), "a particle's successor names it as predecessor; no link is marked -2")
    for n, h in enumerate(backs):
        ctx.check(h == -1 or (0 <= h < len(B.xs) and links[h] == n), "a particle's predecessor names it as successor; no link is marked -1")
    ctx.check(tr.npart - before[0] == len(B.xs) and tr.nlinks - before[1] == sum(x >= 0 for x in links), "particles and links are counted")
    ctx.check([int(p.prev_frame) for p in B.path_info[:len(B.xs)]] == B.prev0, "earlier links stay")
    ctx.check([(int(p.prev_frame), int(p.next_frame)) for p in A.path_info[:len(A.xs)]] == z0, "earlier links stay")
    ctx.check(all(int(p.next_frame) == -2 for p in C.path_info[:C.num_parts]), "the next frame's particles have no successors yet")
    ctx.check(all(int(p.next_frame) == -2 and int(p.prev_frame) == -1 for p in D.path_info[:D.num_parts]), "the frame after it has no links yet")
    # who gets whom
    for h, n in enumerate(links):
        if h not in best:
            ctx.check(n == -2, "no link without a candidate within the limits")
            continue
        sc, m = best[h]
        rivals = [best[g][0] for g in best if g != h and best[g][1] == m]
        for r in rivals:
            ctx.assume(ctx.or_(r - sc > 1e-6, sc - r > 1e-6))
        if all(ctx.decide(sc < r) for r in rivals):
            ctx.check(n == m, "the best of the particles competing for a successor gets it")
        else:
            ctx.check(n == -2, "a particle whose best candidate goes to a better one stays unlinked")
    # added particles
    for fr, k, new in ((C, nC, newc), (D, nD, newd)):
        ctx.check(fr.num_parts == k + len(new), "particles are added where unlinked targets give a position within the limits, and only when asked for")
        for j, x in enumerate(new):
            ctx.check(ctx.and_(fr.path_info[k + j].x[0] == x, fr.path_info[k + j].x[1] == 0, fr.path_info[k + j].x[2] == 0), "an added particle is at the position of its targets")
            ctx.check(int(fr.correspond[k + j].p[0]) == 1 and int(fr.targets[0][1].tnr) == k + len(new) - 1, "an added particle and its target name each other")
        for j in range(k):
            ctx.check(ctx.and_(fr.path_info[j].x[0] == fr.xs[j], fr.path_info[j].x[1] == 0), "particles do not move")
        fr.xs = fr.xs + list(new)
    for h in range(len(B.xs)):
        ctx.check(B.path_info[h].x[0] == B.xs[h], "particles do not move")
    # where was searched
    want = []
    for h, x1 in enumerate(B.xs):
        p = B.prev0[h]
        x2 = 2 * x1 - A.xs[p] if p >= 0 else x1
        own = p < 0 and int(B.correspond[h].p[0]) >= 0
        want.append((x2, 17.5 if own else 3 * x2 + 1, 18.5 if own else 4 * x2 - 2))
    for c, (u, v) in s.looks.get(id(C), []):
        ctx.check(ctx.or_(*[ctx.and_(c == a, u == b, v == d) for a, b, d in want]), "continuations are searched at the predicted position and its images")
    ctx.check(fb.written == [(1 + k, f) for k, f in enumerate([x[1] for x in fb.written])] and fb.written[-1] == (step, B), "the step's frame is written under its number")
    ctx.check(fb.reads == [(4 + k, False) for k in range(i + 1)], "the next frame is read without links")
    ctx.check(fb.buf[0] is B and fb.buf[1] is C and fb.buf[2] is D, "the buffer advances by one frame")
