"""C21: legacy parameter files are read field for field."""
import dataclasses

PROP = "C21"
BOUNDS = ("every numeric line an arbitrary number (integers -10^6..10^9, reals -10^6..10^6); 1 to 4 cameras, 0 to 3 planes; comparisons: all "
          "pairs of parameter sets with up to 2 entries per list")
OUTSIDE = "file names (fixed samples); malformed files"
ASSUMPTIONS = ["numbers are written with full precision"]
CONFIG = {"qtimeout": 8000}

FIELDS = {
    "track": ["dvxmin", "dvxmax", "dvymin", "dvymax", "dvzmin", "dvzmax", "dangle", "dacc", "+add"],
    "volume": ["x_lay.0", "z_min_lay.0", "z_max_lay.0", "x_lay.1", "z_min_lay.1", "z_max_lay.1", "cnx", "cny", "cn", "csumg", "corrmin", "eps0"],
    "target": ["+gvthresh.0", "+gvthresh.1", "+gvthresh.2", "+gvthresh.3", "+discont", "+nnmin", "+nnmax", "+nxmin", "+nxmax", "+nymin",
               "+nymax", "+sumg_min", "+cr_sz"],
    "orient": ["+useflag", "+ccflag", "+xhflag", "+yhflag", "+k1flag", "+k2flag", "+k3flag", "+p1flag", "+p2flag", "+scxflag", "+sheflag",
               "+interfflag"],
}
CLS = {"track": "TrackPar", "volume": "VolumePar", "target": "TargetPar", "orient": "OrientPar", "control": "ControlPar",
       "sequence": "SequencePar", "calibration": "CalibrationPar", "planes": "MultiPlanesPar", "examine": "ExaminePar",
       "mm": "MultimediaPar", "pft": "PftVersionPar"}
READER = {"track": "read_track_par", "volume": "read_volume_par", "target": "read_target_par", "control": "read_control_par",
          "sequence": "read_sequence_par", "calibration": "read_cal_ori_parameters", "examine": "read_examine_par"}


def cases(tier):
    cs = []
    for k in ("track", "volume", "target", "orient", "examine", "pft"):
        for r in ("class", "reader") if k in READER else ("class",):
            cs.append({"name": f"read-{k}-{r}", "args": {"what": "read", "k": k, "r": r, "n": 0}})
    for k in ("control", "sequence", "calibration"):
        for n in (1, 2, 3, 4):
            for r in ("class", "reader") if n in (1, 4) or tier == "thorough" else ("class",):
                cs.append({"name": f"read-{k}-{n}-{r}", "args": {"what": "read", "k": k, "r": r, "n": n}})
    for n in range(4):
        cs.append({"name": f"read-planes-{n}", "args": {"what": "read", "k": "planes", "r": "class", "n": n}})
    cs.append({"name": "write-target", "args": {"what": "write_target"}})
    cs.append({"name": "write-pft", "args": {"what": "write_pft"}})
    for k in ("track", "volume", "target", "control", "sequence", "mm"):
        cs.append({"name": f"compare-{k}", "args": {"what": "compare", "k": k}, "cost": 3})
        cs.append({"name": f"compare-{k}-lens", "args": {"what": "compare", "k": k, "lens": True}, "cost": 3})
        cs.append({"name": f"compare-{k}-one", "args": {"what": "compare", "k": k, "one": True}, "cost": 3})
    cs.append({"name": "missing", "args": {"what": "missing"}})
    cs.append({"name": "fresh", "args": {"what": "fresh"}})
    return cs


def run(ctx, what, **k):
    globals()[what](ctx, ctx.mod("parameters"), **k)


def num(ctx, name, i):
    return ctx.int(name, -10 ** 6, 10 ** 9) if i else ctx.real(name, -10 ** 6, 10 ** 6)


def get(p, f):
    f, _, i = f.lstrip("+").partition(".")
    v = getattr(p, f)
    return v[int(i)] if i else v


def lines(ctx, k, n):
    """[(text of the line, field, value)]; names are fixed texts."""
    if k in FIELDS:
        return [(f.lstrip("+"), num(ctx, f"l{i}", f[0] == "+")) for i, f in enumerate(FIELDS[k])]
    I = lambda f: (f, num(ctx, f, True))
    R = lambda f: (f, num(ctx, f, False))
    names = [f"img/cam{c + 1}.%04d" for c in range(n)]
    cal = [f"cal/cam {c + 1}#x.tif" for c in range(n)]
    if k == "sequence":
        return [(f"img_base_name.{c}", names[c]) for c in range(n)] + [I("first"), I("last")]
    if k == "control":
        r = [("num_cams", n)]
        for c in range(n):
            r += [(f"img_base_name.{c}", names[c]), (f"cal_img_base_name.{c}", cal[c])]
        r += [I(f) for f in ("hp_flag", "all_cam_flag", "tiff_flag", "imx", "imy")] + [R("pix_x"), R("pix_y"), I("chfield")]
        return r + [(f"mm {f}", num(ctx, "mm" + f, False)) for f in ("n1", "n2.0", "n3", "d.0")]
    if k == "calibration":
        r = [("fixp_name", "cal/target file.txt")]
        for c in range(n):
            r += [(f"img_name.{c}", names[c]), (f"img_ori0.{c}", cal[c])]
        return r + [I("tiff_flag"), I("pair_flag"), I("chfield")]
    if k == "planes":
        return [("num_planes", n)] + [(f"filename.{i}", f"plane{i}.txt") for i in range(n)]
    if k == "examine":
        return [("examine_flag", ctx.int("e", 0, 3)), ("combine_flag", ctx.int("c", 0, 3))]
    return [("existing_target_flag", ctx.int("e", 0, 1))]


def read(ctx, P, k, r, n):
    ctx.fs("parameters")
    ls = lines(ctx, k, n)
    ctx.write_file("parameters/f.par", "".join(v + "\n" if isinstance(v, str) else ctx.fmt("%s\n", v) for _, v in ls))
    path = P.Path("parameters/f.par")
    cls = getattr(P, CLS[k])
    more = (n,) if k in ("sequence", "calibration") else ()
    p = cls.from_file(path, *more) if r == "class" else getattr(P, READER[k])(path, *more)
    ctx.check(type(p) is cls, "a reader returns its type of parameters")
    for f, v in ls:
        g = get(p.mm, f[3:]) if f.startswith("mm ") else get(p, f)
        if isinstance(v, str):
            ctx.check(g == v, f"{k} file: names are assigned to their fields")
        elif k in ("examine", "pft"):
            ctx.check(ctx.or_(ctx.and_(g, v != 0), ctx.and_(ctx.not_(g), v == 0)), f"{k} file: flags are assigned to their fields")
        else:
            ctx.close(g, v, 1e-9 if isinstance(v, int) else 1e-6, f"{k} file: every line is assigned to its field")
    for f, c in (("img_base_name", n), ("cal_img_base_name", n), ("img_name", n), ("img_ori0", n), ("filename", n), ("gvthresh", 4),
                 ("x_lay", 2), ("z_min_lay", 2), ("z_max_lay", 2)):
        if hasattr(p, f):
            ctx.check(len(getattr(p, f)) == c, f"{k} file: one entry per line")
    if k == "control":
        ctx.check(type(p.mm) is P.MultimediaPar and len(p.mm.n2) == 1 and len(p.mm.d) == 1 and p.mm.nlay == 1, "control file: one layer")
    if k == "track":
        for f in ("dsumg", "dn", "dnx", "dny"):
            ctx.check(getattr(p, f) == 0, "tracking file: fields the file does not hold are zero")
    ctx.check(ctx.files() == ["parameters/f.par"], "reading writes nothing")
    # a second file of other values does not change the first set
    if k in FIELDS or k in ("control", "sequence"):
        ctx.write_file("parameters/g.par", "".join("other\n" if isinstance(v, str) else f"{n if f == 'num_cams' else 7}\n" for f, v in ls))
        cls.from_file(P.Path("parameters/g.par"), *more)
        for f, v in ls:
            g = get(p.mm, f[3:]) if f.startswith("mm ") else get(p, f)
            if isinstance(v, str):
                ctx.check(g == v, "reading another file leaves a parameter set alone")
            else:
                ctx.close(g, v, 1e-6, "reading another file leaves a parameter set alone")


def write_target(ctx, P):
    ctx.fs("parameters")
    p = P.TargetPar()
    fs = [f.lstrip("+") for f in FIELDS["target"]]
    v = [ctx.int(f"l{i}", -10 ** 6, 10 ** 9) for i in range(len(fs))]
    p.gvthresh = v[:4]
    for f, x in zip(fs[4:], v[4:]):
        setattr(p, f, x)
    P.write_target_par(p, "parameters/t.par")
    ctx.check(ctx.files() == ["parameters/t.par"], "exactly this file is written")
    q = P.TargetPar.from_file(P.Path("parameters/t.par"))
    for f, x in zip(fs, v):
        ctx.check(get(q, f) == x, "target parameters read back as written")
    ctx.check(P.compare_target_par(p, q), "target parameters compare equal to what was written")
    ctx.check(len(ctx.fields(ctx.read_file("parameters/t.par"))) == 13, "one line per field")


def write_pft(ctx, P):
    ctx.fs("parameters")
    b = ctx.choose("b", 2) == 1
    P.PftVersionPar(b).write(P.Path("parameters/p.par"))
    ctx.check(P.PftVersionPar.from_file(P.Path("parameters/p.par")).existing_target_flag == b, "the flag reads back as written")


def make(ctx, P, k, pre, n, shared=None, diff=None):
    """A parameter set with symbolic fields; one list entry or two."""
    cls = getattr(P, CLS[k])
    kw, vals = {}, []
    for f in dataclasses.fields(cls):
        t = str(f.type)
        if f.name == "mm":
            v, w = make(ctx, P, "mm", pre + "mm", n, shared and shared.get("mm"), diff)
        elif "List[str]" in t:
            v = [("a", "b")[ctx.choose(pre + f.name, 2)]] * n if shared is None else shared[f.name][:n]
            w = v
        elif "ist[" in t:
            v = [num(ctx, f"{pre}{f.name}{i}", "int" in t) for i in range(n)] if shared is None else shared[f.name][:n]
            w = list(v)
        else:
            v = num(ctx, pre + f.name, "int" in t) if shared is None else shared[f.name]
            w = v
        kw[f.name] = v
        vals.append(w)
    return cls(**kw), vals


def flat(v):
    return [y for x in v for y in flat(x)] if isinstance(v, list) else [v]


def compare(ctx, P, k, one=False, lens=False):
    cmp = P.compare_mm_np if k == "mm" else getattr(P, f"compare_{k}_par")
    if lens:
        a, va = make(ctx, P, k, "a", 2)
        b, vb = make(ctx, P, k, "a", 1, shared=dataclasses.asdict(a))
        if len(flat(va)) != len(flat(vb)):
            ctx.check(ctx.not_(cmp(a, b)), "sets of different length are not equal")
            ctx.check(ctx.not_(cmp(b, a)), "sets of different length are not equal")
        else:
            ctx.check(cmp(a, b), "a parameter set equals its copy")
        return
    a, va = make(ctx, P, k, "a", 2)
    if one:
        # equal but for one place
        import copy
        b = copy.deepcopy(a)
        places = []
        for o in (b, b.mm) if k == "control" else (b,):
            for f in dataclasses.fields(type(o)):
                if f.name == "mm":
                    continue
                x = getattr(o, f.name)
                places += [(o, f.name, i) for i in range(len(x))] if isinstance(x, list) else [(o, f.name, None)]
        o, f, i = places[ctx.choose("place", len(places))]
        old = getattr(o, f) if i is None else getattr(o, f)[i]
        new = ("c" if isinstance(old, str) else ctx.int("new", -10 ** 6, 10 ** 9) if isinstance(old, int) or getattr(old, "is_int", False)
               else ctx.real("new", -10 ** 6, 10 ** 6))
        if i is None:
            setattr(o, f, new)
        else:
            getattr(o, f)[i] = new
        want = old == new
    else:
        b, vb = make(ctx, P, k, "b", 2)
        want = ctx.and_(*[x == y for x, y in zip(flat(va), flat(vb))])
    r = cmp(a, b)
    same = lambda u, w: ctx.or_(ctx.and_(u, w), ctx.and_(ctx.not_(u), ctx.not_(w)))
    ctx.check(same(r, want), "two parameter sets are equal exactly when all fields are equal")
    ctx.check(same(cmp(b, a), want), "the order of the sets does not matter")
    ctx.check(cmp(a, a), "a parameter set equals itself")


def missing(ctx, P):
    ctx.fs("parameters")
    for k in ("track", "volume", "control", "sequence", "calibration"):
        more = (2,) if k in ("sequence", "calibration") else ()
        st, e = ctx.call(getattr(P, CLS[k]).from_file, P.Path("parameters/none.par"), *more)
        ctx.check(st == "exc" and isinstance(e, OSError), f"a missing {k} file is reported")
    for k in ("target", "orient"):
        p = getattr(P, CLS[k]).from_file(P.Path("parameters/none.par"))
        ctx.check(p == getattr(P, CLS[k])(), "a missing target or orientation file gives the defaults")


def fresh(ctx, P):
    """Defaults do not depend on sets created before."""
    for k in sorted(CLS):
        cls = getattr(P, CLS[k])
        a, d = cls(), cls()
        for f in dataclasses.fields(cls):
            x = getattr(a, f.name)
            if isinstance(x, list):
                x.append(3)
            elif f.name == "mm":
                x.n2.append(3.0)
                x.n1 = 5.0
        b = cls()
        ctx.check(b == d and (k in ("track", "orient", "examine", "pft") or b != a), "separately created parameter sets do not share state")
