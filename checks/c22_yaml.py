"""C22: parameters survive conversion to dictionaries and YAML."""
import dataclasses

from checks.c21_parameter_files import CLS, FIELDS, flat, lines, make

PROP = "C22"
BOUNDS = "all numeric field values (integers -10^6..10^9, reals -10^6..10^6) of all eleven parameter classes, 0 to 3 entries per list"
OUTSIDE = "names other than the fixed samples; YAML's own text format (the real yaml library carries stand-ins for the symbolic numbers)"
ASSUMPTIONS = ["the YAML library restores the numbers and texts it wrote"]
CONFIG = {"qtimeout": 8000}
NAMES = ["img/cam1.%04d", "cam 2: #x", "yes", "1.0", "", "ümlaut"]


def cases(tier):
    cs = []
    for k in sorted(CLS):
        for n in ((0, 1, 2, 3) if k in ("control", "sequence", "calibration", "volume", "mm", "target", "planes") else (1,)):
            cs.append({"name": f"dict-{k}-{n}", "args": {"what": "todict", "k": k, "n": n}})
            cs.append({"name": f"yaml-{k}-{n}", "args": {"what": "toyaml", "k": k, "n": n}})
        cs.append({"name": f"shared-{k}", "args": {"what": "shared", "k": k}})
        cs.append({"name": f"partial-{k}", "args": {"what": "partial", "k": k}})
        if k in FIELDS or k in ("control", "sequence"):
            cs.append({"name": f"file-{k}", "args": {"what": "fromfile", "k": k}})
    return cs


def build(ctx, P, k, n, pre="v"):
    cls = getattr(P, CLS[k])
    if k in ("calibration", "planes", "examine", "pft"):
        kw = {}
        for f in dataclasses.fields(cls):
            t = str(f.type)
            if "list" in t:
                kw[f.name] = [NAMES[(i + len(f.name)) % len(NAMES)] for i in range(n)]
            elif "str" in t:
                kw[f.name] = NAMES[1]
            elif "bool" in t:
                kw[f.name] = ctx.choose(pre + f.name, 2) == 1
            else:
                kw[f.name] = ctx.int(pre + f.name, -10 ** 6, 10 ** 9)
        return cls(**kw)
    p = make(ctx, P, k, pre, n)[0] if k != "control" else None
    if k == "control":
        kw = {}
        for f in dataclasses.fields(cls):
            t = str(f.type)
            if f.name == "mm":
                kw["mm"] = make(ctx, P, "mm", pre + "mm", n or 1)[0]
            elif "List" in t:
                kw[f.name] = [NAMES[(i + len(f.name)) % len(NAMES)] for i in range(n)]
            else:
                kw[f.name] = ctx.int(pre + f.name, -10 ** 6, 10 ** 9) if "int" in t else ctx.real(pre + f.name, -10 ** 6, 10 ** 6)
        return cls(**kw)
    if k == "sequence":
        p.img_base_name = [NAMES[i] for i in range(n)]
    return p


def values(p):
    return [getattr(p, f.name) if f.name != "mm" else values(p.mm) for f in dataclasses.fields(type(p))]


def snap(p):
    return [list(v) if isinstance(v, list) else v for v in values(p)]


def equal(ctx, q, p, old, msg):
    ctx.check(type(q) is type(p), "the type of the parameters is kept")
    ctx.check(q is not p, "a conversion creates a new parameter set")
    if hasattr(p, "mm"):
        ctx.check(type(q.mm) is type(p.mm), "nested multimedia parameters keep their type")
    for a, b, c in zip(values(q), values(p), old):
        x, y, z = flat(a), flat(b), flat(c)
        ctx.check(isinstance(a, list) == isinstance(c, list) and len(x) == len(z) == len(y), msg + " (lengths)")
        for u, v, w in zip(x, y, z):
            ctx.check(u == w, msg)
            ctx.check(v == w, "a conversion leaves its source alone")
            ctx.check(isinstance(u, str) == isinstance(w, str) and (type(u) is bool) == (type(w) is bool), msg)


def run(ctx, what, k, **a):
    P = ctx.mod("parameters")
    globals()[what](ctx, P, k, getattr(P, CLS[k]), **a)


def todict(ctx, P, k, cls, n):
    p = build(ctx, P, k, n)
    old = snap(p)
    d = cls.to_dict(p)
    ctx.check(type(d) is dict and sorted(d) == sorted(f.name for f in dataclasses.fields(cls)), "a dictionary holds every field")
    if k == "control":
        ctx.check(type(d["mm"]) is dict, "nested multimedia parameters are a dictionary")
    q = cls.from_dict(d)
    equal(ctx, q, p, old, "a parameter set converted to a dictionary and back is equal")
    ctx.check(k != "control" or type(d["mm"]) is dict, "conversion does not change the caller's dictionary")
    # changing one does not change the other
    poke(q)
    poke_dict(d)
    equal(ctx, p, cls.from_dict(cls.to_dict(p)), old, "a parameter set does not share state with its conversions")


def poke(p):
    for f in dataclasses.fields(type(p)):
        v = getattr(p, f.name)
        if isinstance(v, list):
            v.append(99)
        elif f.name == "mm":
            poke(v)
        else:
            setattr(p, f.name, 77)


def poke_dict(d):
    for v in d.values():
        if isinstance(v, list):
            v.append(98)
        elif isinstance(v, dict):
            poke_dict(v)


def toyaml(ctx, P, k, cls, n):
    ctx.fs("parameters")
    p = build(ctx, P, k, n)
    old = snap(p)
    p.to_yaml(P.Path("parameters/p.yaml"))
    ctx.check(ctx.files() == ["parameters/p.yaml"], "exactly this file is written")
    q = cls.from_yaml(P.Path("parameters/p.yaml"))
    equal(ctx, q, p, old, "a parameter set written to YAML and read back is equal")
    if k == "control":
        ctx.check(P.compare_control_par(p, q), "control parameters compare equal after reading them back")
    r = cls.from_yaml(P.Path("parameters/p.yaml"))
    poke(q)
    equal(ctx, r, p, old, "parameter sets read from one file do not share state")
    # another set replaces the file
    b = build(ctx, P, k, n, "w")
    bold = snap(b)
    b.to_yaml(P.Path("parameters/p.yaml"))
    equal(ctx, cls.from_yaml(P.Path("parameters/p.yaml")), b, bold, "writing again replaces the file")


def shared(ctx, P, k, cls):
    """Two sets made from one dictionary."""
    p = build(ctx, P, k, 2)
    old = snap(p)
    d = cls.to_dict(p)
    a, b = cls.from_dict(d), cls.from_dict(d)
    poke(a)
    equal(ctx, b, p, old, "parameter sets created from one dictionary do not share state")
    equal(ctx, cls.from_dict(d), p, old, "creating a parameter set leaves the dictionary usable")


def partial(ctx, P, k, cls):
    """Fields the dictionary does not hold get their defaults."""
    p = build(ctx, P, k, 2)
    d = cls.to_dict(p)
    names = [f.name for f in dataclasses.fields(cls)]
    drop = names[ctx.choose("drop", len(names))]
    if k == "mm" and drop in ("n2", "d"):
        return ctx.check(True, "n2 and d belong together")
    d.pop(drop)
    q = cls.from_dict(d)
    ctx.check(getattr(q, drop) == getattr(cls(), drop) and type(getattr(q, drop)) is type(getattr(cls(), drop)), "a missing field has its default")
    for f in names:
        if f != drop and f != "mm":
            for u, v in zip(flat([getattr(q, f)]), flat([getattr(p, f)])):
                ctx.check(u == v, "the other fields are kept")


def fromfile(ctx, P, k, cls):
    """A set read from a legacy file survives YAML."""
    ctx.fs("parameters")
    ls = lines(ctx, k, 2)
    ctx.write_file("parameters/f.par", "".join(v + "\n" if isinstance(v, str) else ctx.fmt("%s\n", v) for _, v in ls))
    p = cls.from_file(P.Path("parameters/f.par"), *((2,) if k == "sequence" else ()))
    old = snap(p)
    p.to_yaml(P.Path("parameters/f.yaml"))
    equal(ctx, cls.from_yaml(P.Path("parameters/f.yaml")), p, old, "a legacy parameter set survives YAML")
