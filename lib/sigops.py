"""Signals as abstract values: the Signal operations become operators of a term algebra."""
from util import *

SIG = Q + "Signal"
OPS = {"compute_not", "compute_and", "compute_or", "compute_implies", "compute_eventually", "compute_bounded_eventually",
       "compute_timed_eventually", "compute_globally", "compute_bounded_globally", "compute_timed_globally", "compute_until",
       "compute_timed_until", "compute_left_time_rob", "compute_right_time_rob", "compute_boolean", "compute_plateau_max",
       "compute_plateau_min"}
EDITS = {"resize", "shift", "simplify", "removeInf", "addLastSample", "appendSignal"}


def sv(e, st, loc):
    return ("sig", e.load(st, F(loc, "#c")), e.load(st, F(loc, "beginTime")), e.load(st, F(loc, "endTime")))


def arg(e, st, a, pt):
    if a[0] in ("ref", "obj"):
        if "Signal" in pt:
            return sv(e, st, e.canon(st, a[1]))
        return e.load(st, a[1])
    if a[0] == "rec" and a[1] == SIG:
        return ("sig", e.fieldof(a, "#c"), e.fieldof(a, "beginTime"), e.fieldof(a, "endTime"))
    return a


def put(e, st, loc, t, fr, n):
    e.store(st, F(loc, "#c"), t, fr, n)
    e.store(st, F(loc, "beginTime"), ("beg", t), fr, n)
    e.store(st, F(loc, "endTime"), ("end", t), fr, n)


def hook(e, fn, loc, dyn, args, st, fr, n):
    if fn.get("cls") != SIG or loc is None or fn.get("static"):
        return None
    nm = fn["n"]
    if nm in OPS or nm in EDITS:
        st = st.copy()
        av = tuple(arg(e, st, a, p) for a, p in zip(args, fn["pt"]))
        if nm in EDITS:
            av = (sv(e, st, loc),) + av
        t = ("op", nm, av)
        st.ev("sigop", nm, loc, av, e.where(fr, n))
        put(e, st, loc, t, fr, n)
        return [(st, ("void",))]
    if nm == "appendSample":
        st = st.copy()
        av = tuple(arg(e, st, a, p) for a, p in zip(args, fn["pt"]))
        if len(av) == 2:
            av = av + (num(0),)
        old = e.load(st, F(loc, "#c"))
        t = ("append", old) + av
        st.ev("append", loc, av, e.where(fr, n))
        e.store(st, F(loc, "#c"), t, fr, n)
        if decide(st.f, isempty(old)) is True:
            e.store(st, F(loc, "beginTime"), av[0], fr, n)
            e.store(st, F(loc, "endTime"), av[0], fr, n)
        else:
            e.store(st, F(loc, "beginTime"), ("beg", t), fr, n)
            e.store(st, F(loc, "endTime"), ("end", t), fr, n)
        return [(st, ("void",))]
    return None


def classes(P):
    """concrete formula / expression classes: transducers that are ever instantiated"""
    base = Q + "transducer"
    if base not in P.recs:
        raise Broken("class transducer vanished")
    made = set()

    def walk(x):
        if isinstance(x, dict):
            if x.get("k") == "New" and x.get("at") in P.recs:
                made.add(x["at"])
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    for f in P.funcs.values():
        walk(f.get("body"))
    return sorted(k for k in made if P.derives(k, base))


def children(P, cls):
    """owned sub-formula fields of a class: [(field)] in declaration order"""
    out = []
    for k, f in P.all_fields(cls):
        t = f["t"].strip()
        if t.endswith("*") or "unique_ptr<" in t:
            b = t.rstrip("*").strip().replace("const ", "")
            if b in P.recs and P.derives(b, Q + "transducer"):
                out.append(f["n"])
    return out


def virt(P, name, npar=None):
    """the transducer-level declaration of a virtual operation"""
    for m in P.recs[Q + "transducer"]["methods"]:
        if m["n"] == name and (npar is None or m["id"].count(",") + (0 if m["id"].endswith("()") else 1) == npar):
            return m["id"]
    raise Broken("virtual operation vanished: transducer::" + name)


def impl(P, cls, name):
    fid = P.final_overrider(cls, virt(P, name))
    if fid not in P.funcs:
        raise Broken("no implementation of %s for %s" % (name, cls))
    return P.funcs[fid]
