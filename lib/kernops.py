"""The segment kernels as abstract operations (their own bodies are judged by K01)."""
from util import *

KERN = {"computeSegmentAnd": (0, {1: "smp", 2: "val", 3: "it"}),
        "computeSegmentOr": (0, {1: "smp", 2: "val", 3: "it"}),
        "computePartialAnd": (0, {1: "it", 2: "it", 3: "val", 4: "val"}),
        "computePartialOr": (0, {1: "it", 2: "it", 3: "val", 4: "val"}),
        "computePartialEventually": (0, {1: "it", 2: "val", 3: "val"}),
        "computeSegmentUntil": (0, {1: "smp", 2: "val", 3: "it", 4: "val"})}


def hook(names):
    names = set(names)

    def h(e, fn, loc, dyn, args, st, fr, n):
        if fn.get("cls") or fn["n"] not in names or fn["n"] not in KERN or len(args) != 1 + len(KERN[fn["n"]][1]):
            return None
        z, sh = KERN[fn["n"]]
        st = st.copy()
        zl = e.deref(args[z]) if args[z][0] != "ref" else args[z][1]
        vals, its = [], []
        for k, how in sorted(sh.items()):
            a = args[k]
            l = e.canon(st, a[1]) if a[0] in ("ref", "obj") else None
            if how == "smp":
                v = e.load_obj(st, l, Q + "Sample") if l is not None else a
                if v[0] != "rec":
                    v = ("rec", Q + "Sample", tuple((f, e.fieldof(v, f)) for f in ("derivative", "time", "value")))
                vals.append(("smp",) + tuple(e.fieldof(v, f) for f in ("time", "value", "derivative")))
            elif how == "it":
                v = e.load(st, l) if l is not None else a
                vals.append(v)
                if l is not None and is_ref(fn["pt"][k]):
                    its.append((l, v))
            else:
                vals.append(e.load(st, l) if l is not None else a)
        cl = F(zl, "#c")
        cl2 = cl
        old = e.load(st, cl)
        t = ("kern", fn["n"], old) + tuple(vals)
        st.ev("kern", fn["n"], zl, old, tuple(vals), e.where(fr, n))
        e.store(st, cl2, t, fr, n)
        for l, v in its:
            e.store(st, l, ("after", fn["n"], v, len(vals)), fr, n)
        return [(st, ("void",))]
    return h


import sigops

FREE = {"computeNot": "compute_not", "computeAnd": "compute_and", "computeOr": "compute_or", "computeImplies": "compute_implies",
        "computeEventually": "compute_eventually", "computeGlobally": "compute_globally", "computeUntil": "compute_until",
        "computeBoundedEventually": "compute_bounded_eventually", "computeBoundedGlobally": "compute_bounded_globally",
        "computeTimedUntil": "compute_timed_until", "plateauMax": "compute_plateau_max", "plateauMin": "compute_plateau_min"}


def free(skip=()):
    """free functions that return a new signal: a fresh object holding the operation's term"""
    def h(e, fn, loc, dyn, args, st, fr, n):
        if fn.get("cls") or fn["n"] in skip or not fn["rt"].replace(" ", "").endswith("Signal*"):
            return None
        if any(a[0] in ("ref", "obj") for a in args):
            return None
        st = st.copy()
        av = []
        for a, p in zip(args, fn["pt"]):
            av.append(sigops.sv(e, st, e.deref(a)) if "Signal" in p else a)
        loc0 = ("N", e.new(), Q + "Signal", e.where(fr, n))
        st.s[("cls", loc0)] = ("str", Q + "Signal")
        st.s[("alloc", loc0)] = ("str", "live")
        st.ev("new", loc0, Q + "Signal", e.where(fr, n))
        t = ("op", FREE.get(fn["n"], fn["n"]), tuple(av))
        st.ev("sigop", fn["n"], loc0, tuple(av), e.where(fr, n))
        sigops.put(e, st, loc0, t, fr, n)
        return [(st, ("ptr", loc0))]
    return h
