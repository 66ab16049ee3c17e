"""Copying a formula yields an equal formula that shares nothing with the original."""
import importlib.util
import os
from proto import *
from calls import *

spec = importlib.util.spec_from_file_location("H01x", os.path.join(os.path.dirname(__file__), "H01.py"))
H = importlib.util.module_from_spec(spec)
spec.loader.exec_module(H)


class Quiet:
    """sink for the obligations of a borrowed analysis"""
    def __init__(self):
        self.functions, self.paths = set(), 0

    def expect(self, cond, *a):
        return cond

    def viol(self, *a):
        pass

    def skip(self, *a):
        pass

    def ok(self, *a):
        pass


def config(P, cls):
    """fields that decide what a node means: read by evaluation or printing, and not re-established before each evaluation"""
    q = Quiet()
    est, _ = H.protocol(P, q, cls, cls, children(P, cls))
    rd = set()
    for w, r, f in H.effects(P, q, cls, cls):
        rd |= r
    rd -= est | {"start_time", "end_time", "param_map_ptr", "trace_data_ptr", "td_idx", "z", "z_low", "z_up"}
    for f in find(P, cls + "::print", 1):
        for n in walk(f.get("body")):
            if n.get("k") == "Member" and n.get("mk") == "field" and n["c"] and n["c"][0].get("k") in ("This", "Cast"):
                if n["n"] in {x["n"] for _, x in P.all_fields(cls)}:
                    rd.add(n["n"])
    return rd


def check(P, c):
    c.guard(intervals, P, c)
    c.rule = ("for every formula class, on every path cloning returns a freshly allocated node of the same class whose operands are clones of the corresponding operands of the original, "
              "whose interval is a fresh copy, whose remaining meaning-bearing fields (those evaluation or printing reads) equal the original's, and leaves the original as it was.")
    for cls in classes(P):
        c.guard(one, P, c, cls)


def intervals(P, c):
    """every way of copying an interval carries both bounds and both names"""
    cls = Q + "interval"
    that = ("P", ("sym", "&that"))
    for f in sorted(P.funcs.values(), key=lambda f: f["id"]):
        if f.get("cls") != cls or f.get("body") is None or len(f["params"]) != 1 or f.get("move") or f.get("moveasg") or strip_t(f["params"][0]["t"]).replace("const ", "") != cls:
            continue
        if not (f.get("copy") or f["n"] in ("operator=", "copy")):
            continue
        e = Eng(P)
        src = ("P", ("sym", "&" + f["params"][0]["n"])) if is_ref(f["params"][0]["t"]) else None
        if src is None:
            continue
        try:
            outs = e.run(f["id"], this=THIS, cls=cls)
        except Undecided as u:
            c.skip("interval::" + f["n"], str(u))
            continue
        c.functions |= e.analysed
        for k, st, v in outs:
            c.paths += 1
            if st.imp or k != "return" or any(a[0] == "pteq" and b for a, b in st.f.items()):
                continue        # assigned to itself
            for base, fd in P.all_fields(cls):
                got, want = e.load(st, F(THIS, fd["n"])), init(F(src, fd["n"]))
                c.expect(got == want, "interval::%s:%s" % (f["n"], fd["n"]), fl(f), "copying an interval leaves its %s as %s" % (fd["n"], show(got)[:80]), showfacts(st))


def one(P, c, cls):
    n = cls[len(Q):]
    try:
        f, e, outs = run(P, cls, "clone", St())
        need = config(P, cls)
    except Undecided as u:
        c.skip(n, str(u))
        return
    c.functions |= e.analysed
    w = fl(f)
    kids = children(P, cls)
    for k, st, v in outs:
        c.paths += 1
        pth = showfacts(st)
        if k == "crash" and any(a[0] == "isnull" and t for a, t in st.f.items()):
            continue            # an operand or interval that is null: never built by the parser
        if k != "return":
            c.viol(n + ":" + k, w, "a path of the copy ends in %s" % k, pth)
            continue
        if st.imp:
            c.skip(n, "; ".join(st.imp[:2]))
            continue
        if v[0] != "ptr" or v[1][0] != "N":
            if v == NULL or v == ("null",):
                c.viol(n + ":null", w, "the copy is null", pth)
            else:
                c.viol(n + ":not-fresh", w, "the copy is not a fresh node: %s" % show(v)[:100], pth)
            continue
        N = v[1]
        if not c.expect(N[2] == cls, n + ":class", w, "the copy is a %s" % N[2], pth):
            continue
        cl = {}
        for ev in events(st, "vcall"):
            if ev[1].split("(")[0].endswith("::clone"):
                cl[("ret", ev[4], "clone", ev[2])] = ev[2]
        used = {}
        for ch in kids:
            x = e.load(st, F(N, ch))
            src = cl.get(x)
            c.expect(src == ("P", init(F(THIS, ch))), "%s:%s" % (n, ch), w, "the copy's %s is %s instead of a copy of the original's %s" % (
                ch, "shared with the original" if x == init(F(THIS, ch)) else show(x)[:80], ch), pth)
            c.expect(x not in used, "%s:%s:twice" % (n, ch), w, "%s and %s of the copy are one node" % (ch, used.get(x)), pth)
            used[x] = ch
        ptrs = {}
        for _, fd in P.all_fields(cls):
            fn, t = fd["n"], fd["t"]
            if fn in kids:
                continue
            if is_ptr(t) and strip_t(t.rstrip("* ").replace("const ", "").strip()) in P.recs and "transducer" not in t:
                o = t.rstrip("* ").replace("const ", "").strip()
                x = e.load(st, F(N, fn))
                if x[0] != "ptr" or x[1][0] != "N":
                    c.viol("%s:%s:shared" % (n, fn), w, "the copy's %s is %s" % (fn, "the original's object" if x == init(F(THIS, fn)) else show(x)[:80]), pth)
                    continue
                for ffn, ft in e.fields(o):
                    got = e.load(st, F(x[1], ffn))
                    want = init(F(("P", init(F(THIS, fn))), ffn))
                    c.expect(got == want, "%s:%s.%s" % (n, fn, ffn), w, "the copy's %s.%s is %s" % (fn, ffn, show(got)[:80]), pth)
            elif fn in need:
                got = e.load(st, F(N, fn))
                c.expect(got == init(F(THIS, fn)), "%s:%s" % (n, fn), w, "the copy's %s is %s instead of the original's" % (fn, show(got)[:80]), pth)
        wr = [l for l, x in st.s.items() if l[0] in ("F", "E") and root(l) == THIS and x != init(l)]
        c.expect(not wr, n + ":writes", w, "copying changes the original's %s" % ", ".join(show(("init", l)) for l in wr), pth)
    c.sites.append("%s: %s, operands %s, fields %s" % (n, w, kids, sorted(need - set(kids))))
