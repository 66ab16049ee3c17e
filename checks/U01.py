"""Objects start completely defined, in their documented state; nothing is read before it is set."""
from util import *
from calls import walk
from gram import num_hook
from sigops import classes, children

DRV, MON = Q + "STLDriver", Q + "STLMonitor"


def check(P, c):
    c.rule = ("every constructor sets every scalar field that some later operation reads before writing it (fields re-established by every reset or opened window excepted); drivers and monitors start empty with space semantics and "
              "linear interpolation, nodes hold exactly what they were given; on no path does a function use a variable or field it has not set.")
    c.guard(construct, P, c)
    c.guard(defaults, P, c)
    c.guard(cleared, P, c)
    c.guard(nodes, P, c)
    c.guard(leaves, P, c)
    c.guard(settings, P, c)
    c.guard(points, P, c)
    c.guard(used, P, c)


def ctors(P):
    for f in sorted(P.funcs.values(), key=lambda f: f["id"]):
        if f.get("ctor") and f["q"].startswith(Q) and f.get("body") is not None and "Parser" not in f["q"] and "Scanner" not in f["q"]:
            yield f


def runs(P, c, f, hooks=(), this=THIS, cls=None):
    e = Eng(P, list(hooks))
    try:
        outs = e.run(f["id"], this=this, cls=cls or f.get("cls"))
    except Undecided as u:
        c.skip(f["q"], str(u))
        return
    c.functions |= e.analysed
    for k, st, v in outs:
        c.paths += 1
        yield e, k, st, v


# ---------------------------------------------------------------- nothing left undefined

def construct(P, c):
    unset = {}
    for f in ctors(P):
        for e, k, st, v in runs(P, c, f):
            if k != "return":
                continue
            for l, x in st.s.items():
                if l[0] == "F" and l[1] == THIS and x and x[0] == "uninit":
                    unset.setdefault((f["cls"], l[2]), f)
            c.ok()
    for (cls, fld), f in sorted(unset.items()):
        if P.derives(cls, Q + "transducer"):
            early(P, c, cls, fld, f)
        else:
            rd = readers(P, cls, fld)
            c.expect(not rd or f.get("implicit"), "unset:%s::%s" % (cls.split("::")[-1], fld), fl(f), "a constructor leaves %s undefined, which %s reads" % (fld, ", ".join(sorted(rd)[:3])))


def readers(P, cls, fld):
    """functions that read the field (copies between objects of the class excepted)"""
    out = set()
    for f in P.funcs.values():
        if f.get("copy") or f.get("move") or f["n"] == "operator=":
            continue
        targets = {id(n["c"][0]) for n in walk(f.get("body")) if n.get("k") == "Bin" and n.get("op") == "="}
        for b in (f.get("body"), f.get("inits")):
            for n in walk(b):
                if n.get("k") == "Member" and n.get("n") == fld and id(n) not in targets and n.get("mk") == "field":
                    o = strip_t((n["c"][0].get("t") or "") if n.get("c") else "").replace("*", "").strip()
                    if o.startswith("const "):
                        o = o[6:]
                    if o in P.recs and (P.derives(o, cls) or P.derives(cls, o)):
                        out.add(f["q"])
                elif n.get("k") == "Ref" and n.get("q", "") == cls + "::" + fld:
                    out.add(f["q"])
    return out


def early(P, c, cls, fld, ctor):
    """who reads the field before writing it"""
    opened = False
    for f in P.funcs.values():
        if f.get("cls") == cls and f["n"] in ("init_horizon", "reset") and f.get("body"):
            opened = opened or all(k != "return" or st.s.get(F(THIS, fld), init(F(THIS, fld))) != init(F(THIS, fld)) for e, k, st, v in runs(P, c, f, [big(P)]))
    who = []
    for f in sorted(P.funcs.values(), key=lambda f: f["id"]):
        if f.get("body") is None or f.get("ctor") or f.get("dtor") or not any(n.get("k") == "Member" and n.get("n") == fld for n in walk(f["body"])):
            continue
        if not (f.get("cls") and P.derives(cls, f["cls"])):
            continue
        for e, k, st, v in runs(P, c, f, [big(P)], cls=cls):
            x = init(F(THIS, fld))
            if any(x in subterms(a) for a in st.f) or any(l != F(THIS, fld) and x in subterms(y) for l, y in st.s.items() if isinstance(y, tuple)) or (v and x in subterms(v)) or any(x in subterms(ev) for ev in events(st)):
                who.append(f)
                break
    for f in who:
        ok = f["n"].startswith("compute_") and opened
        c.expect(ok, "unset:%s::%s:%s" % (cls.split("::")[-1], fld, f["n"]), fl(ctor), "%s reads %s, which a constructor of %s leaves undefined" % (f["q"], fld, cls.split("::")[-1]))
    c.sites.append("%s::%s is set before use by %s" % (cls, fld, "opening or resetting" if who else "every writer (no early reader)"))


# ---------------------------------------------------------------- initial state of evaluators

def defaults(P, c):
    """new drivers and monitors are empty and use the documented defaults"""
    for cls in (DRV, MON):
        for f in ctors(P):
            if f["cls"] != cls or f.get("copy") or f.get("move"):
                continue
            for e, k, st, v in runs(P, c, f):
                nm = "%s(%d)" % (cls.split("::")[-1], len(f["params"]))
                if k != "return" or st.imp:
                    c.skip(nm, "; ".join(st.imp[:1]) or k)
                    continue
                for base, fd in P.all_fields(cls):
                    got = e.load(st, F(THIS, fd["n"]))
                    kind = ckind(strip_t(fd["t"]))
                    if fd["n"] == "data" and len(f["params"]) == 1:
                        c.expect(got == ("sym", f["params"][0]["n"]) or got == init(("P", ("sym", "&" + f["params"][0]["n"]))) or got == init(("P", ("sym", f["params"][0]["n"]))), nm + ":data", fl(f), "the trace given is not kept: %s" % show(got)[:100])
                    elif kind in ("seq", "map", "set"):
                        c.expect(got == ("empty",), "%s:%s" % (nm, fd["n"]), fl(f), "%s starts as %s" % (fd["n"], show(got)[:80]))
                    elif fd["n"] == "semantics":
                        c.expect(got[0] == "enum" and got[1].endswith("SPACE"), nm + ":semantics", fl(f), "the semantics starts as %s" % show(got))
                    elif fd["n"] == "interpol":
                        c.expect(got[0] == "enum" and got[1].endswith("LINEAR"), nm + ":interpol", fl(f), "the interpolation starts as %s" % show(got))
                    elif fd["n"] in ("nb_test_pos", "nb_test_total"):
                        c.expect(got == num(0), "%s:%s" % (nm, fd["n"]), fl(f), "%s starts as %s" % (fd["n"], show(got)))
                    elif fd["n"] in ("error_flag",):
                        c.expect(got in (FALSE, num(0)), "%s:%s" % (nm, fd["n"]), fl(f), "%s starts as %s" % (fd["n"], show(got)))
                    elif fd["n"] in ("formula", "lexer"):
                        c.expect(got in (NULL, num(0)), "%s:%s" % (nm, fd["n"]), fl(f), "%s starts as %s" % (fd["n"], show(got)))
                    elif fd["n"] in ("test_log", "report"):
                        c.expect(got == ("str", ""), "%s:%s" % (nm, fd["n"]), fl(f), "%s starts as %s" % (fd["n"], show(got)))
    for f in ctors(P):
        if f["cls"] == DRV and (f.get("copy") or f.get("move")):
            for e, k, st, v in runs(P, c, f):
                if k == "return":
                    got = e.load(st, F(THIS, "lexer"))
                    c.expect(got in (NULL, num(0)), "STLDriver:copied:lexer", fl(f), "a copied driver starts with %s as its scanner" % ("an undefined pointer" if got[0] == "uninit" else "another driver's pointer"))


def cleared(P, c):
    """clearing puts a driver back where it started (its trace and signals apart); a monitor's data reset empties its data only"""
    for cls, meth, keep in ((DRV, "clear", ("data", "signal_map", "semantics", "interpol", "lexer")), (MON, "reset_signal_data", None)):
        for f in sorted(P.funcs.values(), key=lambda f: f["id"]):
            if f.get("cls") != cls or f["n"] != meth or f.get("body") is None or f["params"]:
                continue
            nm = cls.split("::")[-1] + "::" + meth
            for e, k, st, v in runs(P, c, f):
                if k != "return":
                    continue
                pth = showfacts(st)
                for base, fd in P.all_fields(cls):
                    l = F(THIS, fd["n"])
                    got = e.load(st, l)
                    if got[0] == "unk":
                        c.skip(nm, "%s is opaque" % fd["n"])
                        continue
                    if keep is None and fd["n"] != "data":
                        same = got == init(l) or fd["n"] not in [x[2] for x in st.s if x[0] == "F" and x[1] == THIS]
                        c.expect(same, "%s:%s" % (nm, fd["n"]), fl(f), "emptying the data changes %s" % fd["n"], pth)
                        continue
                    if keep and fd["n"] in keep:
                        c.expect(got in (init(l), ("empty",)) if fd["n"] in ("data", "signal_map") else got == init(l) or fd["n"] == "lexer", "%s:%s" % (nm, fd["n"]), fl(f), "clearing leaves %s as %s" % (fd["n"], show(got)[:80]), pth)
                        continue
                    kind = ckind(strip_t(fd["t"]))
                    if kind in ("seq", "map", "set"):
                        ok = got == ("empty",) or decide(st.f, isempty(got)) is True
                    elif fd["n"] in ("report", "test_log"):
                        ok = got == ("str", "")
                    elif fd["n"] in ("nb_test_pos", "nb_test_total", "error_flag"):
                        ok = got in (num(0), FALSE)
                    else:
                        continue
                    c.expect(ok, "%s:%s" % (nm, fd["n"]), fl(f), "after %s, %s is %s" % (meth, fd["n"], show(got)[:80]), pth)


# ---------------------------------------------------------------- nodes hold what they were given

def nodes(P, c):
    """operand pointers, interval and comparison of each node class"""
    T = Q + "transducer"
    for cls in classes(P):
        nm = cls.split("::")[-1]
        for f in ctors(P):
            if f["cls"] != cls or f.get("copy") or f.get("move"):
                continue
            kids = children(P, cls)
            ps = f["params"]
            tr = [p["n"] for p in ps if "transducer" in p["t"] and is_ptr(p["t"])]
            iv = [p["n"] for p in ps if "interval" in p["t"] and is_ptr(p["t"])]
            if len(tr) not in (0, len(kids)):
                c.skip(nm, "constructor takes %d of %d operands" % (len(tr), len(kids)))
                continue
            for e, k, st, v in runs(P, c, f):
                if k != "return" or not tr:
                    continue
                for fld, p in zip(sorted(kids), tr):
                    got = e.load(st, F(THIS, fld))
                    if got[0] == "ptr" and got[1] == ("P", ("sym", p)):
                        got = ("sym", p)
                    c.expect(got == ("sym", p), "%s:%s" % (nm, fld), fl(f), "the new node's %s is %s" % (fld, show(got)[:80]))
                if iv:
                    got = e.load(st, F(THIS, "I"))
                    c.expect(got == ("sym", iv[0]) or got == ("ptr", ("P", ("sym", iv[0]))), nm + ":I", fl(f), "the new node's interval is %s" % show(got)[:80])
                fresh(P, c, e, st, f, nm)


def fresh(P, c, e, st, f, nm):
    z = e.load(st, F(THIS, "z", "#c"))
    if z is not None and z[0] != "init":
        c.expect(z == ("empty",), nm + ":z", fl(f), "a new node starts with samples")


def unexamined(P, c, e, nm, f):
    import calls
    if any(calls.converts(P.funcs[i].get("body")) for i in e.analysed if i in P.funcs and P.funcs[i]["n"] != "s_to_d"):
        c.skip(nm, "text not examined")
    else:
        c.viol(nm + ":text", fl(f), "the text is never examined: numbers and parameter names are not told apart")


def leaves(P, c):
    """constants, signals, comparisons and intervals from text"""
    for f in ctors(P):
        nm = f["cls"].split("::")[-1]
        ps = f["params"]
        if f.get("copy") or f.get("move"):
            continue
        txt = [i for i, p in enumerate(ps) if "basic_string" in p["t"]]

        def text(e, st, i):
            p = ps[i]
            if is_ref(p["t"]):
                return init(("P", ("sym", "&" + p["n"])))
            return ("sym", p["n"])
        if nm == "constant_transducer":
            for e, k, st, v in runs(P, c, f, [num_hook]):
                if k != "return":
                    continue
                par, val = e.load(st, F(THIS, "param")), e.load(st, F(THIS, "value"))
                if txt:
                    t = text(e, st, txt[0])
                    isn = decide(st.f, cond(("numeric", t)))
                    if isn is None:
                        unexamined(P, c, e, nm, f)
                        continue
                    if isn:
                        c.expect(par == ("str", "") and val == ("app", "number", t), nm + ":number", fl(f), "a constant made from a number's text is %s" % show(val if par == ("str", "") else par)[:80], showfacts(st))
                    else:
                        c.expect(par == t, nm + ":name", fl(f), "a constant made from a name refers to %s" % show(par)[:80], showfacts(st))
                elif len(ps) == 1:
                    c.expect(par == ("str", "") and val == ("sym", ps[0]["n"]), nm + ":value", fl(f), "a constant made from a number is %s" % show(val)[:80], showfacts(st))
        elif nm == "signal_transducer" and len(txt) == 1 and len(ps) == 1:
            for e, k, st, v in runs(P, c, f):
                if k == "return":
                    c.expect(e.load(st, F(THIS, "variable")) == text(e, st, 0), nm + ":variable", fl(f), "a signal node made for a name reads %s" % show(e.load(st, F(THIS, "variable")))[:80])
        elif nm == "interval" and len(txt) == 2 and len(ps) == 2:
            for e, k, st, v in runs(P, c, f, [num_hook]):
                if k != "return":
                    continue
                for i, fld in enumerate(("begin", "end")):
                    t = text(e, st, i)
                    isn = decide(st.f, cond(("numeric", t)))
                    s, x = e.load(st, F(THIS, fld + "_str")), e.load(st, F(THIS, fld))
                    if isn is None:
                        unexamined(P, c, e, "interval:" + fld, f)
                    elif isn:
                        c.expect(s == ("str", "") and x == ("app", "number", t), "interval:%s:number" % fld, fl(f), "a numeric %s becomes %s" % (fld, show(x if s == ("str", "") else s)[:80]), showfacts(st))
                    else:
                        c.expect(s == t, "interval:%s:name" % fld, fl(f), "a named %s becomes %s" % (fld, show(s)[:80]), showfacts(st))
        elif nm == "interval" and len(ps) == 2:
            for e, k, st, v in runs(P, c, f):
                if k != "return":
                    continue
                for p, fld in zip(ps, ("begin", "end")):
                    s, x = e.load(st, F(THIS, fld + "_str")), e.load(st, F(THIS, fld))
                    c.expect(s == ("str", "") and x == ("sym", p["n"]), "interval:%s:value" % fld, fl(f), "the %s of an interval made from numbers is %s" % (fld, show(x)[:80]))
        elif nm == "stl_atom" and txt:
            for e, k, st, v in runs(P, c, f):
                if k != "return":
                    continue
                t = text(e, st, txt[0])
                got = e.load(st, F(THIS, "comp"))
                lt, gt = same(st, t, "<"), same(st, t, ">")
                if got[0] != "enum":
                    c.skip(nm, "comparison " + show(got)[:60])
                elif lt is True or gt is False:
                    c.expect(got[1].endswith("LESSTHAN"), "stl_atom:less", fl(f), "less-than becomes %s" % got[1], showfacts(st))
                elif gt is True or lt is False:
                    c.expect(got[1].endswith("GREATERTHAN"), "stl_atom:greater", fl(f), "greater-than becomes %s" % got[1], showfacts(st))
                else:
                    c.viol("stl_atom:any", fl(f), "every comparison becomes %s" % got[1], showfacts(st))
        elif nm == "stl_atom" and any("comparator" in p["t"] for p in ps):
            for e, k, st, v in runs(P, c, f):
                if k == "return":
                    p = [p["n"] for p in ps if "comparator" in p["t"]][0]
                    c.expect(e.load(st, F(THIS, "comp")) == ("sym", p), "stl_atom:comp", fl(f), "the comparison becomes %s" % show(e.load(st, F(THIS, "comp")))[:60])


def same(st, t, s):
    """is the text t equal to s on this path"""
    for a in (("streq", t, ("str", s)), ("streq", ("str", s), t)):
        d = decide(st.f, cond(a))
        if d is not None:
            return d
    return None


# ---------------------------------------------------------------- points and samples
def points(P, c):
    """a point or sample holds the numbers it is given, in order; without any it is zero"""
    for nm, flds in (("Point", ("time", "value")), ("Sample", ("time", "value", "derivative"))):
        for f in ctors(P):
            if f["cls"] != Q + nm or f.get("copy") or f.get("move") or not f.get("body"):
                continue
            ps = f["params"]
            if ps and (len(ps) != len(flds) or any(is_ptr(p["t"]) for p in ps)):
                c.skip(nm, "constructor from %d values" % len(ps))
                continue
            for e, k, st, v in runs(P, c, f):
                if k != "return":
                    c.viol(nm + ":" + k, fl(f), "making a %s ends in %s" % (nm, k), showfacts(st))
                    continue
                for i, x in enumerate(flds):
                    got = e.load(st, F(THIS, x))
                    want = num(0) if not ps else init(("P", ("sym", "&" + ps[i]["n"]))) if is_ref(ps[i]["t"]) else ("sym", ps[i]["n"])
                    c.expect(got == want, "%s:%s" % (nm, x), fl(f), "the %s of a new %s is %s" % (x, nm, show(got)[:60]), showfacts(st))


# ---------------------------------------------------------------- settings shared by all signals
def settings(P, c):
    """before anything is chosen: space semantics, linear interpolation, a positive largest value"""
    for nm, want in (("semantics", "SPACE"), ("interpol", "LINEAR"), ("BigM", None)):
        g = P.globals.get(Q + "Signal::" + nm)
        if not g:
            raise Broken("anchor vanished: Signal::" + nm)
        x = g.get("init")
        while x and x.get("k") in ("Cast", "Paren", "Init", "List") and len(x.get("c", [])) == 1:
            x = x["c"][0]
        w = "%s:%s" % (g["file"], g["line"])
        if want is None:
            v = 0 if x is None else x.get("v") if x.get("k") in ("Float", "Int") else None
            if v is None:
                c.skip("Signal::" + nm, "initial value not understood")
            else:
                c.expect(float(v) > 0, "Signal::" + nm, w, "the largest value starts as %s: no signal would have one above its lowest" % v)
        else:
            en = [y for y in (x,) if y and y.get("rk") == "enum"]
            if x is not None and not en:
                c.skip("Signal::" + nm, "initial value not understood")
                continue
            zero = {"semantics": "SPACE", "interpol": "PREVIOUS"}[nm]
            got = en[0]["n"] if en else zero
            c.expect(got == want, "Signal::" + nm, w, "signals start with %s as %s instead of %s" % (got, nm, want))


# ---------------------------------------------------------------- no use of what was not set

def big(P):
    loopy = {f["id"] for f in P.funcs.values() if any(x.get("k") in ("For", "While", "Do", "ForRange", "RangeFor") for x in walk(f.get("body"))) or len(list(walk(f.get("body")))) > 400}

    def hook(e, fn, loc, dyn, args, st, fr, n):
        if fn["id"] in loopy or "Parser" in fn["q"] or "Scanner" in fn["q"] or "Lexer" in fn["q"]:
            return e.opaque(fn, loc, args, st, fr, n)
        return None
    return hook


def indet(t):
    """name of an indeterminate value inside a term"""
    for x in subterms(t):
        if x and x[0] == "uninit" and len(x) == 2 and isinstance(x[1], str):
            return x[1]
    return None


def used(P, c):
    h = big(P)
    n = 0
    for f in sorted(P.funcs.values(), key=lambda f: f["id"]):
        if f.get("body") is None or f.get("ctor") or "Parser" in f["q"] or "Scanner" in f["q"] or "yy" in f["q"] or "pybind" in f["file"]:
            continue
        e = Eng(P, [h])
        try:
            outs = e.run(f["id"], this=THIS if f.get("cls") else None, cls=f.get("cls"))
        except (Undecided, RecursionError) as x:
            c.skip(f["q"], str(x)[:80])
            continue
        n += 1
        c.functions.add(f["id"])
        for k, st, v in outs:
            c.paths += 1
            bad = None
            for a in st.f:
                bad = bad or (indet(a) and (indet(a), "a decision"))
            if v and indet(v):
                bad = bad or (indet(v), "the result")
            for l, x in st.s.items():
                if not isinstance(x, tuple) or not isinstance(l, tuple) or not l or l[0] not in ("F", "E", "P", "G") or (e.root(l) or ("L",))[0] == "L":
                    continue
                if x and x[0] != "uninit" and indet(x):
                    bad = bad or (indet(x), "the value left in %s" % show_loc(l))
            for ev in events(st):
                if ev[0] == "push_back" and any(isinstance(x, tuple) and x and x[0] in ("rec", "setf") for x in ev[1:]):
                    continue  # judged by what the container holds in the end
                if ev[0] in ("push_back", "call", "vcall", "wrote", "append", "sigop") and indet(ev):
                    bad = bad or (indet(ev), "what is handed on")
            if bad:
                c.viol("used:%s:%s" % (f["q"], bad[0]), fl(f), "%s depends on %s, which has not been set on this path" % (bad[1], bad[0]), showfacts(st))
            else:
                c.ok()
    c.sites.append("%d functions searched for uses of undefined values" % n)


def show_loc(l):
    return l[2] if l[0] == "F" and isinstance(l[2], str) else "memory"
