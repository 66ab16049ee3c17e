"""P01: the Python interface does what the C++ operation of the same name does."""
from proto import *
from calls import *

ALIAS = {"getsampleslist": "getsamplesdeque"}      # the list view of the samples
COPY = ("copy", "__copy__", "__deepcopy__")
SELF = ("P", ("sym", "&self"))
# what users of the module rely on being there
API = {
    "Point": "time value print_point copy __copy__ __deepcopy__",
    "Sample": "time value derivative value_at time_intersect print_sample copy __copy__ __deepcopy__",
    "Signal": "append_sample/2 append_sample/3 compute_not compute_and compute_or compute_boolean compute_left_time_rob compute_right_time_rob get_samples_list begin_time end_time "
              "set_semantics get_semantics set_interpol get_interpol set_BigM get_BigM copy __copy__ __deepcopy__",
    "STLMonitor": "__repr__ add_sample get_lower_rob get_upper_rob set_semantics get_semantics set_interpol get_interpol eval_rob/0 eval_rob/1 eval_rob/2 set_eval_time set_param get_param get_signal "
                  "display_formula rob lower_rob upper_rob data start_time end_time copy __copy__ __deepcopy__",
    "STLDriver": "parse_file parse_string disp add_sample get_monitor get_signals_names set_semantics get_semantics set_interpol get_interpol get_online_rob get_param set_param data copy __copy__ __deepcopy__",
}


def check(P, c):
    c.rule = ("each name of the Python module is bound to the C++ operation or field of the corresponding name of the class it is declared for (a wrapper hands its arguments on, in order, and returns the result), every "
              "documented name and overload is there, copies are made by the copy constructor from the object itself, finalisers release nothing, and an accessor returns exactly the state its name says.")
    c.guard(table, P, c)
    c.guard(accessors, P, c)


def norm(n):
    n = n.replace("_", "").lower()
    return ALIAS.get(n, n)


def strip(n):
    """below the conversions clang puts around an argument"""
    while n.get("k") in ("Temp", "Cast", "Load", "Construct", "Paren") and len(n.get("c", [])) == 1:
        n = n["c"][0]
    return n


def table(P, c):
    fs = [f for f in P.funcs.values() if f["q"].startswith("pybind11_init_") and f.get("body")]
    if not fs:
        raise Broken("no Python module definition found")
    bound = {}
    for f in fs:
        c.functions.add(f["id"])
        for n in walk(f["body"]):
            if n.get("k") != "MCall" or not n["fn"]["n"].startswith("def"):
                continue
            if not n["fn"].get("cls", "").startswith("pybind11::"):
                continue
            kind, cls = n["fn"]["n"], n["fn"].get("cls", "")
            a = [strip(x) for x in n["c"]]
            if not a or a[0].get("k") != "Str":
                continue        # constructors
            name = a[0]["v"]
            own = cls[len("pybind11::class_<"):].split(",")[0].rstrip(">").strip() if cls.startswith("pybind11::class_<") else None
            w = "%s:%d" % (f["file"], a[0]["l"])
            c.sites.append("%s.%s at %s" % (own or "module", name, w))
            c.guard(bind, P, c, kind, own, name, a[1:], n, w, bound)
        for n in walk(f["body"]):
            if n.get("k") == "Construct" and n["fn"].get("cls", "").startswith("pybind11::class_<") and len(n["c"]) >= 2:
                s = strip(n["c"][1])
                own = n["fn"]["cls"][len("pybind11::class_<"):].split(",")[0].rstrip(">").strip()
                if s.get("k") == "Str":
                    c.expect(norm(s["v"]) == norm(own.split("::")[-1]), "class:" + own, "%s:%d" % (f["file"], n["l"]), "the Python class %s stands for the C++ class %s" % (s["v"], own))
    f = fs[0]
    for own, names in API.items():
        if Q + own not in bound:
            c.skip(own, "no bindings found for this class")
            continue
        have = bound[Q + own]
        for nm in names.split():
            b, _, k = nm.partition("/")
            ok = b in have and (not k or int(k) in have[b] or None in have[b])
            c.expect(ok, "missing:%s.%s" % (own, nm), fl(f), "the Python class %s no longer offers %s%s" % (own, b, " with %s argument(s)" % k if k else ""))


def bind(P, c, kind, own, name, a, n, w, bound):
    key = "%s.%s" % ((own or "module").split("::")[-1], name)
    what = bound.setdefault(own, {}).setdefault(name, set())
    if not a:
        return c.skip(key, "nothing is bound")
    x = a[0]
    if x.get("k") == "Un" and x.get("op") == "&":
        x = x["c"][0]
    if kind in ("def_readwrite", "def_readonly"):
        what.add(None)
        if x.get("k") == "Ref":
            q = x.get("q") or ""
            c.expect(norm(x["n"]) == norm(name), key + ":field", w, "the Python field %s reads and writes the C++ field %s" % (name, x["n"]))
            if q and own:
                o = q.rsplit("::", 1)[0]
                c.expect(o == own or P.derives(own, o), key + ":owner", w, "the Python field %s belongs to %s" % (name, o))
            return
        return c.skip(key, "field binding of unknown form")
    if x.get("k") == "Ref" and x.get("rk") == "func":
        fn = x["fn"]
        what.add(len(fn["pt"]))
        c.expect(norm(fn["n"]) == norm(name), key + ":target", w, "the Python name %s runs %s" % (name, fn["n"]))
        if own:
            o = fn.get("cls")
            c.expect(o == own or o and P.derives(own, o), key + ":owner", w, "the Python method %s runs an operation of %s" % (name, o))
        return
    if x.get("k") == "Lambda":
        fn = x["fn"]
        what.add(len(fn["pt"]) - (1 if own and kind == "def" else 0))
        defaults(c, key, n, w, name)
        return wrapper(P, c, key, kind, own, name, fn, w)
    c.skip(key, "binding of unknown form (%s)" % x.get("k"))


def defaults(c, key, n, w, name):
    """default arguments of a wrapper: taken from the C++ declaration's documentation"""
    want = {"get_online_rob": {"phi_in": "phi", "t0": 0.0}}.get(name)
    if not want:
        return
    seen = {}
    for a in n["c"]:
        ss = [y for y in walk(a) if y.get("k") in ("Str", "Float", "Int")]
        if any(y.get("k") == "OpCall" for y in walk(a)) or len(ss) >= 2 and "arg" in str(a.get("t", "")):
            names = [y["v"] for y in ss if y["k"] == "Str" and y["v"] in want]
            vals = [y["v"] for y in ss if not (y["k"] == "Str" and y["v"] in want)]
            if len(names) == 1 and len(vals) == 1:
                seen[names[0]] = vals[0]
    for k, v in seen.items():
        try:
            same = v == want[k] if isinstance(want[k], str) else float(v) == want[k]
        except ValueError:
            same = False
        c.expect(same, key + ":default:" + k, w, "the default of %s is %s instead of %s" % (k, v, want[k]))


def wrapper(P, c, key, kind, own, name, fn, w):
    f = P.funcs.get(fn["id"])
    if not f or "body" not in f:
        return c.skip(key, "wrapper body not found")
    c.functions.add(fn["id"])
    if not own or kind != "def" or not f["params"]:
        return c.skip(key, "wrapper without an object")
    me = ("P", ("sym", "&" + f["params"][0]["n"]))
    def hook(e, g, loc, dyn, args, st, fr, n):
        if g.get("ctor"):
            if g.get("copy") and g.get("cls") == own:
                st = st.copy()
                st.s[F(loc, "#copyof")] = ("ptr", args[0][1]) if args[0][0] in ("ref", "obj") else args[0]
                return [(st, ("void",))]
            if g.get("move") and g.get("cls") == own and args[0][0] in ("ref", "obj") and F(args[0][1], "#copyof") in st.s:
                st = st.copy()
                st.s[F(loc, "#copyof")] = st.s[F(args[0][1], "#copyof")]
                return [(st, ("void",))]
            if not g.get("move") and g.get("cls") == own and fr.id == 1:
                st.ev("made", loc)
            return None
        if g.get("copyasg") and g.get("cls") == own and loc is not None:
            st = st.copy()
            st.s[F(loc, "#copyof")] = ("ptr", args[0][1]) if args[0][0] in ("ref", "obj") else args[0]
            return [(st, ("ref", loc))]
        if loc is not None and e.canon(st, loc) == me and g.get("repo"):
            st = st.copy()
            # scalars handed on by reference: their values now
            args = [e.load(st, a[1]) if a[0] == "ref" and strip_t(p) in ("double", "int", "bool", "float", "long") else a for a, p in zip(args, g["pt"])]
            st.ev("fwd", g["n"], tuple(args), e.where(fr, n))
            return [(st, ("fwd", g["n"], tuple(args)))]
        if g["n"] == "operator<<" and g.get("repo"):
            st = st.copy()
            st.ev("fwd", g["n"], tuple(args), e.where(fr, n))
            return [(st, args[0])]
        return None
    e = Eng(P, [hook])
    try:
        outs = e.run(fn["id"], this=("LAM",))
    except Undecided as u:
        return c.skip(key, str(u))
    rest = f["params"][1:]
    for k, st, v in outs:
        c.paths += 1
        if st.imp:
            c.skip(key, "; ".join(st.imp[:2]))
            continue
        if k != "return":
            c.viol(key + ":ends", w, "the wrapper ends in %s" % k, showfacts(st))
            continue
        fw = events(st, "fwd")
        if name in COPY:
            src = None
            if v[0] == "obj":
                src = st.s.get(F(v[1], "#copyof"))
            elif v[0] == "ptr":
                src = st.s.get(F(v[1], "#copyof"))
            if v in (("ref", me), ("ptr", me)) or v[0] == "obj" and v[1] == me:
                c.viol(key + ":same", w, "the copy is the object itself")
            elif src is None:
                if any(x[1] == v[1] for x in events(st, "made") if v[0] == "obj"):
                    c.viol(key + ":new", w, "a new object without this object's state is returned as its copy")
                elif v[0] in ("num", "bool", "str", "null", "void", "enum") or isnum(v):
                    c.viol(key + ":new", w, "%s is returned instead of a copy of the object" % show(v)[:60])
                else:
                    c.skip(key, "cannot tell where the copy comes from")
            else:
                c.expect(src == ("ptr", me), key + ":source", w, "the copy is made from something other than the object itself")
        elif name == "__del__":
            bad = events(st, "delete") + [x for x in fw]
            wr = [l for l in st.s if l[0] in ("F", "E") and root(l) == me and st.s[l] != init(l)]
            c.expect(not bad and not wr, key + ":release", w, "the finaliser releases or changes what Python's own release of the object will release again")
        elif name in ("__repr__", "__str__"):
            c.expect(any(x[1] == "operator<<" and any(a in (("ref", me), ("obj", me)) for a in x[2]) or x[1].startswith("print") for x in fw), key + ":prints", w, "the text shown for an object does not come from printing it")
        else:
            want = [("ref", ("P", ("sym", "&" + p["n"]))) if is_ref(p["t"]) else ("sym", p["n"]) for p in rest]
            got = None
            if v[0] == "fwd":
                got = v
            elif len(fw) == 1 and v[0] == "void":
                got = ("fwd", fw[0][1], fw[0][2])
            if got is None and v[0] == "obj":
                got = next((x for x in fw), None)
                got = ("fwd", got[1], got[2]) if got else None
            if got is None:
                c.skip(key, "the wrapper's result is not a forwarded call")
                continue
            c.expect(norm(got[1]) == norm(name), key + ":target", w, "the Python name %s runs %s" % (name, got[1]))
            ga = [unref(e, st, x) for x in got[2]]
            wa = [unref(e, st, x) for x in want]
            c.expect(ga[:len(wa)] == wa, key + ":args", w, "the wrapper hands on %s instead of its own arguments in order" % ", ".join(show(x)[:60] for x in ga))


def unref(e, st, x):
    if x[0] in ("ref", "obj"):
        return e.load(st, x[1])
    return x


# ------------------------------------------------------------------ accessors
def accessors(P, c):
    for q, fld in (("STLMonitor::get_lower_rob", "lower_rob"), ("STLMonitor::get_upper_rob", "upper_rob"), ("STLMonitor::get_rob", "rob")):
        c.guard(reads, P, c, q, fld)
    c.guard(eval_time, P, c)
    c.guard(bigm, P, c)
    c.guard(samples, P, c)
    c.guard(result, P, c)
    for q in ("STLMonitor::get_signal_names", "STLDriver::get_signals_names"):
        c.guard(declared, P, c, q)


def result(P, c):
    """the signal a monitor or node reports is the one its evaluation left"""
    for q, own in (("STLMonitor::get_signal", F(THIS, "formula")), ("transducer::get_signal", None)):
        f, e, outs = run1(P, c, q, 0)
        for k, st, v in outs:
            pth = showfacts(st)
            none = own is not None and decide(st.f, cond(("isnull", init(own)))) is True
            if k == "throw":
                c.expect(own is not None and none, q + ":refuses", fl(f), "%s refuses although there is a signal to report" % q, pth)
                continue
            c.expect(not none, q + ":nothing", fl(f), "%s reports a signal although no formula is set" % q, pth)
            ch = wr(st)
            c.expect(not ch, q + ":writes", fl(f), "%s changes %s" % (q, ", ".join(show(init(l)) for l in ch)), pth)
            z = F(e.deref(init(own)) if own is not None else THIS, "z")
            if v is None or v[0] not in ("obj", "ref"):
                c.skip(q, "result %s" % (v,))
                continue
            for fd in ("#c", "beginTime", "endTime"):
                x = e.load(st, F(v[1], fd))
                if unread(x):
                    c.skip(q, "result %s" % show(x)[:60])
                    continue
                c.expect(x == init(F(z, fd)), "%s:%s" % (q, "samples" if fd == "#c" else fd), fl(f), "the %s of the signal reported %s %s" % ("samples" if fd == "#c" else fd, "are" if fd == "#c" else "is", show(x)[:80]), pth)


def declared(P, c, q):
    """the names listed are those of the signals declared"""
    def lister(e, fn, loc, dyn, args, st, fr, n):
        if fn["q"] == "signal_map_to_string" and args:
            x = args[0]
            if x[0] in ("obj", "ref"):
                x = e.load(st, x[1])
                if x[0] == "obj":
                    x = e.load(st, F(x[1], "#c"))
            return [(st, ("app", "names", x))]
        return None
    f, e, outs = run1(P, c, q, 0, hooks=[lister])
    want = init(F(THIS, "signal_map"))
    for k, st, v in outs:
        pth = showfacts(st)
        ch = wr(st)
        c.expect(not ch, q + ":writes", fl(f), "%s changes %s" % (q, ", ".join(show(init(l)) for l in ch)), pth)
        x = unref(e, st, v) if k == "return" else None
        if k == "return" and x[0] == "str" and x[1] == "" and decide(st.f, isempty(want)) is True:
            c.ok()
            continue
        if k == "return" and (unread(x) or not (x[0] in ("str", "init") or x[0] == "app" and x[1] == "names")):
            c.skip(q, "result %s" % show(x)[:60])
            continue
        c.expect(k == "return" and x == ("app", "names", want), q + ":names", fl(f), "%s gives %s instead of the names of the declared signals" % (q, show(x)[:80] if x else "nothing"), pth)


def run1(P, c, q, np, this=THIS, st=None, hooks=()):
    f = find1(P, Q + q, np)
    e = Eng(P, list(hooks))
    outs = e.run(f["id"], this=this, cls=f["cls"], st=st)
    c.functions |= e.analysed
    c.paths += len(outs)
    return f, e, outs


def wr(st):
    return [l for l, x in st.s.items() if l[0] in ("F", "G", "E") and root(l)[0] in ("THIS", "G", "S") and x != init(l)]


def reads(P, c, q, fld):
    f, e, outs = run1(P, c, q, 0)
    for k, st, v in outs:
        if st.imp:
            c.skip(q, st.imp[0])
            continue
        c.expect(k == "return" and v == init(F(THIS, fld)), q + ":value", fl(f), "%s reports %s instead of the stored result" % (q, show(v)[:80]), showfacts(st))
        c.expect(not wr(st), q + ":writes", fl(f), "%s changes %s" % (q, ", ".join(show(init(l)) for l in wr(st))))


def eval_time(P, c):
    q = "STLMonitor::set_eval_time"
    f, e, outs = run1(P, c, q, 2)
    a = [("sym", p["n"]) for p in f["params"]]
    for k, st, v in outs:
        if st.imp:
            c.skip(q, st.imp[0])
            continue
        got = (e.load(st, F(THIS, "start_time")), e.load(st, F(THIS, "end_time")))
        if k == "throw":
            c.skip(q, "some windows are refused")
            continue
        c.expect(got == (a[0], a[1]), q + ":window", fl(f), "the evaluation window becomes [%s, %s] instead of the one given" % (show(got[0]), show(got[1])), showfacts(st))
        o = [l for l in wr(st) if l not in (F(THIS, "start_time"), F(THIS, "end_time"))]
        c.expect(not o, q + ":also", fl(f), "setting the window also changes %s" % ", ".join(show(init(l)) for l in o))


def bigm(P, c):
    q = "Signal::set_BigM"
    f, e, outs = run1(P, c, q, 1, this=None)
    x = ("sym", f["params"][0]["n"])
    g0 = find1(P, Q + "Signal::get_BigM", 0)
    for k, st, v in outs:
        if k != "return" or st.imp:
            c.skip(q, "not a plain path")
            continue
        o = [l for l in wr(st) if l != BIGM]
        c.expect(not o, q + ":also", fl(f), "setting BigM also changes %s" % ", ".join(show(init(l)) for l in o))
        e2 = Eng(P, [])
        for k2, st2, v2 in e2.run(g0["id"], this=None, cls=g0["cls"], st=st):
            c.paths += 1
            c.expect(k2 == "return" and v2 == x, "Signal::get_BigM:value", fl(g0), "get_BigM returns %s after set_BigM(%s)" % (show(v2)[:80], show(x)), showfacts(st2))


def samples(P, c):
    q = "Signal::getSamplesDeque"
    f, e, outs = run1(P, c, q, 0)
    for k, st, v in outs:
        if v[0] in ("ref", "obj"):
            v = e.load(st, v[1] if v[1][-1] == "#c" else F(v[1], "#c"))
        c.expect(v == init(F(THIS, "#c")), q + ":value", fl(f), "the samples reported are %s" % show(v)[:80])
