"""Copies and moves of drivers, monitors and tests; extraction of a monitor from a driver."""
from proto import *
from calls import *

IGNORED = {"lexer"}     # parser hookup, set again before every parse


def owners(P):
    """classes that hold formulas by raw pointer: {class: [(field, 'one'|'map')]}"""
    out = {}
    for n, r in P.recs.items():
        if not n.startswith(Q) or P.derives(n, T):
            continue
        for fd in r["fields"]:
            t = fd["t"].replace("const ", "").strip()
            if t.endswith("*") and P.derives(t.rstrip("* ").strip(), T) and t.rstrip("* ").strip() in P.recs:
                out.setdefault(n, []).append((fd["n"], "one"))
            elif "STLRom::transducer *" in t and "map" in t:
                out.setdefault(n, []).append((fd["n"], "map"))
    return out


def deleters(P, cls):
    return [f for f in P.funcs.values() if f.get("cls") == cls and f["id"].endswith("#dtor()")]


def check(P, c):
    c.rule = ("for every class that owns formulas: its destructor deletes each owned formula once; copy construction and assignment take over every field of the source, replace owned formulas by clones "
              "(deleting the previous ones on assignment, nothing on self-assignment) and leave the source alone; moving transfers the formulas and leaves the source owning none; no formula node is ever copied "
              "member by member; extracting a monitor yields trace, signals, parameters and settings of the driver with a clone of the named formula, or an empty monitor for an unknown name.")
    ow = owners(P)
    names = {n[len(Q):] for n in ow}
    for need in ("STLDriver", "STLMonitor", "stl_test"):
        if need not in names:
            c.skip(need, "no longer holds formulas by raw pointer")
    for cls, flds in sorted(ow.items()):
        if cls in (Q + "Parser",) or "semantic_type" in cls or "::Parser::" in cls:
            continue
        ds = deleters(P, cls)
        n = cls[len(Q):]
        if not ds:
            c.skip(n, "does not delete its formulas: not an owner")
            continue
        c.guard(owner, P, c, cls, n, flds, ds[0])
    c.guard(shallow, P, c)
    c.guard(monitor, P, c)


def gdel(st):
    return [ev[1] for ev in events(st, "delete", "doubledelete")]


def loops(st):
    return [ev for ev in st.trace() if ev[0] == "loop"]


def owner(P, c, cls, n, flds, d):
    rec = P.recs[cls]
    e = Eng(P, [sigops.hook])
    try:
        outs = e.run(d["id"], this=THIS, cls=cls)
    except Undecided as u:
        c.skip(n, str(u))
        return
    c.functions |= e.analysed
    for k, st, v in outs:
        c.paths += 1
        freed(c, e, st, n + ":dtor", fl(d), flds, st.f)
    for kind in ("copy", "move"):
        for how in ("ctor", "asg"):
            fs = [f for f in P.funcs.values() if f.get("cls") == cls and len(f["params"]) == 1 and strip_t(f["params"][0]["t"]).replace("const ", "").rstrip("& ") == cls and
                  ("&&" in f["params"][0]["t"]) == (kind == "move") and (f["n"] == "operator=" if how == "asg" else "#ctor" in f["id"])]
            fs = [f for f in fs if not f.get("deleted")]
            user = [f for f in fs if f.get("body") is not None and not f.get("implicit") and not f.get("defaulted")]
            if not user:
                if fs and kind == "copy":
                    c.viol("%s:%s-%s:shallow" % (n, kind, how), fl(fs[0]), "%s of %s copies owned formula pointers as they are" % ("assignment" if how == "asg" else "copy construction", n))
                continue
            transfer(P, c, cls, n, flds, kind, how, user[0])
    # implicit copies of a class with a deleting destructor
    if not any(x.get("hasUserCopy") for x in [rec]) and not [f for f in P.funcs.values() if f.get("cls") == cls and f["id"].endswith("#ctor(const %s &)" % cls)]:
        c.viol(n + ":copy-ctor:shallow", fl(d), "%s deletes its formulas but is copied member by member" % n)


def freed(c, e, st, name, w, flds, facts, base=THIS):
    """every formula owned at entry is deleted exactly once"""
    for fld, kind in flds:
        v0 = init(F(base, fld))
        if kind == "one":
            ds = [x for x in gdel(st) if x == v0]
            isn = decide(st.f, cond(("isnull", v0)))
            c.expect(len(ds) == 1 or (isn is True and len(ds) <= 1), "%s:%s:freed" % (name, fld), w, "the owned formula is deleted %d times" % len(ds), showfacts(st))
        else:
            hits = 0
            for lp in loops(st):
                for it in lp[2]:
                    for x in it:
                        if x[0] == "delete" and x[1][0] == "elem" and x[1][1] == v0:
                            hits += 1
                            break
                    else:
                        fx = [x for x in it if x[0] == "itfacts"]
                        nul = any(a[0] == "isnull" and t for a, t in (fx[0][1] if fx else ()))
                        if not nul:
                            pass
            c.expect(hits >= 1, "%s:%s:freed" % (name, fld), w, "the formulas held in %s are not deleted" % fld, showfacts(st))
            c.expect(len([lp for lp in loops(st) if any(x[0] == "delete" for it in lp[2] for x in it)]) <= 1 or hits <= 2, "%s:%s:freed-twice" % (name, fld), w,
                     "the formulas held in %s are deleted repeatedly" % fld, showfacts(st))
    dd = [x for x in events(st, "doubledelete")]
    c.expect(not dd, name + ":double", w, "an object is deleted twice", showfacts(st))


def transfer(P, c, cls, n, flds, kind, how, f):
    name = "%s:%s-%s" % (n, kind, "construction" if how == "ctor" else "assignment")
    w = fl(f)
    e = Eng(P, [sigops.hook])
    try:
        outs = e.run(f["id"], this=THIS, cls=cls)
    except Undecided as u:
        c.skip(name, str(u))
        return
    c.functions |= e.analysed
    O = ("P", ("sym", "&" + f["params"][0]["n"]))
    own = dict(flds)
    for k, st, v in outs:
        c.paths += 1
        pth = showfacts(st)
        if k != "return":
            c.viol(name + ":" + k, w, "a path ends in %s" % k, pth)
            continue
        if st.imp:
            c.skip(name, "; ".join(st.imp[:2]))
            continue
        self_ = any(a[0] == "pteq" and t for a, t in st.f.items())
        wrO = [l for l, x in st.s.items() if l[0] in ("F", "E") and root(l) == O and x != init(l)]
        if self_:
            wr = [l for l, x in st.s.items() if l[0] in ("F", "E") and root(l) == THIS and x != init(l)]
            c.expect(not wr and not gdel(st), name + ":self", w, "assigning an object to itself changes it", pth)
            continue
        if how == "asg":
            c.expect(v == ("ref", THIS), name + ":returns", w, "assignment does not return its target", pth)
            freed(c, e, st, name, w, flds, st.f)
        for _, fd in P.all_fields(cls):
            fn = fd["n"]
            if fn in IGNORED:
                continue
            src = init(F(O, fn))
            if fn not in own:
                got = e.load(st, F(THIS, fn))
                ok = got == src
                c.expect(ok, "%s:%s" % (name, fn), w, "the %s of the result is %s instead of the source's" % (fn, show(got)[:80]), pth)
                continue
            got = e.load(st, F(THIS, fn))
            if kind == "move":
                left = e.load(st, F(O, fn))
                c.expect(got == src, "%s:%s" % (name, fn), w, "the moved-to object holds %s" % show(got)[:80], pth)
                c.expect(left in (NULL, ("null",), ("empty",), ("app", "movedfrom")), "%s:%s:source" % (name, fn), w, "after the move the source still owns the formulas", pth)
            elif own[fn] == "one":
                cl = {("ret", ev[4], "clone", ev[2]): ev[2] for ev in events(st, "vcall") if ev[1].split("(")[0].endswith("::clone")}
                isn = decide(st.f, cond(("isnull", src)))
                c.expect(cl.get(got) == ("P", src) or got in (NULL, ("null",)) and isn is True, "%s:%s" % (name, fn), w,
                         "the copy's formula is %s" % ("the source's own" if got == src else show(got)[:80]), pth)
            else:
                mapcopy(c, e, st, name, w, fn, O, got, pth)
        if kind == "copy":
            c.expect(not wrO, name + ":source", w, "copying changes the source's %s" % ", ".join(show(("init", l))[:60] for l in wrO), pth)
            src_del = [x for x in gdel(st) if any(y == O for y in subterms(x))]
            c.expect(not src_del, name + ":source-freed", w, "copying deletes formulas of the source", pth)


def mapcopy(c, e, st, name, w, fn, O, got, pth):
    src = init(F(O, fn))
    L = F(THIS, fn)
    if got == src:
        c.viol("%s:%s" % (name, fn), w, "the copy shares the source's formulas", pth)
        return
    if got in (init(L), ("empty",)):
        if decide(st.f, isempty(src)) is not True:
            c.viol("%s:%s" % (name, fn), w, "the source's formulas are not copied", pth)
        return
    stored = 0
    for lp in loops(st):
        for it in lp[2]:
            over = any(x[0] == "itfacts" and any(a[0] == "itend" and not t and a[-1] == src for a, t in x[1]) for x in it)
            if not over:
                continue
            cl = {("ret", ev[4], "clone", ev[2]): ev[2] for ev in it if ev[0] == "vcall" and ev[1].split("(")[0].endswith("::clone")}
            fx = [x for x in it if x[0] == "itfacts"][0]
            mine = [v for l, v in fx[2] if l == L]
            if not mine:
                if any(a[0] == "isnull" and t for a, t in fx[1]) or any(x[0] == "delete" for x in it):
                    continue
                c.viol("%s:%s:skipped" % (name, fn), w, "some formulas of the source are not copied", ["assuming %s%s" % ("" if t else "not ", show(a)) for a, t in fx[1]])
                continue
            v = mine[0]
            if v[0] == "upd":
                key, val = v[2], v[3]
                s = cl.get(val)
                want = ("P", ("elem", src, key))
                if val == NULL or val == ("null",):
                    continue
                if has_unknown(val) or has_unknown(key):
                    c.skip(name, "opaque map entry")
                    stored += 1
                    continue
                c.expect(s == want, "%s:%s" % (name, fn), w, "the entry %s of the copy is %s instead of a clone of the source's entry" % (show(key)[:60], show(val)[:80]), pth)
                stored += 1
            else:
                c.skip(name, "map filled by %s" % v[0])
                stored += 1
    if not stored:
        c.skip(name, "copy of %s not recognised" % fn)


def shallow(P, c):
    """no node of a formula is copied member by member"""
    for f in P.funcs.values():
        for fn, n in callees(f):
            cl = fn.get("cls")
            if cl and P.derives(cl, T) and (fn.get("copy") or fn.get("move") or fn.get("copyasg") or fn.get("moveasg")) and not fn.get("user"):
                if f.get("implicit") or f.get("defaulted"):
                    continue
                kids = any(children(P, x) for x in [cl]) or any(fd["t"].endswith("*") and fd["n"] == "I" for _, fd in P.all_fields(cl))
                if kids:
                    c.viol("node-copy:%s" % f["q"], "%s:%s" % (f["file"], n.get("l")), "a %s is copied member by member, sharing its operands" % cl)
    c.ok()


def monitor(P, c):
    f = find1(P, Q + "STLDriver::get_monitor", 1)
    w = fl(f)
    e = Eng(P, [sigops.hook])
    try:
        outs = e.run(f["id"], this=THIS, cls=f["cls"])
    except Undecided as u:
        c.skip("get_monitor", str(u))
        return
    c.functions |= e.analysed
    p = f["params"][0]
    key = ("init", ("P", ("sym", "&" + p["n"]))) if is_ref(p["t"]) else ("sym", p["n"])
    entry = ("elem", init(F(THIS, "formula_map")), ("key", key))
    some = False
    for k, st, v in outs:
        c.paths += 1
        pth = showfacts(st)
        if k == "throw":
            c.expect(decide(st.f, cond(("has", init(F(THIS, "formula_map")), key))) is False, "get_monitor:throws", w, "asking for a known formula throws", pth)
            continue
        if k != "return" or v[0] not in ("obj", "rec") or st.imp:
            c.skip("get_monitor", "; ".join(st.imp[:2]) or k)
            continue
        g = (lambda x: e.load(st, F(v[1], x))) if v[0] == "obj" else (lambda x: e.fieldof(v, x))
        wr = [l for l, x in st.s.items() if l[0] in ("F", "E") and root(l) == THIS and x != init(l)]
        c.expect(not wr, "get_monitor:writes", w, "extracting a monitor changes the driver", pth)
        cl = {("ret", ev[4], "clone", ev[2]): ev[2] for ev in events(st, "vcall") if ev[1].split("(")[0].endswith("::clone")}
        fm = g("formula")
        has = decide(st.f, cond(("has", init(F(THIS, "formula_map")), key)))
        nul = decide(st.f, cond(("isnull", entry)))
        if has is True and nul is not True:
            some = True
            c.expect(cl.get(fm) == ("P", entry), "get_monitor:formula", w, "the monitor's formula is %s instead of a clone of the named one" % (
                "the driver's own" if fm == entry else show(fm)[:100]), pth)
            for fld in ("data", "signal_map", "param_map", "semantics", "interpol"):
                x = g(fld)
                c.expect(x == init(F(THIS, fld)), "get_monitor:" + fld, w, "the monitor's %s is %s instead of the driver's" % (fld, show(x)[:80]), pth)
            win = (g("start_time"), g("end_time"))
            c.expect(win == (num(0), num(0)), "get_monitor:window", w, "the monitor starts with window [%s, %s]" % (show(win[0]), show(win[1])), pth)
        elif has is False or nul is True:
            c.expect(fm in (NULL, ("null",)), "get_monitor:unknown", w, "an unknown name yields a monitor with formula %s" % show(fm)[:80], pth)
        else:
            c.viol("get_monitor:unchecked", w, "a monitor is built without checking that the formula exists", pth)
    if not some:
        c.viol("get_monitor:never", w, "no path extracts a monitor")
