"""N01: what is not there is refused, never touched."""
from util import *
import sigops
import kernops
import mem

DRV, MON = Q + "STLDriver", Q + "STLMonitor"
FILES = ("stl_driver", "stl_monitor", "tools.", "main.cpp")


def check(P, c):
    c.rule = ("on every path of every driver, monitor, tool and binding function and every grammar production: a formula pointer that may be null is tested before it is followed, an element is taken from a container only where it is known not to be empty, "
              "the result of a lookup is used only where the name is known to be present, operator[] with a name that is not known to be present is followed by the definition of that name, no formula table is left with an empty entry, "
              "and where the formula, the data or the name is missing the documented refusal is given and nothing is stored.")
    c.guard(paths, P, c)
    c.guard(parser, P, c)
    c.guard(refusals, P, c)
    c.guard(certain, P, c)


def targets(P):
    for f in sorted(P.funcs.values(), key=lambda f: f["id"]):
        if mem.generated(f) or not f.get("body") or f.get("lambda"):
            continue
        k = f.get("cls")
        if k and sigops.SIG == k:
            continue
        if k in (DRV, MON) or (k is None and any(x in f["file"] for x in FILES)):
            yield f
        elif k and k.startswith(Q) and any(n.get("k") == "MCall" and n.get("fn", {}).get("n") in ("find", "at", "front", "back") for n in mem.walk(f["body"])):
            yield f


def nullable(P):
    """pointer fields of classes that are not formula nodes: no formula set"""
    return {fd for cls, fd, kind in mem.owned(P) if kind == "one" and not mem.is_node(P, cls)}


def run(P, f):
    me = f["n"]
    hooks = [mem.hook_clone, kernops.hook(set(kernops.KERN) - {me}), kernops.free(skip=(me,)), sigops.hook]
    e = Eng(P, hooks)
    e.track_deref = True
    return e, e.run(f["id"], this=THIS if f.get("cls") and not f.get("static") else None, cls=f.get("cls"))


def table(x):
    """the table a container term comes from, as it was when the function was entered"""
    while x[0] in ("upd", "del") or x[0] == "hv":
        x = x[-1] if x[0] == "hv" else x[1]
    return x


def known_nonnull(P, st, x):
    if decide(st.f, cond(("isnull", x))) is False:
        return True
    return None


def judge(P, c, e, st, name, where, fields, inv, node=False):
    """inv: elements of the driver's tables are never null (kept by the rule on tables below)"""
    pth = showfacts(st)
    fx = dict(st.f)

    def go(evs, loop):
        for ev in evs:
            if ev[0] == "loop":
                for it in ev[2]:
                    go(it, True)
                continue
            if ev[0] == "nullderef":
                c.viol(name + ":null", ev[2], "%s follows a null pointer" % name, pth)
            elif ev[0] == "deref":
                x = ev[1]
                if x[0] == "init" and x[1][0] == "F" and x[1][2] in fields and not mem.inside(x[1]):
                    c.expect(decide(st.f, cond(("isnull", x))) is False, "%s:%s" % (name, x[1][2]), ev[2], "%s follows %s, which is null where no formula is set" % (name, showloc(x[1])), pth)
                elif x[0] == "elem" and x[2][0] == "key":
                    k = x[2][1]
                    if k[0] == "anykey" or loop and has_unknown(k):
                        c.ok()
                        continue
                    ok = decide(st.f, cond(("has", x[1], k))) is True or decide(st.f, cond(("isnull", x))) is False
                    c.expect(ok, "%s:undefined" % name, ev[2], "%s follows the entry for %s, which is null where that name is not defined" % (name, show(k)), pth)
            elif node and ev[0] == "index":
                l, i = ev[1], ev[2]
                if l[0] == "E" and l[1][0] == "P" and "trace_data_ptr" in repr(l[1]) and i != "back" and i[0] != "num":
                    bounded = any(a[0] in ("lt0", "eq0") and any(y == i for y in subterms(a)) and any(y[0] == "size" for y in subterms(a)) for a in fx)
                    c.expect(bounded, name + ":column", ev[3], "%s reads column %s of a sample without knowing that the sample has one" % (name, show(i)), pth)
            elif node and ev[0] in ("onempty", "nonempty?", "mapsub"):
                continue
            elif ev[0] == "onempty":
                c.viol(name + ":empty", ev[4], "%s takes %s of %s, which is empty" % (name, ev[1], showloc(ev[2])), pth)
            elif ev[0] == "nonempty?":
                if has_unknown(ev[3]):
                    continue
                c.expect(root(ev[2])[0] not in ("THIS", "P", "G", "S"), name + ":empty", ev[4], "%s takes %s of %s, which may be empty" % (name, ev[1], showloc(ev[2])), pth)
            elif ev[0] == "itderef":
                v, cv = ev[1], ev[3]
                if isinstance(v[2], tuple) and v[2][0] == "find":
                    k = v[2][1]
                    ok = decide(st.f, cond(("has", cv, k))) is True
                    if not ok and has_unknown(cv):
                        c.skip(name, "table at a lookup is not known")
                        continue
                    c.expect(ok, name + ":lookup", ev[2], "%s uses the result of looking up %s where it is not known to be present" % (name, show(k)), pth)
            elif ev[0] == "mapsub":
                l, k, w, cv = ev[1:5]
                if root(l)[0] not in ("THIS", "P", "G", "S"):
                    continue
                if has_unknown(cv) or has_unknown(k) and not loop:
                    continue
                if decide(st.f, cond(("has", cv, k))) is True:
                    c.ok()
                    continue
                c.expect(stored(st, l, k), name + ":invented", w, "%s makes an entry for %s in %s when it is not there" % (name, show(k), showloc(l)), pth)
    go(st.trace(), False)
    if inv:
        entries(c, st, name, where, pth)


def stored(st, l, k):
    todo = [st.s.get(l)]
    for ev in st.trace():
        if ev[0] == "loop":
            for it in ev[2]:
                for z in it:
                    if z[0] == "itfacts":
                        todo += [x for l2, x in tuple(z[2]) + tuple(z[3]) if l2 == l]
    for y in todo:
        while y is not None and y[0] == "upd":
            if y[2] == ("key", k):
                return True
            y = y[1]
    now = st.s.get(l)
    return now is not None and has_unknown(now) and not any(y for y in todo if y is not None and y[0] == "upd")


def entries(c, st, name, where, pth):
    """no table of formulas is left with an empty entry"""
    def walk(evs):
        for ev in evs:
            if ev[0] == "loop":
                for it in ev[2]:
                    for z in it:
                        if z[0] == "itfacts":
                            for l, x in tuple(z[2]) + tuple(z[3]):
                                if l[0] == "F" and l[2] == "formula_map" and x[0] == "upd" and x[3][0] in ("null", "num") and root(l)[0] in ("THIS", "P", "G", "S"):
                                    now = st.s.get(l)
                                    c.expect(now is not None and now[0] != "hv" and table(now) == now, name + ":null-entry", ev[3],
                                             "%s sets entries of %s to null and leaves them in the table" % (name, showloc(l)), pth)
                    walk(it)
    walk(st.trace())
    for l, x in st.s.items():
        if l[0] != "F" or l[2] != "formula_map" or root(l)[0] not in ("THIS", "P", "G", "S"):
            continue
        y = x
        while y[0] == "upd":
            v = y[3]
            if v[0] in ("null", "num"):
                c.viol(name + ":null-entry", where, "%s leaves an entry without formula in %s" % (name, showloc(l)), pth)
            elif v[0] in ("init", "sym", "elem") and decide(st.f, cond(("isnull", v))) is True:
                c.viol(name + ":null-entry", where, "%s leaves an entry without formula in %s" % (name, showloc(l)), pth)
            else:
                c.ok()
            y = y[1]


def paths(P, c):
    fields = nullable(P)
    if not fields:
        raise Broken("no nullable formula pointer")
    c.sites.append("pointers that may be null: " + ", ".join(sorted(fields)))
    for f in targets(P):
        name = f["q"].replace(Q, "") + ("(%d)" % len(f["params"]))
        try:
            e, outs = run(P, f)
        except Undecided as u:
            c.skip(name, str(u))
            continue
        c.functions.add(f["id"])
        for k, st, v in outs:
            c.paths += 1
            judge(P, c, e, st, name, fl(f), fields, k == "return", mem.is_node(P, f.get("cls")))
            c.ok()


def certain(P, c):
    """no path of any function takes an element where it has just found that there is none"""
    loopy = {f["id"] for f in P.funcs.values() if any(x.get("k") in ("For", "While", "Do", "ForRange", "RangeFor") for x in mem.walk(f.get("body"))) or len(list(mem.walk(f.get("body")))) > 400}

    def big(e, fn, loc, dyn, args, st, fr, n):
        if fn["id"] in loopy or any(x in fn["q"] for x in ("Parser", "Scanner", "Lexer")) or fn.get("virt") and loc == THIS and top[0] in bases:
            r = e.opaque(fn, loc, args, st, fr, n)
            for s, v in r:
                for a, p in zip(args, fn["pt"]):
                    if a[0] == "ptr" and is_ptr(p) and not p.startswith("const "):
                        e.havoc(s, a[1], "call")
            return r
        return None

    def flat(evs):
        for ev in evs:
            if ev[0] == "loop":
                behind = [b for a, b in ev[4] if isinstance(b, tuple) and b[0] in ("it", "rit")]
                for it in ev[2]:
                    fx = dict(x for z in it if z[0] == "itfacts" for x in z[1])
                    for z in it:
                        if z[0] == "itderef" and z[1][2] in (("any", ev[1]), ("hv", ev[1])):
                            mine = [b for b in behind if b[:2] == z[1][:2]]
                            if mine and all(b[2] == "end" for b in mine) and not any(a[0] == "itend" and a[2] == z[1][2] and v is False for a, v in fx.items()):
                                yield ("pastend", z[1], z[2])
                for it in ev[2]:
                    yield from flat(it)
            else:
                yield ev
    n = 0
    top = [None]
    bases = {b for k in P.recs if mem.is_node(P, k) for b in P.bases(k) if b != k}
    for f in sorted(P.funcs.values(), key=lambda f: f["id"]):
        if f.get("body") is None or mem.generated(f) or any(x in f["q"] for x in ("Parser", "Scanner", "yy")):
            continue
        top[0] = f.get("cls")        # what virtual calls of a base do depends on the class derived from it
        name = f["q"].replace(Q, "") + ("(%d)" % len(f["params"]))
        try:
            outs = Eng(P, [big]).run(f["id"], this=THIS if f.get("cls") and not f.get("static") else None, cls=f.get("cls"))
        except (Undecided, RecursionError) as u:
            c.skip(name, str(u)[:80])
            continue
        n += 1
        c.functions.add(f["id"])
        for k, st, v in outs:
            c.paths += 1
            for ev in flat(st.trace()):
                if ev[0] == "onempty":
                    c.viol(name + ":empty", ev[4], "%s takes %s of %s, which is empty" % (name, ev[1], showloc(ev[2])), showfacts(st))
                elif ev[0] == "pastend":
                    c.viol(name + ":end", ev[2], "%s reads past the end of %s" % (name, showloc(ev[1][1])), showfacts(st))
            c.ok()
    c.sites.append("%d functions searched for elements taken where there are none" % n)


def parser(P, c):
    """grammar productions: the scanner's token kinds say which names are defined"""
    import formula_text as ft
    from gram import Actions, num_hook
    g, A0 = ft.load_grammar(P, c)
    if g is None:
        return
    kinds = {tok: m for m, tok in ft.ORDER}
    fields = nullable(P)
    old = Eng.track_deref
    Eng.track_deref = True
    try:
        A = Actions(P, [num_hook, ft.test_hook, mem.hook_clone])
        for r in sorted(g.prods):
            if r not in A.stmts:
                continue
            p = ft.Prod(g, A, r)
            nm = "production " + " ".join(p.sig)
            try:
                e, outs = A.run(r)
            except Undecided as u:
                c.skip(nm, str(u))
                continue
            c.functions |= e.analysed
            for k, st, v in outs:
                c.paths += 1
                for i, tok in enumerate(p.sig, 1):
                    for t2, m in kinds.items():
                        if st is not None and (tok == t2 or tok == "NEW_ID"):
                            st = e.assume(st, cond(("has", init(F(ft.DRV, m)), p.text(i))), tok == t2)
                if st is None:
                    continue
                judge(P, c, e, st, nm, A.line(r), fields, k == "return")
                c.ok()
    finally:
        Eng.track_deref = old


def changed(st):
    """fields of the object that do not hold what they held"""
    out = []
    for l, x in st.s.items():
        if l[0] in ("ver", "cls", "alloc") or l[0] not in ("F", "E") or root(l)[0] not in ("THIS", "G", "S"):
            continue
        if x != init(l) and not (x[0] == "hv"):
            out.append(l)
    return out


def noop(c, st, name, where, why, io=True):
    pth = showfacts(st)
    ch = changed(st)
    c.expect(not ch, name + ":changes", where, "%s changes %s although %s" % (name, ", ".join(showloc(l) for l in ch[:3]), why), pth)
    ran = [x for x in events(st, "vcall")]
    c.expect(not ran, name + ":evaluates", ran[0][5] if ran else where, "%s evaluates a formula although %s" % (name, why), pth)
    if io:
        op = [x for x in events(st, "io") if x[1] == "open"]
        c.expect(not op, name + ":opens", where, "%s opens a file although %s" % (name, why), pth)


def each(P, c, q, npar):
    f = find1(P, Q + q, npar)
    e, outs = run(P, f)
    c.functions.add(f["id"])
    for k, st, v in outs:
        c.paths += 1
        yield f, e, k, st, v


def arg(f, st, i):
    p = f["params"][i]
    return init(("P", ("sym", "&" + p["n"]))) if is_ref(p["t"]) else ("sym", p["n"])


def refusals(P, c):
    for fn in (online, dumping, evaluating, reading):
        c.guard(fn, P, c)


def needs(c, f, st, name):
    """what is evaluated is evaluated on data"""
    ran = [x for x in events(st, "vcall") if "compute_" in x[1]]
    if ran:
        c.expect(decide(st.f, isempty(init(F(THIS, "data")))) is False, name + ":no-data", ran[0][5], "%s evaluates a formula without knowing that there is data" % name, showfacts(st))


def online(P, c):
    for f, e, k, st, v in each(P, c, "STLDriver::get_online_rob", 2):
        empty = decide(st.f, isempty(init(F(THIS, "data")))) is True
        unknown = decide(st.f, cond(("has", init(F(THIS, "formula_map")), arg(f, st, 0)))) is False
        if not empty and not unknown:
            needs(c, f, st, "get_online_rob")
            continue
        why = "there is no data" if empty else "the formula is not defined"
        noop(c, st, "get_online_rob", fl(f), why)
        if k == "throw":
            continue
        x = e.load_obj(st, v[1], None) if v and v[0] in ("ref", "obj") else v
        if x is not None and x[0] == "obj":
            x = e.load(st, x[1])
        if x is None or has_unknown(x):
            c.skip("get_online_rob", "result %s" % (x,))
            continue
        c.expect(decide(st.f, isempty(x)) is True, "get_online_rob:answers", fl(f), "get_online_rob answers with %s although %s" % (show(x)[:120], why), showfacts(st))


def dumping(P, c):
    for f, e, k, st, v in each(P, c, "STLDriver::dump", 0):
        if decide(st.f, isempty(init(F(THIS, "data")))) is True:
            noop(c, st, "dump", fl(f), "there is no data")
        else:
            needs(c, f, st, "dump")


def evaluating(P, c):
    for n in (0, 1, 2):
        for f, e, k, st, v in each(P, c, "STLMonitor::eval_rob", n):
            if decide(st.f, cond(("isnull", init(F(THIS, "formula"))))) is True:
                noop(c, st, "eval_rob(%d)" % n, fl(f), "no formula is set")
                if k == "return":
                    c.expect(v == init(F(THIS, "rob")), "eval_rob(%d):answers" % n, fl(f), "eval_rob returns %s although no formula is set" % show(v)[:100], showfacts(st))


def reading(P, c):
    for cls, want in (("STLDriver", num(0)), ("STLMonitor", None)):
        for f, e, k, st, v in each(P, c, cls + "::get_param", 1):
            if decide(st.f, cond(("has", init(F(THIS, "param_map")), arg(f, st, 0)))) is not False:
                continue
            noop(c, st, cls + "::get_param", fl(f), "the parameter is not defined")
            c.expect(k == "throw" or want is not None and v == want, cls + "::get_param:answers", fl(f), "%s::get_param answers %s for a parameter that is not defined" % (cls, show(v)[:80] if v else k), showfacts(st))
