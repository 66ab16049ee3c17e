"""Ownership of heap objects along every path of a function."""
from util import *
import sigops
import kernops

T = Q + "transducer"
GEN = ("stl_parser.cpp", "stl_parser.h", "stl_scanner.cpp", "stack.hh", "FlexLexer.h", "location.hh", "position.hh")


def generated(f):
    return f["file"].split("/")[-1] in GEN


def walk(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            yield from walk(v)
    elif isinstance(n, list):
        for v in n:
            yield from walk(v)


def fresh_call(n):
    """call whose result the caller owns"""
    fn = n.get("fn")
    return n.get("k") in ("Call", "MCall", "MemberCall") and isinstance(fn, dict) and gives(fn)


def gives(fn):
    rt = fn.get("rt", "").replace(" ", "")
    if fn.get("cls") is None and rt == "STLRom::Signal*":
        return True
    return fn["n"] == "clone" and rt.endswith("transducer*")


def targets(P):
    out = []
    names = {fd for _, fd, _ in owned(P)}
    for f in P.funcs.values():
        if generated(f) or not f.get("body") or f.get("lambda") or f["file"].endswith("pybind11/main.cpp"):
            continue
        k = set()
        for n in walk(f["body"]):
            if n.get("k") == "New":
                k.add("new")
            elif n.get("k") == "Delete":
                k.add("delete")
            elif isinstance(n.get("fn"), dict) and n.get("k") not in ("Ref",) and gives(n["fn"]):
                k.add("takes")
        if f.get("ctor") and is_node(P, f.get("cls")) and not f.get("copy") and not f.get("move"):
            k.add("constructor")
        if not f.get("ctor") and not is_node(P, f.get("cls")) and any(p["t"].replace("const ", "").strip() in (T + " *", "transducer *", Q + "interval *") for p in f["params"]):
            k.add("given")
        if f.get("ctor") and (f.get("copy") or f.get("move")) and any(cls == f.get("cls") for cls, _, _ in owned(P)):
            k.add("copies")
        for i in f.get("inits", []):
            for n in walk(i):
                if n.get("k") == "New":
                    k.add("new")
        for n in walk(f["body"]):
            if n.get("k") == "Bin" and n.get("op") == "=" or n.get("k") == "OpCall" and n.get("op") == "=" or n.get("k") == "MCall" and n.get("fn", {}).get("n") in ("clear", "erase", "swap"):
                k0 = (n.get("c") or [n.get("obj")])[0]
                if any(m.get("k") == "Member" and m["n"] in names for m in walk(k0 or {})):
                    k.add("stores")
        if k:
            out.append((f, k))
    return out


def owned(P):
    """(class, field, 'one' | 'map'): formulas, intervals... the class deletes in its destructor"""
    cache = P.__dict__.setdefault("_owned", [])
    if not cache:
        for cls, r in P.recs.items():
            if not cls.startswith(Q) or "Parser" in cls:
                continue
            rel = releases(P, cls)
            for fd in r["fields"]:
                t = fd["t"].replace("const ", "").strip()
                b = t.rstrip("* ").strip()
                if t.endswith("*") and b in P.recs and b.startswith(Q) and fd["n"] in rel:
                    cache.append((cls, fd["n"], "one"))
                elif "map<" in t and (Q + "transducer *") in t and rel:
                    cache.append((cls, fd["n"], "map"))
    return cache


def inside(l):
    while l[0] in ("F", "E"):
        if l[0] == "E":
            return True
        l = l[1]
    return False


def walked(P, c, st, name, ow, dtor=False):
    """a walk over a container of owners that deletes what an element owns forgets it, and the other way round"""
    for lp in [ev for ev in st.trace() if ev[0] == "loop"]:
        for it in lp[2]:
            dels = [z for z in it if z[0] == "delete"]
            stores = [s_ for z in it if z[0] == "itfacts" for s_ in tuple(z[2]) + tuple(z[3])]
            facts = [a for z in it if z[0] == "itfacts" for a in z[1]]
            sets = [y for l, x in stores for y in subterms(x) if y[0] == "setf" and len(y) == 4 and y[2] in ow]
            for z in dels:
                x = z[1]
                if x[0] != "fld" or x[2] not in ow:
                    continue
                c.expect(any(y[1] == x[1] and y[2] == x[2] for y in sets), "%s:%s:dangling" % (name, x[2]), z[2],
                         "%s deletes the %s of every element and leaves it there" % (name, x[2]), ["assuming %s%s" % ("" if t else "not ", show(a)) for a, t in facts])
            if dtor:        # the element deletes it again when the container goes; the object's own tables are not looked at any more
                continue
            for z in dels:
                x = z[1]
                M = x[1] if x[0] == "elem" else None
                M = M[-1] if M and M[0] == "hv" else M
                M = M[1] if M and M[0] == "init" else M
                if not M or M[0] != "F" or ow.get(M[2]) != "map":
                    continue
                now = st.s.get(M)
                nulled = any(l == M and y[0] == "upd" and y[1] == x[1] and y[2] == x[2] for l, y in stores)
                kept = now is None or now == init(M) or now[0] == "hv"
                emptied = any(ev[0] == "clear" and ev[1] in (M, init(M)) for ev in events(st))
                c.expect(nulled or emptied or not kept, "%s:%s:dangling" % (name, M[2]), z[2], "%s deletes the formulas in %s and leaves them there" % (name, M[2]))
            for y in sets:
                o = ("fld", y[1], y[2])
                held = any(w_ == o for l, x in stores for w_ in pointers(x) if x != y)
                c.expect(any(z[1] == o for z in dels) or held or any(t and a == ("isnull", o) for a, t in facts), "%s:%s:overwritten" % (name, y[2]), lp[3],
                         "%s replaces the %s each element owns without releasing it" % (name, y[2]), ["assuming %s%s" % ("" if t else "not ", show(a)) for a, t in facts])


def overwritten(P, c, e, st, name, w, v=None):
    """an owned object that is replaced is released (or handed on) first"""
    ow = {}
    for cls, fd, kind in owned(P):
        ow[fd] = kind
    dels = [x[1] for x in events(st, "delete")]
    pth = showfacts(st)
    walked(P, c, st, name, ow)
    for d in dels:
        if d[0] == "init" and d[1][0] == "F" and ow.get(d[1][2]) == "one" and root(d[1])[0] in ("THIS", "P", "G", "S", "ARG") and not inside(d[1][1]) and decide(st.f, cond(("isnull", d))) is not True:
            c.expect(st.s.get(d[1], d) != d, "%s:%s:dangling" % (name, d[1][2]), w, "%s deletes the %s and leaves it in place" % (name, d[1][2]), pth)
    for l, x in list(st.s.items()):
        if l[0] != "F" or l[2] not in ow or root(l)[0] not in ("THIS", "P", "G", "S", "ARG") or inside(l[1]):
            continue
        old = init(l)
        if x == old:
            continue
        if ow[l[2]] == "one":
            held = any(y == old for k2, y in st.s.items() if k2 != l and k2[0] in ("F", "E")) or v == old
            c.expect(old in dels or held or decide(st.f, cond(("isnull", old))) is True, "%s:%s:overwritten" % (name, l[2]), w,
                     "%s replaces the %s it owns without releasing it" % (name, l[2]), pth)
            continue
        chain, y = [], x
        while y[0] == "upd":
            chain.append(y)
            y = y[1]
        if y == old:
            for u in chain:
                o = ("elem", u[1], u[2])
                k_ = u[2][1] if u[2][0] == "key" else u[2]
                absent = decide(st.f, cond(("has", u[1], k_))) is False
                c.expect(o in dels or u[3] == o or absent or decide(st.f, cond(("isnull", o))) is True, "%s:%s:overwritten" % (name, l[2]), w,
                         "%s replaces a formula held in %s without releasing it" % (name, l[2]), pth)
            continue
        if any(y2 == old for k2, y2 in st.s.items() if k2 != l and k2[0] in ("F", "E")):
            continue
        # everything is let go: every element is deleted (or null) in a walk over the whole map
        done = None
        for lp in [ev for ev in st.trace() if ev[0] == "loop"]:
            its = []
            for it in lp[2]:
                fx = [z for z in it if z[0] == "itfacts"]
                M = [a[-1] for z in fx for a, t in z[1] if a[0] == "itend" and not t]
                M = [m for m in M if m == old or m[0] == "hv" and m[-1] in (old, l)]
                if not M:
                    continue
                hit = any(z[0] == "delete" and z[1][0] == "elem" and z[1][1] in M for z in it)
                nul = any(t and a[0] == "isnull" and a[1][0] == "elem" and a[1][1] in M for z in fx for a, t in z[1])
                its.append(hit or nul)
            if its:
                done = all(its) if done is None else done or all(its)
        if done is None and not any(z[0] in ("clear", "assign", "erase") for z in events(st)) and has_unknown(x):
            c.skip(name, "what happens to %s is not recognised" % l[2])
            continue
        c.expect(bool(done), "%s:%s:dropped" % (name, l[2]), w, "%s lets go of the formulas held in %s without deleting each of them" % (name, l[2]), pth)


def mapof(x, st, ow, l=None):
    """the owned map (location) whose elements x's container is, if it still holds them when the function returns"""
    M = x[1]
    while M[0] == "upd":
        if M[2] == x[2]:
            return None
        M = M[1]
    M = M[-1] if M[0] == "hv" else M
    M = M[1] if M[0] == "init" else M
    if M[0] != "F" or ow.get(M[2]) != "map" or M == l:
        return None
    now = st.s.get(M, init(M))
    while now[0] == "upd" and now[2] != x[2]:
        now = now[1]
    return M if now in (init(M), x[1]) else None


def shared(P, c, e, st, name, w, params=()):
    """no object is owned from two places at once"""
    ow = {}
    for cls, fd, kind in owned(P):
        ow[fd] = kind
    holders, dels = {}, {x[1] for x in events(st, "delete")}
    null = lambda x: x[0] in ("null", "num", "nullptr") or decide(st.f, cond(("isnull", x))) is True
    n = 0
    for l, x in st.s.items():
        if l[0] != "F" or l[2] not in ow or inside(l):
            continue
        r = root(l)[0]
        if r in ("T", "L") and not (st.s.get(("cls", l[1])) and l[2] in releases(P, st.s[("cls", l[1])][1])):
            continue
        if r not in ("THIS", "P", "G", "S", "ARG", "N", "T", "L"):
            continue
        if ow[l[2]] == "map":
            y, ks = x, set()
            while y[0] == "upd":
                if y[2] not in ks:
                    ks.add(y[2])
                    if y[3][0] in ("init", "ptr", "ret", "elem"):
                        holders.setdefault(y[3], set()).add((l, y[2]))
                y = y[1]
            if y[0] == "init" and y[1] != l and y[1][0] == "F" and ow.get(y[1][2]) == "map" and st.s.get(y[1], y) == y and decide(st.f, cond(("isempty", y))) is not True:
                holders.setdefault(y, set()).update((l, y[1]))
        elif x[0] in ("init", "ptr", "ret", "elem", "sym"):
            holders.setdefault(x, set()).add(l)
    for x in list(holders):
        if x[0] == "init" and x[1][0] == "F" and ow.get(x[1][2]) == "one" and not inside(x[1]) and st.s.get(x[1], x) == x:
            holders[x].add(x[1])
        if x[0] == "elem":
            M = mapof(x, st, ow)
            if M:
                holders[x].add((M, x[2]))
        if x in dels or null(x):
            continue
        n += 1
        c.expect(len(holders[x]) < 2, "%s:shared" % name, w, "%s leaves an object owned from two places, %s" % (name, " and ".join(sorted(showplace(h) for h in holders[x]))), showfacts(st))
        if x[0] == "sym" and x[1] in params:
            P.__dict__.setdefault("_adopt", {}).setdefault(name.split("(")[0].split("::")[-1], {})[params.index(x[1])] = (name, w)
    for lp in [ev for ev in st.trace() if ev[0] == "loop"]:
        for it in lp[2]:
            gone = {z[1] for z in it if z[0] == "delete"}
            for z in it:
                if z[0] != "itfacts":
                    continue
                for l, x in tuple(z[2]) + tuple(z[3]):
                    if l[0] != "F" or ow.get(l[2]) != "map" or x[0] != "upd" or x[3][0] != "elem" or x[3] in gone:
                        continue
                    M = mapof(x[3], st, ow, l)
                    n += 1
                    c.expect(not M or any(t and a == ("isnull", x[3]) for a, t in z[1]), "%s:shared" % name, lp[3], "%s puts formulas held in %s into %s as well, and both delete them" % (name, showloc(M) if M else "", showloc(l)))
    return n


def showplace(h):
    return showloc(h) if h[0] in ("F",) or not isinstance(h[0], tuple) else "%s[%s]" % (showloc(h[0]), show(h[1]) if h[1][0] != "F" else "...")


def hook_clone(e, fn, loc, dyn, args, st, fr, n):
    """a clone is a fresh object (judged by C01)"""
    if fn["n"] != "clone" or loc is None or not fn.get("virt"):
        return None
    return e.unknown_virtual(fn, loc, args, st, fr, n)


def releases(P, cls):
    """fields the destructor of cls deletes"""
    cache = P.__dict__.setdefault("_releases", {})
    if cls not in cache:
        out = set()
        for f in P.funcs.values():
            if f.get("cls") == cls and f["id"].endswith("#dtor()") and f.get("body"):
                for n in walk(f["body"]):
                    if n.get("k") == "Delete":
                        out |= {m["n"] for m in walk(n) if m.get("k") == "Member"}
        cache[cls] = out
    return cache[cls]


def pointers(x):
    """values held inside x (what a pointer points to is not held)"""
    stack = [x]
    while stack:
        t = stack.pop()
        if not isinstance(t, tuple) or not t:
            continue
        yield t
        if t[0] not in ("init", "ptr", "ret", "N", "P", "fn", "it", "rit"):
            stack.extend(t)


def owned_at_exit(e, st, v):
    """locations / values reachable after the function returned"""
    keep = set()
    todo = []

    def add(x):
        if x is None:
            return
        for t in pointers(x):
            if t and t[0] == "ptr":
                todo.append(t[1])
            if t and t[0] == "ret":
                keep.add(t)
    add(v)
    if v is not None and v[0] in ("ref", "obj"):
        todo.append(v[1])
    def iters(evs):
        for x in evs:
            if x[0] == "loop":
                for it in x[2]:
                    iters(it)
            elif x[0] == "itfacts":
                for l, y in x[2]:
                    if root(l)[0] in ("THIS", "P", "G", "S"):
                        add(y)
    iters(st.trace())
    by = {}
    for l, x in st.s.items():
        if l[0] in ("ver", "cls", "alloc"):
            continue
        by.setdefault(root(l), []).append(x)
    for r, xs in by.items():
        if r[0] in ("THIS", "P", "G", "S", "ARG"):
            for x in xs:
                add(x)
    # temporaries release what their destructors delete
    for l, x in st.s.items():
        if l[0] == "F" and l[1][0] in ("T", "L") and st.s.get(("cls", l[1])) and l[2] in releases(e.P, st.s[("cls", l[1])][1]):
            add(x)
    seen = set()
    while todo:
        l = root(todo.pop())
        if l in seen:
            continue
        seen.add(l)
        for x in by.get(l, ()):
            add(x)
    return seen, keep


def judge(P, c, f, q=None):
    name = f["q"].replace(Q, "") + ("(%d)" % len(f["params"]))
    me = f["n"]
    ks = set(kernops.KERN) - {me}
    hooks = [kernops.hook(ks), hook_clone, kernops.free(skip=(me,))]
    if f.get("cls") != Q + "Signal":
        hooks.insert(0, sigops.hook)
    else:
        hooks.insert(0, lambda e, fn, loc, dyn, args, st, fr, n: None if fn["id"] == f["id"] else sigops.hook(e, fn, loc, dyn, args, st, fr, n))
    e = Eng(P, hooks)
    try:
        outs = e.run(f["id"], this=THIS if f.get("cls") and not f.get("static") else None, cls=f.get("cls"))
    except Undecided as u:
        c.skip(name, str(u))
        return
    c.functions |= {f["id"]}
    for k, st, v in outs:
        c.paths += 1
        exits(c, e, st, v if k == "return" else None, name, fl(f), k)
        if not st.imp and k == "return" and not f["id"].endswith("#dtor()"):
            shared(P, c, e, st, name, fl(f), () if f.get("ctor") else [p["n"] for p in f["params"]])
        if f["id"].endswith("#dtor()") and not st.imp:
            walked(P, c, st, name, dict((fd, kind) for _, fd, kind in owned(P)), True)
        if not f.get("ctor") and not f["id"].endswith("#dtor()") and not st.imp:
            overwritten(P, c, e, st, name, fl(f), v if k == "return" else None)


def exits(c, e, st, v, name, w, k="return"):
    pth = showfacts(st)
    for x in events(st, "uaf"):
        c.viol(name + ":use-after-delete", x[2], "%s uses an object after deleting it" % name, pth)
    for x in events(st, "doubledelete"):
        c.viol(name + ":double-delete", x[2], "%s deletes an object twice" % name, pth)
    c.ok(2)
    seen, keep = owned_at_exit(e, st, v)
    dels = [x[1] for x in events(st, "delete")]
    if v is not None and v[0] == "ptr" and st.s.get(("alloc", v[1])) == ("str", "deleted"):
        c.viol(name + ":returns-deleted", w, "%s returns an object it deleted" % name, pth)
    for x in events(st, "new"):
        l = x[1]
        dead = ("ptr", l) in dels
        c.expect(dead or l in seen, name + ":leak", x[3], "the %s allocated here is neither deleted, stored nor returned" % x[2].split("::")[-1], pth)
        c.expect(not (dead and l in seen and ptr_live(st, l, v)), name + ":dangling", x[3], "the %s allocated here is deleted but still referred to when %s returns" % (x[2].split("::")[-1], name), pth)
    for x in events(st, "vcall"):
        if x[1].split("(")[0].endswith("::clone"):
            r = ("ret", x[4], "clone", x[2])
            if decide(st.f, cond(("isnull", r))) is True:
                continue
            c.expect(r in keep or r in dels, name + ":leak-clone", x[5], "the copy made here is neither deleted, stored nor returned", pth)


def ptr_live(st, l, v):
    if v == ("ptr", l):
        return True
    for k, x in st.s.items():
        if k[0] not in ("ver", "cls", "alloc") and root(k)[0] in ("THIS", "P", "G", "S") and x == ("ptr", l):
            return True
    return False




# ---------------------------------------------------------------- formula nodes

def is_node(P, cls):
    return cls and (P.derives(cls, T) or cls == T)


def owned_fields(P, cls):
    out = []
    for k, fd in P.all_fields(cls):
        t = fd["t"].strip()
        if t.endswith("*") and not t.startswith("const"):
            b = t.rstrip("* ").strip()
            if b in P.recs and b.startswith(Q):
                out.append((k, fd["n"]))
    return out


def ancestors(P, cls):
    out, todo = [], [cls]
    while todo:
        x = todo.pop(0)
        if x in out:
            continue
        out.append(x)
        for b in P.recs.get(x, {}).get("bases", []):
            todo.append(b["n"] if isinstance(b, dict) else b)
    return out


def nodes(P, c):
    """destroying a node deletes everything it owns once"""
    ran = {}
    for cls in sigops.classes(P):
        n = cls.replace(Q, "")
        cnt = {}
        bad = False
        for a in ancestors(P, cls):
            d = [f for f in P.funcs.values() if f.get("cls") == a and f["id"].endswith("#dtor()") and f.get("body")]
            if not d:
                continue
            f = d[0]
            if f["id"] not in ran:
                e = Eng(P, [sigops.hook])
                try:
                    ran[f["id"]] = (e, e.run(f["id"], this=THIS, cls=a))
                except Undecided as u:
                    ran[f["id"]] = (e, None)
            e, outs = ran[f["id"]]
            c.functions.add(f["id"])
            if outs is None:
                bad = True
                continue
            best = None
            for k, st, v in outs:
                c.paths += 1
                ds = {}
                for x in events(st, "delete", "doubledelete"):
                    if x[0] == "delete":
                        ds[x[1]] = ds.get(x[1], 0) + 1
                for kk, fd in owned_fields(P, cls):
                    if decide(st.f, cond(("isnull", init(F(THIS, fd))))) is True:
                        ds.setdefault(init(F(THIS, fd)), 1)
                best = ds if best is None else {x: min(best.get(x, 0), ds.get(x, 0)) if min(best.get(x, 0), ds.get(x, 0)) == 0 else max(best.get(x, 0), ds.get(x, 0)) for x in set(best) | set(ds)}
            for x, m in (best or {}).items():
                cnt[x] = cnt.get(x, 0) + m
        if bad:
            c.skip(n, "destructor not read")
            continue
        for kk, fd in owned_fields(P, cls):
            m = cnt.get(init(F(THIS, fd)), 0)
            c.expect(m == 1, "%s:%s:freed" % (kk.replace(Q, ""), fd), "%s:%s" % (P.recs[kk]["file"], P.recs[kk]["line"]), "destroying a %s deletes its %s %d times" % (n, fd, m))


def virtual_dtors(P, c):
    """an object deleted through a pointer to a base class needs a virtual destructor there"""
    for f in P.funcs.values():
        if not f.get("body"):
            continue
        for n in walk(f["body"]):
            if n.get("k") != "Delete":
                continue
            t = n.get("dt")
            r = P.recs.get(t)
            if not r or not t.startswith(Q):
                continue
            c.expect(not n.get("arr"), "%s:array-delete:%s" % (f["q"].replace(Q, ""), t.replace(Q, "")), "%s:%s" % (f["file"], n["l"]), "a single %s is deleted as an array" % t.replace(Q, ""))
            if not any(P.derives(x, t) for x in P.recs if x != t):
                continue
            vd = any(m.get("dtor") and m.get("virt") for a in ancestors(P, t) for m in P.recs.get(a, {}).get("methods", []) if m.get("dtor"))
            c.expect(vd, "virtual-destructor:" + t.replace(Q, ""), "%s:%s" % (r["file"], r["line"]), "%s is deleted through a pointer to %s, whose destructor is not virtual: what derived classes own is not released" % ("a formula" if t == T else "an object", t.replace(Q, "")))


# ---------------------------------------------------------------- parser operands

PTRS = ("stringVal", "transducer_ptr", "interval_ptr", "param_map_ptr")


def parser(P, c):
    import formula_text as ft
    from gram import Actions, Lex, num_hook, RES
    g, A = ft.load_grammar(P, c)
    if g is None:
        return
    A = Actions(P, [num_hook, ft.test_hook, hook_clone])
    L = Lex(P)
    num_ = {v: k for k, v in g.names.items()}
    carries = {}
    runs = {}
    for r in sorted(g.prods):
        if r not in A.stmts:
            continue
        try:
            runs[r] = A.run(r)
        except Undecided as u:
            c.skip("production " + g.show(r), str(u))
            continue
        for k, st, v in runs[r][1]:
            for l, x in st.s.items():
                if l[0] == "F" and l[1] == F(RES, "value") and l[2] in PTRS:
                    carries.setdefault(g.prods[r][0], set()).add(l[2])
    # unit productions without an action hand on what they derive
    ch = True
    while ch:
        ch = False
        for r, (lhs, rhs) in g.prods.items():
            if r not in A.stmts and rhs:
                for f_ in carries.get(rhs[0], ()):
                    if f_ not in carries.setdefault(lhs, set()):
                        carries[lhs].add(f_)
                        ch = True
    for r in L.stmts:
        try:
            e, outs = L.run(r)
        except Undecided:
            continue
        for k, st, v in outs:
            if k != "return" or v is None or not any(l[0] == "F" and l[2] == "stringVal" for l in st.s):
                continue
            for t in subterms(v):
                if t[0] == "enum":
                    nm = t[1].split("::")[-1]
                    if nm in num_:
                        carries.setdefault(num_[nm], set()).add("stringVal")
    c.sites.append("symbols carrying heap values: " + ", ".join("%s(%s)" % (g.sym(s), "/".join(sorted(x))) for s, x in sorted(carries.items())))
    destroys(P, c, g, carries)
    for r, (e, outs) in sorted(runs.items()):
        lhs, rhs = g.prods[r]
        p = ft.Prod(g, A, r)
        nm = "production " + " ".join(g.sym(x) if x < g.ntok else "_" for x in rhs)
        c.functions |= e.analysed
        for k, st, v in outs:
            c.paths += 1
            pth = showfacts(st)
            if k == "crash":
                continue
            if st.imp:
                c.skip(nm, "; ".join(st.imp[:2]))
                continue
            exits(c, e, st, None, nm, A.line(r), k)
            overwritten(P, c, e, st, nm, A.line(r))
            if k == "return":
                shared(P, c, e, st, nm, A.line(r))
            gone = {x[1] for x in events(st, "delete")}
            for x in events(st, "reg"):
                for i, who in P.__dict__.get("_adopt", {}).get(x[1], {}).items():
                    if i < len(x[3]):
                        c.expect(x[3][i] not in gone, "%s:adopted" % nm, who[1], "%s keeps or releases the formula it is given, which the parser action \"%s\" deletes" % (who[0], g.show(r)), pth)
            seen, keep = reach(st)
            wrote = any(l[0] == "F" and l[1] == F(RES, "value") for l in st.s)
            dels = [x[1] for x in events(st, "delete")]
            for i, s in enumerate(rhs, 1):
                for fld in sorted(carries.get(s, ())):
                    val = p.d(i, fld)
                    isn = decide(st.f, cond(("isnull", val))) is True
                    n = dels.count(val)
                    kept = val in keep or (i == 1 and not wrote and k != "throw" and fld in carries.get(lhs, ()))
                    if n > 1:
                        c.viol("%s:$%d:twice" % (nm, i), A.line(r), "in \"%s\" the %s of %s is deleted %d times" % (g.show(r), fld, g.sym(s), n), pth)
                    elif n and kept:
                        c.viol("%s:$%d:dangling" % (nm, i), A.line(r), "in \"%s\" the %s of %s is deleted but still referred to" % (g.show(r), fld, g.sym(s)), pth)
                    else:
                        c.expect(n or kept or isn, "%s:$%d:leak%s" % (nm, i, ":error" if k == "throw" else ""), A.line(r),
                                 "in \"%s\" the %s of %s (operand %d) is neither released nor handed on%s" % (g.show(r), fld, g.sym(s), i, " when the text is refused" if k == "throw" else ""), pth)


def destroys(P, c, g, carries):
    """symbols discarded after a syntax error release what they carry"""
    from gram import cases_of, switch_of
    fs = [f for f in P.funcs.values() if f["n"] == "yy_destroy_" and f.get("body")]
    if not fs:
        c.skip("discarded symbols", "yy_destroy_ not found")
        return
    f = fs[0]
    sw = switch_of(f)
    frees = {}
    for lab, xs in cases_of(sw).items():
        frees[lab] = [m["n"] for x in xs for d in walk(x) if d.get("k") == "Delete" for m in walk(d) if m.get("k") == "Member" and m["n"] in PTRS]
    if not frees:
        c.skip("discarded symbols", "no cases found")
        return
    c.functions.add(f["id"])
    for s, fields in sorted(carries.items()):
        nm = g.sym(s)
        for fd in sorted(fields):
            n = frees.get(s, []).count(fd)
            c.expect(n == 1, "discard:%s:%s" % (nm, fd), fl(f), "when the parser discards a symbol %s after a syntax error, its %s is deleted %d times" % (nm, fd, n))
        other = [x for x in frees.get(s, []) if x not in fields]
        c.expect(not other, "discard:%s:wrong" % nm, fl(f), "when the parser discards a symbol %s it deletes its %s, which it does not carry" % (nm, ", ".join(other)))
    for s in frees:
        if s is not None and s not in carries:
            c.expect(not frees[s], "discard:%s:wrong" % s, fl(f), "when the parser discards symbol %s it deletes a value it does not carry" % s)


def reach(st):
    """values reachable from the result, the driver and new objects"""
    keep = set()
    live = {l for l, x in ((k[1], x) for k, x in st.s.items() if k[0] == "alloc") if x == ("str", "live")}
    for l, x in st.s.items():
        if l[0] in ("ver", "cls", "alloc"):
            continue
        r = root(l)
        if r[0] in ("THIS", "P", "G", "S") or r[0] == "N" and r in live:
            for t in pointers(x):
                keep.add(t)
    return live, keep


def bitwise(P, c):
    """an owner is never copied member by member, which leaves two objects deleting the same one"""
    for cls in sorted({x for x, _, _ in owned(P)}):
        if is_node(P, cls):
            continue
        nm = cls.replace(Q, "")
        for what, pat in (("copy construction", "::#ctor(const %s &)" % cls), ("assignment", "::operator=(const %s &)" % cls)):
            fs = [f for f in P.funcs.values() if f.get("cls") == cls and f["id"].endswith(pat)]
            bad = [f for f in fs if not f.get("deleted") and (f.get("implicit") or f.get("defaulted"))]
            c.expect(not bad, "%s:%s:bitwise" % (nm, what.split()[-1]), fl(bad[0]) if bad else "", "%s of %s copies the pointers it deletes, so two objects delete the same one" % (what, nm))


def check(P, c):
    for f, k in sorted(targets(P), key=lambda x: (x[0]["file"], x[0]["line"])):
        c.guard(judge, P, c, f, f["q"])
        c.sites.append("%s %s (%s)" % (fl(f), f["q"], ", ".join(sorted(k))))
    c.guard(bitwise, P, c)
    c.guard(nodes, P, c)
    c.guard(virtual_dtors, P, c)
    c.guard(parser, P, c)
