"""Parameters: an update changes exactly the named parameter; a read returns the current value."""
from proto import *


def check(P, c):
    c.rule = ("on every path, updating a known parameter leaves the owner's parameter table with exactly that entry replaced and nothing else of the owner changed; an unknown name "
              "is refused (monitor) or changes nothing (driver); reading returns the table's entry; formula nodes look a name up in their owner's table on each request.")
    for owner in ("STLMonitor", "STLDriver"):
        c.guard(upd, P, c, owner)
        c.guard(get, P, c, owner)
    c.guard(node, P, c)
    c.guard(nodeset, P, c)


def run1(P, c, name, f, cls):
    e = Eng(P, [sigops.hook])
    try:
        outs = e.run(f["id"], this=THIS, cls=cls)
    except Undecided as u:
        c.skip(name, str(u))
        return e, []
    c.functions |= e.analysed
    c.paths += len(outs)
    return e, outs


def writes(st):
    return {l: x for l, x in st.s.items() if l[0] in ("F", "G", "E") and root(l)[0] in ("THIS", "G", "S") and x != init(l)}


def upd(P, c, owner):
    name = owner + "::set_param"
    f = find1(P, Q + name, 2)
    w = fl(f)
    e, outs = run1(P, c, name, f, f["cls"])
    key, val = par(f, 0), par(f, 1)
    m = F(THIS, "param_map")
    m0 = init(m)
    for k, st, v in outs:
        pth = showfacts(st)
        if st.imp:
            c.skip(name, "; ".join(st.imp[:2]))
            continue
        has = decide(st.f, cond(("has", m0, key)))
        wr = writes(st)
        others = [l for l in wr if l != m]
        c.expect(not others, name + ":also", w, "updating a parameter also changes %s" % ", ".join(show(("init", l)) for l in others), pth)
        now = e.load(st, m)
        if has is True:
            c.expect(k == "return", name + ":refused", w, "updating a known parameter ends in %s" % k, pth)
            same = decide(st.f, eq(("elem", m0, ("key", key)), val)) is True
            c.expect(now == ("upd", m0, ("key", key), val) or same and now == m0, name + ":value", w, "after the update the table is %s" % show(now)[:160], pth)
        elif has is False:
            c.expect(now == m0, name + ":unknown", w, "an unknown parameter name changes the table: %s" % show(now)[:160], pth)
            if owner == "STLMonitor":
                c.expect(k == "throw", name + ":accepted", w, "an unknown parameter name is accepted silently", pth)
        else:
            c.expect(k == "throw" or now != m0 and False, name + ":unchecked", w, "the update does not depend on whether the parameter exists", pth)


def par(f, i):
    p = f["params"][i]
    return ("init", ("P", ("sym", "&" + p["n"]))) if is_ref(p["t"]) else ("sym", p["n"])


def nodeset(P, c):
    """an update passed on to a formula changes a node only if the node carries that parameter's name"""
    for cls in sorted(P.recs):
        for f in find(P, cls + "::set_param", 2) if P.derives(cls, Q + "transducer") else []:
            if not f.get("body") or f.get("cls") != cls:
                continue
            name = cls[len(Q):] + "::set_param"
            e, outs = run1(P, c, name, f, cls)
            key, val = par(f, 0), par(f, 1)
            for k, st, v in outs:
                pth = showfacts(st)
                if st.imp or k != "return":
                    c.skip(name, "; ".join(st.imp[:1]) or k)
                    continue
                named = any(a[0] == "streq" and b is True and key in a and any(own(x) for x in a[1:] if x != key) for a, b in st.f.items())
                unsure = any(has_unknown(a) or a[0] not in ("streq", "has", "isnull", "isempty", "eq0", "lt0", "itend") for a in st.f)
                for l, x in writes(st).items():
                    if l == F(THIS, "param_map"):
                        continue
                    if not named:
                        if unsure:
                            c.skip(name, "when %s changes is not understood" % showloc(l))
                        else:
                            c.viol(name + ":other", fl(f), "an update of any parameter changes %s of a node that does not carry its name" % showloc(l), pth)
                    elif l == F(THIS, "value"):
                        c.expect(x == val or has_unknown(x), name + ":value", fl(f), "the node's value becomes %s" % show(x)[:80], pth)
                for ev in events(st, "vcall"):
                    if "::set_param(" in ev[1]:
                        a = ev[3]
                        got = [init(y[1]) if isinstance(y, tuple) and y and y[0] == "ref" else y for y in a]
                        if any(has_unknown(y) for y in got):
                            c.skip(name, "what is passed on is not understood")
                        else:
                            c.expect(list(got) == [key, val], name + ":passed", fl(f), "an operand is given the update %s" % ", ".join(show(y)[:40] for y in got), pth)
                c.ok()


def own(x):
    return x[0] == "init" and root(x[1])[0] in ("THIS", "P")


def get(P, c, owner):
    name = owner + "::get_param"
    f = find1(P, Q + name, 1)
    w = fl(f)
    e, outs = run1(P, c, name, f, f["cls"])
    key = par(f, 0)
    m = F(THIS, "param_map")
    for k, st, v in outs:
        pth = showfacts(st)
        if st.imp:
            c.skip(name, "; ".join(st.imp[:2]))
            continue
        c.expect(not writes(st), name + ":writes", w, "reading a parameter changes the owner", pth)
        has = decide(st.f, cond(("has", init(m), key)))
        if has is True:
            c.expect(k == "return" and v == ("elem", init(m), ("key", key)), name + ":value", w, "the value reported is %s" % (show(v)[:120] if v else k), pth)
        elif has is False:
            if owner == "STLMonitor":
                c.expect(k == "throw", name + ":unknown", w, "an unknown parameter name yields %s" % (show(v)[:120] if v else k), pth)
            else:
                c.expect(k == "throw" or v == num(0), name + ":unknown", w, "an unknown parameter name yields %s" % (show(v)[:120] if v else k), pth)
        else:
            c.viol(name + ":unchecked", w, "the result does not depend on whether the parameter exists", pth)


def node(P, c):
    f = find1(P, T + "::get_param", 2)
    w = fl(f)
    e, outs = run1(P, c, "node lookup", f, T)
    key = par(f, 0)
    out = ("P", ("sym", "&" + f["params"][1]["n"]))
    pm = init(F(THIS, "param_map_ptr"))
    for k, st, v in outs:
        pth = showfacts(st)
        if st.imp:
            c.skip("node lookup", "; ".join(st.imp[:2]))
            continue
        has = decide(st.f, cond(("has", init(("P", pm)), key)))
        if k != "return":
            c.viol("lookup:" + k, w, "looking a parameter up ends in " + k, pth)
            continue
        if v == TRUE:
            c.expect(has is True and e.load(st, out) == ("elem", init(("P", pm)), ("key", key)), "lookup:value", w,
                     "a parameter is reported as found with value %s" % show(e.load(st, out))[:120], pth)
        elif v == FALSE:
            c.expect(has is False or decide(st.f, cond(("isnull", pm))) is True, "lookup:missed", w, "a parameter in the table is reported as missing", pth)
        else:
            c.skip("node lookup", "result " + show(v)[:80])
    # no node class answers differently
    for cls in classes(P):
        for q in [cls] + P.bases(cls):
            for g in find(P, q + "::get_param", 2):
                c.expect(g["id"] == f["id"], "lookup:override:" + q, fl(g), "%s looks parameters up on its own" % q)
