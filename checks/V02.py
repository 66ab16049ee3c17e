"""Semantics and interpolation settings: names and modes correspond one to one, unknown names are refused."""
from proto import *

TABLES = {"semantics": ("Semantics", ["SPACE", "LEFT_TIME", "RIGHT_TIME"]), "interpol": ("Interpol", ["PREVIOUS", "LINEAR"])}
OWNERS = ["Signal", "STLDriver", "STLMonitor"]


def enumval(P, enum, name):
    from calls import walk
    for f in P.funcs.values():
        for b in (f.get("body"), f.get("inits")):
            for n in walk(b):
                if n.get("k") == "Ref" and n.get("rk") == "enum" and n.get("q") == Q + enum + "::" + name:
                    return ("enum", n["q"], n["iv"])
    raise Broken("enumerator vanished: %s::%s" % (enum, name))


def check(P, c):
    c.rule = ("in each of the three owners of settings, for every accepted name the setter stores exactly the mode of that name and nothing else, any other name "
              "is refused with an exception and stores nothing, the getter returns for every mode exactly its name; the setters and getters of one owner use the same variable.")
    for owner in OWNERS:
        for fld, (enum, names) in TABLES.items():
            vals = {n: enumval(P, enum, n) for n in names}
            c.expect(len({v[2] for v in vals.values()}) == len(names), "%s:distinct" % enum, "include/signal.h", "two modes have the same value")
            loc = ("G", SIG + "::" + fld) if owner == "Signal" else F(THIS, fld)
            c.guard(setter, P, c, owner, fld, loc, vals)
            c.guard(getter, P, c, owner, fld, loc, vals)


def setter(P, c, owner, fld, loc, vals):
    name = "%s::set_%s" % (owner, fld)
    f = find1(P, Q + name, 1)
    e = Eng(P)
    try:
        outs = e.run(f["id"], this=THIS, cls=f.get("cls"))
    except Undecided as u:
        c.skip(name, str(u))
        return
    c.functions |= e.analysed
    w = fl(f)
    done = set()
    arg = ("init", ("P", ("sym", "&" + f["params"][0]["n"])))
    for k, st, v in outs:
        c.paths += 1
        pth = showfacts(st)
        if st.imp:
            c.skip(name, "; ".join(st.imp[:2]))
            return
        eq, other = None, []
        for a, tv in st.f.items():
            if a[0] == "streq":
                lit = [x for x in a[1:] if x[0] == "str"]
                if tv and lit and arg in a[1:]:
                    eq = lit[0][1]
            else:
                other.append(a)
        if any(has_unknown(a) for a in st.f) or other:
            c.skip(name, "decided by something other than the name")
            return
        wr = {l: x for l, x in st.s.items() if l[0] in ("F", "G", "E") and root(l)[0] in ("THIS", "G", "S", "P") and x != init(l)}
        if eq in vals:
            if k != "return":
                c.viol("%s:%s:refused" % (name, eq), w, "the name %s is refused" % eq, pth)
                done.add(eq)
                continue
            got = e.load(st, loc)
            c.expect(got == vals[eq], "%s:%s" % (name, eq), w, "the name %s selects mode %s instead of %s" % (eq, show(got), show(vals[eq])), pth)
            c.expect(set(wr) <= {loc}, "%s:%s:also" % (name, eq), w, "selecting %s also changes %s" % (eq, ", ".join(show(("init", l)) for l in wr if l != loc)), pth)
            done.add(eq)
        else:
            c.expect(k == "throw", "%s:accepts" % name, w, "%s is accepted" % ("the name " + repr(eq) if eq is not None else "an unknown name"), pth)
            c.expect(not wr, "%s:changes" % name, w, "refusing a name changes %s" % ", ".join(show(("init", l)) for l in wr), pth)
    for n in vals:
        c.expect(n in done, "%s:%s:missing" % (name, n), w, "the name %s is not recognised" % n)


def getter(P, c, owner, fld, loc, vals):
    name = "%s::get_%s" % (owner, fld)
    f = find1(P, Q + name, 0)
    w = fl(f)
    for n, iv in vals.items():
        st = St()
        st.s[loc] = iv
        e = Eng(P)
        try:
            outs = e.run(f["id"], this=THIS, cls=f.get("cls"), st=st)
        except Undecided as u:
            c.skip(name, str(u))
            return
        c.functions |= e.analysed
        for k, s2, v in outs:
            c.paths += 1
            if s2.imp or (v is not None and has_unknown(v)):
                c.skip(name, "opaque")
                continue
            if k == "return" and v[0] in ("ref", "obj"):
                v = e.load(s2, v[1])
            c.expect(k == "return" and v == ("str", n), "%s:%s" % (name, n), w, "mode %s is reported as %s" % (n, show(v) if v else k))
            wr = [l for l, x in s2.s.items() if l[0] in ("F", "G", "E") and root(l)[0] in ("THIS", "G", "S") and x != init(l) and l != loc]
            c.expect(not wr and s2.s.get(loc) == iv, "%s:writes" % name, w, "reading the setting changes it")
