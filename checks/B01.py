"""Lower/upper robustness bounds: built from the right bounds of the operands, never from missing data."""
from proto import *

LOW = {
    "not_transducer": lambda lo, up, a, b: neg_(up("child")),
    "and_transducer": lambda lo, up, a, b: ac("and", [lo("childL"), lo("childR")]),
    "or_transducer": lambda lo, up, a, b: ac("or", [lo("childL"), lo("childR")]),
    "implies_transducer": lambda lo, up, a, b: ac("or", [neg_(up("childL")), lo("childR")]),
    "ev_transducer": lambda lo, up, a, b: ("ev", lo("child"), a, b),
    "alw_transducer": lambda lo, up, a, b: ("alw", lo("child"), a, b),
    "until_transducer": lambda lo, up, a, b: ("until", lo("childL"), lo("childR"), a, b),
}
# operators whose bound is only valid where the operands are completely known
CUT = {("and_transducer", "low"), ("or_transducer", "up"), ("implies_transducer", "up"), ("alw_transducer", "low"), ("ev_transducer", "up")}


def check(P, c):
    c.rule = ("on every path of the lower (upper) bound computation of every node, the stored bound signal is the node's operator over the operands' bounds of the right "
              "polarity (flipped under negation), cut to the completely known part where the operator needs it, or the constant BOTTOM (TOP) at the requested time under a "
              "condition that says data is missing; the stored signal is never left empty and the returned number is its first value.")
    for cls in classes(P):
        n = cls[len(Q):]
        for which in ("low", "up"):
            c.guard(one, P, c, cls, n, which)
    c.guard(complete, P, c)


def operands(n, which):
    lo = lambda ch: ("kid", ch, "z_low", "compute_lower_rob")
    up = lambda ch: ("kid", ch, "z_up", "compute_upper_rob")
    if which == "up":
        lo, up = up, lo
    out = set()

    def walk(x):
        if x[0] == "kid":
            out.add(x)
        else:
            for y in x[1:]:
                for q in (y if y and isinstance(y[0], tuple) else [y]):
                    if isinstance(q, tuple) and q and isinstance(q[0], str):
                        walk(q)
    walk(LOW[n](lo, up, num(0), num(0)))
    return out


def missing(V, st, n, okk):
    """does some fact on this path say that information is missing?"""
    for at, tv in st.f.items():
        if at[0] == "isempty" and tv:
            return True
        if at[0] == "lt0":
            t = at[1] if tv else neg(at[1])      # not(t<0): -t<=0
            cst, d = lin(t)
            for x, k in d.items():
                y = V.val(x)
                if k > 0 and y[0] == "endof" and y[1] not in okk:
                    continue
                if k > 0 and (y[0] in ("endof", "end") or (x[0] in ("post", "hv", "init") and isinstance(x[-1], tuple) and x[-1][0] == "F" and x[-1][2] == "endTime")):
                    return True
                if k > 0 and y[0] == "min":
                    return True
                if k > 0 and y[0] == "lin" and any(z[0] == "endof" for z, _ in y[2]):
                    return True
        if at[0] == "eq0" and tv:
            # an operand's bound is the vacuous one
            cst, d = lin(at[1])
            rs = [x for x in d if x[0] == "ret"]
            if rs and TOP in d:
                # vacuous is TOP for an upper bound and BOTTOM (-TOP) for a lower one
                same = (d[TOP] > 0) == (d[rs[0]] > 0)
                if len(rs) == 1 and "compute_upper_rob" in str(rs[0]) and same or len(rs) == 1 and "compute_lower_rob" in str(rs[0]) and not same:
                    continue
                return True
            if any(x[0] == "fld" for x in d) and TOP in d:
                return True
    return False


CONN = ("and_transducer", "or_transducer", "implies_transducer")


def natural(V, got, which, n, a, b, lo, raw):
    """(end of the bound signal as the operator leaves it, time up to which it has to be kept)"""
    et = init(F(THIS, "end_time"))
    if n in CONN:
        ks = [x[1] if x[0] == "not" else x for x in got[1]]
        nat = tmin(*[("endof", k) for k in ks])
        return nat, tmin(nat, et)
    if got[0] in ("ev", "alw"):
        e = ("endof", got[1])
        return sub(e, a), tmin(sub(e, b if (n, which) in CUT else a), et)
    if got[0] == "until":
        t = raw
        while t[0] == "op" and t[1] != "compute_timed_until":
            t = t[2][0][1] if t[2][0][0] == "sig" else t[2][0]
        if t[0] != "op":
            return None, None
        e = V.end(t)
        return (e, tmin(e, et)) if which == "low" else (sub(e, b), tmin(sub(e, b), et))
    return None, None


def complete(P, c):
    """the time up to which a node's signals rest on complete data"""
    for cls in classes(P):
        n = cls[len(Q):]
        timed = n in ("ev_transducer", "alw_transducer")
        for meth, zf in (("get_end_complete", "z"), ("get_end_complete_low", "z_low"), ("get_end_complete_up", "z_up")):
            try:
                f, e, outs = run(P, cls, meth, St())
            except Undecided as u:
                c.skip(n + ":" + meth, str(u))
                continue
            for k, st, v in outs:
                c.paths += 1
                if k != "return" or st.imp:
                    continue
                if timed:
                    b = bound(e, st, "end")
                    if b is None:
                        c.viol(n + ":" + meth, fl(f), "the interval bound is used on a path that never establishes whether it is a parameter", showfacts(st))
                        continue
                    want = sub(e.load(st, F(("P", init(F(THIS, "child"))), zf, "endTime")), b)
                else:
                    want = e.load(st, F(THIS, zf, "endTime"))
                c.expect(v == want, n + ":" + meth, fl(f), "%s is reported as the time up to which %s is complete instead of %s" % (show(v)[:120], zf, show(want)[:120]), showfacts(st))


def one(P, c, cls, n, which):
    meth = "compute_lower_rob" if which == "low" else "compute_upper_rob"
    zf = "z_low" if which == "low" else "z_up"
    vac = BOT if which == "low" else TOP
    vname = "BOTTOM" if which == "low" else "TOP"
    name = n + ":" + which
    st0 = fresh()
    variants = [st0]
    if n not in LOW:
        # leaves may be asked after their robustness has been computed already
        s1 = fresh()
        s1.s[F(THIS, "z", "#c")] = ("init", F(THIS, "z", "#c"))
        s1.s[F(THIS, "z", "endTime")] = ("init", F(THIS, "z", "endTime"))
        s1.s[F(THIS, "z", "beginTime")] = ("init", F(THIS, "z", "beginTime"))
        s1.f[("isempty", init(F(THIS, "z", "#c")))] = False
        variants.append(s1)
    real = 0
    for st0 in variants:
        zc0 = st0.s.get(F(THIS, "z", "#c"))
        zc0 = None if zc0 == ("empty",) else zc0
        try:
            f, e, outs = run(P, cls, meth, st0)
        except Undecided as u:
            c.skip(name, str(u))
            continue
        c.functions |= e.analysed
        w = fl(f)
        zl = F(THIS, zf)
        for k, st, v in outs:
            c.paths += 1
            pth = showfacts(st)
            if k == "crash":
                c.viol(name + ":crash", w, "null dereference", pth)
                continue
            if k == "throw":
                continue
            if st.imp:
                c.skip(name, "; ".join(st.imp[:3]))
                continue
            for oz in (("z_up" if which == "low" else "z_low"),) + (("z",) if n in LOW else ()):
                o0, o1 = e.load(st0.copy(), F(THIS, oz, "#c")), e.load(st, F(THIS, oz, "#c"))
                c.expect(o0 == o1, name + ":other-signal", w, "computing the %s bound changes the node's signal %s" % ("lower" if which == "low" else "upper", oz), pth)
            V = Vocab(P, cls, st)
            raw = e.load(st, F(zl, "#c"))
            got = V.core(raw)
            if got == ("empty",):
                c.viol(name + ":left-empty", w, "the %s bound signal is left empty on a path that returns %s; the enclosing operators read it" % (
                    "lower" if which == "low" else "upper", show(v)[:80]), pth)
                continue
            # returned number
            fv = first_value(e, st, zl)
            eqv = lambda x: v == x or decide(st.f, eq(v, x)) is True
            c.expect(eqv(fv) or eqv(vac) and got[0] == "const" and got[1] == vac, name + ":returned", w,
                     "the returned number (%s) is not the first value of the bound signal (%s)" % (show(v)[:80], show(fv)[:80]), pth)
            if got[0] == "const" and not (n not in LOW and got[1] != vac and raw == e.load(st, F(THIS, "z", "#c"))):
                c.expect(got[1] == vac, name + ":vacuous", w, "where nothing is known the %s bound is %s instead of %s" % (
                    "lower" if which == "low" else "upper", show(got[1]), vname), pth)
                c.expect(got[2] == init(F(THIS, "start_time")), name + ":vacuous-time", w, "the vacuous bound is placed at %s" % show(got[2]), pth)
                zc = e.load(st, F(THIS, "z", "#c"))
                ms = missing(V, st, n, operands(n, which)) if n in LOW else (
                    decide(st.f, lt(e.load(st, F(THIS, "z", "endTime")), init(F(THIS, "start_time")))) is True or decide(st.f, isempty(zc)) is True)
                c.expect(ms, name + ":vacuous-unconditional", w, "the vacuous bound is returned although no condition says that data is missing", pth)
                continue
            real += 1
            if n not in LOW:
                zc = e.load(st, F(THIS, "z", "#c"))
                if raw[0] in ("unk",):
                    c.skip(name, "opaque")
                    continue
                if zc0 is not None:
                    c.expect(zc == zc0, name + ":recomputed", w, "asking for a bound computes the robustness of an already evaluated leaf again", pth)
                c.expect(raw == zc and e.load(st, F(zl, "endTime")) == e.load(st, F(THIS, "z", "endTime")), name + ":value", w,
                         "the bound signal of a leaf is not its robustness signal", pth)
                continue
            if V.unknown:
                c.skip(name, "bound signal not expressible")
                continue
            a = b = None
            timed = any(x["n"] == "I" for _, x in P.all_fields(cls))
            if timed:
                a, b = bound(e, st, "begin"), bound(e, st, "end")
                if a is None or b is None:
                    c.viol(name + ":bound-unresolved", w, "an interval bound is used on a path that never establishes whether it is a parameter", pth)
                    continue
            lo = lambda ch: ("kid", ch, "z_low", "compute_lower_rob")
            up = lambda ch: ("kid", ch, "z_up", "compute_upper_rob")
            if which == "up":
                lo, up = up, lo
            want = LOW[n](lo, up, a, b)
            if not c.expect(got == want, name + ":operator", w, "the %s bound is %s where %s is required" % (
                    "lower" if which == "low" else "upper", show_sig(got), show_sig(want)), pth):
                continue
            if got[0] in ("ev", "alw"):
                reach = [lt(("endof", got[1]), a), lt(e.load(st, F(("P", init(F(THIS, "child"))), zf, "endTime")), a)]
                c.expect(any(decide(st.f, x) is False for x in reach) or leq(a, ("endof", got[1]), V.known()), name + ":unreached", w,
                         "the %s bound is computed on a path where nothing says that the operand is known up to the start of the window" % (
                             "lower" if which == "low" else "upper"), pth)
            # extent
            if raw[0] == "op" and not (raw[1] == "compute_not" and not V.edits):
                if decide(st.f, isempty(raw)) is None and any(at[0] == "lt0" and init(F(THIS, "start_time")) in set(subterms(at[1])) for at in st.f):
                    c.skip(name, "emptiness rests on a comparison of times")
                    continue
                c.expect(decide(st.f, isempty(raw)) is False, name + ":left-empty", w, "the %s bound signal may be left empty when the window lies outside what is known: "
                         "nothing on this path establishes that it has a sample" % ("lower" if which == "low" else "upper"), pth)
            hy = V.known()
            nat, floor = natural(V, got, which, n, a, b, lo, raw)
            if nat is not None:
                for nm, av, t in V.edits:
                    t_ = V.val(av[2])
                    if has_unknown(t_):
                        continue
                    c.expect(leq(floor, t_, hy), name + ":cut-short", w, "the %s bound signal is cut at %s, although it is known up to %s" % (
                        "lower" if which == "low" else "upper", show(t_)[:200], show(floor)[:200]), pth)
                    if (n, which) not in CUT or n in CONN:
                        c.expect(leq(t_, tmax(init(F(THIS, "start_time")), nat), hy), name + ":stretched", w, "the %s bound signal is stretched to %s, beyond what is known (%s)" % (
                            "lower" if which == "low" else "upper", show(t_)[:200], show(nat)[:200]), pth)
            starts = [V.val(av[1]) for nm, av, t in V.edits]
            for s in starts:
                c.expect(s in (init(F(THIS, "start_time")), num(0)), name + ":window-start", w, "the bound signal is cut to start at %s" % show(s), pth)
            for nm, av, t in V.edits:
                c.expect(V.val(av[3]) in (num(0), vac), name + ":fill", w, "the %s bound signal is extended with the value %s" % (
                    "lower" if which == "low" else "upper", show(V.val(av[3]))), pth)
            if (n, which) in CUT:
                ends = [V.val(av[2]) for nm, av, t in V.edits]
                if n in ("and_transducer", "or_transducer", "implies_transducer"):
                    pol = {"childL": lo, "childR": lo}
                    if n == "implies_transducer":
                        pol["childL"] = up
                    lim = tmin(*[("endof", pol[ch](ch)) for ch in ("childL", "childR")])
                    nat = lim       # the operator itself ends where the shorter operand ends
                    okk = all(leq(t, lim, hy) for t in ends) if ends else True
                else:
                    lim = sub(("endof", lo("child")), b)
                    okk = any(leq(t, lim, hy) for t in ends)
                if any(has_unknown(t) for t in ends):
                    c.skip(name, "window end")
                else:
                    c.expect(okk, name + ":partial-data", w,
                             "values that rest on partial data are kept in the %s bound (cut at %s, complete only up to %s)" % (
                                 "lower" if which == "low" else "upper", ", ".join(show(t) for t in ends) or "nothing", show(lim)), pth)
    if not real:
        c.viol(name + ":never-computed", fl(impl(P, cls, meth)), "no path computes the bound from the operands")
