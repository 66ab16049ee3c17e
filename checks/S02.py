"""Predicates and signal expressions compute the value they denote at every sample."""
from proto import *


def check(P, c):
    c.rule = ("for each predicate and arithmetic node, every iteration of the sample loop appends exactly one sample whose time is the operands' sample time and "
              "whose value is, as a linear/product normal form, the denoted combination of the operands' values at the same position; signal and constant "
              "leaves read the column of their own name and the current parameter value, row after row from the first not yet read until the trace ends or the window is passed, and cut the result to the window; time semantics apply the matching time-robustness operator.")
    cl = classes(P)
    for n in ("stl_atom", "plus_transducer", "minus_transducer", "mult_transducer", "abs_transducer", "signal_transducer", "constant_transducer"):
        if Q + n not in cl:
            c.skip(n, "expression class vanished")
            continue
        c.guard(node, P, c, n)


def node(P, c, n):
    f, e, outs = run(P, Q + n, "compute_robustness", fresh())
    c.functions |= e.analysed
    c.paths += len(outs)
    leaf(P, c, n, f, e, outs) if n in ("signal_transducer", "constant_transducer") else inner(P, c, n, f, e, outs)


def sample(V, t, fld):
    """(child, position) when t is field fld of a sample of a child's computed z"""
    if t[0] == "fld" and t[2] == fld and t[1][0] == "elem":
        s = V.core(t[1][1])
        if s[0] == "kid" and s[2] == "z":
            return s[1], t[1][2], s[3]
    return None


def leaves(V, t, fld):
    out = []
    for x in subterms(t):
        r = sample(V, x, fld)
        if r:
            out.append((x, r))
    return out


def appends(st, z):
    """[(facts, append events)] for loop iterations and straight-line code"""
    groups = []

    def go(evs, top):
        mine = [x for x in evs if x[0] == "append" and x[1] == z]
        fs = {}
        for x in evs:
            if x[0] == "itfacts":
                fs.update(dict(x[1]))
        if not top or mine:
            groups.append((top, fs, mine, [x for x in evs if x[0] in ("itderef", "itstep", "index")]))
        for x in evs:
            if x[0] == "loop":
                for it in x[2]:
                    go(it, False)
    go(st.trace(), True)
    return groups


def inner(P, c, n, f, e, outs):
    cls = Q + n
    w = fl(f)
    kids = children(P, cls)
    z = F(THIS, "z")
    comp = init(F(THIS, "comp"))
    LT = next((x for x in subterms_enum(P, "LESSTHAN")), None)
    for k, st, v in outs:
        pth = showfacts(st)
        if k == "crash":
            c.viol(n + ":crash", w, "null dereference during evaluation", pth)
            continue
        if k == "throw":
            continue
        if st.imp:
            c.skip(n, "; ".join(st.imp[:3]))
            continue
        V = Vocab(P, cls, st)
        gs = appends(st, z)
        if not gs:
            if not any(x[0] == "loop" for x in st.trace()):
                c.viol(n + ":no-samples", w, "a path of the evaluation produces no samples", pth)
            continue
        for top, fs, ap, steps in gs:
            if not ap and not steps:
                continue
            if top:
                c.skip(n, "sample appended outside the sample loop")
                continue
            if not c.expect(len(ap) == 1, n + ":one-sample", w, "an iteration of the sample loop produces %d samples" % len(ap), pth):
                continue
            t, val, der = ap[0][2]
            wh = ap[0][3]
            facts = dict(st.f)
            facts.update(fs)
            pr = leaves(V, t, "time")
            c.expect(len(pr) == 1 and pr[0][0] == t and pr[0][1][2] == "compute_robustness", n + ":time", wh,
                     "the sample time is not the operand's sample time: %s" % show(t)[:200], pth)
            lv = {ch: (x, pos, prod) for x, (ch, pos, prod) in leaves(V, val, "value")}
            if has_unknown(val) and not lv:
                c.skip(n, "value " + show(val)[:80])
                continue
            if not c.expect(set(lv) == set(kids) and all(p[2] == "compute_robustness" for p in lv.values()), n + ":operands", wh,
                            "the sample value does not combine the freshly computed values of %s: %s" % (" and ".join(kids), show(val)[:200]), pth):
                continue
            poss = {p[1] for p in lv.values()} | {r[1] for _, r in pr}
            c.expect(len(poss) == 1, n + ":position", wh, "operands are combined at different sample positions", pth)
            full = {p for p in poss if isinstance(p, tuple) and p[0] == "any"} or any(isinstance(p, tuple) and p[0] in ("hv", "off") for p in poss)
            L = lv[kids[0]][0]
            R = lv[kids[-1]][0]
            okv, want = True, None
            if n == "plus_transducer":
                want = add(L, R)
            elif n == "minus_transducer":
                want = sub(L, R)
            elif n == "mult_transducer":
                want = mul(L, R)
            elif n == "abs_transducer":
                s = decide(facts, lt(L, num(0)))
                good = [("fabs", L), tmax(L, neg(L))]
                if s is True:
                    good.append(neg(L))
                if s is False:
                    good.append(L)
                if decide(facts, lt(num(0), L)) is False:
                    good.append(neg(L))
                if decide(facts, lt(num(0), L)) is True:
                    good.append(L)
                okv = val in good
                want = ("fabs", L)
            else:
                isl = decide(facts, eq(comp, LT)) if LT else None
                if isl is None:
                    c.viol(n + ":comparison", wh, "the comparison direction of the predicate is not consulted", pth)
                    continue
                want = sub(R, L) if isl else sub(L, R)
                if der != num(0):
                    ld = {ch: x for x, (ch, pos, prod) in leaves(V, der, "derivative")}
                    if set(ld) == set(kids):
                        wd = sub(ld[kids[-1]], ld[kids[0]]) if isl else sub(ld[kids[0]], ld[kids[-1]])
                        c.expect(der == wd, n + ":slope", wh, "the slope of the predicate signal is %s" % show(der)[:160], pth)
            if n != "abs_transducer":
                okv = val == want
            c.expect(okv, n + ":value", wh, "the sample value is %s where %s is required" % (show(val)[:200], show(want)[:200]), pth)
        if n == "stl_atom":
            sem(P, c, n, w, V, e, st, z, pth)
        if k == "return":
            c.expect(ret_is_first(e, st, z, v), n + ":returned", w, "the returned number is not the first value of the resulting signal", pth)
    c.sites.append("%s: %s, %d paths" % (n, w, len(outs)))


def subterms_enum(P, name):
    """enum constant term ('enum', q, value) by unqualified name"""
    out = []

    def walk(x):
        if isinstance(x, dict):
            if x.get("k") == "Ref" and x.get("rk") == "enum" and x["q"].split("::")[-1] == name:
                out.append(("enum", x["q"], x["iv"]))
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    for f in P.funcs.values():
        walk(f.get("body"))
        for i in f.get("inits", []):
            walk(i)
        if out:
            break
    return out


def sem(P, c, n, w, V, e, st, z, pth):
    g = init(("G", SIG + "::semantics"))
    names = {}
    for nm in ("SPACE", "LEFT_TIME", "RIGHT_TIME"):
        en = subterms_enum(P, nm)
        if not en:
            raise Broken("semantics value vanished: " + nm)
        names[nm] = en[0]
    which = [nm for nm, t in names.items() if decide(st.f, eq(g, t)) is True]
    if len(which) != 1:
        c.viol(n + ":semantics", w, "the predicate's result does not depend on the selected semantics on some path", pth)
        return
    ops = [x for x in events(st, "sigop") if x[2] == z and x[1] not in ("resize", "simplify")]
    want = {"SPACE": None, "LEFT_TIME": "compute_left_time_rob", "RIGHT_TIME": "compute_right_time_rob"}[which[0]]
    got = [x[1] for x in ops]
    c.expect(got == ([want] if want else []), n + ":semantics-" + which[0], w,
             "under %s semantics the predicate applies %s" % (which[0], ", ".join(got) or "nothing"), pth)
    if want and ops:
        a = ops[0][3][0]
        c.expect(a[0] == "sig" and a[1][0] in ("hv", "append"), n + ":semantics-input", w,
                 "the time-robustness operator is not applied to the predicate's own signal", pth)


def reading(c, n, w, e, st, z, D, pth):
    """the leaf takes the rows one by one from where it is, to the end of the window or of the trace, and cuts the result to the window"""
    lps = [x for x in st.trace() if x[0] == "loop" and any(y[0] == "append" and y[1] == z for it in x[2] for y in it)]
    col = ("elem", init(F(THIS, "signal_map")), ("key", init(F(THIS, "variable"))))
    START, END = init(F(THIS, "start_time")), init(F(THIS, "end_time"))
    if not lps:
        if any(x[0] == "append" and x[1] == z for x in st.trace()):
            c.skip(n, "rows are not read in a loop")
            return
        none = n == "signal_transducer" and decide(st.f, eq(col, num(0))) is True or decide(st.f, cond(("truth", col))) is False or decide(st.f, isempty(init(D))) is True \
            or n == "signal_transducer" and decide(st.f, cond(("has", init(F(THIS, "signal_map")), init(F(THIS, "variable"))))) is False \
            or left(st.f, init(F(THIS, "td_idx")), size(init(D))) is False
        c.expect(none, n + ":unread", w, "a path of the evaluation reads no row of the trace", pth)
        return
    if len(lps) > 1:
        c.skip(n, "rows are read in more than one loop")
        return
    lp = lps[0]
    rec = next((r for r in e.loops if r[2] == lp[1]), None)
    aps = [y for it in lp[2] for y in it if y[0] == "append" and y[1] == z]
    t = aps[0][2][0]
    idx = t[1][2] if t[0] == "elem" and t[1][0] == "elem" and t[1][1] == init(D) else None
    loc = next((l for l, h in rec[3].items() if h == idx), None) if rec and idx else None
    if loc is None:
        c.skip(n, "position in the trace not recognised")
        return
    hv, back = rec[3], rec[7]
    rows = size(init(D))
    for s in back:
        p = ["assuming %s%s" % ("" if b else "not ", show(a)) for a, b in s.f.items() if rec[5].get(a) != b]
        c.expect(left(s.f, idx, rows) is True or going(lp, hv, s, back, loc, rows), n + ":beyond", w, "a row is read without knowing that the trace has it", p)
        c.expect(sub(s.s.get(loc, idx), idx) == num(1), n + ":next", w, "after a row the position in the trace moves by %s instead of 1" % show(sub(s.s.get(loc, idx), idx)), p)
    base = dict(lp[4]).get(loc)
    ahead = [x for x in st.trace()[:st.trace().index(lp)] if x[0] == "append" and x[1] == z]
    i0 = init(F(THIS, "td_idx"))
    if len(ahead) == 1 and base == add(i0, num(1)):     # the first round is written out
        if ahead[0][2][0] == ("elem", ("elem", init(D), i0), num(0)):
            c.expect(left(st.f, i0, rows) is True, n + ":beyond", w, "a row is read without knowing that the trace has it", pth)
            base = i0
    c.expect(base == i0, n + ":first", w, "reading starts at row %s instead of the first row not yet read" % (show(base) if base else "?"), pth)
    last = [h for l, h in hv.items() if l[0] != "ver" and (l == F(z, "endTime") or all(s.s.get(l) == t for s in back))]
    last.append(t)

    def over_(f, s=None):
        return left(f, idx if s is None else s.s.get(loc, idx), rows) is False or any(decide(f, lt(x, END)) is False or decide(f, lt(END, x)) is True for x in last)
    c.expect(over_(st.f) or flagged(hv, st, back, over_), n + ":stops", w,
             "reading stops although neither the trace nor the window has ended", pth)
    # the cut
    ops = [x for x in events(st, "sigop") if x[2] == z]
    if not ops or ops[-1][1] != "resize" or len(ops) > 1:
        c.skip(n, "the cut to the window is not a single resize")
        return
    sg, a, b = ops[-1][3][:3]
    if sg[0] != "sig":
        c.skip(n, "signal before the cut not recognised")
        return
    ze = sg[3]
    over = any(decide(st.f, lt(END, x)) is True for x in last)
    inside = any(decide(st.f, lt(END, x)) is False for x in last)
    own = hv.get(F(z, "endTime"))
    if ze[0] == "end" and ze[1][0] == "append":
        own = ze        # left from inside a round
    c.expect(ze in (END, tmin(own, END)) if over else ze in (own, tmin(own, END)) or ze == END and any(decide(st.f, eq(x, END)) is True for x in last) if inside else ze == tmin(own, END),
             n + ":end", w, "the signal is taken to end at %s" % show(ze)[:120], pth)
    full = decide(st.f, lt(START, ze))
    if full is None:
        full = cnot_(decide(st.f, lt(ze, START)))
    if full is None:
        ok = a in (tmin(START, ze),) and b in (ze, tmax(START, ze))
    elif full:
        ok = a == START and b in (tmax(START, ze), ze)
    else:
        ok = a in (ze, tmin(START, ze)) and b in (ze, tmin(START, ze))
    c.expect(ok, n + ":cut", w, "the signal is cut to [%s, %s]" % (show(a)[:80], show(b)[:80]), pth)


def left(f, idx, rows):
    """idx < rows, for whole numbers"""
    for q in (lt(idx, rows), le(add(idx, num(1)), rows)):
        d = decide(f, q)
        if d is not None:
            return d
    d = decide(f, eq(idx, rows))        # positions move by one and never pass the end
    return None if d is None else not d


def going(lp, hv, s, back, loc, rows):
    """a flag that keeps the loop going says that the trace has another row"""
    base = dict(lp[4])

    def says(v, f, i):
        if v == ("bool", False):
            return True
        if v is not None and v[0] == "cond":
            f = dict(f)
            f[v[1]] = v[2]
        elif v != ("bool", True):
            return False
        return left(f, i, rows) is True
    for l, h in hv.items():
        if l[0] == "ver" or not isinstance(h, tuple) or decide(s.f, cond(("truth", h))) is not True:
            continue
        if says(base.get(l), s.f, base.get(loc)) and all(says(b.s.get(l, h), b.f, b.s.get(loc, hv[loc])) for b in back):
            return True
    return False


def flagged(hv, st, back, holds):
    """a flag of the loop is set on the way out: what it says was established in the round before"""
    for l, h in hv.items():
        if l[0] == "ver" or not isinstance(h, tuple):
            continue
        b = decide(st.f, cond(("truth", h)))
        if b is None:
            continue
        ok = bool(back)
        for s in back:
            v = s.s.get(l)
            if v == ("bool", not b):
                continue
            if v is None or v[0] != "cond":
                ok = v is not None and v[0] == "bool" and (holds(s.f) or holds(s.f, s))
            else:
                f = dict(s.f)
                f[v[1]] = v[2] == b
                ok = holds(f) or holds(f, s)
            if not ok:
                break
        if ok:
            return True
    return False


def cnot_(b):
    return None if b is None else not b


def leaf(P, c, n, f, e, outs):
    w = fl(f)
    z = F(THIS, "z")
    D = ("P", init(F(THIS, "trace_data_ptr")))
    for k, st, v in outs:
        pth = showfacts(st)
        if k != "return":
            continue
        if st.imp:
            c.skip(n, "; ".join(st.imp[:3]))
            continue
        reading(c, n, w, e, st, z, D, pth)
        vals = {ap[2][1] for top, fs, aps, steps in appends(st, z) for ap in aps}
        if vals:
            c.expect(ret_is_first(e, st, z, v) or vals == {v}, n + ":returned", w, "the returned number (%s) is not the first value of the resulting signal" % show(v)[:120], pth)
        for top, fs, ap, steps in appends(st, z):
            if top and not ap:
                continue
            if not c.expect(len(ap) == 1, n + ":one-sample", w, "an iteration of the sample loop produces %d samples" % len(ap), pth):
                continue
            t, val, der = ap[0][2]
            wh = ap[0][3]
            row = t[1] if t[0] == "elem" else None
            c.expect(t[0] == "elem" and t[2] == num(0) and row[0] == "elem" and row[1] == init(D), n + ":time", wh,
                     "the sample time is not the first column of a data row: %s" % show(t)[:160], pth)
            if n == "signal_transducer":
                sm = F(THIS, "signal_map")
                col = ("elem", init(sm), ("key", init(F(THIS, "variable"))))
                c.expect(val == ("elem", row, col), n + ":value", wh,
                         "the sample value is not the column mapped to the signal's name in the same row: %s" % show(val)[:200], pth)
            else:
                pm = init(F(THIS, "param_map_ptr"))
                par = init(F(THIS, "param"))
                m = init(("P", pm))
                cur = ("elem", m, ("key", par))
                ise = decide(st.f, streq(par, ("str", "")))
                has = decide(st.f, cond(("has", m, par)))
                isn = decide(st.f, cond(("isnull", pm)))
                own = init(F(THIS, "value"))
                if ise is True:
                    c.expect(val == own, n + ":literal", wh, "a literal evaluates to %s" % show(val)[:160], pth)
                elif ise is False and has is True and isn is False:
                    c.expect(val == cur, n + ":parameter", wh, "a parameter evaluates to %s instead of its current value" % show(val)[:160], pth)
                elif ise is False and (has is False or isn is True):
                    c.expect(val in (num(0), own), n + ":undefined-parameter", wh, "an undefined parameter evaluates to %s" % show(val)[:160], pth)
                else:
                    if val != cur:
                        c.viol(n + ":unresolved", wh, "a value is produced without establishing whether it is a parameter", pth)
    c.sites.append("%s: %s, %d paths" % (n, w, len(outs)))
