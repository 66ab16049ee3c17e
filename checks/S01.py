"""Connectives and temporal operators compute the operator they stand for."""
from proto import *

SPEC = {
    "not_transducer": lambda k, a, b: neg_(k("child")),
    "and_transducer": lambda k, a, b: ac("and", [k("childL"), k("childR")]),
    "or_transducer": lambda k, a, b: ac("or", [k("childL"), k("childR")]),
    "implies_transducer": lambda k, a, b: ac("or", [neg_(k("childL")), k("childR")]),
    "ev_transducer": lambda k, a, b: ("ev", k("child"), a, b),
    "alw_transducer": lambda k, a, b: ("alw", k("child"), a, b),
    "until_transducer": lambda k, a, b: ("until", k("childL"), k("childR"), a, b),
}


def check(P, c):
    c.rule = ("for each logical and temporal node, on every path the resulting signal is, in the signal algebra modulo De Morgan/implication "
              "normal form, exactly the node's operator applied to the freshly computed signals of its operands with the interval bounds resolved "
              "from the parameters, the window starts at the requested time, and the returned number is its first value; the signal operators it is applied "
              "with are themselves judged by the rules of K01.")
    cl = classes(P)
    for name, spec in SPEC.items():
        cls = Q + name
        if cls not in cl:
            c.skip(name, "no such formula class")
            continue
        c.guard(one, P, c, cls, name, spec)
    import K01
    K01.rules(P, c)


def one(P, c, cls, name, spec):
    try:
        f, e, outs = run(P, cls, "compute_robustness", fresh())
    except Undecided as u:
        c.skip(name, str(u))
        return
    c.functions |= e.analysed
    w = fl(f)
    z = F(THIS, "z")
    start, end = init(F(THIS, "start_time")), init(F(THIS, "end_time"))
    for k, st, v in outs:
        c.paths += 1
        pth = showfacts(st)
        if k != "return":
            c.viol(name + ":" + k, w, "a path of the evaluation ends in %s" % k, pth)
            continue
        if st.imp:
            c.skip(name, "; ".join(st.imp[:3]))
            continue
        V = Vocab(P, cls, st)
        got = V.core(e.load(st, F(z, "#c")))
        if V.unknown:
            c.skip(name, "result not expressible in the signal algebra")
            continue
        a = b = None
        timed = any(x["n"] == "I" for _, x in P.all_fields(cls))
        if timed:
            a, b = bound(e, st, "begin"), bound(e, st, "end")
            uses = got[-2:] if got[0] in ("ev", "alw", "until") else (None, None)
            if a is None or b is None:
                # the bound was taken without asking whether it names a parameter
                c.viol(name + ":bound-unresolved", w, "an interval bound is used on a path that never establishes whether it is a parameter", pth)
                continue
        want = spec(lambda ch: ("kid", ch, "z", "compute_robustness"), a, b)
        c.expect(got == want, name + ":operator", w, "the result is %s where %s is required" % (show_sig(got), show_sig(want)), pth)
        c.expect(ret_is_first(e, st, z, v), name + ":returned", w, "the returned number is not the first value of the resulting signal (%s)" % show(v)[:200], pth)
        if name in ("and_transducer", "or_transducer", "implies_transducer"):
            # how far the result is known: an operand of and/or that ends first is prolonged to the end of the other
            ends = [("endof", ("kid", ch, "z", "compute_robustness")) for ch in ("childL", "childR")]
            far = tmax(*ends)
            ge = V.end(e.load(st, F(z, "#c")))
            hy = V.known()
            if has_unknown(ge) or any(x and x[0] == "end" for x in subterms(ge)):
                c.skip(name, "end of the result " + show(ge)[:100])
            else:
                c.expect(leq(tmin(far if name != "implies_transducer" else tmin(*ends), end), ge, hy) and leq(ge, far, hy), name + ":extent", w,
                         "the result is known up to %s, the operands up to %s" % (show(ge)[:160], show(far)[:160]), pth)
        for nm, av, t in V.edits:
            s, t_ = V.val(av[1]), V.val(av[2])
            c.expect(s == start or s == num(0), name + ":window-start", w, "the resulting signal is cut to start at %s instead of the requested time" % show(s), pth)
            if timed and name != "until_transducer":
                nat = sub(("endof", ("kid", "child", "z", "compute_robustness")), a)
                need = tmin(nat, end)
                hy = V.known()
                okk = leq(need, t_, hy) and leq(t_, tmax(start, nat), hy)
                if has_unknown(t_) or any(x and x[0] == "end" for x in subterms(t_)):
                    c.skip(name, "window end " + show(t_)[:100])
                else:
                    c.expect(okk, name + ":window-end", w, "the resulting signal is cut at %s, not at the end of the horizon or of the available data" % show(t_), pth)
            if name == "until_transducer":
                u = t
                while u[0] == "op" and u[1] != "compute_timed_until":
                    u = u[2][0][1] if u[2][0][0] == "sig" else u[2][0]
                if u[0] == "op" and not has_unknown(t_):
                    nat = V.end(u)
                    hy = V.known()
                    c.expect(leq(tmin(nat, end), t_, hy) and leq(t_, tmax(start, nat), hy), name + ":window-end", w,
                             "the resulting signal is cut at %s, not at the end of the horizon or of the available data" % show(t_)[:200], pth)
    c.sites.append("%s: %s, %d paths" % (name, w, len(outs)))
