"""Evaluation windows: every operand is evaluated over the whole window its parent needs."""
from proto import *

UN = lambda s, e, a, b: {"child": (s, e)}
BI = lambda s, e, a, b: {"childL": (s, e), "childR": (s, e)}
TU = lambda s, e, a, b: {"child": (add(s, a), add(e, b))}
TB = lambda s, e, a, b: {"childL": (s, add(e, b)), "childR": (add(s, a), add(e, b))}
SPEC = {"not_transducer": UN, "abs_transducer": UN, "and_transducer": BI, "or_transducer": BI, "implies_transducer": BI, "stl_atom": BI,
        "plus_transducer": BI, "minus_transducer": BI, "mult_transducer": BI, "ev_transducer": TU, "alw_transducer": TU, "until_transducer": TB}


def check(P, c):
    c.rule = ("on every path of a node's window propagation, every operand has received its window (the node's own window, shifted by the parameter-resolved interval "
              "bounds under temporal operators) before it propagates further, and keeps it; opening an evaluation window stores both ends before propagating.")
    for cls in classes(P):
        n = cls[len(Q):]
        kids = children(P, cls)
        if not kids:
            continue
        if n not in SPEC:
            # a class the specification does not know: at least the identity propagation or wider cannot be judged
            c.skip(n, "no window specification for this class")
            continue
        c.guard(one, P, c, cls, n, kids, "init_horizon")
        c.guard(one, P, c, cls, n, kids, "set_horizon")


def one(P, c, cls, n, kids, meth):
    name = n + ":" + meth
    s, t = init(F(THIS, "start_time")), init(F(THIS, "end_time"))
    try:
        if meth == "init_horizon":
            f, e, outs = run(P, cls, meth)
        else:
            f = find1(P, Q + "transducer::set_horizon", 2)
            e = Eng(P, [sigops.hook, hz_hook(P)])
            s, t = ("init", ("ARG", 0)), ("init", ("ARG", 1))
            outs = e.run(f["id"], this=THIS, cls=cls, args=[s, t])
    except Undecided as u:
        c.skip(name, str(u))
        return
    c.functions |= e.analysed
    w = fl(impl(P, cls, "init_horizon")) if meth == "init_horizon" else fl(f)
    timed = any(x["n"] == "I" for _, x in P.all_fields(cls))
    for k, st, v in outs:
        c.paths += 1
        pth = showfacts(st)
        if k in ("throw", "crash"):
            c.viol(name + ":" + k, w, "a path of the window propagation ends in %s" % k, pth)
            continue
        if st.imp:
            c.skip(name, "; ".join(st.imp[:3]))
            continue
        a = b = None
        if timed:
            a, b = bound(e, st, "begin"), bound(e, st, "end")
            if b is None or a is None and n != "until_transducer":
                c.viol(name + ":bound-unresolved", w, "an interval bound is used on a path that never establishes whether it is a parameter", pth)
                continue
            if a is None:
                c.viol(name + ":bound-unresolved", w, "the lower interval bound is used unresolved", pth)
                continue
        want = SPEC[n](s, t, a, b)
        hz = {}
        for ev in events(st, "hz"):
            l = ev[1]
            if l[0] == "P" and l[1][0] == "init" and l[1][1][0] == "F" and l[1][1][1] == THIS:
                hz[l[1][1][2]] = ev
        own = (e.load(st, F(THIS, "start_time")), e.load(st, F(THIS, "end_time")))
        c.expect(own == (s, t), name + ":own", w, "the node's own window becomes [%s, %s]" % (show(own[0]), show(own[1])), pth)
        for ch in kids:
            if ch not in hz:
                c.viol("%s:%s:unpropagated" % (name, ch), w, "the window is never propagated into %s" % ch, pth)
                continue
            ev = hz[ch]
            got = (ev[2], ev[3])
            if any(has_unknown(x) for x in got):
                c.skip(name, "opaque window")
                continue
            c.expect(got == want[ch], "%s:%s:window" % (name, ch), ev[4], "%s is evaluated over [%s, %s] where [%s, %s] is needed" % (
                ch, show(got[0]), show(got[1]), show(want[ch][0]), show(want[ch][1])), pth)
            loc = ("P", init(F(THIS, ch)))
            late = (e.load(st, F(loc, "start_time")), e.load(st, F(loc, "end_time")))
            c.expect(all(x == y or x[0] == "post" for x, y in zip(late, want[ch])), "%s:%s:late" % (name, ch), w,
                     "the window of %s is changed after it was propagated" % ch, pth)
    c.sites.append("%s: %s, %d paths" % (name, w, len(outs)))
