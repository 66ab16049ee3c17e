"""Sample validation of driver and monitor."""
from util import *


def check(P, c):
    c.rule = ("every path through the sample entry points either appends the sample unchanged with all three guards "
              "established and no other field written, or raises std::invalid_argument with at least one guard refuted and nothing written.")
    n = 0
    for cls in ("STLDriver", "STLMonitor"):
        for f in find(P, Q + cls + "::add_sample"):
            n += 1
            c.guard(one, P, c, cls, f)
    if n < 2:
        raise Broken("add_sample of driver or monitor vanished")


def one(P, c, cls, f):
    e = Eng(P)
    name = cls + "::add_sample"
    try:
        outs = e.run(f["id"], this=THIS, cls=Q + cls)
    except Undecided as u:
        c.skip(name, str(u))
        return
    c.functions |= e.analysed
    p = f["params"][0]
    sloc = ("P", ("sym", "&" + p["n"]))
    s = init(sloc) if is_ref(p["t"]) else ("sym", p["n"])
    data, smap = F(THIS, "data"), F(THIS, "signal_map")
    width = eq(size(s), add(size(init(smap)), num(1)))
    empty = isempty(init(data))
    s0 = e.elem(St(), s, num(0))
    last = e.elem(St(), e.elem(St(), init(data), "back"), num(0))
    later = lt(last, s0)
    acc = rej = 0
    for k, st, v in outs:
        c.paths += 1
        if st.imp:
            c.skip(name, "; ".join(st.imp[:3]))
            continue
        dw, de, dl = decide(st.f, width), decide(st.f, empty), decide(st.f, later)
        good = dw is True and (de is True or dl is True)
        bad = dw is False or (de is False and dl is False)
        # written state below this
        wr = {l: st.s[l] for l in stores_under(st, THIS)}
        wr = {l: x for l, x in wr.items() if x != init(l)}
        pth = showfacts(st)
        if k == "return":
            acc += 1
            c.expect(dw is True, name + ":width", fl(f),
                     "a sample is accepted without its width being checked against the number of declared signals plus one", pth)
            c.expect(de is True or dl is True, name + ":time", fl(f),
                     "a sample is accepted although its time was not shown to be later than the last stored time", pth)
            c.expect(wr.get(data) == ("pushb", init(data), s), name + ":append", fl(f),
                     "an accepted sample is not appended unchanged at the end of the data (data becomes %s)" % show(wr.get(data, init(data))), pth)
            other = [l for l in wr if l != data]
            c.expect(not other, name + ":other-state", fl(f), "accepting a sample also changes " + ", ".join(map(showloc, other)), pth)
        elif k == "throw":
            rej += 1
            c.expect(bad, name + ":reject-valid", fl(f), "a sample that satisfies every rule can be rejected", pth)
            c.expect(v == "std::invalid_argument", name + ":error-type", fl(f), "rejection raises %s instead of std::invalid_argument" % v, pth)
            c.expect(not wr, name + ":reject-changes", fl(f), "a rejected sample changes " + ", ".join(map(showloc, wr)), pth)
        else:
            c.viol(name + ":crash", fl(f), "a path dereferences a null pointer", pth)
    c.sites.append("%s %s: %d accepting, %d rejecting paths" % (name, fl(f), acc, rej))
    if acc == 0:
        c.viol(name + ":accepts-none", fl(f), "no path accepts a sample")
