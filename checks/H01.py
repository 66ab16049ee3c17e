"""A verdict depends only on the formula, the trace, the parameters and the settings: not on earlier evaluations."""
from proto import *
from calls import *

COMP = ("compute_robustness", "compute_lower_rob", "compute_upper_rob")
SETUP = ("set_trace_data_ptr", "set_param_map_ptr", "reset")
OWN = {"set_trace_data_ptr": "trace_data_ptr", "set_param_map_ptr": "param_map_ptr"}


def check(P, c):
    c.rule = ("(1) every evaluation started outside the formula classes hands the formula its owner's trace, parameters, semantics and interpolation, clears it and opens "
              "its window (in that dependency order) before computing robustness once and each bound at most once, and reports exactly these results; (2) clearing and handing over reach every node of "
              "the tree; (3) whatever mutable node field an evaluation reads before writing has been re-established by these steps; no evaluation code keeps state in globals or static locals.")
    c.guard(nodes, P, c)
    c.guard(statics, P, c)
    c.guard(roots, P, c)
    c.guard(entry_points, P, c)


# ------------------------------------------------------------------ (1)
def is_comp(P, fn):
    return fn.get("virt") and fn["n"] in COMP and P.derives(fn.get("cls") or "", T)


def snap(P):
    def h(e, fn, loc, dyn, args, st, fr, n):
        if loc is None or dyn is not None or not is_comp(P, fn):
            return None
        st = st.copy()
        st.ev("comp", fn["n"], loc, e.load(st, ("G", SIG + "::semantics")), e.load(st, ("G", SIG + "::interpol")),
              e.load(st, F(loc, "start_time")), e.load(st, F(loc, "end_time")), e.where(fr, n))
        return e.unknown_virtual(fn, loc, args, st, fr, n)
    return h


def pm_hook(e, fn, loc, dyn, args, st, fr, n):
    """which parameter values a formula is handed"""
    if fn["n"] != "set_param_map_ptr" or loc is None or dyn is not None:
        return None
    st = st.copy()
    st.ev("params", loc, e.load(st, args[0][1]) if args[0][0] == "ref" else args[0])
    return e.unknown_virtual(fn, loc, args, st, fr, n)


def roots(P, c):
    g = graph(P)
    direct = [f["id"] for f in P.funcs.values() if not P.derives(f.get("cls") or "", T) and any(is_comp(P, fn) for fn, n in callees(f))]
    if not direct:
        raise Broken("no function evaluates a formula")
    pub = [f["id"] for q in ("STLDriver::get_online_rob", "STLMonitor::eval_rob") for f in find(P, Q + q, 2)]
    for fid in sorted(tops(g, direct) | {x for x in pub}):
        f = P.funcs[fid]
        cls = f.get("cls")
        if fid.startswith("lambda@"):
            owners = {P.funcs[x].get("cls") for x in reach(g, [fid]) & set(direct)}
            if owners <= {P.funcs[x].get("cls") for x in pub}:
                continue        # a binding wrapper: the wrapped entry point is analysed itself
            c.skip(fid, "closure")
            continue
        root1(P, c, f, cls)


def root1(P, c, f, cls):
    name = f["q"][len(Q):]
    w = fl(f)
    try:
        e = Eng(P, [pm_hook, snap(P), sigops.hook, hz_hook(P)])
        outs = e.run(f["id"], this=THIS if cls else None, cls=cls)
    except Undecided as u:
        c.skip(name, str(u))
        return
    c.functions |= e.analysed
    c.sites.append("%s at %s" % (f["id"], w))
    seen = False
    for k, st, v in outs:
        c.paths += 1
        pth = showfacts(st)
        S = {}
        for ev in events(st):
            if ev[0] == "vcall":
                nm = ev[1].split("(")[0].split("::")[-1]
                if nm in SETUP or nm == "init_horizon":
                    d = S.setdefault(ev[2], {})
                    d.setdefault("order", []).append(nm)
                    if nm in OWN:
                        d[nm] = ev[3]
                    if nm == "reset":
                        d["done"] = []
                        d["reset"] = True
            elif ev[0] == "params":
                S.setdefault(ev[1], {})["params"] = ev[2]
            elif ev[0] == "comp":
                seen = True
                _, nm, loc, sem, ip, s, t, where = ev
                d = S.setdefault(loc, {})
                key = name + ":" + nm
                for need, what in (("set_trace_data_ptr", "its owner's trace"), ("set_param_map_ptr", "its owner's parameters")):
                    fld = "data" if need.endswith("data_ptr") else "param_map"
                    if need not in d:
                        c.viol(name + ":" + need, where, "the formula is evaluated without having been handed %s" % what, pth)
                    elif cls in (Q + "STLDriver", Q + "STLMonitor"):
                        a = d[need][0]
                        over = d.get("params")      # values of its own over the owner's
                        if fld == "param_map" and over is not None and over[0] == "union" and over[2] == init(F(THIS, fld)):
                            c.ok()
                            continue
                        c.expect(a == ("ref", F(THIS, fld)), name + ":" + need + ":other", where, "the formula is handed %s instead of %s" % (show(a)[:80], what), pth)
                if not d.get("reset"):
                    c.viol(name + ":reset", where, "the formula is evaluated without having been cleared", pth)
                else:
                    c.ok()
                o = d.get("order", [])
                if "init_horizon" not in o:
                    c.viol(name + ":window", where, "the formula is evaluated without a window having been opened", pth)
                elif "set_param_map_ptr" in o:
                    li, lp = len(o) - 1 - o[::-1].index("init_horizon"), o.index("set_param_map_ptr")
                    c.expect(li > lp, name + ":window-order", where, "the window is propagated before the parameters are known to the formula (interval bounds may be parameters)", pth)
                if cls in (Q + "STLDriver", Q + "STLMonitor"):
                    c.expect(sem == init(F(THIS, "semantics")), name + ":semantics", where, "the semantics in force is %s, not the owner's" % show(sem), pth)
                    c.expect(ip == init(F(THIS, "interpol")), name + ":interpol", where, "the interpolation in force is %s, not the owner's" % show(ip), pth)
                dn = d.setdefault("done", [])
                c.expect(nm not in dn, key + ":twice", where, "%s is computed a second time without clearing in between" % nm, pth)
                if nm != "compute_robustness":
                    c.expect("compute_robustness" in dn, key + ":order", where, "a bound is computed before the robustness it derives from", pth)
                dn.append(nm)
    if not seen:
        c.skip(name, "no path evaluates")


def entry_points(P, c):
    """which window, which formula, which numbers come back"""
    def go(q, npar, pred, spec):
        for f in find(P, Q + q, npar, pred):
            cls = f["cls"]
            try:
                e = Eng(P, [pm_hook, snap(P), sigops.hook, hz_hook(P)])
                outs = e.run(f["id"], this=THIS, cls=cls)
            except Undecided as u:
                c.skip(q, str(u))
                continue
            c.functions |= e.analysed
            name = "%s/%d" % (q, npar)
            some = False
            for k, st, v in outs:
                c.paths += 1
                if k != "return" or st.imp:
                    if st.imp:
                        c.skip(name, "; ".join(st.imp[:2]))
                    continue
                pth = showfacts(st)
                cs = events(st, "comp")
                if not cs:
                    none(e, st, v, f, name, pth)
                    continue
                some = True
                want = spec(e, st, f)
                for ev in cs:
                    c.expect(ev[2] == want["loc"], name + ":formula", ev[7], "the formula evaluated is %s, not the requested one" % show(ev[2])[:100], pth)
                    c.expect((ev[5], ev[6]) in (want["win"],) or any(x[0] == "post" for x in (ev[5], ev[6])), name + ":window-args", ev[7],
                             "the formula is evaluated over [%s, %s]" % (show(ev[5]), show(ev[6])), pth)
                for ev in events(st, "hz"):
                    if ev[1] == want["loc"]:
                        c.expect((ev[2], ev[3]) == want["win"], name + ":window-args", ev[4], "the formula is evaluated over [%s, %s] instead of [%s, %s]" % (
                            show(ev[2]), show(ev[3]), show(want["win"][0]), show(want["win"][1])), pth)
                ids = {}
                for ev in events(st, "vcall"):
                    nm = ev[1].split("(")[0].split("::")[-1]
                    if nm in COMP:
                        ids[nm] = ("ret", ev[4], nm, ev[2])
                want["result"](e, st, v, ids, name, pth, fl(f))
            if not some:
                c.viol(name + ":never", fl(f), "no path evaluates the formula")

    def none(e, st, v, f, name, pth):
        if f["cls"] == Q + "STLDriver":
            c.expect(v == ("empty",) or v == ("list", ()), name + ":no-result", fl(f), "without an evaluation %s is reported instead of nothing" % show(v)[:80], pth)
            ok = decide(st.f, isempty(init(F(THIS, "data")))) is True or any(a[0] in ("has", "isnull") for a in st.f)
            c.expect(ok, name + ":skipped", fl(f), "the evaluation is skipped although trace and formula exist", pth)
        else:
            c.expect(v == init(F(THIS, "rob")), name + ":no-result", fl(f), "without a formula %s is reported" % show(v)[:80], pth)
            c.expect(decide(st.f, cond(("isnull", init(F(THIS, "formula"))))) is True or decide(st.f, isempty(init(F(THIS, "data")))) is True, name + ":skipped", fl(f), "the evaluation is skipped although there is a formula", pth)

    def drv_res(e, st, v, ids, name, pth, w):
        want = tuple(ids.get(x) for x in COMP)
        if v[0] == "pushb":
            xs = []
            while v[0] == "pushb":
                xs.insert(0, v[2])
                v = v[1]
            v = ("list", tuple(xs))
        if has_unknown(v):
            c.skip(name, "opaque result")
            return
        c.expect(v == ("list", want), name + ":result", w, "the reported triple is not (robustness, lower bound, upper bound) of this evaluation: %s" % show(v)[:200], pth)

    def mon_res(e, st, v, ids, name, pth, w):
        c.expect(v == ids.get(COMP[0]), name + ":result", w, "the reported number is not the robustness just computed", pth)
        for fld, nm in zip(("rob", "lower_rob", "upper_rob"), COMP):
            x = e.load(st, F(THIS, fld))
            c.expect(x == ids.get(nm), "%s:%s" % (name, fld), w, "%s does not hold the result of this evaluation (%s)" % (fld, show(x)[:80]), pth)

    def par(f, i, st):
        p = f["params"][i]
        return ("init", ("P", ("sym", "&" + p["n"]))) if is_ref(p["t"]) else ("sym", p["n"])

    def drv(tm):
        def s(e, st, f):
            key = par(f, 0, st)
            t = tm(f, st)
            loc = ("P", e.load(st, ("E", F(THIS, "formula_map"), ("key", key))))
            return {"loc": loc, "win": (t, t), "result": drv_res}
        return s

    def mon(win):
        def s(e, st, f):
            return {"loc": ("P", init(F(THIS, "formula"))), "win": win(f, st), "result": mon_res}
        return s
    go("STLDriver::get_online_rob", 1, None, drv(lambda f, st: num(0)))
    go("STLDriver::get_online_rob", 2, None, drv(lambda f, st: par(f, 1, st)))
    go("STLMonitor::eval_rob", 0, None, mon(lambda f, st: (init(F(THIS, "start_time")), init(F(THIS, "end_time")))))
    go("STLMonitor::eval_rob", 1, None, mon(lambda f, st: (par(f, 0, st), par(f, 0, st))))
    go("STLMonitor::eval_rob", 2, None, mon(lambda f, st: (par(f, 0, st), par(f, 1, st))))
    f = find1(P, Q + "STLMonitor::set_eval_time", 2)
    e = Eng(P)
    for k, st, v in e.run(f["id"], this=THIS, cls=f["cls"]):
        got = (e.load(st, F(THIS, "start_time")), e.load(st, F(THIS, "end_time")))
        c.expect(k == "return" and got == (par(f, 0, st), par(f, 1, st)), "set_eval_time", fl(f), "the evaluation window is stored as [%s, %s]" % tuple(show(x) for x in got))
    for nm, fld in (("get_rob", "rob"), ("get_lower_rob", "lower_rob"), ("get_upper_rob", "upper_rob")):
        f = find1(P, Q + "STLMonitor::" + nm, 0)
        for k, st, v in Eng(P).run(f["id"], this=THIS, cls=f["cls"]):
            c.expect(k == "return" and v == init(F(THIS, fld)), nm, fl(f), "%s reports %s" % (nm, show(v)[:80]))


# ------------------------------------------------------------------ (2), (3)
def top_field(loc):
    while loc[0] in ("F", "E") and loc[1] != THIS:
        loc = loc[1]
    return loc[2] if loc[0] == "F" and loc[1] == THIS else None


def fields_in(t):
    """fields of this node whose entry value a term depends on"""
    out = set()
    for x in subterms(t):
        if x and x[0] == "init" and isinstance(x[1], tuple):
            f = top_field(x[1])
            if f:
                out.add(f)
    return out


def nodes(P, c):
    for cls in classes(P):
        n = cls[len(Q):]
        kids = children(P, cls)
        try:
            est, est_state = protocol(P, c, cls, n, kids)
            paths = effects(P, c, cls, n)
        except Undecided as u:
            c.skip(n, str(u))
            continue
        written = set().union(*[p[0] for p in paths])
        read = set().union(*[p[1] for p in paths])
        for fld in sorted(written & read):
            clash = any(fld in w and any(fld in r and together(fw, fr) for _, r, fr in paths) for w, _, fw in paths)
            c.expect(fld in est or not clash, "%s:%s:stale" % (n, fld), fl(impl(P, cls, "compute_robustness")),
                     "evaluation writes %s and a later evaluation reads what an earlier one left there: no preparation step re-establishes it" % fld)
        c.sites.append("%s: evaluation writes {%s}, reads on entry {%s}, preparation re-establishes {%s}" % (n, ", ".join(sorted(written)), ", ".join(sorted(read)), ", ".join(sorted(est))))


def protocol(P, c, cls, n, kids):
    """run the preparation steps one after the other; which fields do they overwrite on every path?"""
    est = None
    states = [St()]
    for m in SETUP:
        f = impl(P, cls, m)
        nxt = []
        for st in states:
            e = Eng(P, [sigops.hook, hz_hook(P)])
            mark = len(events(st, "vcall"))
            args = None
            if m in OWN:
                args = [("ref", ("P", ("sym", "owner_" + OWN[m])))]
            outs = e.run(f["id"], this=THIS, cls=cls, st=st.copy(), args=args)
            c.functions |= e.analysed
            for k, s2, v in outs:
                c.paths += 1
                pth = showfacts(s2)
                if k != "return":
                    c.viol("%s:%s:%s" % (n, m, k), fl(f), "a path of the preparation step ends in %s" % k, pth)
                    continue
                if m in OWN:
                    x = e.load(s2, F(THIS, OWN[m]))
                    c.expect(x == ("sym", "owner_" + OWN[m]), "%s:%s:own" % (n, m), fl(f), "the node keeps reading %s" % show(x)[:80], pth)
                vs = events(s2, "vcall")[mark:]
                for ch in kids:
                    loc = ("P", init(F(THIS, ch)))
                    hit = [ev for ev in vs if ev[2] == loc and ev[1].split("(")[0].split("::")[-1] == m]
                    if not c.expect(bool(hit), "%s:%s:%s" % (n, m, ch), fl(f), "%s does not reach the operand %s" % (m, ch), pth):
                        continue
                    if m in OWN:
                        c.expect(all(ev[3] and ev[3][0] == args[0] for ev in hit), "%s:%s:%s:arg" % (n, m, ch), fl(f), "the operand %s is handed something else" % ch, pth)
                if s2.imp:
                    c.skip("%s:%s" % (n, m), "; ".join(s2.imp[:2]))
                nxt.append(s2)
        states = nxt
    for st in states:
        e = Eng(P)
        got = set()
        for l in list(st.s):
            if l[0] in ("F", "E") and root(l) == THIS:
                f = top_field(l)
                if f and not (fields_in(st.s[l]) - {"param", "I", "variable", "param_map_ptr", "trace_data_ptr"}):
                    got.add(f)
        for z in ("z", "z_low", "z_up"):
            ct = e.load(st, F(THIS, z, "#c"))
            ok = ct == ("empty",)
            c.expect(ok, "%s:reset:%s" % (n, z), fl(impl(P, cls, "reset")), "clearing the node leaves the samples of %s" % z, showfacts(st))
            if not ok:
                got.discard(z)
        est = got if est is None else est & got
    return est or set(), states


def together(fw, fr):
    """can one node take a writing path in one evaluation and a reading path in a later one? (its configuration does not change;
    a path on which a named parameter is unknown to the owner has no defined result)"""
    for a, v in fr.items():
        if a[0] == "has" and not v:
            return False
        if a[0] == "streq" and a in fw and fw[a] != v:
            return False
    return True


def effects(P, c, cls, n):
    out = []
    for m in COMP:
        f, e, outs = run(P, cls, m, St())
        c.functions |= e.analysed
        for k, st, v in outs:
            c.paths += 1
            if k == "crash":
                continue
            written, read = set(), set()
            for l in st.s:
                if l[0] == "ver":
                    continue
                if l[0] in ("F", "E") and root(l) == THIS:
                    fd = top_field(l)
                    if fd:
                        if st.s[l] != init(l):
                            written.add(fd)
                        read |= fields_in(st.s[l])
            for a in st.f:
                read |= fields_in(a)
            if v is not None:
                read |= fields_in(v)
            for ev in events(st):
                if ev[0] in ("sigop", "append", "vcall"):
                    read |= fields_in(ev)
            out.append((written, read, dict(st.f)))
    return out


def statics(P, c):
    ids = {impl(P, k, m)["id"] for k in classes(P) for m in COMP + SETUP + ("init_horizon",)}
    g = graph(P)
    rs = reach(g, ids)
    c.functions |= rs
    for fid in sorted(rs):
        f = P.funcs[fid]
        ws = global_writes(P, f)
        c.ok()
        for v, l in ws:
            c.viol("static:%s:%s" % (f["q"], v), "%s:%s" % (f["file"], l), "evaluation code writes %s, which outlives the evaluation" % v)
