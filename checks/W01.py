"""Test queues: what is registered, in which order it is evaluated, and what is recorded of each outcome."""
from proto import *
from H01 import snap, pm_hook

DRV = Q + "STLDriver"
QL = F(THIS, "trace_test_queue")
ZERO = num(0)


def check(P, c):
    c.rule = ("registering puts exactly the named test, with the given parameters, at the end of the last trace test; running evaluates the front test of the front trace test once per step with its own parameters over the "
              "driver's, removes that test, records its name and value, counts it and raises the error flag exactly when it is positive (and declared an error), until none is left, then removes the trace test.")
    c.guard(running, P, c)
    c.guard(adding, P, c)
    c.guard(accessors, P, c)
    c.guard(number_text, P, c)


# ---------------------------------------------------------------- terms
def subst(t, m):
    """replace subterms, innermost first"""
    if not isinstance(t, tuple) or not t:
        return t
    if t in m:
        return m[t]
    r = tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)
    if r in m:
        return m[r]
    return r


def tests_of(e, q):
    st = St()
    st.s[QL] = q
    return e.load(st, F(("E", QL, ZERO), "tests"))


def front(e, q):
    """the first test of the first trace test of queue value q"""
    st = St()
    st.s[QL] = q
    return e.load(st, ("E", F(("E", QL, ZERO), "tests"), ZERO))


FRONTLOC = ("E", F(("E", QL, ZERO), "tests"), ZERO)


def d2s(e, fn, loc, dyn, args, st, fr, n):
    if fn["q"] == "d_to_s":
        return [(st, ("app", "d_to_s", e.load(st, args[0][1]) if args[0][0] == "ref" else args[0]))]
    return None


def parts(t):
    return list(t[1:]) if t[0] == "cat" else [t]


def data(t):
    return [("app", "d_to_s", x[1]) if x[0] == "fmt" else x for x in parts(t) if x[0] != "str"]


# ---------------------------------------------------------------- running
def running(P, c):
    f = find1(P, DRV + "::run_tests", 0)
    e = Eng(P, [d2s, pm_hook, snap(P), sigops.hook, hz_hook(P)])
    outs = e.run(f["id"], this=THIS, cls=DRV)
    c.functions |= e.analysed
    w = fl(f)
    q0 = init(QL)
    done = set()
    for k, st, v in outs:
        c.paths += 1
        pth = showfacts(st)
        fin = lambda n: e.load(st, F(THIS, n))
        if k != "return":
            c.viol("run:abrupt", w, "running the tests ends by %s" % k, pth)
            continue
        flag = e.load(st, F(THIS, "error_flag"))
        c.expect(v == flag, "run:answer", w, "the answer is %s, the error flag is %s" % (show(v), show(flag)), pth)
        c.expect(e.load(st, F(THIS, "nb_test_total")) == init(F(THIS, "nb_test_total")), "run:total", w, "running tests changes the number of registered tests", pth)
        loops = [ev for ev in st.trace() if ev[0] == "loop"]
        main = [ev for ev in loops if any(x[0] == "comp" for it in ev[2] for x in it)]
        empty = decide(st.f, isempty(q0))
        if empty is True:
            c.expect(not main and not [1 for ev in events(st, "comp")] and flag == FALSE and fin("trace_test_queue") == q0 and fin("nb_test_pos") == init(F(THIS, "nb_test_pos"))
                     and fin("test_log") == init(F(THIS, "test_log")), "run:nothing", w, "with nothing queued something is evaluated, recorded or flagged", pth)
            continue
        if not main:
            if [1 for ev in events(st, "comp")]:
                c.skip("run_tests", "evaluation outside a loop")
                continue
            n = decide(st.f, isempty(tests_of(e, q0)))
            c.expect(n is True, "run:skipped", w, "a path evaluates no test although the trace test may hold some", pth)
            c.expect(flag == FALSE, "run:flag0", w, "without a test evaluated the error flag is %s" % show(flag), pth)
            c.expect(fin("trace_test_queue") == ("popf", q0), "run:popped", w, "afterwards the queue is %s" % show(fin("trace_test_queue"))[:160], pth)
            continue
        if len(main) > 1:
            c.skip("run_tests", "several evaluating loops")
            continue
        lp = main[0]
        top = [ev for ev in st.trace() if ev[0] == "comp"]
        one_loop(P, c, e, st, lp, w, pth, done, top)


def one_loop(P, c, e, st, lp, w, pth, done, top):
    lid, base = lp[1], dict(lp[4])
    hq = ("hv", lid, QL) if QL in base else init(QL)
    b0 = base.get(QL, init(QL))
    views = {}
    bad = []

    def state(it):
        fs = [x for x in it if x[0] == "itfacts"][-1]
        return {a: b for a, b in fs[1]}, dict(fs[2]), dict(fs[3])
    its = [(it,) + state(it) for it in lp[2]]
    # ---- variables that follow the front test
    for l, v0 in base.items():
        kind = None
        ok = True
        for q, v, facts in [(b0, v0, st.f)] + [(s1.get(QL, hq), s2[l], fx) for it, fx, s1, s2 in its if l in s2]:
            if v == NULL:
                ok = ok and (decide(facts, isempty(tests_of(e, q))) is True or decide(facts, isempty(q)) is True or v is v0)
                continue
            fr = front(e, q)
            if v == e.fieldof(fr, "formula"):
                kd = "formula"
            elif v == ("ptr", FRONTLOC):
                kd = "test"
            elif l[0] == "L" and any(x == q0t for q0t in (QL,) for x in subterms(v)):
                bad.append((l, v))
                ok = False
                break
            else:
                ok = False
                break
            ok = ok and kind in (None, kd)
            kind = kd
        if l[0] == "L" and ok and kind and all(l in s2 or QL not in s1 for it, fx, s1, s2 in its):
            views[l] = kind
    fr = front(e, hq)
    m = {}
    for l, kd in views.items():
        h = ("hv", lid, l)
        if kd == "formula":
            m[h] = e.fieldof(fr, "formula")
        else:
            for x in ("test_id", "param_map", "formula", "report_positive", "report_negative", "is_error"):
                m[("init", F(("P", h), x))] = e.fieldof(fr, x)
    # ---- start
    for n, want in (("error_flag", FALSE), ("nb_test_pos", init(F(THIS, "nb_test_pos"))), ("test_log", init(F(THIS, "test_log")))):
        l = F(THIS, n)
        if l in base:
            c.expect(base[l] == want, "run:start:" + n, w, "before the first test %s is %s" % (n, show(base[l])[:100]), pth)
    # ---- steps
    for it, fx, s1, s2 in its:
        key = repr((fx, sorted(s1.items(), key=repr)))
        if key in done:
            continue
        done.add(key)
        step(P, c, e, it, {subst(a, m): b for a, b in fx.items()}, s1, s2, m, hq, lid, w, fr, bad)
    # ---- end
    qf = e.load(st, QL)
    if top:
        facts = {subst(a, m): b for a, b in st.f.items()}
        if not qf[0] == "popf" or not left_none(e, facts, m, views, lid, qf[1], st):
            c.viol("run:stopped", w, "the run stops with tests of the trace test left unevaluated", pth)
        return
    if qf[0] != "popf":
        c.viol("run:popped", w, "afterwards the queue is %s" % show(qf)[:160], pth)
        return
    qe = qf[1]
    if qe == hq and QL in base or qe == init(QL) and QL not in base:
        c.ok()
    else:
        c.viol("run:popped", w, "afterwards the queue is %s" % show(qf)[:160], pth)
    if QL in base and not left_none(e, st.f, m, views, lid, qe, st):
        c.viol("run:stopped", w, "the run may stop with tests of the trace test left", pth)
    else:
        c.ok()


def left_none(e, facts, m, views, lid, q, st):
    if decide(facts, isempty(tests_of(e, q))) is True or decide(facts, isempty(q)) is True:
        return True
    if decide(facts, eq(e.fieldof(front(e, q), "formula"), NULL)) is True:
        return True     # a test without formula: nothing to evaluate
    for l, kd in views.items():
        if decide(st.f, eq(("hv", lid, l), NULL)) is True:
            return True
        if decide(st.f, eq(st.s.get(l, ("none",)), NULL)) is True:
            return True
    return False


def step(P, c, e, it, fx, s1, s2, m, hq, lid, w, fr, bad):
    pth = ["assuming %s%s" % ("" if v else "not ", show(a)) for a, v in list(fx.items())[:12]]
    comps = [x for x in flatten(it) if x[0] == "comp"]
    g = lambda n: subst(s1.get(F(THIS, n), ("hv", lid, F(THIS, n))), m)
    if not comps:
        c.viol("run:not-evaluated", w, "a step of the run evaluates nothing", pth)
        return
    if len(comps) > 1:
        c.viol("run:twice", comps[1][-1], "a test is evaluated %d times" % len(comps), pth)
        return
    loc = comps[0][2]
    fp = subst(e.addr(loc), m)
    tests = tests_of(e, hq)
    scan = ("elem", tests, ("any", lid))
    if fp == e.fieldof(fr, "formula"):
        t = fr
        c.ok()
        q1 = subst(s1.get(QL, hq), m)
        c.expect(tests_of(e, q1) == ("popf", tests), "run:step:removed", w, "after the evaluation the remaining tests are %s, not those behind the evaluated one" % show(tests_of(e, q1))[:160], pth)
        oth = strip_front(q1)
        c.expect(oth == hq, "run:step:others", w, "a step changes the queue beyond the evaluated test: %s" % show(q1)[:160], pth)
    elif fp == e.fieldof(scan, "formula"):
        t = scan
        c.expect(QL not in s1, "run:step:others", w, "the queue changes while its tests are gone through", pth)
    else:
        if bad or not any(x and x[0] in ("unk", "hv") and x != ("hv", lid, QL) for x in subterms(fp)):
            c.viol("run:which", comps[0][-1], "the evaluated formula is %s, not that of the first remaining test" % show(fp)[:160], pth)
        else:
            c.skip("run_tests", "evaluated formula %s" % show(fp)[:120])
        return
    vals = [subst(v, m) for v in s1.values()] + list(fx)
    rs = {x for x in subterms(tuple(vals)) if x and x[0] == "ret" and x[2] == "compute_robustness"}
    if len(rs) != 1:
        c.viol("run:value-lost", w, "what is recorded stems from %d evaluations" % len(rs), pth)
        return
    rr = rs.pop()
    # parameters
    pms = [x for x in flatten(it) if x[0] == "params" and x[1] == loc]
    own = e.fieldof(t, "param_map")
    want = union(own, init(F(THIS, "param_map")))
    got = subst(pms[-1][2], m) if pms else None
    if got != want:
        if got is not None and has_unknown2(got, lid):
            c.skip("run_tests parameters", show(got)[:120])
        else:
            c.viol("run:params", w, "the test is evaluated with %s instead of its own parameters over the driver's" % (show(got)[:160] if got else "no parameters"), pth)
    else:
        c.ok()
    # positive?
    fxs = fx
    pos = decide(fxs, lt(ZERO, rr))
    err = decide(fxs, cond(("truth", e.fieldof(t, "is_error"))))
    cnt, cnt0 = g("nb_test_pos"), ("hv", lid, F(THIS, "nb_test_pos"))
    if pos is None:
        same = cnt == cnt0
        c.viol("run:count", w, "a test is %s without looking whether its value is positive" % ("not counted" if same else "counted"), pth)
        return
    c.expect(cnt == (add(cnt0, num(1)) if pos else cnt0), "run:count:%s" % pos, w, "for a value %s the count becomes %s" % ("> 0" if pos else "<= 0", show(cnt)[:100]), pth)
    flag, flag0 = g("error_flag"), ("hv", lid, F(THIS, "error_flag"))
    if pos and err is None:
        isb = e.fieldof(t, "is_error")
        lin_ok = any(x == isb for x in subterms(flag)) and any(x == flag0 for x in subterms(flag))
        if flag == TRUE and decide(fxs, cond(("truth", flag0))) is True or flag in (isb, cond(("truth", isb))) and decide(fxs, cond(("truth", flag0))) is False:
            c.ok()
        elif not lin_ok:
            c.viol("run:flag", w, "a positive test sets the error flag to %s whether or not it is declared an error" % show(flag)[:80], pth)
        else:
            c.skip("run_tests flag", show(flag)[:80])
    elif pos and err:
        c.expect(flag == TRUE, "run:flag:raise", w, "a positive error test leaves the error flag %s" % show(flag)[:80], pth)
    else:
        c.expect(flag == flag0, "run:flag:keep", w, "a test that is %s sets the error flag to %s" % ("not declared an error" if pos else "not positive", show(flag)[:80]), pth)
    # log and report
    tid, num_ = e.fieldof(t, "test_id"), ("app", "d_to_s", rr)
    lg = g("test_log")
    L0 = ("hv", lid, F(THIS, "test_log"))
    log_ok = data(lg) == [L0, tid, num_] and parts(lg)[0] == L0 and parts(lg)[-1][0] == "str" and parts(lg)[-1][1].endswith("\n")
    log_ok = log_ok and all("\n" not in (x[1] if x is not parts(lg)[-1] else x[1][:-1]) for x in parts(lg) if x[0] == "str")
    text(c, log_ok, lg, lid, "run:log", w, "the test log becomes %s instead of gaining the line <test>: <value>", pth)
    rp = g("report")
    R0 = ("hv", lid, F(THIS, "report"))
    msgs = [e.fieldof(t, "report_positive" if pos else "report_negative")]
    has = decide(fxs, streq(msgs[0], ("str", "")))
    want = [R0, tid, num_] + ([] if has is True else msgs)
    text(c, data(rp) == want and parts(rp)[0] == R0, rp, lid, "run:report:%s" % pos, w, "the report becomes %s", pth)
    mark = "".join(x[1] for x in parts(rp) if x[0] == "str")
    c.expect(("PB" in mark) == pos and ("OK" in mark) == (not pos), "run:report:mark:%s" % pos, w, "a test with a value %s is reported as %r" % ("> 0" if pos else "<= 0", mark), pth)


def text(c, ok, t, lid, key, w, msg, pth):
    if not ok and any(x[0] == "unk" or x[0] == "app" and x[1] != "d_to_s" for x in subterms(t) if x and isinstance(x[0], str)):
        c.skip(key, show(t)[:120])
        return
    c.expect(ok, key, w, (msg % show(t)[-200:]), pth)


def has_unknown2(t, lid):
    return any(x and (x[0] == "unk" or x[0] == "hv" and x[1] != lid or x[0] == "hv" and x[2][0] == "L") for x in subterms(t))


def strip_front(q):
    while q[0] == "upd" and q[2] == ZERO:
        q = q[1]
    return q


def flatten(evs):
    for x in evs:
        if x[0] == "loop":
            for it in x[2]:
                yield from flatten(it)
        else:
            yield x


# ---------------------------------------------------------------- registering
def strip_back(q):
    while q[0] in ("upd", "setf") and (q[0] == "setf" or q[2] == "back"):
        q = q[1]
    return q


def adding(P, c):
    for f in find(P, DRV + "::add_trace_test"):
        e, outs = paths(P, c, f)
        for k, st, v in outs:
            q = e.load(st, QL)
            pth = showfacts(st)
            w = fl(f)
            qs = strip_back(q)
            if not (qs[0] == "pushb" and qs[1] == init(QL)):
                c.viol("add-trace:end", w, "the queue becomes %s instead of gaining one trace test at its end" % show(q)[:160], pth)
                continue
            c.ok()
            last = ("E", QL, "back")
            ps = [p["n"] for p in f["params"]]
            ts = [p["t"] for p in f["params"]]
            for fld, i in (("id", 0), ("env", 1), ("sim_time", 2), ("visu", 3)):
                want = init(("P", ("sym", "&" + ps[i]))) if is_ref(ts[i]) else ("sym", ps[i])
                got = e.load(st, F(last, fld))
                c.expect(got == want or got == cond(("truth", want)), "add-trace:" + fld, w, "the trace test's %s is %s" % (fld, show(got)[:100]), pth)
            got = e.load(st, F(last, "tests"))
            c.expect(got == ("empty",), "add-trace:tests", w, "a new trace test holds %s" % show(got)[:100], pth)
    for f in find(P, DRV + "::add_stl_test"):
        add_test(P, c, f)


def paths(P, c, f, hooks=()):
    e = Eng(P, list(hooks))
    outs = e.run(f["id"], this=THIS, cls=f.get("cls"))
    c.functions |= e.analysed
    c.paths += len(outs)
    c.sites.append("%s at %s" % (f["id"], fl(f)))
    return e, outs


def clone_of(t):
    """the formula a chain of clones stems from"""
    while t[0] == "ret" and t[2] == "clone":
        t = t[3][1] if t[3][0] == "P" else t[3]
    return t


def add_test(P, c, f):
    n = len(f["params"])
    nm = "add-test/%d" % n
    e, outs = paths(P, c, f)
    w = fl(f)
    val = {}
    for p in f["params"]:
        val[p["n"]] = init(("P", ("sym", "&" + p["n"]))) if is_ref(p["t"]) else ("sym", p["n"])
    ps = [val[p["n"]] for p in f["params"]]
    mapl = F(THIS, "stl_test_map")
    for k, st, v in outs:
        pth = showfacts(st)
        if k != "return":
            c.viol(nm + ":abrupt", w, "registering ends by %s" % k, pth)
            continue
        q = e.load(st, QL)
        none = decide(st.f, isempty(init(QL)))
        known = decide(st.f, cond(("has", init(mapl), ps[0])))
        if none is True or n < 6 and known is False:
            c.expect(q == init(QL), nm + ":refused", w, "a test that cannot be registered (no trace test, or unknown name) changes the queue to %s" % show(q)[:120], pth)
            if n < 6:
                c.expect(e.load(st, mapl) == init(mapl), nm + ":refused-map", w, "a test that cannot be registered changes the known tests", pth)
            continue
        if none is None or n < 6 and known is None:
            c.viol(nm + ":unguarded", w, "a test is registered without knowing that a trace test is queued%s" % (" and the test is known" if n < 6 else ""), pth)
            continue
        if q == init(QL):
            c.viol(nm + ":lost", w, "a test that can be registered is not", pth)
            continue
        last = ("E", QL, "back")
        tl = F(last, "tests")
        ts = strip_back(e.load(st, tl))
        old = e.load(St(), tl)
        if strip_back(q) != init(QL):
            c.viol(nm + ":queue", w, "registering changes the queue to %s" % show(q)[:160], pth)
            continue
        if not (ts[0] == "pushb" and ts[1] == old):
            c.viol(nm + ":end", w, "the last trace test's tests become %s instead of gaining one at the end" % show(ts)[:160], pth)
            continue
        c.ok(2)
        new = lambda x: e.load(st, F(("E", tl, "back"), x))
        src = ("elem", init(mapl), ("key", ps[0]))
        if n < 6:
            want = {x: e.fieldof(src, x) for x in ("test_id", "report_positive", "report_negative", "is_error")}
            want["param_map"] = ("empty",) if n == 1 else ps[1]
            ff = e.fieldof(src, "formula")
        else:
            want = dict(test_id=ps[0], param_map=ps[1], report_positive=ps[3], report_negative=ps[4], is_error=ps[5])
            ff = ps[2]
        for x, t in want.items():
            g = new(x)
            c.expect(g == t or g == cond(("truth", t)), "%s:%s" % (nm, x), w, "the registered test's %s is %s" % (x, show(g)[:120]), pth)
        g = new("formula")
        if g != NULL or not any(a[0] == "isnull" and b for a, b in st.f.items()):
            c.expect(clone_of(g) == ff, nm + ":formula", w, "the registered test's formula is %s" % show(g)[:120], pth)
        if n == 6:
            ml = ("E", mapl, ("key", ps[0]))
            for x, t in want.items():
                g = e.load(st, F(ml, x))
                c.expect(g == t or g == cond(("truth", t)), "%s:known:%s" % (nm, x), w, "the test kept under its name has %s %s" % (x, show(g)[:120]), pth)
            g = e.load(st, F(ml, "formula"))
            if g != NULL:
                c.expect(clone_of(g) == ff, nm + ":known:formula", w, "the test kept under its name has the formula %s" % show(g)[:120], pth)
        tot = e.load(st, F(THIS, "nb_test_total"))
        c.expect(tot == add(init(F(THIS, "nb_test_total")), num(1)), nm + ":total", w, "the number of registered tests becomes %s" % show(tot)[:80], pth)


# ---------------------------------------------------------------- accessors
def accessors(P, c):
    q0 = init(QL)
    e0 = Eng(P, [])
    fr = front(e0, q0)
    qe = isempty(q0)
    te = isempty(tests_of(e0, q0))
    first = lambda x: e0.load(St(), F(("E", QL, ZERO), x))
    spec = {
        "get_next_formula": (lambda v, st: v == e0.fieldof(fr, "formula"), lambda v: v == NULL, True),
        "get_next_stl_test": (lambda v, st: v == ("ptr", FRONTLOC), lambda v: v == NULL, True),
        "get_next_trace_test": (lambda v, st: v == ("ptr", ("E", QL, ZERO)), lambda v: v == NULL, False),
        "get_next_trace_test_env": (lambda v, st: v == first("env"), lambda v: v == ("str", ""), False),
    }
    for nm, (some, none, inner) in spec.items():
        for f in find(P, DRV + "::" + nm, 0):
            e, outs = paths(P, c, f)
            for k, st, v in outs:
                pth = showfacts(st)
                w = fl(f)
                if k != "return":
                    c.viol(nm + ":abrupt", w, "ends by %s" % k, pth)
                    continue
                a = decide(st.f, qe)
                b = decide(st.f, te) if inner else False
                c.expect(e.load(st, QL) == q0, nm + ":changes", w, "looking at the queue changes it", pth)
                if a is True or b is True:
                    c.expect(none(v), nm + ":none", w, "with nothing left the answer is %s" % show(v)[:100], pth)
                elif a is False and b is False:
                    c.expect(some(v, st), nm + ":first", w, "the answer is %s" % show(v)[:100], pth)
                else:
                    c.viol(nm + ":unguarded", w, "the answer %s does not depend on whether something is queued" % show(v)[:100], pth)
    for f in find(P, DRV + "::trace_test_queue_empty", 0):
        e, outs = paths(P, c, f)
        for k, st, v in outs:
            a = decide(st.f, v if v[0] in ("c", "cond", "bool") else v) if v[0] != "bool" else None
            ok = v == qe or v == TRUE and decide(st.f, qe) is True or v == FALSE and decide(st.f, qe) is False
            c.expect(ok, "trace_test_queue_empty", fl(f), "the answer is %s" % show(v)[:100], showfacts(st))
    for f in find(P, DRV + "::pop_next_trace_test", 0):
        e, outs = paths(P, c, f)
        for k, st, v in outs:
            q = e.load(st, QL)
            a = decide(st.f, qe)
            c.expect(q == q0 if a is True else a is False and q == ("popf", q0), "pop_next_trace_test", fl(f), "the queue becomes %s" % show(q)[:100], showfacts(st))
    run = find1(P, DRV + "::run_tests", 0)["id"]
    for f in find(P, DRV + "::run_next_trace_test", 0):
        def once(e, fn, loc, dyn, args, st, fr, n):
            if fn["id"] == run:
                st = st.copy()
                st.ev("run", loc)
                return [(st, ("app", "run"))]
        e, outs = paths(P, c, f, [once])
        for k, st, v in outs:
            r = [x for x in st.trace()]
            c.expect([x[0] for x in r] == ["run"] and r[0][1] == THIS, "run_next_trace_test", fl(f), "does not run the next trace test exactly once", showfacts(st))


# ---------------------------------------------------------------- numbers in the log
def number_text(P, c):
    for f in find(P, "d_to_s", 1):
        e = Eng(P, [])
        x = init(("P", ("sym", "&" + f["params"][0]["n"]))) if is_ref(f["params"][0]["t"]) else ("sym", f["params"][0]["n"])
        for k, st, v in e.run(f["id"]):
            if any(y[0] == "unk" for y in subterms(v)):
                c.skip("d_to_s", show(v)[:80])
                continue
            c.expect(data(v) and len(parts(v)) == 1 and (v[0] == "fmt" and v[1] == x or v == ("app", "to_string", x)), "d_to_s", fl(f), "a number is written as %s" % show(v)[:100], showfacts(st))
