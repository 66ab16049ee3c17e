"""K01: the segment kernels tile every step with the pointwise min / max / running max."""
from kern import *

RULE = ("in every abstract case (signs of the difference of the two lines at both ends of the step, sample pending or not) the samples a segment kernel "
        "prepends tile the step with exactly the line the operator denotes, meet where the lines meet, and keep the pending state consistent")



def wrong_end(paths, evs, zl):
    """the result grows at its front, except here"""
    own = (zl, F(zl, "#c"))
    return any(p[1] in own for p in pushes(evs, "push_back")) and any(p[1] in own for q in paths for p in pushes(q[2]))

def boolflag(loop, its):
    fl = set()
    for fx, s in its:
        for a in fx:
            if a[0] == "truth" and a[1][0] == "hv":
                fl.add(a[1])
    return fl


def run(P, c, name, npar):
    fs = find(P, Q + name, npar)
    if len(fs) != 1:
        c.skip(name, "no such function")
        return None
    f = fs[0]
    c.functions.add(f["q"])
    e = Eng(P)
    try:
        outs = e.run(f["id"])
    except Undecided as x:
        c.skip(name, str(x))
        return None
    c.paths += len(outs)
    for k, s, v in outs:
        if s.imp:
            c.skip(name, "; ".join(s.imp[:3]))
            return None
    return f, e, outs


def impure(t):
    return any(x and x[0] == "unk" for x in subterms(t))


def minmax(P, c, name, op):
    """op=+1: minimum, -1: maximum"""
    r = run(P, c, name, 4)
    if not r:
        return
    f, e, outs = r
    pn = [p["n"] for p in f["params"]]
    zl, il, jl = ("P", ("sym", pn[0])), ("P", ("sym", "&" + pn[1])), ("P", ("sym", "&" + pn[3]))
    tsym = ("sym", pn[2])
    if not (is_ref(f["params"][1]["t"]) and is_ref(f["params"][3]["t"])):
        c.skip(name, "parameters changed shape")
        return
    verify2(c, f, name, outs, op, zl, il, jl, tsym)


def verify2(c, f, name, outs, op, zl, il, jl, tsym):
    it, iv, idr = smp(il)
    loops = {}
    for k, s, v in outs:
        ls = [l for l in steps(s)]
        if len(ls) > 1:
            c.skip(name, "more than one loop")
            return
        for l in ls:
            loops[l[1]] = l
    if len(loops) != 1:
        c.skip(name, "loop not recognised")
        return
    loop = list(loops.values())[0]
    lid = loop[1]
    base = dict(loop[4])
    its = [itinfo(i) for i in loop[2]]
    sub = unify(loop)
    jh = ("hv", lid, jl)
    if jl not in base:
        c.viol(name + ":advance", loop[3], "the walk never advances over the samples of the second operand")
        return
    J = ("P", jh)
    jt, jv, jd = smp(J)
    # the right end of the step
    tl = [l for l, b in base.items() if b == tsym]
    th = ("hv", lid, tl[0]) if tl else None
    if len(tl) != 1:
        c.skip(name, "the right end of the step is not carried by one variable")
        return
    T = to_rat(th, sub)
    iline, jline = Line(it, iv, idr), Line(jt, jv, jd)
    flags = {("hv", lid, l) for l, b in base.items() if b[0] == "bool"}
    if len(flags) > 1:
        c.skip(name, "more than one flag")
        return
    flag = list(flags)[0] if flags else None
    pos = True
    if flag is not None:
        pos = base[flag[2]] == FALSE

    def body(kind, paths, S, guard):
        Dt = iline.at(T) - jline.at(T)
        Ds = iline.at(S) - jline.at(S)
        X = (iv - jv + jd * jt - idr * it) / (jd - idr)
        n = 0
        for a, b, cont in itertools.product((-1, 0, 1), (-1, 0, 1), (False, True)):
            if flag is None and cont:
                continue
            case = Case("", [(Dt, a), (Ds, b)], cont if pos else not cont)
            lo, hi = (iline, jline)
            # which operand is the result at each end (min: the smaller)
            wa, wb = a * op, b * op
            if wa < 0 and wb > 0 or wa > 0 and wb < 0:
                marks = [T, X, S]
                need = [[iline], [jline]] if wa < 0 else [[jline], [iline]]
            else:
                w = wa or wb
                marks = [T, S]
                need = [[iline, jline]] if w == 0 else [[iline] if w < 0 else [jline]]
            cn = "difference %s at the right end, %s at the left end%s" % (
                {-1: "negative", 0: "zero", 1: "positive"}[a], {-1: "negative", 0: "zero", 1: "positive"}[b], ", sample pending" if cont else "")
            hit = 0
            for fx, stores, evs, w in paths:
                und = []
                ok = True
                for at, tv in fx.items():
                    tr = truth(at, case, sub, flag, guard, None)
                    if tr is None:
                        und.append(at)
                    elif tr != tv:
                        ok = False
                        break
                if not ok:
                    continue
                if und and any(u[0] not in ("lt0", "eq0") or to_rat(u[1], sub).poly() is None or impure(u) for u in und):
                    c.skip("%s %s: %s" % (name, kind, cn), "branch condition outside the abstract domain")
                    hit += 1
                    continue
                ps = pushes(evs)
                if wrong_end(paths, evs, zl):
                    c.viol("%s:%s:end" % (name, kind), w, "%s (%s): with a %s a sample is added at the wrong end of the result" % (name, kind, cn))
                    hit += 1
                    continue
                if any(p[1] not in (zl, F(zl, "#c")) for p in ps) or any(impure(p[2]) for p in ps) or pushes(evs, "push_back"):
                    c.skip("%s %s: %s" % (name, kind, cn), "samples are added in another way")
                    hit += 1
                    continue
                hit += 1
                if kind == "step" and flag is not None:
                    o = stores.get(flag[2], ("bool", case.cont))
                    if o[0] != "bool":
                        c.skip("%s %s: %s" % (name, kind, cn), "flag value unknown")
                        continue
                    co = o[1] if pos else not o[1]
                else:
                    co = False
                # equal ends: a value of either operand is the value there
                r = cover(ps, sub, marks, relax(need, marks, a, b, iline, jline), iline if cont else None, co, iline, w)
                if r is None:
                    c.ok()
                    n += 1
                else:
                    c.viol("%s:%s" % (name, kind), (r[1][3] if r[1] is not None else w),
                           "%s (%s): with the %s the %s %s" % (name, kind, cn, "minimum" if op > 0 else "maximum", r[0]),
                           ["required: %s" % " then ".join("/".join("first" if l is iline else "second" for l in ls) for ls in need) + " operand, right to left"])
            if not hit:
                c.skip("%s %s: %s" % (name, kind, cn), "no path")
        return n

    def relax(need, marks, a, b, il_, jl_):
        return need

    # the step: left end is where the second operand's sample starts
    S = jt
    paths = []
    for i in loop[2]:
        fx, stores = itinfo(i)
        paths.append((fx, stores, i, loop[3]))
    body("step", paths, S, [(it - jt, -1)])
    strictly(c, name, loop, sub, it - jt, "a sample of the second operand that starts with the segment is taken as one inside it")
    # per-step bookkeeping
    for i, (fx, stores) in zip(loop[2], its):
        nx = stores.get(jl)
        c.expect(nx == ("app", "it++", jh) or nx is not None and nx[0] in ("rit", "it"), name + ":advance", loop[3],
                 "a step does not advance to the second operand's next sample")
        nt = stores.get(tl[0])
        if nt is None or impure(nt):
            c.skip(name, "right end of the next step unknown") if nt is not None else c.viol(name + ":next", loop[3], "the right end does not move")
        else:
            c.expect(to_rat(nt, sub) == jt, name + ":next", loop[3], "the next step ends at %s instead of the start of this one" % show(nt))
    # the tail: left end is the start of the first operand's segment
    paths = []
    for k, s, v in outs:
        evs = [x for x in s.trace() if x[0] != "loop"]
        paths.append((s.f, {}, evs, "%s:%s" % (f["file"], f["line"])))
    body("tail", paths, it, [(it - jt, 1), (jt - it, -1)])
    for k, s, v in outs:
        c.expect(not any(x[0] == "itstep" for x in s.trace()), name + ":tail-advance", fl(f), "the tail moves past the second operand's sample that still covers earlier times")


def strictly(c, name, loop, sub, d, what):
    """every round is taken only when d < 0"""
    for i in loop[2]:
        allowed, seen = {-1, 0, 1}, False
        for a, v in itinfo(i)[0].items():
            if a[0] not in ("lt0", "eq0"):
                continue
            k = ratio(to_rat(a[1], sub), d)
            if k is None:
                continue
            seen = True
            if a[0] == "eq0":
                allowed &= {0} if v else {-1, 1}
            else:
                n = {-1} if k > 0 else {1}
                allowed &= n if v else {-1, 0, 1} - n
        if not seen:
            c.skip(name, "what keeps the walk going is not a comparison of times")
        else:
            c.expect(allowed <= {-1}, name + ":guard", loop[3], "%s: %s" % (name, what))


def runmax(P, c, name):
    """running maximum to the right, walking right to left"""
    r = run(P, c, name, 4)
    if not r:
        return
    f, e, outs = r
    pn = [p["n"] for p in f["params"]]
    zl, il = ("P", ("sym", pn[0])), ("P", ("sym", "&" + pn[1]))
    s0, t0 = ("sym", pn[2]), ("sym", pn[3])
    loops = {}
    for k, s, v in outs:
        for l in steps(s):
            loops[l[1]] = l
    if len(loops) != 1 or not is_ref(f["params"][1]["t"]):
        c.skip(name, "loop not recognised")
        return
    loop = list(loops.values())[0]
    lid, base = loop[1], dict(loop[4])
    its = [itinfo(i) for i in loop[2]]
    sub = unify(loop)
    if il not in base:
        c.viol(name + ":advance", loop[3], "the walk never advances over the samples")
        return
    ih = ("hv", lid, il)
    it, iv, idr = smp(("P", ih))
    tl = [l for l, b in base.items() if b == t0]
    ml = [l for l, b in base.items() if b == neg(init(("G", "STLRom::Signal::BigM")))]
    flags = [l for l, b in base.items() if b[0] == "bool"]
    if len(tl) != 1 or len(flags) != 1:
        c.skip(name, "state variables not recognised")
        return
    if len(ml) != 1:
        cand = [l for l, b in base.items() if l not in tl + flags + [il] and l[0] == "L"]
        if len(cand) == 1:
            c.viol(name + ":init", fl(f), "the running maximum starts from %s instead of the bottom constant" % show(base[cand[0]]))
        else:
            c.skip(name, "running maximum not recognised")
        return
    T, M = to_rat(("hv", lid, tl[0]), sub), to_rat(("hv", lid, ml[0]), sub)
    flag = ("hv", lid, flags[0])
    pos = base[flags[0]] == FALSE
    iline, mline = Line(it, iv, idr), cline(M)

    def body(kind, paths, S, guard):
        It, Is = iline.at(T), iline.at(S)
        X = it + (M - iv) / idr
        n = 0
        for ds, a, b, cont in itertools.product((-1, 0, 1), (-1, 0, 1), (-1, 0, 1), (False, True)):
            # a: sign of M - i(t); b: sign of M - i(s); slope sign ds fixes the order of i(s), i(t)
            if ds == 0 and a != b or ds < 0 and b > a or ds > 0 and a > b:
                continue
            if ds < 0 and a == b == 0 or ds > 0 and a == b == 0:
                continue
            signs = [(idr, ds), (M - It, a), (M - Is, b)]
            case = Case("", signs, cont if pos else not cont)
            if ds >= 0:
                mx = It if a < 0 else M
                marks, need, mo = [T, S], [[cline(mx)] + ([cline(It)] if a == 0 else [])], [mx] + ([It] if a == 0 else [])
            elif a <= 0:
                marks, need, mo = [T, S], [[iline]], [Is]
            elif b >= 0:
                marks, need, mo = [T, S], [[mline]], [M] + ([Is] if b == 0 else [])
            else:
                marks, need, mo = [T, X, S], [[mline], [iline]], [Is]
            sg = {-1: "below", 0: "at", 1: "above"}
            cn = "%s segment, running maximum %s its right end and %s its left end%s" % (
                {-1: "falling", 0: "flat", 1: "rising"}[ds], sg[a], sg[b], ", sample pending" if cont else "")
            hit = 0
            for fx, stores, evs, w in paths:
                und, ok = [], True
                for at, tv in fx.items():
                    tr = truth(at, case, sub, flag, guard, None)
                    if tr is None:
                        und.append(at)
                    elif tr != tv:
                        ok = False
                        break
                if not ok:
                    continue
                hit += 1
                if und and any(u[0] not in ("lt0", "eq0") or to_rat(u[1], sub).poly() is None or impure(u) for u in und):
                    c.skip("%s %s: %s" % (name, kind, cn), "branch condition outside the abstract domain")
                    continue
                ps = pushes(evs)
                if wrong_end(paths, evs, zl):
                    c.viol("%s:%s:end" % (name, kind), w, "%s (%s): with a %s a sample is added at the wrong end of the result" % (name, kind, cn))
                    hit += 1
                    continue
                if any(p[1] not in (zl, F(zl, "#c")) or impure(p[2]) for p in ps) or pushes(evs, "push_back"):
                    c.skip("%s %s: %s" % (name, kind, cn), "samples are added in another way")
                    continue
                # a crossing computed from the value at the left end is the same point
                r = None
                if kind == "step":
                    o = stores.get(flags[0], ("bool", case.cont))
                    m2 = stores.get(ml[0], ("hv", lid, ml[0]))
                    if o[0] != "bool" or impure(m2):
                        c.skip("%s %s: %s" % (name, kind, cn), "state unknown")
                        continue
                    co = o[1] if pos else not o[1]
                    m2r = to_rat(m2, sub)
                    if not any(m2r == x for x in mo):
                        c.viol("%s:%s:max" % (name, kind), w, "%s: with a %s the running maximum becomes %s" % (name, cn, show(m2)))
                        continue
                    oline = cline(m2r)
                    r = cover(ps, sub, marks, need, mline if cont else None, co, oline, w)
                else:
                    r = cover(ps, sub, marks, need, mline if cont else None, False, mline, w)
                if r is None:
                    c.ok()
                else:
                    c.viol("%s:%s" % (name, kind), r[1][3] if r[1] is not None else w, "%s (%s): with a %s it %s" % (name, kind, cn, r[0]))
            if not hit:
                c.skip("%s %s: %s" % (name, kind, cn), "no path")

    S0 = to_rat(s0)
    body("step", [(itinfo(i)[0], itinfo(i)[1], i, loop[3]) for i in loop[2]], it, [(S0 - it, -1)])
    strictly(c, name, loop, sub, S0 - it, "a sample at the begin time is taken as one after it, and the walk goes on beyond it")
    for fx, stores in its:
        c.expect(stores.get(il) == ("app", "it++", ih), name + ":advance", loop[3], "a step does not advance to the next sample")
        nt = stores.get(tl[0])
        if nt is not None and impure(nt):
            c.skip(name, "right end unknown")
        else:
            c.expect(nt is not None and to_rat(nt, sub) == it, name + ":next", loop[3], "the next step does not end where this one starts")
    body("tail", [(s.f, {}, [x for x in s.trace() if x[0] != "loop"], fl(f)) for k, s, v in outs], S0, [(it - S0, -1), (S0 - it, 1)])


def check(P, c):
    c.rule = RULE
    rules(P, c)


def rules(P, c):
    c.guard(minmax, P, c, "computeSegmentAnd", 1)
    c.guard(minmax, P, c, "computeSegmentOr", -1)
    c.guard(runmax, P, c, "computePartialEventually")
    import algebra
    c.guard(algebra.wrappers, P, c)
    c.guard(algebra.walks, P, c)
    c.guard(algebra.segment_until, P, c)
    import window
    c.guard(window.check_window, P, c)
