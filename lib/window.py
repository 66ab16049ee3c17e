"""Sliding window extrema (plateauMax / plateauMin): the monotone queue, event by event."""
from algebra import *


def signs(fx, d):
    """signs of d allowed by the facts"""
    out = set((-1, 0, 1))
    if d.zero():
        return {0}
    for a, v in fx.items():
        if a[0] not in ("lt0", "eq0"):
            continue
        k = ratio(to_rat(a[1]), d)
        if k is None:
            continue
        if a[0] == "eq0":
            out &= {0} if v else {-1, 1}
        else:
            neg = {-1} if k > 0 else {1}
            out &= neg if v else (set((-1, 0, 1)) - neg)
    return out


def pt(t):
    return to_rat(fieldof(t, "time")), to_rat(fieldof(t, "value"))


def elf(e, k):
    """field of an element term"""
    return fieldof(e, k)


def front(fx, m):
    """the first element of queue content m as (time, value) terms"""
    if m[0] == "pushb":
        em = decide(fx, isempty(m[1])) if m[1][0] != "empty" else True
        em = fx.get(("isempty", m[1]), em)
        if em is True:
            return m[2]
        return front(fx, m[1])
    return ("elem", m, num(0))


def fld2(t, k):
    if t[0] == "rec":
        return fieldof(t, k)
    return ("fld", t, k)


def plateau(P, c, name, s):
    r = runs(P, c, Q + name, 2, name)
    if not r:
        return
    f, e, outs = r
    pn = [x["n"] for x in f["params"]]
    xl = ("P", ("sym", pn[0]))
    a = atom(("sym", pn[1]))
    xb, xe = to_rat(init(F(xl, "beginTime"))), to_rat(init(F(xl, "endTime")))
    for k, st, v in outs:
        w = fl(f)
        if k != "return" or st.imp:
            c.skip(name, "; ".join(st.imp[:3]) or k)
            continue
        try:
            one(P, c, name, s, f, e, st, v, xl, a, xb, xe)
            c.ok()
        except Odd as x:
            c.skip(name, str(x))
        except Wrong as x:
            c.viol(name, x.where or w, "%s: %s" % (name, x), showfacts(st))


def inner(i):
    return [x for x in i if x[0] == "loop"]


def dominated(lp, base, y, s, fx, what):
    """inner loop removing queue elements that the new one makes irrelevant"""
    if len(lp) != 1:
        if not lp:
            raise Wrong("%s: candidates that the new one dominates are not removed" % what)
        raise Odd("inner loops")
    l = lp[0]
    b = [(loc, t) for loc, t in l[4]]
    if len(b) != 1 or b[0][1] != base:
        raise Odd("inner loop base")
    m = ("hv", l[1], b[0][0])
    back = ("elem", m, ("back",)) if False else None
    for i in l[2]:
        fx2, stores = itinfo(i)
        if stores.get(b[0][0]) != ("app", "popb", m) and stores.get(b[0][0], ("",))[0] != "popb" and not any(x[0] == "pop_back" for x in i):
            raise Odd("inner loop body")
        if len([x for x in i if x[0] in ("pop_back", "pop_front", "push_back", "push_front")]) != 1:
            raise Odd("inner loop body")
        bk = backs(fx2, m)
        if bk is None:
            raise Wrong("%s: candidates are removed without comparing them" % what, l[3])
        d = (y[1] - bk) * const(s)
        if -1 in signs(fx2, d):
            raise Wrong("%s: candidates are removed that the new one does not dominate" % what, l[3])
    em = fx.get(("isempty", m))
    if em is None:
        em = decide(fx, isempty(m))
    if em is not True:
        bk = backs(fx, m)
        if bk is None:
            raise Odd("inner loop exit")
        if 1 in signs(fx, (y[1] - bk) * const(s)):
            raise Wrong("%s: candidates that the new one dominates stay" % what, l[3])
    return m


def backs(fx, m):
    for a, v in fx.items():
        if a[0] in ("lt0", "eq0"):
            for x in subterms(a):
                if x and x[0] == "fld" and x[2] == "value" and x[1][0] == "elem" and x[1][1] == m:
                    if x[1][2] == num(0):
                        continue
                    return to_rat(x)
    return None


def one(P, c, name, s, f, e, st, v, xl, a, xb, xe):
    ls = steps(st)
    word = "maximum" if s > 0 else "minimum"
    if len(ls) != 3:
        raise Odd("expected the three loops, found %d" % len(ls))
    pre, ini, stp = ls
    tr_ = st.trace()
    if any(x[0] in ("pop_front", "pop_back", "push_back") for x in tr_[tr_.index(ini):tr_.index(stp)]):
        raise Odd("events before the loop over them")
    # ---- candidates: the values of x at and just before its samples
    base = dict(pre[4])
    rl = [l for l, b in base.items() if b[0] == "rit"]
    if len(rl) != 1 or strip(base[rl[0]][1]) != xl:
        raise Odd("candidate loop")
    if base[rl[0]][2] != "begin":
        raise Odd("candidate loop start")
    el = None
    yl = None
    for i in pre[2]:
        fx, stores = itinfo(i)
        ps = [x for x in i if x[0].startswith("push_")]
        if not ps and not inner(i):
            raise Wrong("the candidates of a segment are not listed", pre[3])
        if len(ps) == 1 and ps[0][0] == "push_back" and any(b[0] == "it" and b[2] == "begin" for b in dict(ini[4]).values()):
            raise Wrong("the candidates are listed backwards", ps[0][3])
        if len(ps) != 1 or ps[0][0] != "push_front" or inner(i):
            raise Odd("candidate loop body")
        if not_end(fx, xl) is not False:
            raise Wrong("a candidate is read where the operand has no sample", pre[3])
        yl = ps[0][1]
        cand = [l for l, b in base.items() if l != rl[0] and b[0] != "empty"]
        tl = [l for l in cand if to_rat(base[l]) == xe]
        vl = [l for l in cand if l not in tl]
        if len(tl) != 1 or len(vl) != 1:
            bad = [l for l in cand if l[0] == "L"]
            if len(cand) == 2:
                raise Wrong("the candidates are not listed from the operand's end time", pre[3])
            raise Odd("candidate loop state")
        tl, vl = tl[0], vl[0]
        if not to_rat(base[vl]) == to_rat(BOT if s > 0 else TOP):
            raise Wrong("the last candidate is compared with %s" % show(base[vl]), pre[3])
        th, vh = to_rat(("hv", pre[1], tl)), to_rat(("hv", pre[1], vl))
        els = {x for x in subterms(("q", ps[0][2], tuple(stores.items()), tuple(fx.items()))) if x and x[0] == "elem" and strip_i(x[1]) == xl}
        if len(els) != 1:
            raise Odd("candidate loop element")
        el = els.pop()
        jt, jv, jd = [to_rat(("fld", el, q)) for q in ("time", "value", "derivative")]
        lv = jv + jd * (th - jt)
        t_, v_ = pt(ps[0][2])
        if not t_ == th:
            raise Wrong("a candidate is listed at another time than the end of the segment", ps[0][3])
        sg = signs(fx, (lv - vh) * const(s))
        ok = True
        if not (v_ == lv or v_ == vh):
            if any(x and x[0] in ("max", "min") for x in subterms(ps[0][2])):
                h = "max" if s > 0 else "min"
                raise Odd("candidate value") 
            raise Wrong("a candidate has value %s" % show(fieldof(ps[0][2], "value")), ps[0][3])
        if v_ == lv and -1 in sg and not v_ == vh or v_ == vh and 1 in sg and not v_ == lv:
            raise Wrong("a candidate is not the %s of the values on both sides of a sample" % word, ps[0][3])
        if not to_rat(stores.get(tl, ("hv", pre[1], tl))) == jt or not to_rat(stores.get(vl, ("hv", pre[1], vl))) == jv:
            raise Wrong("the next candidate is not taken at the start of this segment", pre[3])
        stp_ = stores.get(rl[0])
        if stp_ is None or stp_[0] != "rit" or stp_[2][0] != "off" or stp_[2][2] != num(1):
            raise Wrong("a segment is left out of the candidates", pre[3])
    if not_end(st.f, xl) is not True:
        raise Wrong("the candidates are not listed back to the operand's first sample", pre[3])
    ibase = dict(ini[4])
    il = [l for l, b in ibase.items() if b[0] == "it"]
    if len(il) != 1 or strip(ibase[il[0]][1]) != strip(yl) or ibase[il[0]][2] != "begin":
        raise Odd("first window loop")
    il = il[0]
    # ---- first window
    Ml = None
    ypre = None
    for i in ini[2]:
        fx, stores = itinfo(i)
        ps = [x for x in i if x[0].startswith("push_") or x[0].startswith("pop_")]
        if len(ps) == 1 and ps[0][0] == "push_front" and any(x[0] == "pop_front" and x[1] == ps[0][1] for j in stp[2] for x in j) and not any(x[0] == "push_front" for j in stp[2] for x in j):
            raise Wrong("the first window's candidates are queued backwards", ps[0][3])
        if not ps and not inner(i):
            raise Wrong("the first window's candidates are not queued", ini[3])
        if len(ps) != 1 or ps[0][0] != "push_back":
            raise Odd("first window body")
        Ml = ps[0][1]
        ye = ps[0][2]
        if ye[0] != "elem":
            if ye[0] == "rec":
                raise Odd("first window element")
            raise Odd("first window element")
        ypre = ye[1]
        y = (to_rat(("fld", ye, "time")), to_rat(("fld", ye, "value")))
        if signs(fx, y[0] - xb - a) != {-1}:
            if 1 in signs(fx, y[0] - xb - a):
                raise Wrong("candidates from beyond the first window are taken", ini[3])
        dominated(inner(i), ("hv", ini[1], Ml), y, s, fx, "first window")
        nx = stores.get(il)
        if nx is None or nx[0] != "it" or nx[2][0] != "off" or nx[2][2] != num(1):
            raise Wrong("a candidate is left out of the first window", ini[3])
    if Ml is None or ibase.get(Ml) != ("empty",):
        raise Odd("queue")
    # the list: front sample in front of the candidates
    yc = ypre
    if not (yc[0] == "pushf" and yc[1] == ("hv", pre[1], yl)):
        raise (Wrong("the operand's first sample is not a candidate") if yc == ("hv", pre[1], yl) else Odd("candidate list"))
    t_, v_ = pt(yc[2])
    fr = [x for x in subterms(yc[2]) if x and x[0] == "elem"]
    if len(set(fr)) != 1 or fr[0][2] != num(0) or not t_ == to_rat(("fld", fr[0], "time")) or not v_ == to_rat(("fld", fr[0], "value")):
        raise Wrong("the first candidate is not the operand's first sample")
    # ---- events
    sb = dict(stp[4])
    lid = stp[1]
    bools = [l for l, b in sb.items() if b[0] in ("bool", "cond")]
    its = [(itinfo(i), i) for i in stp[2]]

    def tr(fx, l):
        return fx.get(("truth", ("hv", lid, l)))
    endl = newl = None
    for l in bools:
        ts = [(tr(fx, l), any(x[0] == "pop_front" and x[1] == Ml for x in i), any(x[0] == "push_back" and x[1] == Ml for x in i)) for (fx, so), i in its]
        known = [t for t in ts if t[0] is not None]
        if not known or len(known) != len(ts) or len({t[0] for t in ts}) < 2:
            continue
        if all(t[0] == t[1] for t in ts):
            endl = l
        if all(t[0] == t[2] for t in ts):
            newl = l
    if endl is None or newl is None:
        raise Odd("event flags")
    ends = [l for l, b in sb.items() if b[0] == "it"]
    if len(ends) != 1 or ends[0] != il:
        raise Odd("event iterator")
    zl = None
    tls = None
    for (fx, so), i in its:
        ps = [x for x in i if x[0] == "push_back" and x[1] != Ml]
        if len(ps) == 1:
            zl = ps[0][1]
            tm = fieldof(ps[0][2], "time")
            if tm[0] == "hv" and tm[1] == lid:
                tls = tm[2]
    if zl is None or tls is None:
        raise Odd("output")
    # state before the first event
    yi0 = sb[il]
    pos0 = yi0[2]
    if not to_rat(sb[tls]) == xb:
        raise Wrong("the first window starts at %s instead of the operand's begin time" % show(sb[tls]), stp[3])
    if sb[endl] != FALSE:
        raise Wrong("a candidate is dropped before the first window", stp[3])
    y0 = to_rat(("fld", ("elem", yc, pos0), "time"))
    sg = signs(st.f, y0 - xb - a)
    if sb[newl][0] != "bool":
        q = sb[newl][1]
        if len(sb[newl]) > 2 and sb[newl][2] is False:
            raise Wrong("the first event takes a candidate in exactly when it does not lie at the end of the first window", stp[3])
        if not (q[0] == "eq0" and ratio(to_rat(q[1]), y0 - xb - a) is not None):
            raise Odd("first event")
    if sb[newl] == TRUE and sg - {0} and (1 in sg):
        raise Wrong("a candidate from beyond the first window is taken into it", stp[3])
    if sb[newl] == FALSE and 0 in sg:
        raise Wrong("a candidate at the end of the first window is not taken into it", stp[3])
    if -1 in sg:
        raise Wrong("the first window stops before its end", ini[3])
    if sb.get(Ml) != ("hv", ini[1], Ml):
        raise Odd("queue at the start")
    for (fx, so), i in its:
        end, new = tr(fx, endl), tr(fx, newl)
        m = ("hv", lid, Ml)
        w = stp[3]
        if end:
            m = ("popf", m)
        yi = ("elem", yc, ("hv", lid))
        pos = ("hv", lid)
        mods = [x for x in i if x[1:2] == (Ml,) and x[0] in ("push_back", "pop_front", "pop_back", "push_front", "clear")]
        if [x[0] for x in mods] != (["pop_front"] if end else []) + (["push_back"] if new else []):
            raise Odd("queue operations")
        if new:
            y = (to_rat(("fld", yi, "time")), to_rat(("fld", yi, "value")))
            inn = inner(i)
            n = dominated(inn, inn[0][4][0][1] if inn else None, y, s, fx, "event")
            b0 = inn[0][4][0][1]
            if b0 != m and not (end and b0[0] in ("popf", "app") and ("hv", lid, Ml) in list(subterms(b0))):
                raise Odd("queue before an event")
            if mods[-1][2] != yi:
                raise Odd("new candidate")
            m = ("pushb", n, yi)
            pos = ("off", pos, num(1))
        elif inner(i):
            raise Odd("queue operations")
        got = so.get(il, ("it", sb[il][1], ("hv", lid)))
        if got[0] != "it" or got[2] != pos:
            raise Wrong("the candidates are not followed one by one", w)
        mc = so.get(Ml, ("hv", lid, Ml))
        fr = front(fx, mc) if new else ("elem", mc, num(0))
        em = False if new else fx.get(("isempty", mc), decide(fx, isempty(mc)))
        if em is None:
            raise Odd("queue emptiness")
        # output
        ps = [x for x in i if x[0] in ("push_back", "push_front") and x[1] == zl]
        if len(ps) != 1 or ps[0][0] != "push_back":
            if len(ps) == 0:
                raise Wrong("an event yields no sample", w)
            if len(ps) == 1 and any(x[0] == "push_back" and x[1] == zl for (f2, s2), j in its for x in j):
                raise Wrong("a sample of the result is put in front of the earlier ones", ps[0][3])
            raise Odd("output")
        smp = ps[0][2]
        if fieldof(smp, "time") != ("hv", lid, tls):
            raise Wrong("the window's %s is placed at %s" % (word, show(fieldof(smp, "time"))), ps[0][3])
        vv, dd = to_rat(fieldof(smp, "value")), to_rat(fieldof(smp, "derivative"))
        if not dd.zero():
            raise Wrong("the window's %s gets a slope" % word, ps[0][3])
        if em:
            if not vv == to_rat(BOT if s > 0 else TOP):
                raise Wrong("an empty window has value %s" % show(fieldof(smp, "value")), ps[0][3])
        elif not vv == to_rat(fld2(fr, "value")):
            raise Wrong("the window's %s is not the first candidate's value" % word, ps[0][3])
        # next event
        atend = None
        for at, v_ in fx.items():
            if at[0] == "itend" and pos in list(subterms(at)):
                atend = v_
        if atend is None:
            nxt_ = ("elem", yc, pos)
            if all(x[0] in ("lt0", "eq0", "truth", "isempty") for x in fx) and not unread(tuple(fx)) and any(nxt_ in set(subterms(x)) for x in list(fx) + [so.get(tls, TRUE)]):
                raise Wrong("the next candidate is looked at whether or not there is one", w)
            raise Odd("list end")
        e2, n2 = so.get(endl, ("bool", end)), so.get(newl, ("bool", new))
        if e2[0] != "bool" or n2[0] != "bool":
            raise Odd("flags")
        e2, n2 = e2[1], n2[1]
        nt = to_rat(so.get(tls, ("hv", lid, tls)))
        ft = to_rat(fld2(fr, "time"))
        yt = to_rat(("fld", ("elem", yc, pos), "time")) - a
        if em and atend:
            if e2 or n2:
                raise Wrong("events go on after the last candidate left", w)
            continue
        opts = []
        if em:
            opts = [(yt, False, True, "only a new candidate is left")]
        elif atend:
            opts = [(ft, True, False, "only candidates to drop are left")]
        else:
            for g in signs(fx, ft - yt):
                opts.append([(ft, True, False, "the first candidate leaves before the next one enters"),
                             (ft, True, True, "a candidate leaves when another enters"),
                             (yt, False, True, "a candidate enters before the first one leaves")][g + 1])
        for tt, ee, nn, what in opts:
            if (e2, n2) != (ee, nn):
                raise Wrong("when %s, the next event %s" % (what, "drops a candidate" if e2 and not n2 else "adds a candidate" if n2 and not e2 else "does both" if e2 else "does not happen"), w)
            if not (nt == tt or ee and nn and (nt == ft or nt == yt)):
                raise Wrong("when %s, the next event is placed at another time" % what, w)
        # the loop goes on as long as there are events
    for l in bools:
        if l in (endl, newl):
            continue
        for (fx, so), i in its:
            e2, n2 = so.get(endl, ("bool", tr(fx, endl))), so.get(newl, ("bool", tr(fx, newl)))
            cc = so.get(l)
            if tr(fx, l) is True and cc is not None and cc[0] == "bool" and (e2[1] or n2[1]) != cc[1]:
                raise Wrong("the events stop early" if not cc[1] else "the events go on after the last", stp[3])


    # ---- a last sample at the end time covers nothing
    pops = [x for x in st.trace() if x[0] in ("pop_back", "pop_front", "push_back", "push_front", "clear") and x[1] == zl]
    if st.f.get(("isempty", ("hv", lid, zl))) is True:
        return
    if any(x[0] != "pop_back" for x in pops) or len(pops) > 1:
        if any(x[0] == "pop_front" for x in pops):
            raise Wrong("the first sample of the result is dropped", pops[0][-1])
        raise Odd("output after the last event")
    zs = [at for at in st.f if at[0] in ("lt0", "eq0") and any(x and x[0] == "elem" and x[1][0] == "hv" and x[1][2] == zl for x in subterms(at))]
    d = None
    for at in zs:
        for x in subterms(at):
            if x and x[0] == "fld" and x[2] == "time" and x[1][0] == "elem" and x[1][1][0] == "hv" and x[1][1][2] == zl and x[1][2] == "back":
                d = to_rat(x) - xe
    sg = signs(st.f, d) if d is not None else {-1, 0, 1}
    if pops and -1 in sg:
        raise Wrong("the last sample is dropped although it lies before the end time", pops[0][2])
    if not pops and 0 in sg and not any(at[0] in ("lt0", "eq0") and any(x == init(F(xl, "endTime")) for x in subterms(at)) for i in stp[2] for at in itinfo(i)[0]):
        raise Wrong("a sample at the end time is left in the result", stp[3])


def not_end(fx, xl):
    """whether the walk over xl is at its end, by the facts (None: not tested)"""
    for at, v in fx.items():
        if at[0] == "itend" and at[1] == "rit" and any(t == init(xl) or t == xl for t in subterms(at)):
            return v
    return None


def strip_i(t):
    return strip(t[1]) if t[0] == "init" else None


def check_window(P, c):
    c.guard(plateau, P, c, "plateauMax", 1)
    c.guard(plateau, P, c, "plateauMin", -1)
