"""Building and reshaping signals: what each operation leaves, path by path, against its definition."""
from algebra import *
from kern import Case, itinfo, steps


SG = {-1: "negative", 0: "zero", 1: "positive"}


def sign3(fx, d, extra=()):
    """signs of d that the facts (dict atom -> bool) leave open"""
    if d.zero():
        return {0}
    p = d.poly()
    if p is not None and set(p) == {()}:
        return {1 if p[()] > 0 else -1}
    out = {-1, 0, 1}
    for a, v in fx.items():
        if a[0] not in ("lt0", "eq0"):
            continue
        k = ratio(to_rat(a[1]), d)
        if k is None:
            continue
        if a[0] == "eq0":
            out &= {0} if v else {-1, 1}
        else:
            n = {-1} if k > 0 else {1}
            out &= n if v else ({-1, 0, 1} - n)
    return out


def fld(e, k):
    return to_rat(fieldof(e, k)) if e[0] != "elem" else to_rat(("fld", e, k))


def trip(e):
    return fld(e, "time"), fld(e, "value"), fld(e, "derivative")


def elems(t):
    return [x for x in subterms(t) if x and x[0] == "elem"]


def pure(t):
    return not any(x and x[0] == "unk" for x in subterms(t))


def prep(P, c, name, npar, label, pred=None, hooks=True, this=True):
    fs = find(P, Q + name, npar, pred)
    if len(fs) != 1:
        c.skip(label, "no such function")
        return None
    f = fs[0]
    c.functions.add(f["q"])
    me = f["n"]
    def h(e, fn, loc, dyn, args, st, fr, n):
        if fn["n"] == me and fn.get("cls") == f.get("cls"):
            return None
        return sigops.hook(e, fn, loc, dyn, args, st, fr, n) if hooks else None
    e = Eng(P, [h, kernops.free(skip=(me,))])
    try:
        outs = e.run(f["id"], this=THIS)
    except Undecided as x:
        c.skip(label, str(x))
        return None
    c.paths += len(outs)
    c.sites.append("%s: %s, %d paths" % (label, fl(f), len(outs)))
    return f, e, outs


def each(P, c, label, r, judge_, ends=("return",)):
    """judge every path; Odd -> undecided, Wrong -> violation"""
    if not r:
        return
    f, e, outs = r
    for k, st, v in outs:
        if st.imp:
            c.skip(label, "; ".join(st.imp[:3]))
            continue
        try:
            judge_(f, e, k, st, v)
            c.ok()
        except Odd as x:
            c.skip(label, str(x))
        except Wrong as x:
            c.viol("%s:%s" % (label, getattr(x, "kind", "path")), x.where or fl(f), "%s: %s" % (label, x), showfacts(st))


def wrong(kind, msg, where=None):
    x = Wrong(msg, where)
    x.kind = kind
    return x


# ------------------------------------------------------------------ resize
def deq(e, st, t, this, loops):
    """content term -> list of operations on the original content, oldest first"""
    ops = []
    while True:
        h = t[0]
        if t == init(F(this, "#c")):
            return ops[::-1], "orig"
        if h == "empty":
            return ops[::-1], "empty"
        if h in ("pushf", "pushb"):
            ops.append((h, t[2]))
            t = t[1]
        elif h == "app" and t[1] in ("popf", "popb"):
            ops.append((t[1], None))
            t = t[2]
        elif h in ("popf", "popb"):
            ops.append((h, None))
            t = t[1]
        elif h == "hv" and t[1] in loops:
            ops.append(("loop", t))
            b = dict(loops[t[1]][4])
            if t[2] not in b:
                raise Odd("content of loop")
            t = b[t[2]]
        elif h == "upd" and t[3][0] == "setf":
            ops.append(("upd", t))
            t = t[1]
        else:
            raise Odd("content " + show(t)[:80])


def trimloop(loops, hv):
    """('front'|'back', [facts of removing iterations], {local: field of the removed}) of a loop that only removes"""
    lp = loops[hv[1]]
    side, facts, keep = None, [], None
    for it in lp[2]:
        fx, stores = itinfo(it)
        n = stores.get(hv[2])
        if n is None or n == hv:
            continue
        if n[0] == "app":
            n = n[1:]
        if n[0] not in ("popf", "popb") or n[1] != hv:
            raise Odd("loop body")
        s_ = "front" if n[0] == "popf" else "back"
        if side and s_ != side:
            raise Odd("loop removes at both ends")
        side = s_
        facts.append((fx, stores))
    if not side:
        raise Odd("loop removes nothing")
    return side, facts, lp


def at_end(hv, side, key_):
    """term of a field of the element at an end of a havocked content"""
    return ("fld", ("elem", hv, num(0) if side == "front" else "back"), key_)


def end_elem(fx, hv, side):
    """the element term used for that end of the content in these facts"""
    for a, v in fx.items():
        for x in elems(a):
            if x[1] == hv and ((x[2] == num(0)) == (side == "front")):
                return x
    return None


def resize(P, c, label="Signal::resize"):
    r = prep(P, c, "Signal::resize", 3, label)
    if not r:
        return
    s, t, v = [("sym", p["n"]) for p in r[0]["params"]]
    B, E = to_rat(init(F(THIS, "beginTime"))), to_rat(init(F(THIS, "endTime")))
    S, T, V = atom(s), atom(t), atom(v)

    def one(f, e, k, st, ret):
        if k != "return":
            raise wrong("throws", "resizing ends in %s" % k)
        fx = st.f
        loops = dict((l[1], l) for l in steps(st))
        C = e.load(st, F(THIS, "#c"))
        b1, e1 = to_rat(e.load(st, F(THIS, "beginTime"))), to_rat(e.load(st, F(THIS, "endTime")))
        # a window that ends before it starts
        if C[0] == "empty":
            lt = [a for a, tv in fx.items() if a[0] == "lt0" and tv and nonneg_shift(to_rat(a[1]), T - S)]
            if not lt:
                raise wrong("cleared", "drops the whole signal although the window is not reversed")
            if b1 != e1:
                raise wrong("cleared-span", "a signal without samples is left spanning [%s, %s)" % (show(e.load(st, F(THIS, "beginTime"))), show(e.load(st, F(THIS, "endTime")))))
            return
        if b1 != S:
            raise wrong("begin", "the result begins at %s instead of the start of the window" % show(e.load(st, F(THIS, "beginTime"))))
        rev = sign3(fx, T - S)
        if -1 in rev and len(rev) > 1:
            # nothing known about the order: then the end must be as given
            if e1 != T:
                raise Odd("end of the window")
            W = T
        else:
            W = S if rev == {-1} else T
        if e1 != W and not (rev == {0} and e1 in (S, T)):
            raise wrong("end", "the result ends at %s instead of the end of the window" % show(e.load(st, F(THIS, "endTime"))))
        W = e1
        ops, root_ = deq(e, st, C, THIS, loops)
        if root_ != "orig":
            raise wrong("content", "the result does not keep the samples of the signal")
        front, back, pf, pb = None, None, [], []
        for o in ops:
            if o[0] == "loop":
                side, its, lp = trimloop(loops, o[1])
                if side == "front":
                    if front or pf:
                        raise Odd("two trims at the front")
                    front = (o[1], its, lp)
                else:
                    if back or pb:
                        raise Odd("two trims at the back")
                    back = (o[1], its, lp)
            elif o[0] == "pushf":
                pf.append(o[1])
            elif o[0] == "pushb":
                pb.append(o[1])
            else:
                raise Odd("operation " + o[0])
        if len(pf) > 1 or len(pb) > 1:
            raise Odd("several samples added at one end")
        # ---- front
        bs = sign3(fx, B - S)
        if bs == {1}:
            if front:
                for ffx, stores in front[1]:
                    if -1 in sign3(ffx, to_rat(at_end(front[0], "front", "time")) - S) and sign3(ffx, to_rat(at_end(front[0], "front", "time")) - S) != {-1}:
                        raise wrong("front-trim", "removes samples that lie inside the window", front[2][3])
            if not pf:
                raise wrong("front-fill", "the window starts before the signal and no sample is added at its start")
            p, val, d = trip(pf[0])
            if p != S:
                raise wrong("front-fill", "the sample added before the signal is at %s, not at the start of the window" % show(fieldof(pf[0], "time")))
            fe = fieldof(pf[0], "value")
            first = [x for x in elems(fe) if x[2] == num(0)]
            if not (fe[0] == "fld" and fe[2] == "value" and first and fe[1] == first[0]) or not d.zero():
                raise wrong("front-fill", "before the signal the result is %s with slope %s instead of the signal's first value, held" % (show(fe), show(fieldof(pf[0], "derivative"))))
        elif bs == {0, 1}:
            if pf:
                raise wrong("front-fill", "a second sample is added at the window's start when the signal starts there")
            raise Odd("position of the window's start")
        elif bs <= {-1, 0}:
            if not front:
                if sign3(fx, B - S) == {0}:
                    pass
                else:
                    raise wrong("front-trim", "the samples before the window are not removed")
            else:
                fronts(e, st, fx, front, pf, S, W, E, root_)
        else:
            raise Odd("position of the window's start")
        # ---- back
        E2 = E
        es = sign3(fx, E - W)
        hit = None
        if front and not es <= {-1} and not es <= {0, 1}:
            # the end was first moved to the start of the window
            pass
        if sign3(fx, E - S) == {-1} and not (front and fx.get(("isempty", front[0])) is True):
            return          # no sample lies after the signal's end
        if sign3(fx, E - S) == {-1}:
            for q in pb:
                if -1 in sign3(fx, trip(q)[0] - S):
                    raise wrong("order", "when the window starts after the signal's end, a sample before the window's start is added at its end")
            if pf and not pb and not trip(pf[0])[2].zero():
                raise wrong("front-fill", "after the signal's end its last value is not held but goes on with slope %s" % show(fieldof(pf[0], "derivative")))
            return
        if es == {-1, 0} and pb and not back and trip(pb[0])[1] == V:
            raise wrong("back-fill", "the default value replaces the signal's value at its end although the window ends there")
        if es == {-1}:
            if back:
                raise Odd("trims and extends")
            if pb:
                p, val, d = trip(pb[0])
                if p != E:
                    raise wrong("back-fill", "the default value starts at %s, not at the end of the signal" % show(fieldof(pb[0], "time")))
                if val != V or not d.zero():
                    raise wrong("back-fill", "after the signal the result is %s with slope %s instead of the default value" % (
                        show(fieldof(pb[0], "value")), show(fieldof(pb[0], "derivative"))))
            else:
                # allowed only if the last sample already continues as the default
                okv = okd = False
                for a, tv in fx.items():
                    if a[0] == "eq0" and tv:
                        for x in elems(a):
                            if x[2] != num(0):
                                okv = okv or to_rat(a[1]) in (to_rat(("fld", x, "value")) - V, V - to_rat(("fld", x, "value")))
                                okd = okd or to_rat(a[1]) in (to_rat(("fld", x, "derivative")), -to_rat(("fld", x, "derivative")))
                if front and pf and fx.get(("isempty", front[0])) is True:
                    # the head just added is the last sample
                    okv = sign3(fx, fld(pf[0], "value") - V) == {0}
                    okd = sign3(fx, fld(pf[0], "derivative")) == {0}
                if not (okv and okd):
                    raise wrong("back-fill", "the window goes on after the signal and the default value is not filled in")
        elif es <= {0, 1}:
            if not back:
                if es == {0} or front and fx.get(("isempty", front[0])) is True:
                    return
                raise wrong("back-trim", "the samples after the window are not removed")
            hv, its, lp = back
            D = None
            for bfx, stores in its:
                x = end_elem(bfx, hv, "back")
                if x is None:
                    raise wrong("back-trim", "samples are removed at the end without looking at their time", lp[3])
                sg = sign3(bfx, to_rat(("fld", x, "time")) - W)
                if sg != {1}:
                    raise wrong("back-trim", "a sample that is not after the end of the window is removed", lp[3])
                D = x
            em = fx.get(("isempty", hv))
            if em is not True:
                if D is None or not sign3(fx, to_rat(("fld", D, "time")) - W) <= {-1, 0}:
                    raise wrong("back-trim", "a sample after the end of the window may stay", lp[3])
            if pb:
                if em is not True:
                    raise wrong("back-fill", "a sample is added although the signal covers the window's end")
        else:
            if not unread(tuple(fx)):
                e0 = init(F(THIS, "endTime"))
                rel = [a for a in fx if a[0] in ("lt0", "eq0") and e0 in set(subterms(a)) and ratio(to_rat(a[1]), E - S) is None]
                if not rel and pb and not back:
                    raise wrong("back-fill", "a sample is added at the end whether or not the signal reaches the end of the window")
                if not rel and not pb:
                    raise wrong("back-fill", "whether the signal ends before the window is never asked: the default value is not filled in")
                if pb and sign3(fx, E - S) == {1} and trip(pb[0])[0] == S:
                    raise wrong("back-fill", "the default value is filled in from the start of the window although the signal lasts longer")
            raise Odd("position of the window's end")

    def nonneg_shift(r, d):
        """r == k*(d + const>=0), k > 0"""
        p = (r - d).poly()
        return p is not None and set(p) <= {()} and p.get((), 0) >= 0

    def fronts(e, st, fx, front, pf, S, W, E, root_):
        hv, its, lp = front
        last = {}
        strict = None
        x0 = None
        for ffx, stores in its:
            x = end_elem(ffx, hv, "front")
            if x is None:
                raise wrong("front-trim", "samples are removed at the front without looking at their time", lp[3])
            sg = sign3(ffx, to_rat(("fld", x, "time")) - S)
            if 1 in sg:
                raise wrong("front-trim", "a sample inside the window is removed", lp[3])
            strict = sg == {-1} if strict is None else strict and sg == {-1}
            x0 = x
            for l, t_ in stores.items():
                for k in ("time", "value", "derivative"):
                    if t_ == ("fld", x, k):
                        last[("hv", hv[1], l)] = k
        sub_ = {}
        L = dict((k, atom(("last", k))) for k in ("time", "value", "derivative"))

        def tr(t_):
            return to_rat_sub(t_, last, L)
        em = fx.get(("isempty", hv))
        d0 = to_rat(("fld", x0, "time")) - S
        sg = sign3(fx, d0)
        need = None
        if em is True:
            need = True
        else:
            if -1 in sg:
                raise wrong("front-trim", "a sample before the window may stay", lp[3])
            if sg == {1}:
                need = True
            elif sg == {0}:
                need = False
            elif not strict:
                raise Odd("front sample position")
            else:
                raise wrong("front-cut", "whether the first remaining sample is at the window's start is not looked at") if not pf else wrong(
                    "front-cut", "a second sample is added at the window's start")
        if need and not pf:
            raise wrong("front-cut", "the segment that reaches into the window is lost")
        if need is False:
            if pf:
                raise wrong("front-cut", "a second sample is added at the window's start")
            return
        p, val, d = tr(fieldof(pf[0], "time")), tr(fieldof(pf[0], "value")), tr(fieldof(pf[0], "derivative"))
        if p != S:
            raise wrong("front-cut", "the cut segment starts at %s instead of the window's start" % show(fieldof(pf[0], "time")))
        es = sign3(fx, S - E)
        if 1 in es and es != {-1, 0, 1} and -1 not in es or es == {1}:
            return      # the window starts at or after the end of the signal
        if val != L["value"] + L["derivative"] * (S - L["time"]):
            raise wrong("front-cut", "the segment cut at the window's start has value %s there instead of its own" % show(fieldof(pf[0], "value")))
        if em is True and es <= {0, 1}:
            return
        if d != L["derivative"]:
            raise wrong("front-cut", "the segment cut at the window's start goes on with slope %s instead of its own" % show(fieldof(pf[0], "derivative")))

    each(P, c, label, r, one)


def to_rat_sub(t, last, L):
    sub = {}
    for h, k in last.items():
        sub[h] = ("last", k)
    return to_rat(t, sub)


# ------------------------------------------------------------------ simplify, addLastSample
def simplify(P, c, label="Signal::simplify"):
    r = prep(P, c, "Signal::simplify", 0, label, hooks=False)
    E, B = init(F(THIS, "endTime")), init(F(THIS, "beginTime"))

    def one(f, e, k, st, ret):
        if k != "return":
            raise wrong("throws", "simplifying ends in %s" % k)
        loops = dict((l[1], l) for l in steps(st))
        C = e.load(st, F(THIS, "#c"))
        for n in ("beginTime", "endTime"):
            if e.load(st, F(THIS, n)) != init(F(THIS, n)):
                raise wrong("span", "simplifying changes the signal's %s" % n)
        ops, root_ = deq(e, st, C, THIS, loops)
        if root_ != "orig":
            raise Odd("content rebuilt")
        lp = [o for o in ops if o[0] == "loop"]
        if len(lp) != 1:
            raise Odd("expected one loop")
        i = ops.index(lp[0])
        pre, post, hv = ops[:i], ops[i + 1:], lp[0][1]
        first = ("elem", init(F(THIS, "#c")), num(0))
        if [o[0] for o in pre] == ["pushb"] and same_smp(pre[0][1], first):
            raise wrong("first", "the first sample is copied to the end but stays in front")
        if [o[0] for o in pre] == ["pushb", "popb"]:
            raise wrong("first", "the first sample is copied to the end and taken away again: every sample passed is appended behind the old ones")
        if [o[0] for o in pre] == ["popf"]:
            raise wrong("first", "the first sample is dropped")
        if not (len(pre) == 2 and pre[0][0] == "pushb" and pre[1][0] == "popf" and same_smp(pre[0][1], first)):
            raise Odd("not a rotation")
        L = loops[hv[1]]
        x = ("elem", hv, num(0))
        for it in L[2]:
            fx, stores = itinfo(it)
            n = stores.get(hv[2])
            if n is None or n == hv:
                if any(ev[0] in ("push_front", "pop_front", "push_back", "pop_back") for ev in it):
                    raise wrong("stuck", "a sample is put back where it was taken off", L[3])
                raise Odd("iteration without effect")
            if n[0] == "app":
                n = n[1:]
            if n[0] == "pushb" and n[1] == hv:
                raise wrong("stuck", "a sample is kept but not taken off the front", L[3])
            if n[0] != "popf":
                raise Odd("iteration")
            if n[1] == hv:
                bk = [y for a in fx for y in elems(a) if y[1] == hv and y[2] != num(0)]
                if not bk:
                    raise wrong("drop", "a sample is dropped without comparing it with the line before it", L[3])
                bt, bv, bd = trip(bk[0])
                xt, xv, xd = trip(x)
                if sign3(fx, bv + bd * (xt - bt) - xv) != {0} or sign3(fx, bd - xd) != {0}:
                    raise wrong("drop", "a sample is dropped that is not on the line before it (value and slope)", L[3])
            elif n[1][0] == "pushb" and n[1][1] == hv:
                if not same_smp(n[1][2], x):
                    raise wrong("keep", "a kept sample changes", L[3])
            else:
                raise Odd("iteration")
        if sign3(st.f, fld(x, "time") - to_rat(B)) != {0}:
            raise wrong("stop", "the pass does not stop exactly when it is back at the first sample", L[3])
        closing(e, st, post, hv, to_rat(E))
    each(P, c, label, r, one)


def same_smp(t, x):
    return t == x or (t[0] == "rec" and all(fieldof(t, k) == ("fld", x, k) for k in ("time", "value", "derivative")))


def closing(e, st, post, hv, E, what="closing sample"):
    bks = [y for a in st.f for y in elems(a) if y[1] == hv and y[2] != num(0)]
    bks += [y for o in post if o[1] is not None for y in elems(o[1]) if y[1] == hv and y[2] != num(0)]
    if not bks:
        raise wrong("closing", "the last sample is never looked at")
    bt, bv, bd = trip(bks[0])
    sg = sign3(st.f, bt - E)
    if post:
        if [o[0] for o in post] == ["pushf"]:
            raise wrong("closing", "the last sample is added in front of the signal")
        if len(post) != 1 or post[0][0] != "pushb":
            raise Odd("end of the signal")
        if sg != {-1}:
            raise wrong("closing", "a sample is added at the end time although there may be one already")
        p, v, d = trip(post[0][1])
        if p != E or v != bv + bd * (E - bt):
            raise wrong("closing", "the sample added at the end has time %s and value %s instead of the last segment's value at the end time" % (
                show(fieldof(post[0][1], "time")), show(fieldof(post[0][1], "value"))))
    elif -1 in sg:
        raise wrong("closing", "no sample is added at the end time although the last one may be before it")


def addlast(P, c, label="Signal::addLastSample"):
    r = prep(P, c, "Signal::addLastSample", 0, label, hooks=False)

    def one(f, e, k, st, ret):
        C = e.load(st, F(THIS, "#c"))
        base = init(F(THIS, "#c"))
        ops, root_ = deq(e, st, C, THIS, {})
        if root_ != "orig" or k != "return":
            raise wrong("content", "the signal's samples are not kept")
        closing(e, st, ops, base, to_rat(init(F(THIS, "endTime"))))
    each(P, c, label, r, one)


# ------------------------------------------------------------------ shift
def shift(P, c, label="Signal::shift"):
    r = prep(P, c, "Signal::shift", 1, label, hooks=False)
    if not r:
        return
    a = atom(("sym", r[0]["params"][0]["n"]))

    def one(f, e, k, st, ret):
        if k != "return":
            raise wrong("throws", "shifting ends in %s" % k)
        C = e.load(st, F(THIS, "#c"))
        for n in ("beginTime", "endTime"):
            if to_rat(e.load(st, F(THIS, n))) != to_rat(init(F(THIS, n))) + a:
                raise wrong("span", "the signal's %s becomes %s" % (n, show(e.load(st, F(THIS, n)))))
        loops = dict((l[1], l) for l in steps(st))
        if C == init(F(THIS, "#c")):
            if sign3(st.f, a) == {0} or st.f.get(("isempty", C)) is True:
                return
            raise wrong("samples", "the samples are not moved")
        if C[0] != "hv" or C[1] not in loops:
            raise Odd("content " + show(C)[:80])
        lp = loops[C[1]]
        base = dict(lp[4])
        if base.get(C[2]) != init(F(THIS, "#c")):
            raise Odd("content before the loop")
        moved = 0
        for it in lp[2]:
            fx, stores = itinfo(it)
            n = stores.get(C[2])
            if n is None or n == C:
                raise wrong("samples", "a sample may be passed over", lp[3])
            if n[0] != "upd" or n[1] != C or n[3][0] != "setf":
                raise Odd("iteration")
            pos, x = n[2], n[3][1]
            if x != ("elem", C, pos) or n[3][2] != "time":
                if n[3][2] in ("value", "derivative"):
                    raise wrong("samples", "shifting changes a sample's %s" % n[3][2], lp[3])
                raise Odd("iteration")
            if to_rat(n[3][3]) != to_rat(("fld", x, "time")) + a:
                raise wrong("samples", "a sample's time becomes %s" % show(n[3][3]), lp[3])
            walk_all(lp, base, C, stores, pos, st)
            moved += 1
        if not moved:
            raise wrong("samples", "the samples are not moved")
    each(P, c, label, r, one)


def walk_all(lp, base, C, stores, pos, st):
    """the position walks over every element: an iterator from begin to end, or an index from 0 to size"""
    if pos == ("any", lp[1]):
        if any(a[0] == "itend" and a[2] == pos and not v for a, v in st.f.items()):
            raise wrong("samples", "the walk stops before the end", lp[3])
        return
    for l, b in base.items():
        n = stores.get(l)
        if b[0] in ("it", "rit") and n is not None and n[0] == b[0]:
            if b[2] != "begin":
                raise wrong("samples", "the walk starts at %s" % show(b), lp[3])
            if n[2] != ("off", pos, num(1)) and n[2] != ("off", pos, 1):
                raise wrong("samples", "the walk steps over samples", lp[3])
            if not any(a[0] == "itend" and v for a, v in st.f.items()):
                raise wrong("samples", "the walk stops before the end", lp[3])
            return
        if b == num(0) and n is not None and ("hv", lp[1], l) == pos:
            if to_rat(n) != to_rat(pos) + const(1):
                raise wrong("samples", "the walk steps over samples", lp[3])
            return
    raise Odd("walk not recognised")


# ------------------------------------------------------------------ appendSample, constructors
INTERPOL = ("G", "STLRom::Signal::interpol")


def enumvals(P, enum):
    """constants of an enumeration, as far as the code mentions them"""
    cache = P.__dict__.setdefault("_enumvals", {})
    if enum not in cache:
        out = {}

        def walk(x):
            if isinstance(x, dict):
                if x.get("rk") == "enum" and str(x.get("q", "")).startswith(Q + enum + "::"):
                    out[x["q"].rsplit("::", 1)[1]] = x["iv"]
                for v in x.values():
                    walk(v)
            elif isinstance(x, list):
                for v in x:
                    walk(v)
        for f in P.funcs.values():
            walk(f.get("body"))
        cache[enum] = out
    return cache[enum]


def mode(P, fx):
    """interpolation mode known on this path: name, None if refused, '?' if open"""
    vals = enumvals(P, "Interpol")
    m = init(INTERPOL)
    for n, k in vals.items():
        if sign3(fx, to_rat(m) - const(k)) == {0}:
            return n
    if all(0 not in sign3(fx, to_rat(m) - const(k)) for k in vals.values()):
        return None
    return "?"


def appended(P, fx, base, C, b0, b1, e0, e1, t, v, d, where=None, k="return"):
    """one appended sample (t, v, d) on content base"""
    em = fx.get(("isempty", base))
    if em is None:
        em = decide(fx, isempty(base))
    late = sign3(fx, e0 - t)
    if em is None:
        for a, tv in fx.items():
            pass
    if k != "return":
        if mode(P, fx) is None:
            return
        raise wrong("throws", "a valid sample is refused", where)
    if C == base:
        if em is False and late <= {0, 1}:
            if b1 != b0 or e1 != e0:
                raise wrong("span", "a refused sample changes the signal's span", where)
            return
        raise wrong("lost", "a sample %s is not appended" % ("of an empty signal" if em else "after the end"), where)
    if em is not True and not late <= {-1}:
        raise wrong("order", "a sample may be appended that is not after the end of the signal", where)
    m = mode(P, fx)
    if m is None:
        raise wrong("mode", "a sample is appended under an unknown interpolation", where)
    if m == "?":
        if em is not True or not d.zero():
            raise wrong("mode", "a sample is appended without looking at the interpolation", where)
    if C[0] != "pushb":
        raise Odd("content " + show(C)[:80])
    old, x = C[1], C[2]
    p, xv, xd = trip(x)
    if p != t or xv != v:
        raise wrong("sample", "the sample appended is (%s, %s)" % (show(fieldof(x, "time")), show(fieldof(x, "value"))), where)
    if m == "PREVIOUS" and not xd.zero():
        raise wrong("slope", "with interpolation PREVIOUS the sample has slope %s" % show(fieldof(x, "derivative")), where)
    if m == "LINEAR" and xd != d:
        raise wrong("slope", "the last sample's slope is %s" % show(fieldof(x, "derivative")), where)
    if e1 != t or (em is True and b1 != t) or (em is not True and b1 != b0):
        raise wrong("span", "after appending, the signal's span is not [first sample, this sample]", where)
    if old == base:
        if em is not True and m != "PREVIOUS":
            raise wrong("slope", "with interpolation LINEAR the segment before the sample does not lead to it", where)
        return
    if em is True:
        raise Odd("content " + show(C)[:80])
    if m == "PREVIOUS":
        raise wrong("slope", "with interpolation PREVIOUS the segment before the sample changes", where)
    if old[0] == "upd" and old[1] == base and old[3][0] == "setf" and old[3][2] == "derivative" and old[3][1] == ("elem", base, old[2]) and old[2] != num(0):
        y = old[3][1]
        if to_rat(old[3][3]) != (v - fld(y, "value")) / (t - fld(y, "time")):
            raise wrong("slope", "the segment before the sample gets slope %s" % show(old[3][3]), where)
        return
    raise Odd("content " + show(C)[:80])


def append(P, c):
    for npar in (2, 3):
        label = "Signal::appendSample/%d" % npar
        r = prep(P, c, "Signal::appendSample", npar, label, hooks=False)
        if not r:
            continue
        ps = [atom(("sym", p["n"])) for p in r[0]["params"]] + [const(0)]

        def one(f, e, k, st, ret):
            g = lambda n: to_rat(e.load(st, F(THIS, n)))
            i = lambda n: to_rat(init(F(THIS, n)))
            appended(P, st.f, init(F(THIS, "#c")), e.load(st, F(THIS, "#c")), i("beginTime"), g("beginTime"), i("endTime"), g("endTime"), ps[0], ps[1], ps[2], None, k)
        each(P, c, label, r, one)


def appendsig(P, c, label="Signal::appendSignal"):
    r = prep(P, c, "Signal::appendSignal", 1, label, hooks=False)
    if not r:
        return

    def one(f, e, k, st, ret):
        if k != "return":
            return
        loops = steps(st)
        if not loops and not any(ev[0] in ("call", "vcall") for ev in st.trace()) and e.load(st, F(THIS, "#c")) == init(F(THIS, "#c")) and not any(a[0] == "isempty" and b for a, b in st.f.items()):
            raise wrong("samples", "no sample of the other signal is appended", fl(f))
        if len(loops) != 1:
            raise Odd("loops")
        lp = loops[0]
        base = dict(lp[4])
        its = [(l, b) for l, b in base.items() if b[0] == "it"]
        if len(its) != 1:
            raise Odd("walk")
        il, b = its[0]
        if b[2] != "begin":
            raise wrong("samples", "the walk starts at %s" % show(b), lp[3])
        forward(lp, st)
        cl = F(THIS, "#c")
        C0 = ("hv", lp[1], cl) if cl in base else init(cl)
        for it in lp[2]:
            fx, stores = itinfo(it)
            n = stores.get(il)
            if n is None or n[0] != "it" or n[2][0] != "off":
                raise Odd("walk")
            pos = n[2][1]
            if n[2][2] not in (1, num(1)):
                raise wrong("samples", "the walk steps over samples", lp[3])
            x = ("elem", n[1] if n[1] and n[1][0] != "F" else None, pos)
            xs = [y for it_ in lp[2] for ev in it_ for y in elems(ev) if y[2] == pos]
            if not xs:
                raise wrong("samples", "the samples are not appended", lp[3])
            t, v, d = trip(xs[0])
            def hv(n_):
                l = F(THIS, n_)
                return ("hv", lp[1], l) if l in base else init(l)
            nw = lambda n_: to_rat(stores.get(F(THIS, n_), hv(n_)))
            appended(P, fx, C0, stores.get(cl, C0), to_rat(hv("beginTime")), nw("beginTime"), to_rat(hv("endTime")), nw("endTime"), t, v, d, lp[3])
    each(P, c, label, r, one)


def ctors(P, c):
    def istyp(*ts):
        return lambda f: [p["t"].replace("const ", "").strip() for p in f["params"]] == list(ts)
    label = "Signal(t, v)"
    r = prep(P, c, "Signal::Signal", 3, label, pred=istyp("double", "double", "int"), hooks=False)
    if r:
        ps = [atom(("sym", p["n"])) for p in r[0]["params"]]

        def one(f, e, k, st, ret):
            C = e.load(st, F(THIS, "#c"))
            if k != "return" or C[0] != "pushb" or C[1][0] not in ("empty", "init"):
                raise wrong("sample", "the signal is not the single sample given")
            p, v, d = trip(C[2])
            if p != ps[0] or v != ps[1] or not d.zero():
                raise wrong("sample", "the signal's only sample is (%s, %s, slope %s)" % tuple(show(fieldof(C[2], x)) for x in ("time", "value", "derivative")))
            for n in ("beginTime", "endTime"):
                if to_rat(e.load(st, F(THIS, n))) != ps[0]:
                    raise wrong("span", "the signal's %s is %s" % (n, show(e.load(st, F(THIS, n)))))
        each(P, c, label, r, one)
    label = "Signal(times, values, n)"
    r = prep(P, c, "Signal::Signal", 3, label, pred=istyp("double *", "double *", "int"), hooks=False)
    if r:
        array(P, c, label, r)


def arr(t):
    """(array parameter, index term) of an array element"""
    return None


def array(P, c, label, r):
    pn = [p["n"] for p in r[0]["params"]]
    n = ("sym", pn[2])

    def el(a, i):
        return ("elem", init(("P", ("sym", pn[a]))), i)

    def one(f, e, k, st, ret):
        if k != "return":
            if mode(P, st.f) is None:
                return
            raise wrong("throws", "building the signal ends in %s" % k)
        C = e.load(st, F(THIS, "#c"))
        loops = dict((l[1], l) for l in steps(st))
        at = lambda a, i: to_rat(el(a, i))
        zero, lasti = num(0), sub(n, num(1))
        b, en = e.load(st, F(THIS, "beginTime")), e.load(st, F(THIS, "endTime"))
        single = sign3(st.f, to_rat(lasti)) == {0}
        if to_rat(b) != at(0, zero):
            raise wrong("span", "the signal begins at %s" % show(b))
        if to_rat(en) != at(0, lasti) and not (single and to_rat(en) == at(0, zero)):
            raise wrong("span", "the signal ends at %s" % show(en))
        if C[0] != "pushb":
            raise wrong("samples", "the last sample is missing")
        x = C[2]
        p, v, d = trip(x)
        if not any(p == at(0, i) and v == at(1, i) for i in ([zero, lasti] if single else [lasti])) or not d.zero():
            raise wrong("samples", "the last sample is (%s, %s, slope %s)" % tuple(show(fieldof(x, q)) for q in ("time", "value", "derivative")))
        if single and not loops:
            return
        if C[1][0] != "hv" or C[1][1] not in loops:
            raise Odd("content")
        hv = C[1]
        lp = loops[hv[1]]
        base = dict(lp[4])
        used = set(z[2] for it in lp[2] for ev in it if ev[0] == "push_back" for z in elems(ev))
        idx = [l for l in base if any(("hv", lp[1], l) in set(subterms(u)) for u in used)]
        if len(idx) != 1 or not isnum(base[idx[0]]):
            raise Odd("index")
        ctr = ("hv", lp[1], idx[0])
        i = sub(ctr, base[idx[0]])      # how many samples are there already
        m = mode(P, st.f)
        for it in lp[2]:
            fx, stores = itinfo(it)
            if to_rat(stores.get(idx[0], ctr)) != to_rat(ctr) + const(1):
                raise wrong("samples", "samples are passed over", lp[3])
            nn = stores.get(hv[2])
            if nn is None or nn[0] != "pushb" or nn[1] != hv:
                raise Odd("iteration")
            p, v, d = trip(nn[2])
            i1 = add(i, num(1))
            if p != at(0, i) and p == at(0, ctr) and v == at(1, ctr):
                raise wrong("samples", "the samples start at index %s" % show(base[idx[0]]), lp[3])
            if p != at(0, i) or v != at(1, i):
                raise wrong("samples", "sample i is (%s, %s)" % (show(fieldof(nn[2], "time")), show(fieldof(nn[2], "value"))), lp[3])
            mm = m if m != "?" else mode(P, fx)
            want = const(0) if mm == "PREVIOUS" else (at(1, i1) - at(1, i)) / (at(0, i1) - at(0, i)) if mm == "LINEAR" else None
            if want is None:
                raise wrong("mode", "samples are built without looking at the interpolation", lp[3])
            if d != want:
                raise wrong("slope", "with interpolation %s sample i has slope %s" % (mm, show(fieldof(nn[2], "derivative"))), lp[3])
            if sign3(fx, to_rat(i) - to_rat(lasti)) != {-1}:
                raise wrong("samples", "the samples before the last are not exactly those with index below n-1", lp[3])
        if -1 in sign3(st.f, to_rat(i) - to_rat(lasti)):
            raise wrong("samples", "the samples before the last are not exactly those with index below n-1", lp[3])
    each(P, c, label, r, one)


# ------------------------------------------------------------------ boolean view and time robustness
def operand(r):
    return ("P", ("sym", "&" + r[0]["params"][0]["n"]))


def looped(e, st, C):
    loops = dict((l[1], l) for l in steps(st))
    if C[0] == "empty" and not any(a[0] == "isempty" and v for a, v in st.f.items()):
        raise wrong("none", "the result has no samples")
    if C[0] != "hv" or C[1] not in loops:
        raise Odd("content " + show(C)[:80])
    lp = loops[C[1]]
    if dict(lp[4]).get(C[2], ("?",))[0] != "empty":
        raise wrong("earlier", "samples of an earlier result stay")
    return lp


def forward(lp, st):
    """the walk takes every element up to the end, none beyond"""
    ps = {("any", lp[1])} | {("hv", lp[1], l) for l, b in lp[4]}
    for it in lp[2]:
        for a, v in itinfo(it)[0].items():
            if a[0] == "itend" and v and a[2] in ps:
                raise wrong("samples", "the walk reads where there is no sample", lp[3])
    ex = [v for a, v in st.f.items() if a[0] == "itend" and a[2] in ps]
    if ex and True not in ex:
        raise wrong("samples", "the walk stops before the operand's last sample", lp[3])


def added(lp, it):
    """the samples a round adds at the end"""
    if any(ev[0] == "push_front" for ev in it) and any(b[0] == "it" and b[2] == "begin" for l, b in lp[4]):
        raise wrong("order", "the samples are added in the wrong order", lp[3])
    if any(ev[0] in ("push_front", "pop_back", "pop_front") for ev in it):
        raise Odd("iteration")
    if not any(ev[0] in ("push_back", "emplace_back", "loop", "cont") or ev[0] == "sigop" for ev in it) and len(lp[2]) >= 1:
        raise wrong("samples", "an operand's sample is left out", lp[3])
    return [ev[2] for ev in it if ev[0] == "push_back"]


def element(lp, it, src):
    """the source element of this iteration"""
    xs = []
    for ev in it:
        if ev[0] == "push_back":
            xs += [y for y in elems(ev) if y[1] == src and not (isinstance(y[2], tuple) and y[2][0] == "off")]
    ps = set(x[2] for x in xs)
    if not xs:
        for ev in it:
            if ev[0] == "push_back":
                for z in elems(ev):
                    if z[1][0] == "op" and z[1][1] in sigops.OPS:
                        raise wrong("operand", "the samples come from %s" % z[1][1], lp[3])
    if len(ps) != 1:
        raise Odd("element")
    return xs[0]


def nexttime(fx, x, endt, pushes_):
    """time at which the element's segment ends, by what the path knows about a successor"""
    nx = ("off", x[2], num(1))
    cands = [a for a in fx if a[0] == "itend" and a[2] != x[2]]
    if len(cands) != 1:
        return None
    a = cands[0]
    if fx[a]:
        return endt
    return to_rat(("fld", ("elem", x[1], a[2]), "time"))


def boolean(P, c, label="Signal::compute_boolean"):
    r = prep(P, c, "Signal::compute_boolean", 1, label)
    if not r:
        return
    y = operand(r)
    Y = init(F(y, "#c"))
    yB, yE = init(F(y, "beginTime")), init(F(y, "endTime"))
    done = set()

    def one(f, e, k, st, ret):
        if k != "return":
            raise wrong("throws", "ends in %s" % k)
        C = e.load(st, F(THIS, "#c"))
        popped = False
        full = C
        if C[0] == "app" and C[1] == "popb":
            C, popped = C[2], True
        elif C[0] == "popb":
            C, popped = C[1], True
        elif C[0] == "popf" or C[0] == "app" and C[1] == "popf":
            raise wrong("first", "the first truth value is removed")
        simp = C[0] == "op" and C[1] == "simplify"
        inner_ = C[2][0][1] if simp else C
        bt, en = (C[2][0][2], C[2][0][3]) if simp else (e.load(st, F(THIS, "beginTime")), e.load(st, F(THIS, "endTime")))
        if inner_[0] != "hv":
            raise Odd("content " + show(inner_)[:80])
        if bt != yB or en != yE:
            raise wrong("span", "the result spans [%s, %s) instead of the operand's span" % (show(bt), show(en)))
        if not simp:
            raise wrong("changes", "samples that are no change of truth value are not removed")
        big = small = False
        sz = to_rat(size(C))
        for a, v in st.f.items():
            if any(z and z[0] == "size" for z in subterms(a)):
                q = to_rat(a[1])
                if a[0] == "lt0" and q == const(1) - sz or a[0] == "lt0" and q == sz - const(2):
                    m = v if q == const(1) - sz else not v
                    big, small = big or m, small or not m
                elif a[0] == "eq0" and q in (sz - const(1), const(1) - sz):
                    big, small = big or not v, small or v
        bk = [z for a in st.f for z in elems(a) if z[1] == C and z[2] != num(0)]
        atend = None
        if bk:
            atend = sign3(st.f, fld(bk[0], "time") - to_rat(e.load(st, F(THIS, "endTime")))) if True else None
        if popped:
            if not big:
                raise wrong("only", "the last sample is removed even if it is the only one")
            if atend is None or (atend != {0} and 1 not in atend and atend != {0, 1}):
                raise wrong("last", "the last sample is removed although it is not at the end time")
            if -1 in atend:
                raise wrong("last", "the last sample may be removed although it is not at the end time")
        if not popped and not small and (atend is None or 0 in atend):
            raise wrong("end", "a truth value at the end time, which covers nothing, stays in the result")
        lp = looped(e, st, inner_)
        if lp[1] in done:
            return
        done.add(lp[1])
        steps_(c, label, lp, inner_, st)

    def steps_(c, label, lp, hv, st):
        base = dict(lp[4])
        its = [i for i in lp[2]]
        items = []
        forward(lp, st)
        for it in its:
            fx, stores = itinfo(it)
            ps = added(lp, it)
            x = element(lp, it, Y)
            if x[1] != Y:
                raise Odd("element")
            for l, b in base.items():
                n = stores.get(l)
                if b[0] == "it" and n is not None and n[0] == "it":
                    if b[2] != "begin":
                        raise wrong("samples", "the walk starts at %s" % show(b), lp[3])
                    if n[2] != ("off", x[2], 1) and n[2] != ("off", x[2], num(1)):
                        raise wrong("samples", "the walk steps over samples", lp[3])
            N = nexttime(fx, x, to_rat(yE), ps)
            items.append((fx, x, ps, N))
        for v_, d_, n_ in itertools.product((-1, 0, 1), repeat=3):
            # sign of the value at the end of the segment must be consistent
            if d_ == 0 and n_ != v_ or d_ > 0 and n_ <= 0 and v_ >= 0 and not (v_ < 0) or d_ < 0 and n_ >= 0 and v_ <= 0 and not (v_ > 0):
                continue
            if d_ > 0 and n_ < v_ or d_ < 0 and n_ > v_:
                continue
            hit = 0
            cn = "segment with %s value, %s slope and %s value at its end" % (SG[v_], SG[d_], SG[n_])
            for fx, x, ps, N in items:
                t, v, d = trip(x)
                signs_ = [(v, v_), (d, d_)]
                if N is not None:
                    vN = v + d * (N - t)
                    signs_.append((vN, n_))
                    if d_:
                        signs_.append((t - v / d - N, -n_ * d_))
                        signs_.append((v / d, v_ * d_))
                case = Case("", signs_, None)
                ok = True
                for a, tv in fx.items():
                    if a[0] in ("lt0", "eq0"):
                        sg = case.sign(to_rat(a[1]))
                        if sg is not None and ((sg < 0) if a[0] == "lt0" else (sg == 0)) != tv:
                            ok = False
                            break
                if not ok:
                    continue
                hit += 1
                X = t - v / d
                if v_ > 0:
                    want = [(t, 1)] + ([(X, 0)] if n_ < 0 else [])
                elif v_ < 0:
                    want = [(t, 0)] + ([(X, 1)] if n_ > 0 else [])
                else:
                    want = [(t, 1 if d_ > 0 else 0)]
                got = []
                for p in ps:
                    if not pure(p):
                        raise Odd("sample")
                    a_, b_, g_ = trip(p)
                    if not g_.zero():
                        raise wrong("slope", "a truth value has slope %s" % show(fieldof(p, "derivative")), lp[3])
                    pb_ = b_.poly()
                    if pb_ is None or not set(pb_) <= {()}:
                        raise wrong("value", "a truth value is %s" % show(fieldof(p, "value")), lp[3])
                    got.append((a_, int(pb_.get((), 0)), p))
                okk = len(got) == len(want) and all(g[0] == w[0] and g[1] == w[1] for g, w in zip(got, want))
                if okk:
                    c.ok()
                else:
                    raise wrong("truth", "on a %s the truth value becomes %s" % (cn, ", ".join("%d from %s" % (g[1], show(fieldof(g[2], "time"))) for g in got) or "nothing"), lp[3])
            if not hit:
                c.skip(label, "no path for a " + cn)
    each(P, c, label, r, one)


def timerob(P, c):
    for side in ("left", "right"):
        label = "Signal::compute_%s_time_rob" % side
        r = prep(P, c, "Signal::compute_%s_time_rob" % side, 1, label)
        if not r:
            continue
        y = operand(r)
        yB, yE = init(F(y, "beginTime")), init(F(y, "endTime"))
        want = ("op", "compute_boolean", (("sig", init(F(y, "#c")), yB, yE),))
        cnt = {}

        def one(f, e, k, st, ret):
            if k != "return":
                raise wrong("throws", "ends in %s" % k)
            C = e.load(st, F(THIS, "#c"))
            for n, w in (("beginTime", yB), ("endTime", yE)):
                if e.load(st, F(THIS, n)) != w:
                    raise wrong("span", "the result's %s is %s" % (n, show(e.load(st, F(THIS, n)))))
            lp = looped(e, st, C)
            base = dict(lp[4])
            forward(lp, st)
            for it in lp[2]:
                fx, stores = itinfo(it)
                ps = added(lp, it)
                x = element(lp, it, want)
                for l, b in base.items():
                    n = stores.get(l)
                    if b[0] == "it" and n is not None and n[0] == "it":
                        if b[2] != "begin":
                            raise wrong("samples", "the walk starts at %s" % show(b), lp[3])
                        if n[2] != ("off", x[2], 1) and n[2] != ("off", x[2], num(1)):
                            raise wrong("samples", "the walk steps over samples", lp[3])
                if len(ps) != 1:
                    raise wrong("samples", "a change of truth value gives %d samples" % len(ps), lp[3])
                t, v, d = trip(x)
                p, pv, pd = trip(ps[0])
                if p != t:
                    raise wrong("time", "the sample is at %s instead of the change of truth value" % show(fieldof(ps[0], "time")), lp[3])
                # the boolean view only has the values 0 and 1
                vals = []
                for b in (0, 1):
                    ok = True
                    for a, tv in fx.items():
                        if a[0] in ("lt0", "eq0"):
                            q = to_rat(a[1], {("fld", x, "value"): num(b)})
                            pq = q.poly()
                            if pq is not None and set(pq) <= {()}:
                                z = pq.get((), 0)
                                if ((z < 0) if a[0] == "lt0" else (z == 0)) != tv:
                                    ok = False
                    if ok:
                        vals.append(b)
                if not vals:
                    continue
                for b in vals:
                    sg = 1 if b else -1
                    tb = "true" if b else "false"
                    sb = {("fld", x, "value"): num(b)}
                    pv_, pd_ = to_rat(fieldof(ps[0], "value"), sb), to_rat(fieldof(ps[0], "derivative"), sb)
                    if side == "left":
                        q = pv_.poly()
                        eps = q.get((), 0) if q is not None and set(q) <= {()} else None
                        if eps is None or eps * sg < 0 or abs(eps) > 1e-6:
                            raise wrong("value", "where the operand turns %s the result starts from %s instead of zero on the %s side" % (
                                tb, show(fieldof(ps[0], "value")), "positive" if b else "negative"), lp[3])
                        if pd_ != const(sg):
                            raise wrong("slope", "while the operand is %s the result changes with slope %s instead of %d" % (tb, show(fieldof(ps[0], "derivative")), sg), lp[3])
                    else:
                        N = nexttime(fx, x, to_rat(yE), ps)
                        if N is None:
                            raise wrong("value", "the next change of truth value is not looked at", lp[3])
                        if pv_ != const(sg) * (N - t):
                            raise wrong("value", "where the operand turns %s the result starts from %s instead of the signed time to the next change" % (tb, show(fieldof(ps[0], "value"))[:200]), lp[3])
                        if pd_ != const(-sg):
                            raise wrong("slope", "while the operand is %s the result changes with slope %s instead of %d" % (tb, show(fieldof(ps[0], "derivative")), -sg), lp[3])
                    c.ok()
        each(P, c, label, r, one)


def check_build(P, c):
    c.guard(ctors, P, c)
    c.guard(append, P, c)
    c.guard(appendsig, P, c)
    c.guard(resize, P, c)
    c.guard(simplify, P, c)
    c.guard(addlast, P, c)
    c.guard(shift, P, c)


def check_time(P, c):
    c.guard(boolean, P, c)
    c.guard(timerob, P, c)
