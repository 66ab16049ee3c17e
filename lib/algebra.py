"""The signal operators as written, compared with their definitions.

Every function is run symbolically with the functions it is built from kept as
abstract operations; the content of its result becomes a term of the signal
algebra (not/and/or modulo AC and De Morgan, ev/alw/until, shift, resize,
window maxima), which is compared with the definition under the path's facts.
"""
from kern import *
import kernops, sigops, proto
from proto import neg_, ac, TOP, BOT
from kernops import FREE

FREEINV = dict((v, k) for k, v in FREE.items())


class Odd(Exception):
    """not expressible: undecided"""


class Wrong(Exception):
    """expressible and different"""

    def __init__(self, msg, where=None):
        Exception.__init__(self, msg)
        self.where = where


def strip(l):
    return l[1] if l[0] == "F" and l[2] == "#c" else l


class Path:
    def __init__(self, e, f, st, ret, names):
        self.e, self.f, self.st, self.ret = e, f, st, ret
        self.names = names          # {signal loc: label}
        self.loops = dict((l[1], l) for l in steps(st))
        self._facts = None

    # ---- numbers
    def num(self, t):
        h = t[0]
        if h == "lin":
            r = const(t[1])
            for k, v in t[2]:
                r = r + const(v) * self.num(k)
            return r
        if h == "num":
            return const(t[1])
        if h == "mul":
            r = const(1)
            for x in t[1]:
                r = r * self.num(x)
            return r
        if h == "div":
            d = self.num(t[2])
            return atom(t) if d.zero() else self.num(t[1]) / d
        if h in ("beg", "end") and t[1][0] == "op":
            nm, av = t[1][1], t[1][2]
            if nm == "shift":
                return self.num(av[0][2 if h == "beg" else 3]) + self.num(av[1])
            if nm in ("compute_not", "simplify", "compute_eventually", "compute_globally"):
                return self.num(av[0][2 if h == "beg" else 3])
        if h in ("min", "max"):
            return atom((h, tuple(sorted((str(key(self.num(x))) for x in t[1])))))
        if h == "ite":
            return atom(t)
        return atom(t)

    def facts(self):
        if self._facts is None:
            self._facts = []
            for a, v in self.st.f.items():
                if a[0] == "lt0":
                    self._facts.append((self.num(a[1]), "<" if v else ">="))
                elif a[0] == "eq0":
                    self._facts.append((self.num(a[1]), "=" if v else "!"))
        return self._facts

    def proves(self, r, op):
        """r op 0, op in < <= = (also >, >= by negation)"""
        if op in (">", ">="):
            return self.proves(-r, "<" if op == ">" else "<=")
        if r.zero():
            return op in ("<=", "=")
        p = r.poly()
        if p is not None and set(p) == {()}:
            return p[()] < 0
        le = ge = ne = False
        for q, o in self.facts():
            k = ratio(r, q)
            if k is None:
                continue
            if o == "=":
                le = ge = True
            elif o == "!":
                ne = True
            elif (o == "<") == (k > 0):
                le = True
                ne = ne or o == "<"
                if o == ">=" and k < 0:
                    pass
            else:
                ge = True
                ne = ne or o == "<"
        if op == "<":
            return le and ne
        if op == "<=":
            return le
        return le and ge

    def refutes(self, r, op):
        n = {"<": ">=", "<=": ">", ">": "<=", ">=": "<"}[op]
        return self.proves(r, n)

    def eq(self, a, b):
        return self.num(a) == self.num(b)

    def ismax(self, t, a, b, sgn=1):
        """t is the larger (sgn=1) / smaller (sgn=-1) of a and b on this path"""
        A, B, T = self.num(a), self.num(b), self.num(t)
        if T == self.num(("max" if sgn > 0 else "min", (a, b))):
            return True
        d = (A - B) if sgn > 0 else (B - A)
        if T == A and self.proves(d, ">="):
            return True
        if T == B and self.proves(d, "<="):
            return True
        return A == B and T == A

    # ---- signals
    def label(self, l):
        l = strip(l)
        return self.names.get(l)

    def sig(self, v):
        if v[0] != "sig":
            raise Odd("signal argument " + show(v)[:80])
        c = v[1]
        k = self.core(c)
        if c[0] == "op":
            if v[2] != ("beg", c) or v[3] != ("end", c):
                return ("retimed", k, show(v[2]), show(v[3]))
        elif c[0] == "init":
            l = strip(c[1])
            if v[2] != init(F(l, "beginTime")) or v[3] != init(F(l, "endTime")):
                return ("retimed", k, show(v[2]), show(v[3]))
        return k

    def core(self, t):
        h = t[0]
        if h == "sig":
            return self.sig(t)
        if h == "empty":
            return ("empty",)
        if h == "init":
            n = self.label(t[1])
            if n is None and t[1] == F(THIS, "#c") and self.f.get("cls"):
                return ("earlier result",)
            if n is None:
                raise Odd("unknown signal " + show(t)[:80])
            return ("var", n)
        if h == "op":
            nm, av = t[1], t[2]
            a = [self.sig(x) if x[0] == "sig" else self.num(x) for x in av]
            if nm == "simplify":
                return a[0]
            if nm == "compute_not":
                return neg_(a[0])
            if nm == "compute_and":
                return ac("and", a)
            if nm == "compute_or":
                return ac("or", a)
            if nm == "compute_implies":
                return ac("or", [neg_(a[0]), a[1]])
            if nm == "compute_eventually":
                return ("ev*", a[0])
            if nm == "compute_globally":
                return neg_(("ev*", neg_(a[0])))
            if nm == "compute_bounded_eventually":
                return ("ev", a[0], key(a[1]))
            if nm == "compute_bounded_globally":
                return neg_(("ev", neg_(a[0]), key(a[1])))
            if nm == "shift":
                return a[0] if a[1].zero() else ("shift", a[0], key(a[1]))
            if nm == "resize":
                return ("resize", a[0], key(a[1]), key(a[2]), key(a[3]))
            if nm == "compute_plateau_max":
                return ("pmax", a[0], key(a[1]))
            if nm == "compute_plateau_min":
                return ("pmin", a[0], key(a[1]))
            return (nm,) + tuple(x if isinstance(x, tuple) else key(x) for x in a)
        if h == "kern":
            return self.kern(t)
        if h == "hv":
            return self.loop(t)
        raise Odd("content " + show(t)[:100])

    def over(self, it):
        """(label, position) of an iterator over an input"""
        if it[0] == "rit":
            n = self.label(it[1])
            if n is None:
                raise Odd("iterator over " + showloc(it[1]))
            return n, it[2]
        raise Odd("iterator " + show(it)[:80])

    def skipped(self, it, e):
        """the reverse iterator stands on the last sample before e (or on the first sample)"""
        n, pos = self.over(it)
        if pos == "begin":
            raise Wrong("it starts from the last sample of an operand, which may lie at or after the common end")
        if not (isinstance(pos, tuple) and pos[0] in ("any", "hv")):
            raise Odd("position " + repr(pos)[:60])
        lp = self.loops.get(pos[1])
        if lp is None:
            raise Odd("position from an unknown loop")
        E = self.num(e)
        l0 = self.loc(n)

        def first(a, v):
            """what a fact says about standing on the operand's first sample: True, False, 'past' or None"""
            ps = [x for x in subterms(a) if x and x[0] == "rit" and len(x) == 3]
            if a[0] == "iteq" and len(ps) == 2:
                if ps[0][2] != pos:
                    ps.reverse()
                q = ps[1][2]
                if ps[0][2] == ("off", pos, num(1)) and q == "end" or ps[0][2] == pos and q == ("off", "end", num(-1)):
                    return v
                if ps[0][2] == pos and isinstance(q, tuple) and q[0] == "off" and q[1] == "end":
                    return "past" if v else None
                return None
            if a[0] == "itend":
                if ("off", pos, num(1)) in list(subterms(a)):
                    return v
                if pos in list(subterms(a)) and not any(x and x[0] == "off" for x in subterms(a)):
                    return "past" if v else None
            return None

        def before(a, v):
            """what a fact says about the current sample lying before the end: '<', '<=', '>=', '>' or None"""
            if a[0] != "lt0":
                return None
            el = {x for x in subterms(a) if x and x[0] == "fld" and ("r", pos) in list(subterms(x)) and x[2] == "time"}
            if len(el) != 1:
                return None
            k = ratio(self.num(a[1]), self.num(el.pop()) - E)
            if k is None:
                return None
            return ("<" if v else ">=") if k > 0 else (">" if v else "<=")
        fs = [first(a, v) for a, v in self.st.f.items()]
        bs = [before(a, v) for a, v in self.st.f.items()]
        if True not in fs and "<" not in bs:
            if "past" in fs:
                raise Wrong("the walk over an operand does not stop on its first sample", lp[3])
            if "<=" in bs:
                raise Wrong("the walk over an operand stops on a sample at the common end, which covers nothing", lp[3])
            if ">" in bs or ">=" in bs or any(a[0] == "lt0" and any(x == ("r", pos) for x in subterms(a)) for a in self.st.f):
                raise Wrong("the walk over an operand does not stop at the last sample before the common end", lp[3])
            raise Odd("no exit condition")
        for i in lp[2]:
            fx, stores = itinfo(i)
            bs = [before(a, v) for a, v in fx.items()]
            if not (">=" in bs or ">" in bs):
                raise Wrong("the walk skips samples of an operand that lie before the common end", lp[3])
            if False not in [first(a, v) for a, v in fx.items()]:
                if any(a[0] in ("iteq", "itend") and pos in list(subterms(a)) for a in fx) or not any(x and x[0] in ("size", "isempty") for a in fx for x in subterms(a)):
                    raise Wrong("the walk over an operand goes on past its first sample", lp[3])
                raise Odd("walk bound")
            for l, b in dict(lp[4]).items():
                if b[0] == "rit" and strip(b[1]) == strip(l0) or b[0] == "rit" and b[1] == it[1]:
                    nx = stores.get(l)
                    if nx is not None and nx[0] == "rit" and nx[2] != ("off", pos, num(1)):
                        raise Wrong("the walk over an operand does not move back one sample at a time", lp[3])

    def bothskipped(self, its, e):
        odd = None
        for it in its:
            try:
                self.skipped(it, e)
            except Odd as x:
                odd = x
        if odd:
            raise odd

    def kern(self, t):
        nm, old, args = t[1], t[2], t[3:]
        if nm in ("computePartialAnd", "computePartialOr"):
            if self.core(old) != ("empty",):
                raise Wrong("the result is not built from an empty signal")
            xs = []
            for it in args[:2]:
                n, pos = self.over(it)
                xs.append(n)
            b, e = args[2], args[3]
            self.window(b, e, xs)
            self.bothskipped(args[:2], e)
            return ac("and" if nm.endswith("And") else "or", [("var", n) for n in xs])
        if nm == "computePartialEventually":
            if self.core(old) != ("empty",):
                raise Wrong("the result is not built from an empty signal")
            n, pos = self.over(args[0])
            if pos != "begin":
                raise Odd("position")
            self.window(args[1], args[2], [n])
            return ("ev*", ("var", n))
        if nm == "computeSegmentUntil":
            return self.until(t)
        raise Odd(nm)

    def loc(self, n):
        return [l for l, v in self.names.items() if v == n][0]

    def window(self, b, e, ns):
        ls = [self.loc(n) for n in ns]
        if len(ls) == 1:
            ok1 = self.eq(b, init(F(ls[0], "beginTime")))
            ok2 = self.eq(e, init(F(ls[0], "endTime")))
        else:
            ok1 = self.ismax(b, init(F(ls[0], "beginTime")), init(F(ls[1], "beginTime")))
            ok2 = self.ismax(e, init(F(ls[0], "endTime")), init(F(ls[1], "endTime")), -1)
        if not ok1:
            raise Wrong("it is computed from time %s instead of the %s" % (show(b), "later of the two begin times" if len(ls) > 1 else "operand's begin time"))
        if not ok2:
            raise Wrong("it is computed up to time %s instead of the %s" % (show(e), "earlier of the two end times" if len(ls) > 1 else "operand's end time"))

    def loop(self, t):
        lid, loc = t[1], t[2]
        lp = self.loops.get(lid)
        if lp is None:
            raise Odd("unknown loop")
        base = dict(lp[4])
        if loc not in base:
            raise Odd("loop base")
        # elementwise map of one operand
        its = [l for l, b in base.items() if b[0] in ("it", "rit")]
        idx = None
        if its:
            if len(its) != 1:
                raise Odd("loop form")
            n = self.label(base[its[0]][1])
            if n is None or base[its[0]][2] != "begin":
                raise Odd("loop form")
            fwd = base[its[0]][0] == "it"
        else:
            # range-for, or by index from 0
            els = {x for i in lp[2] for e in i if e[0] in ("push_back", "push_front") for x in subterms(e[2]) if x and x[0] == "elem"}
            if len(els) != 1:
                raise Odd("loop form")
            el = el0 = els.pop()
            n = self.label(el[1][1]) if el[1][0] == "init" else None
            if n is None:
                raise Odd("loop form")
            if el[2] == ("any", lid):
                fwd = True
            elif el[2][0] == "hv" and el[2][1] == lid and base.get(el[2][2]) == num(0) and all(itinfo(i)[1].get(el[2][2]) == add(el[2], num(1)) for i in lp[2]):
                fwd, idx = True, el[2]
            else:
                raise Odd("loop form")
        if self.core(base[loc]) != ("empty",):
            raise Wrong("the result is not built from an empty signal", lp[3])
        for i in lp[2]:
            fx, stores = itinfo(i)
            ps = [e for e in i if e[0] in ("push_back", "push_front")]
            if len(ps) != 1:
                if not ps and len(fx) <= 1:
                    raise Wrong("an operand's sample is dropped", lp[3])
                raise Odd("loop body")
            if (ps[0][0] == "push_back") != fwd:
                raise Wrong("the samples are added in the wrong order", ps[0][3])
            if len([a for a in fx if a[0] not in ("itend", "iteq", "isempty") and not (idx is not None and self.bound(a, idx, el0[1]))]):
                raise Odd("conditional loop body")
            s = ps[0][2]
            cur = [x for x in subterms(s) if x and x[0] == "elem"]
            if len(set(cur)) != 1:
                raise Odd("loop body")
            el = cur[0]
            g = [self.num(fieldof(s, k)) for k in ("time", "value", "derivative")]
            w = [atom(("fld", el, k)) for k in ("time", "value", "derivative")]
            if not g[0] == w[0]:
                raise Wrong("a sample is moved in time", ps[0][3])
            if g[1] == -w[1] and g[2] == -w[2]:
                continue
            raise Wrong("a sample (value, slope) becomes (%s, %s) instead of its negation" % (show(fieldof(s, "value")), show(fieldof(s, "derivative"))), ps[0][3])
        if idx is not None:
            if not any(self.bound(a, idx, el0[1]) and not v for a, v in self.st.f.items()):
                raise Odd("loop exit")
            return neg_(("var", n))
        if not its:
            return neg_(("var", n))
        for i in lp[2]:
            if any(a[0] == "itend" and ("any", lid) in list(subterms(a)) and v for a, v in itinfo(i)[0].items()):
                raise Wrong("the samples are read past the operand's last", lp[3])
        if not any(a[0] in ("itend", "iteq") and v for a, v in self.st.f.items()):
            if any(a[0] == "itend" and ("any", lid) in list(subterms(a)) for a in self.st.f):
                raise Wrong("the negation stops before the operand's last sample", lp[3])
            raise Odd("loop exit")
        return neg_(("var", n))

    def bound(self, a, idx, cont):
        """index < size"""
        if a[0] not in ("lt0", "eq0"):
            return False
        sz = [x for x in subterms(a) if x and x[0] == "size"]
        return len(set(sz)) == 1 and any(x == strip(cont[1]) for x in subterms(sz[0])) and ratio(self.num(a[1]), self.num(idx) - self.num(sz[0])) is not None and a[0] == "lt0"

    # ---- untimed until over a whole operand
    def until(self, t):
        tail = t
        old = tail[2]
        if old[0] != "hv":
            raise Odd("until walk")
        lp = self.loops.get(old[1])
        if lp is None or old[2] not in dict(lp[4]):
            raise Odd("until walk")
        base = dict(lp[4])
        if self.core(base[old[2]]) != ("empty",):
            raise Wrong("the result is not built from an empty signal", lp[3])
        r = walk(self, lp, tail, "computeSegmentUntil", old[2])
        bi, bj, s, e, zm = r
        ni, nj = self.over(bi)[0], self.over(bj)[0]
        self.window(s, e, [ni, nj])
        self.bothskipped((bi, bj), e)
        if zm is not None and not self.num(zm) == self.num(BOT):
            raise Wrong("before anything is known the second operand counts as %s instead of the bottom constant" % show(zm), lp[3])
        return ("compute_until", ("var", ni), ("var", nj))


def key(r):
    """canonical form of a rational function"""
    p = r.poly()
    if p is not None:
        return ("rat", tuple(sorted(((m, v) for m, v in p.items()), key=repr)))
    return ("rat2", tuple(sorted(r.n.items(), key=repr)), tuple(sorted(r.d.items(), key=repr)))


def rk(*ts):
    r = const(0)
    for t in ts:
        r = r + (t if isinstance(t, Rat) else to_rat(t))
    return key(r)


def walk(p, lp, tail, kern, zc):
    """iteration: kern(z, *i, t, j[, zmax]); j++ iff it stands at i; t = i.time; i++; tail: the clipped sample.
    -> (start of i, start of j, s, start of t, start of zmax)"""
    lid, base = lp[1], dict(lp[4])
    sub = unify(lp)
    args = tail[3:]
    T, J = args[1], args[2]
    Z = args[3] if len(args) > 3 else None
    if not (T[0] == "hv" and T[1] == lid and J[0] == "hv" and J[1] == lid):
        raise Odd("walk state")
    if Z is not None and not (Z[0] == "hv" and Z[1] == lid):
        if not has_unknown(Z):
            raise Wrong("the last step does not use the value accumulated so far")
        raise Odd("walk state")
    tl, jl = T[2], J[2]
    il = None
    for l, b in base.items():
        if l in (tl, jl, zc):
            continue
        if b[0] == "rit" or (b[0] == "init" and "&i" in repr(b)) or any(itinfo(i)[1].get(l, ("",))[0] in ("rit",) or itinfo(i)[1].get(l, ("", ""))[:2] == ("app", "it++") for i in lp[2]):
            il = l
    if il is None:
        if not [l for l in base if l not in (tl, jl, zc) and l[0] != "ver"]:
            raise Wrong("the walk over the samples does not advance")
        raise Odd("walk iterator")
    ih = ("hv", lid, il)
    # the sample the iterator points at
    cand = []
    if base[il][0] == "rit":
        el = ("elem", init(base[il][1]) if base[il][1][0] == "F" else init(F(base[il][1], "#c")), ("r", ("hv", lid)))
        cand.append(lambda k: ("fld", el, k))
        el2 = ("elem", init(base[il][1]), ("r", ("hv", lid)))
        cand.append(lambda k: ("fld", el2, k))
        for l2 in (base[il][1], F(base[il][1], "#c")):
            cand.append(lambda k, l2=l2: ("fld", ("elem", init(l2), ("r", ("any", lid))), k))
    cand.append(lambda k: init(F(("P", ih), k)))
    cur = None
    smp_ = None
    for i in lp[2]:
        ks = [e for e in i if e[0] == "kern"]
        if len(ks) != 1 or any(e[0] in ("push_front", "push_back", "clear") for e in i):
            raise Odd("walk body")
        if ks[0][1] != kern:
            raise Wrong("a step is combined by %s instead of %s" % (ks[0][1], kern), ks[0][5])
        a = ks[0][4]
        for g in cand:
            if a[0][1] == g("time"):
                cur = g
        if cur is None:
            raise Odd("walk sample")
    if cur is None:
        raise Odd("walk without steps")
    it, iv, idr = [p.num(cur(k)) for k in ("time", "value", "derivative")]
    nxt = (("app", "it++", ih), ("rit", base[il][1], ("off", ("hv", lid), num(1))) if base[il][0] == "rit" else None,
           ("rit", base[il][1], ("off", ("any", lid), num(1))) if base[il][0] == "rit" and base[il][2] == "begin" else None)
    S = None
    for i in lp[2]:
        fx, stores = itinfo(i)
        k = [e for e in i if e[0] == "kern"][0]
        w = k[5]
        a = k[4]
        g = [p.num(x) for x in a[0][1:]]
        if not (g[0] == it and g[1] == iv and g[2] == idr):
            raise Wrong("a step uses (%s) instead of the operand's sample" % ", ".join(show(x) for x in a[0][1:]), w)
        if a[1] != T:
            raise Wrong("a step ends at %s instead of where the previous one started" % show(a[1]), w)
        if a[2] != J:
            raise Odd("walk second iterator")
        if Z is not None and a[3] != Z:
            raise Wrong("a step does not use the value accumulated so far", w)
        if stores.get(zc) is None or stores[zc][0] != "kern":
            raise Odd("walk result")
        aft = ("after", kern, J, len(a))
        atm = init(F(("P", aft), "time"))
        same = None
        for at, v in fx.items():
            if at[0] == "eq0" and ratio(p.num(at[1]), p.num(atm) - it) is not None:
                same = v
            elif at[0] == "eq0" and aft in list(subterms(at)):
                raise Wrong("the second operand is advanced on another condition than standing at the start of the step", w)
        nj = stores.get(jl, J)
        if nj == ("app", "it++", aft):
            if same is not True:
                raise Wrong("the second operand moves past a sample that starts before the step", w) if same is False else Wrong("the second operand always moves on, also when its sample starts before the step", w)
        elif nj == aft:
            if same is not False:
                raise Wrong("the second operand stays on a sample that starts with the step", w)
        elif nj == ("app", "it--", aft):
            raise Wrong("the second operand goes back over samples already taken", w)
        elif has_unknown(("x", nj)) and not any(x == aft for x in subterms(nj)):
            raise Odd("walk second iterator")
        else:
            raise Odd("walk second iterator")
        ni = stores.get(il, ih)
        if ni not in nxt:
            if ni == ih:
                raise Wrong("the walk does not advance", w)
            back = [("app", "it--", ih)] + [x[:2] + (("off", x[2][1], num(-1)),) for x in nxt if x and x[0] == "rit"]
            if ni in back:
                raise Wrong("the walk goes back over the samples it has already taken", w)
            raise Odd("walk first iterator")
        nt = stores.get(tl, T)
        if not p.num(nt) == it:
            raise Wrong("the next step ends at %s instead of where this one starts" % show(nt), w)
        if Z is not None:
            nz = stores.get(Z[2], Z)
            want = ("fld", ("elem", stores[zc], num(0)), "value")
            if nz != want:
                raise Wrong("the accumulated value becomes %s instead of the value at the start of the step" % show(nz)[:120], w)
        for at, v in fx.items():
            if at[0] == "lt0":
                r = p.num(at[1])
                q = r + it if v else None
                if v and q.poly() is not None and not any(x in set(subterms(at)) for x in ()):
                    S = q if S is None else S
    # the tail
    g = [p.num(x) for x in args[0][1:]]
    eqs = False
    s = args[0][1]
    if S is None:
        for i in lp[2]:
            for at, v in itinfo(i)[0].items():
                if at[0] == "lt0" and (ratio(p.num(at[1]), it - p.num(s)) or 0) > 0 and not v and not p.num(s) == it:
                    raise Wrong("the walk also takes a sample that starts at the begin time, and goes on beyond it", lp[3])
        if any(p.proves(it - p.num(x), "<") for x in strict_bounds(p, it)):
            raise Wrong("the walk also takes a sample that starts at the begin time, and goes on beyond it", lp[3])
        raise Odd("walk guard")
    if p.proves(it - S, "="):
        eqs = True
    okv = (g[1] == iv or g[1] == iv + idr * (S - it)) if eqs else g[1] == iv + idr * (S - it)
    okt = (g[0] == S or eqs and g[0] == it)
    if not okt:
        raise Wrong("the last step starts at %s instead of the begin time" % show(s))
    if not okv or not g[2] == idr:
        raise Wrong("the last step uses value %s and slope %s instead of the operand clipped at the begin time" % (show(args[0][2]), show(args[0][3])))
    # guard: stops at the first sample not after s
    if not p.proves(S - it, ">="):
        raise Wrong("the walk stops before the operand's sample that covers the begin time")
    st = None
    for at, v in p.st.f.items():
        pass
    return base[il], base[jl], sterm(p, S, args, lp), base[tl], base[Z[2]] if Z is not None else None


def strict_bounds(p, it):
    """times the current sample lies strictly before, by the facts after the walk"""
    out = []
    for at, v in p.st.f.items():
        if at[0] == "lt0" and v:
            for x in set(subterms(at)):
                if x and x[0] in ("init", "sym") and ratio(p.num(at[1]), it - p.num(x)) is not None:
                    out.append(x)
    return out


def sterm(p, S, args, lp):
    """a term equal to S"""
    for i in lp[2]:
        for at, v in itinfo(i)[0].items():
            if at[0] == "lt0" and v:
                for x in subterms(at):
                    if x and x[0] in ("init", "sym", "max", "min") and p.num(x) == S:
                        return x
    q = S.poly()
    if q is not None and set(q) <= {()}:
        raise Wrong("it walks back to time %s instead of the operands' begin time" % (q.get((), 0)), lp[3])
    if any("uninit" in repr(k) for k in (q or {})):
        raise Wrong("it walks back to a time that was never set", lp[3])
    raise Odd("begin time")


def runs(P, c, q, npar, label, skip=()):
    fs = find(P, q, npar)
    if len(fs) != 1:
        c.skip(label, "no such function")
        return None
    f = fs[0]
    c.functions.add(f["q"])
    me = f["n"]
    ks = set(kernops.KERN) - {me}
    e = Eng(P, [kernops.hook(ks), sigops_but(f), kernops.free(skip=(me,))])
    try:
        outs = e.run(f["id"], this=THIS if f.get("cls") else None)
    except Undecided as x:
        c.skip(label, str(x))
        return None
    c.paths += len(outs)
    return f, e, outs


def sigops_but(f):
    """Signal methods are operations, except calls on the function under analysis itself (recursion)"""
    def h(e, fn, loc, dyn, args, st, fr, n):
        return sigops.hook(e, fn, loc, dyn, args, st, fr, n)
    return h


def result(e, f, st, v):
    """location of the resulting signal"""
    if f.get("cls"):
        return THIS
    if v and v[0] == "ptr":
        return v[1]
    raise Odd("returned value " + show(v)[:80])


def judge(P, c, q, npar, label, spec, checkspan=True):
    """spec(path) -> list of acceptable terms (or raises)"""
    r = runs(P, c, q, npar, label)
    if not r:
        return
    f, e, outs = r
    names = {}
    for pr, n in zip([p for p in f["params"] if "Signal" in p["t"]], "xy"):
        names[("P", ("sym", ("&" if is_ref(pr["t"]) else "") + pr["n"]))] = n
    nums = [("sym", p["n"]) for p in f["params"] if "Signal" not in p["t"]]
    for k, st, v in outs:
        w = fl(f)
        if k != "return":
            if k == "crash" or k == "throw":
                c.viol(label + ":" + k, w, "%s ends in %s" % (label, k), showfacts(st))
            else:
                c.skip(label, k)
            continue
        if st.imp:
            c.skip(label, "; ".join(st.imp[:3]))
            continue
        p = Path(e, f, st, v, names)
        try:
            loc = result(e, f, st, v)
            co = e.load(st, F(loc, "#c"))
            p.loc_ = loc
            got = p.core(co)
            bad = spec(p, got, nums)
            if bad is None and checkspan and co[0] != "op" and got != ("empty",):
                b, en = e.load(st, F(loc, "beginTime")), e.load(st, F(loc, "endTime"))
                p.window(b, en, [names[l] for l in sorted(names, key=lambda l: names[l])])
            if bad is None:
                c.ok()
            else:
                c.viol(label, w, bad, showfacts(st))
        except (Odd, IndexError) as x:
            c.skip(label, str(x))
        except Wrong as x:
            c.viol(label, x.where or w, "%s: %s" % (label, x), showfacts(st))


def show_alg(t):
    if not isinstance(t, tuple) or not t:
        return str(t)
    h = t[0]
    if h == "var":
        return t[1]
    if h in ("and", "or"):
        return h + "(" + ", ".join(show_alg(x) for x in t[1]) + ")"
    if h == "rat":
        out = []
        for m, v in t[1]:
            nm = "*".join(show(x) if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] not in ("min", "max") else str(x) for x in m)
            out.append(("%s*" % v if v != 1 and m else str(v) if not m else "") + nm)
        return " + ".join(out) or "0"
    return h + "(" + ", ".join(show_alg(x) for x in t[1:]) + ")"


X, Y = ("var", "x"), ("var", "y")


def same(want):
    def s(p, got, nums):
        w = want(p, nums) if callable(want) else want
        return None if got == w else "the result is %s where %s is required" % (show_alg(got), show_alg(w))
    return s


def bounded(hi):
    def w(p, nums):
        a = atom(nums[0])
        x = p.loc("x")
        b, e = to_rat(init(F(x, "beginTime"))), to_rat(init(F(x, "endTime")))
        pad = to_rat(BOT if hi else TOP)
        return ac("or" if hi else "and", [X, ("pmax" if hi else "pmin", X, key(a)), ("shift", ("resize", X, key(b + a), key(e + a), key(pad)), key(-a))])
    return w


def has_empty(p, *ns):
    for n in ns:
        if n not in p.names.values():
            continue
        l = p.loc(n)
        for c in (init(F(l, "#c")), init(l)):
            if decide(p.st.f, isempty(c)) is True:
                return True
    return False


def timed(hi):
    def s(p, got, nums):
        a, b = atom(nums[0]), atom(nums[1])
        if got == ("empty",):
            return None if has_empty(p, "x") else "the result is empty although the operand is not"
        x = p.loc("x")
        ln = to_rat(init(F(x, "endTime"))) - to_rat(init(F(x, "beginTime")))
        sh = ("shift", X, key(-a))

        def ok(y):
            star = ("ev*", y) if hi else neg_(("ev*", neg_(y)))
            bd = ("ev", y, key(b - a)) if hi else neg_(("ev", neg_(y), key(b - a)))
            if got == y:
                return None if p.proves(b - a, "<=") else "the operand is returned although the interval has a length"
            if got == star:
                return None if p.proves(b - a - ln, ">=") else "the unbounded operator is used although the interval may be shorter than the data"
            if got == bd:
                return None if p.proves(b - a - ln, "<=") and p.proves(b - a, ">=") else "the bounded operator is used although the interval may be longer than the data"
            return 0
        r = ok(sh)
        if r == 0:
            r = ok(X)
            if r == 0:
                return "the result is %s, which is not the operator over the interval" % show_alg(got)
            if r is None and not p.proves(a, "<="):
                return "the operand is not shifted by the interval's begin"
        return r
    return s


def absorb(t):
    """until(x,y) <= x: drop x next to it"""
    if t[0] == "shift":
        return ("shift", absorb(t[1])) + t[2:]
    if t[0] == "and":
        xs = [absorb(x) for x in t[1]]
        drop = {x[1] for x in xs if x[0] == "compute_until"}
        return ac("and", [x for x in xs if x not in drop])
    return t


def timed_until_free(p, got, nums):
    a, b = atom(nums[0]), atom(nums[1])
    u = ("compute_until", X, Y)
    ev = ("ev", Y, key(b - a))
    alw = neg_(("ev", neg_(X), key(a)))
    one = ac("and", [alw, ("shift", ac("and", [ev, u]), key(-a))])
    one2 = ac("and", [alw, ("shift", ev, key(-a)), ("shift", u, key(-a))])
    two = ac("and", [ev, u])
    g = absorb(got)
    if g in (one, one2):
        return None if not p.proves(a, "<") else "wrong branch"
    if g == two:
        return None if p.proves(a, "<=") else "the interval's begin is ignored"
    return "the result is %s where %s is required" % (show_alg(got), show_alg(one) + " (or, when the interval begins at 0, " + show_alg(two) + ")")


def timed_until(p, got, nums):
    if got == ("empty",):
        return None if has_empty(p, "x", "y") else "the result is empty although neither operand is"
    a, b = atom(nums[0]), atom(nums[1])
    x, y = p.loc("x"), p.loc("y")
    xb, xe, yb, ye = [init(F(l, k)) for l in (x, y) for k in ("beginTime", "endTime")]
    avail = p.num(("min", (xe, ye))) - p.num(("max", (xb, sub(yb, nums[0]))))
    lx = to_rat(xe) - to_rat(xb)
    u = ("compute_until", X, Y)
    alw = neg_(("ev", neg_(X), key(a)))
    if got == ("compute_timed_until", X, Y, key(a), key(b)):
        return None if p.proves(avail - b, ">=") else "the timed form is used although the interval may reach past the data"
    late = p.proves(avail - b, "<=")
    if got == u:
        return None if late and p.proves(a, "=") else "the interval is ignored although it does not start at 0 or ends before the data"
    if got == neg_(("ev*", neg_(X))):
        return None if p.proves(a - lx, ">=") else "the second operand is ignored although the interval starts within the data"
    if got == ac("and", [alw, ("shift", u, key(-a))]):
        if not late:
            return "the interval's end is ignored although it may lie within the data"
        return None if p.proves(a - lx, "<=") else "the first operand is windowed by more than its length"
    return "the result is %s, which is not until over the interval" % show_alg(got)


def wrappers(P, c):
    S = Q + "Signal::"
    for q, n, lab, sp in [
        (Q + "computeNot", 1, "computeNot", same(neg_(X))),
        (S + "compute_not", 1, "Signal::compute_not", same(neg_(X))),
        (Q + "computeAnd", 2, "computeAnd", same(ac("and", [X, Y]))),
        (S + "compute_and", 2, "Signal::compute_and", same(ac("and", [X, Y]))),
        (Q + "computeOr", 2, "computeOr", same(ac("or", [X, Y]))),
        (S + "compute_or", 2, "Signal::compute_or", same(ac("or", [X, Y]))),
        (Q + "computeImplies", 2, "computeImplies", same(ac("or", [neg_(X), Y]))),
        (S + "compute_implies", 2, "Signal::compute_implies", same(ac("or", [neg_(X), Y]))),
        (Q + "computeEventually", 1, "computeEventually", same(("ev*", X))),
        (S + "compute_eventually", 1, "Signal::compute_eventually", same(("ev*", X))),
        (Q + "computeGlobally", 1, "computeGlobally", same(neg_(("ev*", neg_(X))))),
        (S + "compute_globally", 1, "Signal::compute_globally", same(neg_(("ev*", neg_(X))))),
        (Q + "computeUntil", 2, "computeUntil", same(("compute_until", X, Y))),
        (S + "compute_until", 2, "Signal::compute_until", orempty(("compute_until", X, Y))),
        (Q + "computeBoundedEventually", 2, "computeBoundedEventually", same(bounded(True))),
        (Q + "computeBoundedGlobally", 2, "computeBoundedGlobally", same(bounded(False))),
        (S + "compute_bounded_eventually", 2, "Signal::compute_bounded_eventually", orempty(lambda p, nu: ("ev", X, key(atom(nu[0]))))),
        (S + "compute_bounded_globally", 2, "Signal::compute_bounded_globally", orempty(lambda p, nu: neg_(("ev", neg_(X), key(atom(nu[0])))))),
        (S + "compute_plateau_max", 2, "Signal::compute_plateau_max", orempty(lambda p, nu: ("pmax", X, key(atom(nu[0]))))),
        (S + "compute_plateau_min", 2, "Signal::compute_plateau_min", orempty(lambda p, nu: ("pmin", X, key(atom(nu[0]))))),
        (S + "compute_timed_eventually", 3, "Signal::compute_timed_eventually", timed(True)),
        (S + "compute_timed_globally", 3, "Signal::compute_timed_globally", timed(False)),
        (Q + "computeTimedUntil", 4, "computeTimedUntil", timed_until_free),
        (S + "compute_timed_until", 4, "Signal::compute_timed_until", timed_until),
    ]:
        c.guard(judge, P, c, q, n, lab, sp)


def orempty(want):
    g = same(want)

    def s(p, got, nums):
        if got == ("empty",):
            return None if has_empty(p, "x", "y") or len(p.names) == 1 and has_empty(p, "x") else "the result is empty although no operand is"
        return g(p, got, nums)
    return s


def walks(P, c):
    """computePartialAnd/Or: the step kernel applied to every sample of the first operand, clipped at the begin time"""
    for name, kn in (("computePartialAnd", "computeSegmentAnd"), ("computePartialOr", "computeSegmentOr")):
        r = runs(P, c, Q + name, 5, name)
        if not r:
            continue
        f, e, outs = r
        pn = [x["n"] for x in f["params"]]
        zc = F(("P", ("sym", pn[0])), "#c")
        if not is_ref(f["params"][1]["t"]) or not is_ref(f["params"][2]["t"]):
            c.skip(name, "parameters changed shape")
            continue
        for k, st, v in outs:
            w = fl(f)
            if k != "return" or st.imp:
                c.skip(name, "; ".join(st.imp[:3]) or k)
                continue
            p = Path(e, f, st, v, {})
            try:
                t = e.load(st, zc)
                if t[0] == "hv" and t[2] == zc and t[1] in p.loops:
                    lp = p.loops[t[1]]
                    if all(any(x[0] == "kern" for x in i) for i in lp[2]) and all(any(at[0] == "lt0" and v and pn[3] in repr(at) for at, v in itinfo(i)[0].items()) for i in lp[2]):
                        raise Wrong("the part between the begin time and the first sample after it is left out", lp[3])
                if t[0] == "kern" and t[2] == init(zc):
                    lp = list(p.loops.values())
                    if len(lp) == 1 and not any(x[0] == "kern" for i in lp[0][2] for x in i):
                        raise Wrong("the samples after the begin time are left out", lp[0][3])
                if t == init(zc):
                    raise Wrong("nothing is added to the result")
                if t[0] != "kern" or t[2][0] != "hv":
                    raise Odd("result " + show(t)[:80])
                if t[1] != kn:
                    raise Wrong("the last step is combined by %s instead of %s" % (t[1], kn))
                lp = p.loops.get(t[2][1])
                if lp is None:
                    raise Odd("loop")
                bi, bj, s, te, zm = walk(p, lp, t, kn, zc)
                want = (init(("P", ("sym", "&" + pn[1]))), init(("P", ("sym", "&" + pn[2]))), ("sym", pn[3]), ("sym", pn[4]))
                for g, wv, what in zip((bi, bj, s, te), want, ("first operand", "second operand", "begin time", "end time")):
                    if g != wv:
                        raise Wrong("it walks from %s instead of the given %s" % (show(g)[:80], what))
                if dict(lp[4])[zc] != init(zc):
                    raise Wrong("the samples are not added to the given signal")
                c.ok()
            except Odd as x:
                c.skip(name, str(x))
            except Wrong as x:
                c.viol(name, x.where or w, "%s: %s" % (name, x), showfacts(st))


def dnf(t):
    """('or', {frozenset of atoms}) of a min/max term"""
    if t[0] == "or":
        return set().union(*[dnf(x) for x in t[1]])
    if t[0] == "and":
        acc = {frozenset()}
        for x in t[1]:
            acc = {a | b for a in acc for b in dnf(x)}
        return acc
    return {frozenset([t])}


def absorbed(d):
    return {a for a in d if not any(b < a for b in d)}


def segment_until(P, c):
    name = "computeSegmentUntil"
    r = runs(P, c, Q + name, 5, name)
    if not r:
        return
    f, e, outs = r
    pn = [x["n"] for x in f["params"]]
    zl, il, tt, jl, zm = ("P", ("sym", pn[0])), ("P", ("sym", "&" + pn[1])), ("sym", pn[2]), ("P", ("sym", "&" + pn[3])), ("sym", pn[4])
    it, iv, idr = [to_rat(init(F(il, k))) for k in ("time", "value", "derivative")]
    if not is_ref(f["params"][1]["t"]) or not is_ref(f["params"][3]["t"]):
        c.skip(name, "parameters changed shape")
        return
    T, ZM = to_rat(tt), to_rat(zm)
    I, J = ("line", key(it), key(iv), key(idr)), ("second",)

    def cst(p, t):
        if t[0] == "min":
            return ac("and", [cst(p, x) for x in t[1]])
        if t[0] == "max":
            return ac("or", [cst(p, x) for x in t[1]])
        return ("const", key(p.num(t)))

    def line(p, t, v, d):
        if p.num(d).zero():
            return cst(p, v)
        a, b, g = p.num(t), p.num(v), p.num(d)
        if g == idr and b == iv + idr * (a - it):
            return I
        return ("line", key(a), key(b), key(g))

    def it_(p, st, x):
        if x == init(jl):
            return J
        if x[0] == "rit" and x[2] == "begin":
            l = strip(x[1])
            return seq(p, st, e.load(st, F(l, "#c")), None)
        if x[0] == "after":
            raise Wrong("a part is computed from an operand that another part has already walked through")
        if x[0] == "unk" and x[-1] == "iter" or x[0] == "uninit":
            raise Wrong("a part is computed from an iterator that was never set")
        raise Odd("iterator " + show(x)[:60])

    def win(p, s, t):
        if not p.num(s) == it:
            raise Wrong("a part is computed from %s instead of the start of the segment" % show(s))
        if not p.num(t) == T:
            raise Wrong("a part is computed up to %s instead of the end of the segment" % show(t))

    def seq(p, st, t, base):
        h = t[0]
        if h == "kern":
            nm, old, a = t[1], t[2], t[3:]
            if base is None and old != ("empty",):
                raise Wrong("an intermediate result is not built from an empty signal")
            if base is not None and old != base:
                raise Odd("several additions")
            if nm in ("computeSegmentAnd", "computeSegmentOr"):
                win(p, a[0][1], a[1])
                return ac("and" if nm.endswith("And") else "or", [line(p, *a[0][1:]), it_(p, st, a[2])])
            if nm in ("computePartialAnd", "computePartialOr"):
                win(p, a[2], a[3])
                return ac("and" if nm.endswith("And") else "or", [it_(p, st, a[0]), it_(p, st, a[1])])
            if nm == "computePartialEventually":
                win(p, a[1], a[2])
                return ("ev*", it_(p, st, a[0]))
            raise Odd(nm)
        if h in ("pushf", "pushb") and t[1] == ("empty",):
            s = t[2]
            if not p.num(fieldof(s, "time")) == it:
                raise Odd("pushed sample")
            return line(p, fieldof(s, "time"), fieldof(s, "value"), fieldof(s, "derivative"))
        if h == "empty":
            raise Wrong("a part is computed from a signal without samples, or adds nothing")
        if t == base:
            raise Wrong("nothing is added to the result")
        raise Odd("content " + show(t)[:60])

    iT = ("const", key(iv + idr * (T - it)))
    zk = ("const", key(ZM))
    falling = absorbed(dnf(ac("or", [ac("and", [zk, iT]), ("ev*", ac("and", [I, J]))])))
    rising = absorbed(dnf(ac("or", [ac("and", [I, zk]), ac("and", [I, ("ev*", J)])])))
    for k, st, v in outs:
        w = fl(f)
        if k != "return" or st.imp:
            c.skip(name, "; ".join(st.imp[:3]) or k)
            continue
        p = Path(e, f, st, v, {})
        try:
            # a scratch signal with more than one addition of different kind is not understood
            got = absorbed(dnf(seq(p, st, e.load(st, F(zl, "#c")), init(F(zl, "#c")))))
            neg, pos = not p.proves(idr, ">="), not p.proves(idr, "<=")
            bad = None
            if neg and got != falling:
                bad = "on a falling segment the result is not max(min(value from the right, segment's end value), running max of min(segment, second operand))"
            if pos and got != rising:
                bad = "on a rising segment the result is not max(min(segment, value from the right), min(segment, running max of second operand))"
            if not neg and not pos and got not in (falling, rising):
                bad = "on a flat segment the result is neither form of until"
            if bad:
                raise Wrong(bad)
            c.ok()
        except Odd as x:
            c.skip(name, str(x))
        except Wrong as x:
            c.viol(name, x.where or w, "%s: %s" % (name, x), showfacts(st))
