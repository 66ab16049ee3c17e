"""Evaluation protocol of a formula node, run symbolically with opaque children."""
from util import *
import sigops
from sigops import classes, children, virt, impl, SIG

T = Q + "transducer"


def hz_hook(P):
    """record the window a child has when its init_horizon is called"""
    ids = {virt(P, "init_horizon")}

    def h(e, fn, loc, dyn, args, st, fr, n):
        if loc is None or dyn is not None or not fn.get("virt") or fn["n"] != "init_horizon" or fn.get("dtor"):
            return None
        st = st.copy()
        st.ev("hz", loc, e.load(st, F(loc, "start_time")), e.load(st, F(loc, "end_time")), e.where(fr, n))
        cid = e.new()
        st.ev("vcall", fn["id"], loc, (), cid, e.where(fr, n))
        return [(st, ("void",))]
    return h


def prim_pre(cls, c):
    """deref of children is legal: the tree is complete (parser guarantee)"""


def run(P, cls, name, st=None, hooks=(), **kw):
    f = impl(P, cls, name)
    e = Eng(P, list(hooks) + [sigops.hook, hz_hook(P)], **kw)
    outs = e.run(f["id"], this=THIS, cls=cls, st=st)
    return f, e, outs


def bare(st, z="z"):
    """facts: the node's signals are empty (just reset)"""
    for x in ("z", "z_low", "z_up"):
        st.s[F(THIS, x, "#c")] = ("empty",)
        st.s[F(THIS, x, "beginTime")] = num(0)
        st.s[F(THIS, x, "endTime")] = num(0)
    return st


def fresh():
    return bare(St())


class Vocab:
    """translate engine terms of one path into the signal algebra"""

    def __init__(self, P, cls, st):
        self.P, self.cls, self.st = P, cls, st
        self.kids = children(P, cls)
        self.vc = {}
        for ev in events(st, "vcall"):
            self.vc[ev[4]] = (ev[1], ev[2])
        self.unknown = False
        self.edits = []

    def kidloc(self, l):
        """P(init(F(THIS,child))) -> child name"""
        if l[0] == "P" and l[1][0] == "init" and l[1][1][0] == "F" and l[1][1][1] == THIS and l[1][1][2] in self.kids:
            return l[1][1][2]
        return None

    def src(self, loc, n):
        """signal field of a child, at version n -> ('kid', child, field, producer)"""
        if loc[0] == "F":
            k = self.kidloc(loc[1])
            if k:
                prod = None
                if n is not None and n in self.vc:
                    prod = self.vc[n][0].split("::")[-1].split("(")[0]
                return ("kid", k, loc[2], prod)
            if loc[1] == THIS:
                return ("own", loc[2])
        return ("other", loc)

    def core(self, t):
        """signal algebra of a signal content"""
        h = t[0]
        if h == "sig":
            return self.core(t[1])
        if h == "post" and t[2][0] == "F" and t[2][2] == "#c":
            return self.src(t[2][1], t[1])
        if h == "init" and t[1][0] == "F" and t[1][2] == "#c":
            return self.src(t[1][1], None)
        if h == "empty":
            return ("empty",)
        if h == "append":
            c = self.core(t[1])
            if decide(self.st.f, isempty(t[1])) is True or c == ("empty",):
                return ("const", self.val(t[3]), self.val(t[2]))
            return ("appended", c, self.val(t[2]), self.val(t[3]))
        if h == "op":
            nm, av = t[1], t[2]
            if nm == "resize":
                self.edits.append((nm, av, t))
                k = self.core(av[0])
                return ("extended", k) if k == ("empty",) else k
            if nm in ("simplify", "addLastSample"):
                return self.core(av[0])
            a = [self.core(x) if x[0] == "sig" else self.val(x) for x in av]
            if nm == "compute_not":
                return neg_(a[0])
            if nm == "compute_and":
                return ac("and", a)
            if nm == "compute_or":
                return ac("or", a)
            if nm == "compute_implies":
                return ac("or", [neg_(a[0]), a[1]])
            if nm == "compute_timed_eventually":
                return ("ev", a[0], a[1], a[2])
            if nm == "compute_timed_globally":
                return ("alw", a[0], a[1], a[2])
            if nm == "compute_bounded_eventually":
                return ("ev", a[0], num(0), a[1])
            if nm == "compute_bounded_globally":
                return ("alw", a[0], num(0), a[1])
            if nm == "compute_eventually":
                return ("ev*", a[0])
            if nm == "compute_globally":
                return ("alw*", a[0])
            if nm == "compute_until":
                return ("until*", a[0], a[1])
            if nm == "compute_timed_until":
                return ("until", a[0], a[1], a[2], a[3])
            return (nm,) + tuple(a)
        if h in ("unk", "hv"):
            self.unknown = True
            return ("unknown",)
        if h == "app" and t[1] == "movedfrom":
            return ("movedfrom",)
        self.unknown = True
        return ("unknown",)

    def val(self, t):
        """scalar term: end/begin times of signals normalised"""
        h = t[0]
        if h in ("lin",):
            r = num(t[1])
            for k, v in t[2]:
                r = add(r, scale(self.val(k), v))
            return r
        if h in ("min", "max"):
            return (tmin if h == "min" else tmax)(*[self.val(x) for x in t[1]])
        if h == "end":
            return self.end(t[1])
        if h in ("post", "init"):
            l = t[2] if h == "post" else t[1]
            n = t[1] if h == "post" else None
            if l[0] == "F" and l[2] == "endTime" and l[1][0] == "F":
                s = self.src(l[1], n)
                if s[0] in ("kid",):
                    return ("endof", s)
        return t

    def known(self):
        """scalar terms known to be <= 0 on this path"""
        out = []
        for at, tv in self.st.f.items():
            if at[0] == "lt0":
                out.append(self.val(at[1] if tv else neg(at[1])))
        return out

    def end(self, t):
        """end time of the signal whose content is t, as far as known"""
        if t[0] == "op":
            nm, av = t[1], t[2]
            e = [self.val(x[3]) if x[0] == "sig" else None for x in av]
            if nm == "compute_not":
                return e[0]
            if nm in ("compute_and", "compute_or", "compute_implies"):
                return tmin(e[0], e[1])
            if nm in ("compute_timed_eventually", "compute_timed_globally"):
                return sub(e[0], self.val(av[1]))
            if nm == "resize":
                return tmax(self.val(av[1]), self.val(av[2]))
        return ("end", t)


def leq(t, x, hyp=()):
    """t <= x, provable from the form of the terms and one hypothesis (a term known to be <= 0)"""
    if t == x:
        return True
    if t[0] == "max":
        return all(leq(y, x, hyp) for y in t[1])
    if x[0] == "min":
        return all(leq(t, y, hyp) for y in x[1])
    if t[0] == "min" and any(leq(y, x, hyp) for y in t[1]):
        return True
    if x[0] == "max" and any(leq(t, y, hyp) for y in x[1]):
        return True
    if t[0] not in ("min", "max") and x[0] not in ("min", "max"):
        d = sub(t, x)
        for h in (num(0),) + tuple(hyp):
            q = sub(d, h)
            if isnum(q) and q[1] <= 0:
                return True
    return False


def neg_(x):
    h = x[0]
    if h == "not":
        return x[1]
    if h == "and":
        return ac("or", [neg_(y) for y in x[1]])
    if h == "or":
        return ac("and", [neg_(y) for y in x[1]])
    if h == "ev":
        return ("alw", neg_(x[1])) + x[2:]
    if h == "alw":
        return ("ev", neg_(x[1])) + x[2:]
    return ("not", x)


def ac(op, xs):
    out = []
    for x in xs:
        out += list(x[1]) if x[0] == op else [x]
    return (op, tuple(sorted(set(out), key=repr)))


def show_sig(x):
    h = x[0]
    if h == "kid":
        return "%s.%s%s" % (x[1], x[2], "" if x[3] else " (not computed)") if x[3] in (None, "compute_robustness", "compute_lower_rob", "compute_upper_rob") else "%s.%s after %s" % x[1:]
    if h in ("and", "or"):
        return (" %s " % h).join("(%s)" % show_sig(y) for y in x[1])
    if h == "not":
        return "not (%s)" % show_sig(x[1])
    if h in ("ev", "alw"):
        return "%s_[%s,%s] (%s)" % (h, show(x[2]), show(x[3]), show_sig(x[1]))
    if h == "until":
        return "(%s) until_[%s,%s] (%s)" % (show_sig(x[1]), show(x[3]), show(x[4]), show_sig(x[2]))
    if h == "const":
        return "constant %s at %s" % (show(x[1]), show(x[2]))
    return "%s(%s)" % (h, ", ".join(show_sig(y) if isinstance(y, tuple) and y and isinstance(y[0], str) and y[0] in (
        "kid", "own", "and", "or", "not", "ev", "alw", "const", "empty", "unknown") else show(y) for y in x[1:]))


def bound(e, st, which):
    """value of the interval's begin/end as the specification resolves it on this path:
    the parameter value when the bound names a known parameter, else the literal"""
    I = ("P", init(F(THIS, "I")))
    pm = init(F(THIS, "param_map_ptr"))
    key = e.load(st, F(I, which + "_str"))
    m = e.load(st, ("P", pm))
    lit = e.load(st, F(I, which))
    par = e.load(st, ("E", ("P", pm), ("key", key)))
    isn = decide(st.f, cond(("isnull", pm)))
    has = decide(st.f, cond(("has", m, key)))
    if isn is True or has is False:
        return lit
    if isn is False and has is True:
        return par
    return None


BIGM = ("G", SIG + "::BigM")
TOP = init(BIGM)
BOT = neg(TOP)


def first_value(e, st, loc):
    """value of the first sample of the signal at loc"""
    c = e.load(st, F(loc, "#c"))
    if c[0] == "append" and decide(st.f, isempty(c[1])) is True:
        return c[3]
    return e.fieldof(e.elem(st, c, num(0)), "value")


def ret_is_first(e, st, loc, v):
    c = e.load(st, F(loc, "#c"))
    if c[0] == "append" and decide(st.f, isempty(c[1])) is True and v == c[3]:
        return True
    fv = e.fieldof(e.elem(st, c, num(0)), "value")
    return v == fv or fv is not None and v is not None and decide(st.f, eq(v, fv)) is True
