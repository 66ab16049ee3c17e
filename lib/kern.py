"""Decision tables of the segment kernels.

A kernel walks two piecewise-linear signals from right to left and prepends the
samples of the result.  For one step (and for the tail) the engine gives every
path as branch facts, prepended samples and updated locals.  Here the branch
facts are evaluated in a finite abstract domain (the sign of the difference of
the two lines at both ends of the step, and the 'pending' flag), and in each
abstract case the prepended samples must tile the step with exactly the line
the specification names.  Times, values and slopes are compared as rational
functions of the samples' fields.
"""
from util import *
from rat import to_rat, ratio, const, atom, Rat
import itertools


class Line:
    def __init__(self, t, v, d):
        self.t, self.v, self.d = t, v, d

    def at(self, p):
        return self.v + self.d * (p - self.t)

    def same(self, p, v, d):
        return d == self.d and v == self.at(p)


def cline(v):
    return Line(const(0), v, const(0))


def steps(st):
    """the loop events of a path, outermost only"""
    return [ev for ev in st.trace() if ev[0] == "loop"]


def itinfo(it):
    fx = [x for x in it if x[0] == "itfacts"][0]
    stores = dict(fx[2])
    stores.update(dict(fx[3]))
    return dict(fx[1]), stores


def unify(loop):
    """locals that always equal a field of what an iterator points at: {hv term: term}"""
    lid, base = loop[1], dict(loop[4])
    its = [itinfo(i) for i in loop[2]]
    sub = {}
    itr = [l for l in base if any(l in s and s[l][0] in ("app", "it", "rit", "hv") and "it" in str(s[l][1]) for f, s in its)]
    for l, b in base.items():
        for j, jb in base.items():
            if j == l:
                continue
            for fld in ("time", "value", "derivative"):
                def deref(v):
                    return init(F(("P", v), fld))
                if b == deref(jb) and all(s.get(l, ("hv", lid, l)) == deref(s.get(j, ("hv", lid, j))) for f, s in its):
                    sub[("hv", lid, l)] = deref(("hv", lid, j))
    return sub


def pushes(evs, kind="push_front"):
    return [e for e in evs if e[0] == kind]


class Case:
    """abstract case: signs of known expressions, value of the pending flag"""

    def __init__(self, name, signs, cont):
        self.name, self.signs, self.cont = name, signs, cont

    def sign(self, r):
        if r.zero():
            return 0
        p = r.poly()
        if p is not None and set(p) == {()}:
            return 1 if p[()] > 0 else -1
        for d, s in self.signs:
            k = ratio(r, d)
            if k is not None:
                return s if k > 0 else -s
        return None


def truth(atom_, case, sub, flag, ignore, sym):
    """True/False/None of a branch fact in an abstract case"""
    h = atom_[0]
    if h in ("lt0", "eq0"):
        r = to_rat(atom_[1], sub)
        for g, v in ignore:
            k = ratio(r, g)
            if k is not None:
                s = v if k > 0 else -v
                return (s < 0) if h == "lt0" else (s == 0)
        s = case.sign(r)
        if s is None:
            return None
        return (s < 0) if h == "lt0" else (s == 0)
    if h == "truth" and atom_[1] == flag:
        return case.cont
    return None


def cover(push, sub, marks, need, pend, cont_out, out_line, where):
    """push: samples right to left; marks: [(Rat time)] right..left; need[k]: acceptable lines on
    [marks[k+1], marks[k]); pend: line pending at marks[0] or None. -> None or complaint"""
    cur = 0
    last = len(marks) - 1
    first = True
    for e in push:
        smp = e[2]
        g = lambda f: to_rat(fieldof(smp, f), sub)
        p, v, d = g("time"), g("value"), g("derivative")
        k = None
        for i, m in enumerate(marks):
            if p == m:
                k = i
                break
        if k is None:
            return "pushes a sample at time %s, which is neither end of the step nor where the lines meet" % show(fieldof(smp, "time")), e
        if k < cur or (k == cur and not (pend and first and k == 0)):
            return "pushes a second sample at time %s" % show(fieldof(smp, "time")), e
        if pend and first and not pend.same(p, v, d):
            return "pushes value %s slope %s at time %s while the sample there is pending from the line already followed" % (
                show(fieldof(smp, "value")), show(fieldof(smp, "derivative")), show(fieldof(smp, "time"))), e
        for i in range(cur, k):
            if not any(l.same(p, v, d) for l in need[i]):
                return "covers [%s, …) with value %s and slope %s there, which is not the required operand" % (
                    show(fieldof(smp, "time")), show(fieldof(smp, "value")), show(fieldof(smp, "derivative"))), e
        cur = k
        first = False
    if cur == last:
        if cont_out and last > 0 and not first:
            return "leaves a sample pending although the step is complete", None
        return None
    if not cont_out:
        return "leaves part of the step without a sample", None
    for i in range(cur, last):
        if not any(l is out_line or (l.d == out_line.d and l.at(marks[i]) == out_line.at(marks[i])) for l in need[i]):
            return "leaves the wrong line pending", None
    if pend and first:
        # the old pending line goes on
        if not (pend.d == out_line.d and pend.at(marks[0]) == out_line.at(marks[0])):
            return "drops the pending sample", None
    return None


def fieldof(v, f):
    if v[0] == "rec":
        for k, x in v[2]:
            if k == f:
                return x
    return init(("F", v[1], f)) if v[0] == "init" else ("fld", v, f)


def smp(loc):
    """Rat fields of the sample at a location"""
    return [to_rat(init(F(loc, f))) for f in ("time", "value", "derivative")]
