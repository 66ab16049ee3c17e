"""Terms of the abstract domain: immutable tuples, kept in a normal form."""
from fractions import Fraction

TRUE, FALSE, NULL = ("bool", True), ("bool", False), ("null",)


def num(x):
    return ("num", Fraction(x))


def isnum(t):
    return t[0] == "num"


def lin(t):
    """term -> (const, {term: coef})"""
    h = t[0]
    if h == "num":
        return t[1], {}
    if h == "lin":
        return t[1], dict(t[2])
    if h == "bool":
        return Fraction(int(t[1])), {}
    if h == "enum":
        return Fraction(t[2]), {}
    return Fraction(0), {t: Fraction(1)}


def mk(c, d):
    d = {k: v for k, v in d.items() if v}
    if not d:
        return ("num", c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return ("lin", c, tuple(sorted(d.items(), key=lambda kv: repr(kv[0]))))


def add(a, b, s=1):
    ca, da = lin(a)
    cb, db = lin(b)
    d = dict(da)
    for k, v in db.items():
        d[k] = d.get(k, Fraction(0)) + s * v
    return mk(ca + s * cb, d)


def sub(a, b):
    return add(a, b, -1)


def neg(a):
    return sub(num(0), a)


def scale(a, k):
    c, d = lin(a)
    return mk(c * k, {t: v * k for t, v in d.items()})


def mul(a, b):
    if isnum(a):
        return scale(b, a[1])
    if isnum(b):
        return scale(a, b[1])
    fs = []
    k = Fraction(1)
    for x in (a, b):
        c, d = lin(x)
        if c == 0 and len(d) == 1:
            (t, v), = d.items()
            k *= v
            fs += list(t[1]) if t[0] == "mul" else [t]
        else:
            fs.append(x)
    return scale(("mul", tuple(sorted(fs, key=repr))), k)


def div(a, b):
    if isnum(b) and b[1]:
        return scale(a, 1 / b[1])
    return ("div", a, b)


def _mm(op, xs):
    out = []
    for x in xs:
        out += list(x[1]) if x[0] == op else [x]
    ns = [x for x in out if isnum(x)]
    rest = sorted({x for x in out if not isnum(x)}, key=repr)
    # operands that differ by a constant only
    keep = []
    for x in rest:
        dom = False
        for y in rest:
            if x is not y:
                d = sub(x, y)
                if isnum(d) and ((op == "min" and d[1] > 0) or (op == "max" and d[1] < 0)):
                    dom = True
        if not dom:
            keep.append(x)
    if ns:
        m = (min if op == "min" else max)(n[1] for n in ns)
        keep.append(("num", m))
    if len(keep) == 1:
        return keep[0]
    # factor a common linear part out: min(x+k, y+k) = min(x,y)+k is left alone
    return (op, tuple(sorted(keep, key=repr)))


def tmin(*xs):
    return _mm("min", xs)


def tmax(*xs):
    return _mm("max", xs)


def cat(*xs):
    """concatenated text"""
    out = []
    for x in xs:
        for y in (x[1:] if x[0] == "cat" else (x,)):
            if y == ("str", ""):
                continue
            if out and out[-1][0] == y[0] == "str":
                out[-1] = ("str", out[-1][1] + y[1])
            else:
                out.append(y)
    return out[0] if len(out) == 1 else ("cat",) + tuple(out) if out else ("str", "")


def union(a, b):
    """map with the entries of both, a's first"""
    return b if a == ("empty",) or a == b else a if b == ("empty",) else ("union", a, b)


# ---- conditions -----------------------------------------------------------
# canonical atoms: ("lt0",t) ("eq0",t) ("isnull",v) ("isempty",c) ("has",c,k)
#                  ("streq",a,b) ("iteq",a,b) ("truth",v)
# a condition value is TRUE / FALSE / ("cond", atom, polarity)
def cond(atom, pol=True):
    return ("cond", atom, pol)


def cnot(c):
    if c[0] == "bool":
        return ("bool", not c[1])
    return ("cond", c[1], not c[2])


def _sz(t):
    """t == k*size(c)+c0 ?"""
    c, d = lin(t)
    if len(d) == 1:
        (k, v), = d.items()
        if k[0] == "size":
            return k[1], v, c
    return None


def lt(a, b):
    t = sub(a, b)
    if isnum(t):
        return ("bool", t[1] < 0)
    s = _sz(t)
    if s:
        c, v, k = s
        if v > 0:          # size < -k/v
            bnd = -k / v
            if bnd <= 0:
                return FALSE
            if bnd <= 1:
                return cond(("isempty", c))
        else:              # size > k/-v
            bnd = k / -v
            if bnd < 0:
                return TRUE
            if bnd < 1:
                return cond(("isempty", c), False)
    return cond(("lt0", t))


def le(a, b):
    return cnot(lt(b, a))


def canon_eq(t):
    c, d = lin(t)
    if d:
        k = sorted(d, key=repr)[0]
        return scale(t, 1 / d[k])
    return t


def _root(l):
    while isinstance(l, tuple) and l and l[0] in ("F", "E"):
        l = l[1]
    return l


def eq(a, b):
    if a == b:
        return TRUE
    if a[0] == "null" or b[0] == "null":
        o = b if a[0] == "null" else a
        if o[0] == "null":
            return TRUE
        if o[0] == "ptr":
            return FALSE
        return cond(("isnull", o))
    if a[0] == "ptr" and b[0] == "ptr":
        ra, rb = _root(a[1]), _root(b[1])
        if ra != rb and (ra[0] in ("T", "N", "L") or rb[0] in ("T", "N", "L")):
            return FALSE        # a temporary, a local or a new object is nothing else
        return cond(("pteq",) + tuple(sorted((a, b), key=repr)))
    if a[0] == "str" and b[0] == "str":
        return ("bool", a[1] == b[1])
    if a[0] == "enum" and b[0] == "enum":
        return ("bool", a[2] == b[2])
    if a[0] == "ptr" or b[0] == "ptr":
        return cond(("pteq",) + tuple(sorted((a, b), key=repr)))
    t = sub(a, b)
    if isnum(t):
        return ("bool", t[1] == 0)
    s = _sz(t)
    if s:
        c, v, k = s
        if k == 0:
            return cond(("isempty", c))
        if -k / v < 0:
            return FALSE
    return cond(("eq0", canon_eq(t)))


def streq(a, b):
    if a == b:
        return TRUE
    if a[0] == "str" and b[0] == "str":
        return FALSE
    x, y = sorted((a, b), key=repr)
    return cond(("streq", x, y))


def isempty(c):
    h = c[0]
    if h == "empty":
        return TRUE
    if h in ("pushb", "pushf", "insert1"):
        return FALSE
    if h == "list":
        return ("bool", not c[1])
    if h == "str":
        return ("bool", c[1] == "")
    if h in ("upd", "setat"):
        return isempty(c[1])
    return cond(("isempty", c))


def size(c):
    h = c[0]
    if h == "empty":
        return num(0)
    if h in ("pushb", "pushf"):
        return add(size(c[1]), num(1))
    if h == "upd":
        return size(c[1])
    if h == "list":
        return num(len(c[1]))
    if h == "str":
        return num(len(c[1]))
    return ("size", c)


def decide(facts, c):
    """TRUE/FALSE/None for a condition under a fact dict atom->bool"""
    if c[0] == "bool":
        return c[1]
    if c[0] != "cond":
        return None
    a, pol = c[1], c[2]
    v = facts.get(a)
    if v is None:
        h = a[0]
        if h == "lt0":
            t = a[1]
            n = neg(t)
            if facts.get(("lt0", n)) is True:
                v = False
            elif facts.get(("eq0", canon_eq(t))) is True:
                v = False
            elif facts.get(("lt0", n)) is False and facts.get(("eq0", canon_eq(t))) is False:
                v = True
            else:
                # same linear form with another constant
                cst, d = lin(t)
                for f, fv in facts.items():
                    if f[0] != "lt0":
                        continue
                    fc, fd = lin(f[1])
                    if fd == d:
                        # f: L+fc<0 ; query L+cst<0
                        if fv and cst <= fc:
                            v = True
                            break
                        if not fv and cst >= fc:
                            v = False
                            break
                    elif {k: -x for k, x in fd.items()} == d:
                        # f: -L+fc<0  <=> L>fc ; query L < -cst
                        if fv and -cst <= fc:
                            v = False
                            break
                        if not fv and -cst > fc:
                            v = True
                            break
        elif h == "eq0":
            t = a[1]
            if facts.get(("lt0", t)) is True or facts.get(("lt0", neg(t))) is True:
                v = False
            elif facts.get(("lt0", t)) is False and facts.get(("lt0", neg(t))) is False:
                v = True
            else:
                # sym == const known, other const asked
                cst, d = lin(t)
                for f, fv in facts.items():
                    if f[0] == "eq0" and fv:
                        fc, fd = lin(f[1])
                        if fd == d and fc != cst:
                            v = False
                            break
        elif h == "streq":
            x, y = a[1], a[2]
            for f, fv in facts.items():
                if f[0] == "streq" and fv:
                    o = None
                    for p, q in ((f[1], f[2]), (f[2], f[1])):
                        for r, s in ((x, y), (y, x)):
                            if p == r and q[0] == "str" and s[0] == "str" and q != s:
                                o = False
                    if o is not None:
                        v = o
                        break
    if v is None:
        return None
    return v if pol else not v


def show(t, d=0):
    """readable rendering for reports"""
    if not isinstance(t, tuple) or not t:
        return str(t)
    h = t[0]
    if d > 8:
        return "…"
    s = lambda x: show(x, d + 1)
    if h == "num":
        return str(float(t[1])) if t[1].denominator != 1 else str(t[1])
    if h == "str":
        return repr(t[1])
    if h == "bool":
        return str(t[1]).lower()
    if h == "null":
        return "nullptr"
    if h == "enum":
        return t[1].split("::")[-1]
    if h == "sym":
        return str(t[1])
    if h == "init":
        return showloc(t[1])
    if h == "ptr":
        return "&" + showloc(t[1])
    if h == "lin":
        ps = []
        for k, v in t[2]:
            sg = "+" if v > 0 else "-"
            a = abs(v)
            ps.append(sg + ("" if a == 1 else "%s*" % show(("num", a))) + s(k))
        r = "".join(ps)
        if t[1]:
            r += "%+g" % float(t[1])
        return "(" + r.lstrip("+") + ")"
    if h in ("min", "max"):
        return "%s(%s)" % (h, ", ".join(s(x) for x in t[1]))
    if h == "mul":
        return "*".join(s(x) for x in t[1])
    if h == "div":
        return "%s/%s" % (s(t[1]), s(t[2]))
    if h == "cond":
        return ("" if t[2] else "not ") + s(t[1])
    if h in ("L", "G", "F", "P", "N", "E", "T", "S"):
        return showloc(t)
    if h == "fld":
        return "%s.%s" % (s(t[1]), t[2])
    if h == "rec":
        return "%s{%s}" % (t[1].split("::")[-1], ", ".join("%s=%s" % (k, s(v)) for k, v in t[2]))
    return "%s(%s)" % (h, ", ".join(s(x) for x in t[1:]))


def showloc(l):
    if not isinstance(l, tuple):
        return str(l)
    h = l[0]
    if h == "L":
        return str(l[3]) if len(l) > 3 else "local%s" % (l[2],)
    if h in ("G", "S"):
        return l[1]
    if h == "F":
        return "%s.%s" % (showloc(l[1]), l[2])
    if h == "P":
        return "(*%s)" % show(l[1])
    if h == "N":
        return "new#%s" % l[1]
    if h == "E":
        return "%s[%s]" % (showloc(l[1]), show(l[2]))
    if h == "T":
        return "tmp%s" % (l[1],)
    if h == "THIS":
        return "this"
    return str(l)
