"""Rational functions over opaque atoms: exact equality of the arithmetic the engine extracts."""
from fractions import Fraction

ONE = {(): Fraction(1)}


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + k * c
        if not r[m]:
            del r[m]
    return r


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n, key=repr))
            r[k] = r.get(k, 0) + c * d
            if not r[k]:
                del r[k]
    return r


class Rat:
    __slots__ = ("n", "d")

    def __init__(self, n, d=ONE):
        self.n, self.d = n, d

    def __add__(self, o):
        if self.d == o.d:
            return Rat(padd(self.n, o.n), self.d)
        return Rat(padd(pmul(self.n, o.d), pmul(o.n, self.d)), pmul(self.d, o.d))

    def __neg__(self):
        return Rat({m: -c for m, c in self.n.items()}, self.d)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        return Rat(pmul(self.n, o.n), pmul(self.d, o.d))

    def __truediv__(self, o):
        return Rat(pmul(self.n, o.d), pmul(self.d, o.n))

    def zero(self):
        return not self.n

    def __eq__(self, o):
        return not padd(pmul(self.n, o.d), pmul(o.n, self.d), -1)

    def poly(self):
        """numerator if the denominator is a constant, else None"""
        if len(self.d) == 1 and () in self.d:
            k = self.d[()]
            return {m: c / k for m, c in self.n.items()}
        return None


def const(k):
    k = Fraction(k)
    return Rat({(): k} if k else {})


def atom(a):
    return Rat({(a,): Fraction(1)})


def to_rat(t, sub=None):
    """engine term -> Rat; sub: {term: term} applied to atoms"""
    if sub and t in sub:
        return to_rat(sub[t], sub)
    h = t[0]
    if h == "num":
        return const(t[1])
    if h == "lin":
        r = const(t[1])
        for k, v in t[2]:
            r = r + const(v) * to_rat(k, sub)
        return r
    if h == "mul":
        r = const(1)
        for x in t[1]:
            r = r * to_rat(x, sub)
        return r
    if h == "div":
        d = to_rat(t[2], sub)
        if d.zero():
            return atom(t)
        return to_rat(t[1], sub) / d
    return atom(t)


def ratio(a, b):
    """k with a == k*b (k a nonzero constant), else None"""
    if a.d == b.d:
        pa, pb = a.n, b.n
    else:
        pa, pb = pmul(a.n, b.d), pmul(b.n, a.d)
    if not pa or not pb or set(pa) != set(pb):
        return None
    k = None
    for m in pa:
        q = pa[m] / pb[m]
        if k is None:
            k = q
        elif k != q:
            return None
    return k
