"""Helpers shared by the checks."""
from terms import *
from engine import Eng, St, ckind, strip_t, is_ref, is_ptr, Undecided
from load import Broken

THIS = ("THIS",)
Q = "STLRom::"


def find(P, q, npar=None, pred=None):
    """the repo function(s) with qualified name q"""
    fs = [f for f in P.by_name.get(q, []) if npar is None or len(f["params"]) == npar]
    if pred:
        fs = [f for f in fs if pred(f)]
    return fs


def find1(P, q, npar=None, pred=None):
    fs = find(P, q, npar, pred)
    if len(fs) != 1:
        raise Broken("anchor vanished: %s (%d candidates)" % (q, len(fs)))
    return fs[0]


def F(loc, *names):
    for n in names:
        loc = ("F", loc, n)
    return loc


def init(loc):
    return ("init", loc)


def subterms(t):
    """all tuples inside a term, outermost first"""
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if not isinstance(x, tuple):
            continue
        if id(x) in seen:
            continue
        seen.add(id(x))
        yield x
        stack.extend(x)


def has_unknown(t):
    return any(x and x[0] in ("unk", "hv") for x in subterms(t))


def unread(t):
    return any(x and x[0] == "unk" for x in subterms(t))


def root(loc):
    while isinstance(loc, tuple) and loc and loc[0] in ("F", "E"):
        loc = loc[1]
    return loc


def events(st, *kinds):
    out = []

    def go(evs):
        for e in evs:
            if e[0] == "loop":
                for it in e[2]:
                    go(it)
            elif e[0] in kinds or not kinds:
                out.append(e)
    go(st.trace())
    return out


def flat(st):
    return events(st)


def showfacts(st, n=12):
    out = []
    for a, v in list(st.f.items())[:n]:
        out.append("assuming %s%s" % ("" if v else "not ", show(a)))
    return out


def stores_under(st, base):
    """locations written below base in the final state"""
    out = []
    for l in st.s:
        if l[0] in ("ver", "cls", "alloc"):
            continue
        if root(l) == base:
            out.append(l)
    return out


def fl(f):
    return "%s:%s" % (f["file"], f["line"])
