"""Path-sensitive abstract interpreter over the resolved program (astx JSON).

The abstract state is a finite map location -> term, a set of branch facts, and a
trace of effects.  Repo functions are inlined through resolved callees; loops are
summarised by havocking what their body may change and analysing the body once
from that state; standard containers, iterators, strings and smart pointers are
modelled as terms.  What is not understood becomes an opaque term and is
recorded in the state (st.imp) so that clients stay silent on such paths.
"""
import re
from terms import *
from load import Broken


class Undecided(Exception):
    pass


class St:
    __slots__ = ("s", "f", "tr", "g", "imp")

    def __init__(self, s=None, f=None, tr=None, g=None, imp=()):
        self.s = s if s is not None else {}
        self.f = f if f is not None else {}
        self.tr = tr
        self.g = g if g is not None else {}
        self.imp = imp

    def copy(self):
        return St(dict(self.s), dict(self.f), self.tr, dict(self.g), self.imp)

    def ev(self, *e):
        self.tr = (self.tr, e)

    def trace(self, stop=None):
        out = []
        t = self.tr
        while t is not None and t is not stop:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out

    def note(self, why):
        if why not in self.imp:
            self.imp = self.imp + (why,)


class Frame:
    def __init__(self, fid, this=None, cls=None, fn=None, up=None):
        self.id, self.this, self.cls, self.fn, self.up = fid, this, cls, fn, up

    def depth(self, fnid):
        n, f = 0, self
        while f:
            if f.fn and f.fn["id"] == fnid:
                n += 1
            f = f.up
        return n


def ckind(t):
    t = t.replace("const ", "").strip()
    t = re.sub(r"[ &*]+$", "", t) if not t.endswith(">") else t
    if "reverse_iterator<" in t and t.startswith("std::reverse"):
        return "riter"
    if re.match(r"(__gnu_cxx::__normal_iterator|std::_Deque_iterator|std::_Rb_tree(_const)?_iterator|std::_List(_const)?_iterator|std::__detail::_Node(_const)?_iterator)\b", t):
        return "iter"
    m = re.match(r"std::(__cxx11::)?(\w+)", t)
    if not m:
        return None
    n = m.group(2)
    if n in ("vector", "deque", "list", "initializer_list", "array", "_Vector_base", "_Deque_base"):
        return "seq"
    if n in ("queue", "stack"):
        return "seq"
    if n in ("map", "unordered_map", "multimap"):
        return "map"
    if n in ("set", "unordered_set"):
        return "set"
    if n == "basic_string":
        return "string"
    if n in ("unique_ptr", "shared_ptr", "__shared_ptr", "__shared_ptr_access"):
        return "uptr"
    if n in ("pair", "tuple"):
        return "pair"
    if "stream" in n or n in ("basic_ios", "ios_base"):
        return "stream"
    return "other"


def float_exact(x):
    import struct
    try:
        return struct.unpack("f", struct.pack("f", float(x)))[0] == x
    except (OverflowError, ValueError):
        return False


def strip_t(t):
    t = t.strip()
    if t.startswith("const "):
        t = t[6:]
    while t.endswith("&") or t.endswith(" const") or t.endswith("const&"):
        t = t[:-1].rstrip() if t.endswith("&") else t[:-6].rstrip()
    if t.startswith("const "):
        t = t[6:]
    return t


def is_ref(t):
    return t.rstrip().endswith("&")


def is_ptr(t):
    t = t.replace("__restrict", "")
    return t.rstrip().endswith("*") or t.rstrip().endswith("*const") or t.rstrip().endswith("* const")


class Eng:
    MAXD = 40

    def __init__(self, P, hooks=(), max_states=4000, inline_io=False, load_hook=None):
        self.P = P
        self.hooks = list(hooks)
        self.consts = {}
        self.n = 0
        self.abrupt = [[]]
        self.max_states = max_states
        self.inline_io = inline_io
        self.analysed = set()
        self.load_hook = load_hook
        self.store_hook = None
        self.steps = 0
        self.loops = []      # (where, kind, loop, head, pre-loop facts, first id of an iteration, states that go round again, leaving states)

    def new(self):
        self.n += 1
        return self.n

    def where(self, fr, node):
        f = fr.fn["file"] if fr and fr.fn else "?"
        return "%s:%s" % (f, node.get("l") if node else "?")

    # ---------------------------------------------------------------- memory
    def canon(self, st, loc):
        """canonical location"""
        if loc[0] == "F":
            b = self.canon(st, loc[1])
            # pair members of a map element
            if b[0] == "E" and loc[2] in ("first", "second") and isinstance(b[2], tuple) and b[2][0] in ("find", "any"):
                if loc[2] == "second":
                    return ("E", b[1], ("key", self.keyof(b)))
            return ("F", b, loc[2])
        if loc[0] == "E":
            return ("E", self.canon(st, loc[1]), loc[2])
        return loc

    def keyof(self, b):
        if b[2][0] == "find":
            return b[2][1]
        return ("anykey", b[1], b[2][1])

    def cval(self, st, cloc):
        return self.load(st, cloc)

    def load(self, st, loc):
        loc = self.canon(st, loc)
        v = st.s.get(loc)
        if v is not None:
            return v
        if self.load_hook:
            v = self.load_hook(self, st, loc)
            if v is not None:
                return v
        if loc[0] == "G" and loc[1] in self.consts:
            return self.consts[loc[1]]
        if loc[0] == "E":
            return self.elem(st, self.load(st, loc[1]), loc[2])
        if loc[0] == "F":
            b = loc[1]
            if b[0] == "E":
                if loc[2] == "first" and isinstance(b[2], tuple) and b[2][0] in ("find", "any"):
                    return self.keyof(b)
                return self.fieldof(self.load(st, b), loc[2])
            o = st.s.get(b)
            if o is not None and o[0] == "rec":
                return self.fieldof(o, loc[2])
            # version of an object touched by an unknown call
            base = b
            while True:
                n = st.s.get(("ver", base))
                if n is not None:
                    return ("post", n, loc)
                if base[0] in ("F", "E"):
                    base = base[1]
                else:
                    break
        return ("init", loc)

    def fieldof(self, v, f):
        if v[0] == "rec":
            for k, x in v[2]:
                if k == f:
                    return x
        if v[0] == "setf":
            if v[2] == f:
                return v[3]
            return self.fieldof(v[1], f)
        return ("fld", v, f)

    def elem(self, st, c, pos):
        h = c[0]
        if h == "upd":
            if c[2] == pos:
                return c[3]
            p, q = c[2], pos
            if isinstance(p, tuple) and isinstance(q, tuple) and p[0] == q[0] == "num" and p != q:
                return self.elem(st, c[1], pos)
            if isinstance(p, tuple) and isinstance(q, tuple) and p[0] == q[0] == "key":
                if streq(p[1], q[1]) == FALSE:
                    return self.elem(st, c[1], pos)
        if pos == "front":
            pos = ("num", num(0)[1])
        zero = ("num", num(0)[1])
        if h == "pushb":
            if pos == "back":
                return c[2]
            if pos == zero:
                e = decide(st.f, isempty(c[1]))
                if e is True:
                    return c[2]
                if e is False:
                    return self.elem(st, c[1], pos)
            if pos == size(c[1]):
                return c[2]
        if h == "pushf":
            if pos == zero:
                return c[2]
            if pos == "back":
                e = decide(st.f, isempty(c[1]))
                if e is True:
                    return c[2]
                if e is False:
                    return self.elem(st, c[1], "back")
        if h == "list" and isinstance(pos, tuple) and pos[0] == "num" and pos[1].denominator == 1 and 0 <= pos[1] < len(c[1]):
            return c[1][int(pos[1])]
        if h == "list" and pos == "back" and c[1]:
            return c[1][-1]
        if h == "append" and pos in (zero, "back") and (pos == "back" or decide(st.f, isempty(c[1])) is True):
            return ("rec", "STLRom::Sample", (("time", c[2]), ("value", c[3]), ("derivative", c[4])))
        return ("elem", c, pos)

    def store(self, st, loc, v, fr=None, node=None):
        loc = self.canon(st, loc)
        if self.store_hook:
            self.store_hook(self, st, loc, v, fr, node)
        if loc[0] == "E":
            c = self.load(st, loc[1])
            pos = ("num", num(0)[1]) if loc[2] == "front" else loc[2]
            if c[0] == "upd" and c[2] == pos:
                c = c[1]
            if c[0] == "pushb" and pos == "back":
                c = ("pushb", c[1], v)
            elif c[0] == "pushf" and pos == ("num", num(0)[1]):
                c = ("pushf", c[1], v)
            else:
                c = ("upd", c, pos, v)
            self.store(st, loc[1], c, fr, node)
            return
        if loc[0] == "F":
            b = loc[1]
            if b[0] == "E":
                o = self.load(st, b)
                if o[0] == "rec":
                    nv = ("rec", o[1], tuple((k, v if k == loc[2] else x) for k, x in o[2]))
                else:
                    nv = ("setf", o, loc[2], v)
                self.store(st, b, nv, fr, node)
                return
            o = st.s.get(b)
            if o is not None and o[0] == "rec":
                self.explode(st, b, o)
        st.s[loc] = v

    def explode(self, st, b, o):
        st.s.pop(b, None)
        for k, x in o[2]:
            st.s[("F", b, k)] = x

    def havoc(self, st, loc, why):
        loc = self.canon(st, loc)
        if loc[0] == "E":
            self.store(st, loc, ("unk", self.new(), why))
            return
        for k in [k for k in st.s if self.under(k, loc)]:
            del st.s[k]
        st.s[("ver", loc)] = self.new()
        if loc[0] in ("L", "T", "G", "S"):
            st.s[loc] = ("unk", self.new(), why)

    def under(self, k, loc):
        while isinstance(k, tuple) and k:
            if k == loc:
                return True
            if k[0] in ("F", "E"):
                k = k[1]
            else:
                return False
        return False

    def deref(self, v):
        if v[0] == "ptr":
            return v[1]
        return ("P", v)

    def addr(self, loc):
        if loc[0] == "P":
            return loc[1]
        return ("ptr", loc)

    # class objects ------------------------------------------------------------
    def fields(self, cls):
        out = []
        for k, f in self.P.all_fields(cls):
            out.append((f["n"], f["t"]))
        for k in [cls] + self.P.bases(cls):
            for b in self.P.recs.get(k, {}).get("bases", []):
                if b["n"] not in self.P.recs and ckind(b["n"]):
                    out.append(("#c", b["n"]))
        return out

    def load_obj(self, st, loc, cls):
        loc = self.canon(st, loc)
        if cls in self.P.recs:
            if loc[0] == "E":
                return self.load(st, loc)
            v = st.s.get(loc)
            if v is not None and v[0] in ("rec", "elem", "setf", "unk", "lam"):
                return v
            return ("rec", cls, tuple((f, self.load_obj(st, ("F", loc, f), strip_t(t)) if strip_t(t) in self.P.recs
                                       else self.load(st, ("F", loc, f))) for f, t in self.fields(cls)))
        return self.load(st, loc)

    def store_obj(self, st, loc, v, cls, fr=None, node=None):
        loc = self.canon(st, loc)
        if cls in self.P.recs and loc[0] != "E":
            for k in [k for k in st.s if self.under(k, loc) and k != loc]:
                del st.s[k]
            st.s.pop(loc, None)
            st.s.pop(("ver", loc), None)
            for f, t in self.fields(cls):
                fv = self.fieldof(v, f)
                if fv[0] == "rec":
                    self.store_obj(st, ("F", loc, f), fv, fv[1], fr, node)
                else:
                    self.store(st, ("F", loc, f), fv, fr, node)
        else:
            self.store(st, loc, v, fr, node)

    # ------------------------------------------------------------ evaluation
    # ev(node) -> [(st, val)] ; for glvalues val is a location, otherwise a term
    def evs(self, nodes, st, fr):
        res = [(st, [])]
        for n in nodes:
            nx = []
            for s, vs in res:
                for s2, v in self.ev(n, s, fr):
                    nx.append((s2, vs + [v]))
            res = nx
        return res

    def rv(self, node, st, fr):
        """evaluate to a term (loading glvalues)"""
        out = []
        for s, v in self.ev(node, st, fr):
            if node.get("gl"):
                t = strip_t(node.get("t", ""))
                v = self.load_obj(s, v, t) if t in self.P.recs else self.load(s, v)
            elif isinstance(v, tuple) and v and v[0] == "obj":
                v = self.load_obj(s, v[1], strip_t(node.get("t", "")))
            out.append((s, v))
        return out

    def tmp(self):
        return ("T", self.new())

    def lv(self, node, st, fr):
        """evaluate to a location (materialising prvalues)"""
        out = []
        for s, v in self.ev(node, st, fr):
            if not node.get("gl"):
                if v[0] == "obj":
                    v = v[1]
                else:
                    l = self.tmp()
                    s = s.copy()
                    s.s[l] = v
                    v = l
            out.append((s, v))
        return out

    def ev(self, node, st, fr):
        self.steps += 1
        if self.steps > 3000000:
            raise Undecided("step limit")
        k = node["k"]
        m = getattr(self, "x_" + k, None)
        if m is None:
            st = st.copy()
            st.note("expr %s at %s" % (k, self.where(fr, node)))
            if node.get("gl"):
                return [(st, ("T", self.new()))]
            return [(st, ("unk", self.new(), k))]
        return m(node, st, fr)

    def x_Int(self, n, st, fr):
        return [(st, num(int(n["v"])))]

    def x_SizeOf(self, n, st, fr):
        return [(st, num(n.get("iv", 0)))]

    def x_Char(self, n, st, fr):
        return [(st, num(n["v"]))]

    def x_Float(self, n, st, fr):
        v = n["v"]
        if isinstance(v, (int, float)) and v == v and abs(v) != float("inf"):
            return [(st, num(Fraction(v)))]
        return [(st, ("sym", "float:%s" % v))]

    def x_Bool(self, n, st, fr):
        return [(st, ("bool", n["v"]))]

    def x_Str(self, n, st, fr):
        if n.get("gl"):
            l = self.tmp()
            st = st.copy()
            st.s[l] = ("str", n["v"])
            return [(st, l)]
        return [(st, ("str", n["v"]))]

    def x_Null(self, n, st, fr):
        return [(st, NULL)]

    def x_ZeroInit(self, n, st, fr):
        t = n.get("t", "")
        if is_ptr(t):
            return [(st, NULL)]
        if t in self.P.recs:
            l = self.tmp()
            return [(st, ("obj", l))]
        k = ckind(t)
        if k in ("seq", "map", "set"):
            return [(st, ("empty",))]
        return [(st, num(0))]

    def x_DefArg(self, n, st, fr):
        r = self.ev(n["c"][0], st, fr)
        if n.get("gl") and not n["c"][0].get("gl"):
            out = []
            for s, v in r:
                s = s.copy()
                l = self.tmp()
                s.s[l] = v
                out.append((s, l))
            return out
        return r
    x_DefInit = x_DefArg

    def x_Temp(self, n, st, fr):
        c = n["c"][0]
        out = []
        for s, v in self.ev(c, st, fr):
            if c.get("gl"):
                out.append((s, v))
            elif v[0] == "obj":
                out.append((s, v[1]))
            else:
                s = s.copy()
                l = self.tmp()
                s.s[l] = v
                out.append((s, l))
        return out

    def x_Load(self, n, st, fr):
        out = []
        for s, l in self.ev(n["c"][0], st, fr):
            if not n["c"][0].get("gl"):
                out.append((s, l))
                continue
            v = self.load(s, l)
            if self.on_load(s, l, v, fr, n):
                v = self.load(s, l)
            out.append((s, v))
        return out

    def on_load(self, st, loc, v, fr, n):
        return False

    def x_This(self, n, st, fr):
        f = fr
        while f.this is None and f.up is not None and f.fn is None:
            f = f.up
        return [(st, self.addr(f.this) if f.this is not None else ("sym", "this"))]

    def x_Ref(self, n, st, fr):
        rk = n["rk"]
        if rk == "func":
            return [(st, ("fn", n["fn"]["id"]))]
        if rk == "enum":
            return [(st, ("enum", n["q"], n["iv"]))]
        if rk == "var":
            if "g" in n and n.get("sl") is None:
                if "cv" in n:
                    self.consts[n["g"]] = num(n["cv"])
                return [(st, ("G", n["g"]))]
            if n.get("sl"):
                return [(st, ("S", "%s@%s" % (n["n"], fr.fn["id"] if fr.fn else "")))]
            f = fr
            while f is not None:
                l = ("L", f.id, n["id"], n["n"])
                if l in st.s or f.fn is not None and not getattr(f, "lam", False):
                    break
                f = f.up
            l = ("L", (f or fr).id, n["id"], n["n"])
            v = st.s.get(l)
            if v is not None and v[0] == "ref":
                return [(st, v[1])]
            return [(st, l)]
        st = st.copy()
        st.note("ref " + n.get("q", "?"))
        return [(st, ("G", n.get("q", "?")))]

    def x_Member(self, n, st, fr):
        mk_ = n["mk"]
        if mk_ == "var":
            return [(st, ("G", n["g"]))]
        base = n["c"][0]
        out = []
        for s, v in self.ev(base, st, fr):
            if n["arrow"]:
                if base.get("gl"):
                    v = self.load(s, v)
                s = self.nonnull(s, v, fr, n)
                if s is None:
                    continue
                loc = self.deref(v)
            else:
                loc = v if base.get("gl") else (v[1] if v[0] == "obj" else None)
                if loc is None:
                    l = self.tmp()
                    s = s.copy()
                    s.s[l] = v
                    loc = l
            if mk_ == "field":
                fl = self.canon(s, ("F", loc, n["n"]))
                fv = s.s.get(fl)
                if fv is not None and fv[0] == "ref":
                    fl = fv[1]
                if n.get("gl"):
                    out.append((s, fl))
                else:
                    out.append((s, self.load(s, fl)))
            else:
                out.append((s, ("bound", loc, n["fn"]["id"])))
        return out

    def nonnull(self, st, v, fr, n):
        """dereference of v: report null dereference events, return refined state"""
        if v[0] == "null":
            st = st.copy()
            st.ev("nullderef", v, self.where(fr, n))
            self.abrupt[-1].append(("crash", st, None))
            return None
        l = self.deref(v)
        if st.s.get(("alloc", l)) == ("str", "deleted") or l[0] == "F":
            st = st.copy()
            self.dead(st, l, self.where(fr, n))
        d = decide(st.f, cond(("isnull", v))) if v[0] != "ptr" else False
        if d is True:
            st = st.copy()
            st.ev("nullderef", v, self.where(fr, n))
            self.abrupt[-1].append(("crash", st, None))
            return None
        if d is None and self.track_deref:
            st = st.copy()
            st.ev("deref", v, self.where(fr, n))
        return st
    track_deref = False

    def dead(self, st, loc, w):
        """record the use of an object that was deleted"""
        while isinstance(loc, tuple) and loc:
            if st.s.get(("alloc", loc)) == ("str", "deleted"):
                st.ev("uaf", loc, w)
                return True
            if loc[0] not in ("F", "E"):
                return False
            loc = loc[1]
        return False

    def x_Cast(self, n, st, fr):
        c = n["c"][0]
        ck = n["ck"]
        out = []
        for s, v in self.ev(c, st, fr):
            if ck in ("DerivedToBase", "UncheckedDerivedToBase"):
                t = strip_t(n["t"])
                if t not in self.P.recs and ckind(t) and ckind(t) not in ("stream", "iter", "riter"):
                    # view of the std base of a repo class
                    src = strip_t(c.get("t", "").rstrip("*").strip() if is_ptr(c.get("t", "")) else c.get("t", ""))
                    if src in self.P.recs:
                        if n.get("gl"):
                            v = ("F", v, "#c")
                        elif v[0] == "ptr":
                            v = ("ptr", ("F", v[1], "#c"))
                        elif v[0] == "obj":
                            v = self.load(s, ("F", v[1], "#c"))
                        elif is_ptr(n["t"]):
                            v = ("ptr", ("F", self.deref(v), "#c"))
                elif is_ptr(n["t"]) and not n.get("gl"):
                    t2 = strip_t(n["t"].rstrip("*").strip())
                    if t2 not in self.P.recs and ckind(t2) in ("seq", "map", "string"):
                        src = strip_t(c.get("t", "").rstrip("*").strip())
                        if src in self.P.recs:
                            v = ("ptr", ("F", self.deref(v), "#c"))
                out.append((s, v))
                continue
            if ck in ("NoOp", "ConstructorConversion", "UserDefinedConversion", "ArrayToPointerDecay", "FunctionToPointerDecay", "BaseToDerived", "BitCast", "Dynamic"):
                if ck == "ArrayToPointerDecay" and c.get("gl"):
                    lvv = self.load(s, v)
                    if lvv[0] == "str":
                        out.append((s, lvv))
                    else:
                        out.append((s, ("ptr", v)))
                    continue
                if ck == "FunctionToPointerDecay":
                    out.append((s, v))
                    continue
                if not n.get("gl") and c.get("gl"):
                    v = self.load_obj(s, v, strip_t(c.get("t", "")))
                if ck == "Dynamic":
                    v = ("app", "dyncast", v)
                out.append((s, v))
                continue
            if c.get("gl") and not n.get("gl"):
                v = self.load(s, v)
            if ck == "NullToPointer":
                v = NULL
            elif ck == "PointerToBoolean":
                v = cnot(eq(v, NULL)) if v[0] != "str" else TRUE
            elif ck in ("IntegralToBoolean", "FloatingToBoolean"):
                v = self.truth(v)
            elif ck == "FloatingToIntegral":
                if v[0] == "num":
                    v = num(int(v[1]))
                else:
                    v = ("toint", v)
            elif ck in ("IntegralCast", "IntegralToFloating", "FloatingCast"):
                if v[0] == "bool":
                    v = num(int(v[1]))
                elif v[0] == "cond":
                    v = ("b2i", v)
                elif ck == "IntegralCast" and v[0] == "enum" and "int" in n.get("t", ""):
                    pass
            elif ck == "ToVoid":
                pass
            if ck in ("FloatingCast", "IntegralToFloating") and strip_t(n.get("t", "")) == "float" and v[0] not in ("bool", "b2i") and not (v[0] == "num" and float_exact(v[1])):
                v = ("app", "tofloat", v)       # loses digits
            out.append((s, v))
        return out

    def truth(self, v):
        if v[0] in ("bool", "cond"):
            return v
        if v[0] == "b2i":
            return v[1]
        if v[0] == "num":
            return ("bool", v[1] != 0)
        if v[0] == "null":
            return FALSE
        if v[0] == "ptr":
            return TRUE
        if v[0] == "enum":
            return ("bool", v[2] != 0)
        if v[0] in ("size", "lin"):
            return cnot(eq(v, num(0)))
        return cond(("truth", v))

    # branch on a condition term
    def assume(self, st, c, pol):
        if not pol:
            c = cnot(c)
        d = decide(st.f, c)
        if d is True:
            return st
        if d is False:
            return None
        if c[0] != "cond":
            return st
        st = st.copy()
        st.f[c[1]] = c[2]
        return st

    def branch(self, node, st, fr):
        """-> [(st, bool)]"""
        out = []
        for s, v in self.cond(node, st, fr):
            for b in (True, False):
                s2 = self.assume(s, v, b)
                if s2 is not None:
                    out.append((s2, b))
        return out

    def cond(self, node, st, fr):
        return [(s, self.truth(v)) for s, v in self.rv(node, st, fr)]

    def x_Un(self, n, st, fr):
        op, c = n["op"], n["c"][0]
        out = []
        if op == "&":
            for s, l in self.ev(c, st, fr):
                if l[0] == "fn":
                    out.append((s, l))
                else:
                    out.append((s, self.addr(l) if c.get("gl") else l))
            return out
        if op == "*":
            for s, v in self.rv(c, st, fr):
                s = self.nonnull(s, v, fr, n)
                if s is not None:
                    out.append((s, self.deref(v)))
            return out
        if op in ("++", "--"):
            for s, l in self.ev(c, st, fr):
                old = self.load(s, l)
                s = s.copy()
                nv = add(old, num(1 if op == "++" else -1))
                self.store(s, l, nv, fr, n)
                if n.get("post"):
                    out.append((s, old))
                else:
                    out.append((s, l if n.get("gl") else nv))
            return out
        for s, v in self.rv(c, st, fr):
            if op == "-":
                out.append((s, neg(v)))
            elif op == "+":
                out.append((s, v))
            elif op == "!":
                out.append((s, cnot(self.truth(v))))
            else:
                out.append((s, ("app", op, v)))
        return out

    def arith(self, op, a, b):
        if a[0] == "b2i" and op not in ("==", "!="):
            a = ("app", "b2i", a[1])
        if b[0] == "b2i" and op not in ("==", "!="):
            b = ("app", "b2i", b[1])
        if op == "+":
            return add(a, b)
        if op == "-":
            return sub(a, b)
        if op == "*":
            return mul(a, b)
        if op == "/":
            return div(a, b)
        return ("app", op, a, b)

    def compare(self, op, a, b):
        if op in ("==", "!="):
            if a[0] in ("bool", "cond", "b2i") or b[0] in ("bool", "cond", "b2i"):
                x, y = self.truth(a), self.truth(b)
                if y[0] == "bool":
                    c = x if y[1] else cnot(x)
                elif x[0] == "bool":
                    c = y if x[1] else cnot(y)
                else:
                    c = cond(("boolxor",) + tuple(sorted((x, y), key=repr)), False)
            elif a[0] == "strcmp" and b == num(0):
                c = streq(a[1], a[2])
            elif b[0] == "strcmp" and a == num(0):
                c = streq(b[1], b[2])
            else:
                c = eq(a, b)
            return c if op == "==" else cnot(c)
        if op == "<":
            return lt(a, b)
        if op == ">":
            return lt(b, a)
        if op == "<=":
            return le(a, b)
        return le(b, a)

    def x_Bin(self, n, st, fr):
        op = n["op"]
        a, b = n["c"]
        out = []
        if op in ("&&", "||"):
            for s, c in self.cond(a, st, fr):
                for bb in (True, False):
                    s2 = self.assume(s, c, bb)
                    if s2 is None:
                        continue
                    if bb == (op == "||"):
                        out.append((s2, ("bool", bb)))
                    else:
                        out += self.cond(b, s2, fr)
            return out
        if op == ",":
            for s, _ in self.ev(a, st, fr):
                out += self.ev(b, s, fr)
            return out
        if op == "=":
            for s, v in self.rv(b, st, fr):
                for s2, l in self.ev(a, s, fr):
                    s2 = s2.copy()
                    if v[0] == "obj":
                        v = self.load_obj(s2, v[1], strip_t(b.get("t", "")))
                    self.store(s2, l, v, fr, n)
                    out.append((s2, l))
            return out
        if op in ("+=", "-=", "*=", "/=", "|=", "&=", "%=", "^=", "<<=", ">>="):
            for s, l in self.ev(a, st, fr):
                for s2, v in self.rv(b, s, fr):
                    s2 = s2.copy()
                    self.store(s2, l, self.arith(op[:-1], self.load(s2, l), v), fr, n)
                    out.append((s2, l))
            return out
        for s, x in self.rv(a, st, fr):
            for s2, y in self.rv(b, s, fr):
                if op in ("==", "!=", "<", ">", "<=", ">="):
                    out.append((s2, self.compare(op, x, y)))
                else:
                    if is_ptr(a.get("t", "")) or is_ptr(b.get("t", "")):
                        out.append((s2, ("app", "ptr" + op, x, y)))
                    else:
                        out.append((s2, self.arith(op, x, y)))
        return out

    def x_Cond(self, n, st, fr):
        c, a, b = n["c"]
        out = []
        for s, cv in self.cond(c, st, fr):
            # recognise (x<y)?x:y style selections of pure terms
            sel = None
            if cv[0] == "cond" and cv[1][0] == "lt0" and not n.get("gl"):
                try:
                    nb = len(self.abrupt[-1])
                    ra, rb = self.rv(a, s, fr), self.rv(b, s, fr)
                    if len(ra) == 1 and len(rb) == 1 and ra[0][0].tr is s.tr and rb[0][0].tr is s.tr and len(self.abrupt[-1]) == nb:
                        va, vb = ra[0][1], rb[0][1]
                        if va[0] not in ("obj", "bool", "cond", "str", "ptr", "null", "rec") and vb[0] not in ("obj", "bool", "cond", "str", "ptr", "null", "rec"):
                            t = cv[1][1]
                            d = sub(va, vb)
                            # t<0 selects va
                            if cv[2]:
                                if d == t:
                                    sel = tmin(va, vb)
                                elif d == neg(t):
                                    sel = tmax(va, vb)
                            else:      # not(t<0) <=> t>=0 selects va
                                if d == t:
                                    sel = tmax(va, vb)
                                elif d == neg(t):
                                    sel = tmin(va, vb)
                    else:
                        del self.abrupt[-1][nb:]
                except Undecided:
                    raise
            if sel is not None and decide(s.f, cv) is None:
                out.append((s, sel))
                continue
            for bb in (True, False):
                s2 = self.assume(s, cv, bb)
                if s2 is None:
                    continue
                x = a if bb else b
                if n.get("gl"):
                    out += self.lv(x, s2, fr)
                else:
                    out += self.ev(x, s2, fr) if not x.get("gl") else self.rv(x, s2, fr)
        return out

    def x_Index(self, n, st, fr):
        out = []
        for s, b in self.ev(n["c"][0], st, fr):
            if n["c"][0].get("gl"):
                b = ("ptr", b)
            for s2, i in self.rv(n["c"][1], s, fr):
                base = self.deref(b) if b[0] in ("ptr",) else ("P", b)
                out.append((s2, ("E", base, i)))
        return out

    def x_InitList(self, n, st, fr):
        t = n.get("t", "")
        out = []
        if len(n["c"]) == 1 and not (t in self.P.recs) and not t.endswith("]") and ckind(t) is None:
            return self.rv(n["c"][0], st, fr)
        res = [(st, [])]
        for c in n["c"]:
            nx = []
            for s, vs in res:
                for s2, v in self.rv(c, s, fr):
                    nx.append((s2, vs + [v]))
            res = nx
        for s, vs in res:
            if t in self.P.recs:
                s = s.copy()
                l = self.tmp()
                fs = self.fields(t)
                for (f, ft), v in zip(fs, vs):
                    self.store_obj(s, ("F", l, f), v, strip_t(ft))
                out.append((s, ("obj", l)))
            else:
                v = ("list", tuple(vs))
                if n.get("gl"):
                    s = s.copy()
                    l = self.tmp()
                    s.s[l] = v
                    v = l
                out.append((s, v))
        return out

    def x_StdInitList(self, n, st, fr):
        c = n["c"][0]
        return self.rv(c, st, fr)

    def x_Lambda(self, n, st, fr):
        st = st.copy()
        env = []
        for c in n["caps"]:
            if c.get("this"):
                continue
            if "id" not in c:
                continue
            l = None
            f = fr
            while f is not None:
                k = ("L", f.id, c["id"], c["n"])
                if k in st.s:
                    l = k
                    break
                f = f.up
            if l is None:
                l = ("L", fr.id, c["id"], c["n"])
            v = st.s.get(l)
            if v is not None and v[0] == "ref":
                l = v[1]
            if c.get("byref"):
                env.append((c["id"], c["n"], ("ref", l)))
            else:
                env.append((c["id"], c["n"], self.load(st, l)))
        fthis = fr.this
        return [(st, ("lam", n["fn"]["id"], tuple(env), fthis))]

    def x_New(self, n, st, fr):
        t = n["at"]
        out = []
        loc0 = ("N", self.new(), t, self.where(fr, n))
        base = strip_t(t)
        init = n.get("c")
        if init and init[0]["k"] == "Construct":
            for s in self.construct(init[0], loc0, st, fr):
                s.s[("cls", loc0)] = ("str", base)
                s.s[("alloc", loc0)] = ("str", "live")
                s.ev("new", loc0, base, self.where(fr, n))
                out.append((s, ("ptr", loc0)))
            return out
        rs = self.rv(init[0], st, fr) if init else [(st, None)]
        for s, v in rs:
            s = s.copy()
            if v is not None:
                self.store_obj(s, loc0, v, base)
            s.s[("cls", loc0)] = ("str", base)
            s.s[("alloc", loc0)] = ("str", "live")
            s.ev("new", loc0, base, self.where(fr, n))
            out.append((s, ("ptr", loc0)))
        return out

    def x_Delete(self, n, st, fr):
        out = []
        for s, v in self.rv(n["c"][0], st, fr):
            out += self.do_delete(s.copy(), v, fr, n)
        return out

    def do_delete(self, s, v, fr, n):
        if v[0] == "null" or decide(s.f, cond(("isnull", v))) is True:
            return [(s, ("void",))]
        s.ev("delete", v, self.where(fr, n))
        loc = self.deref(v)
        if s.s.get(("alloc", loc)) == ("str", "deleted"):
            s.ev("doubledelete", v, self.where(fr, n))
        s.s[("alloc", loc)] = ("str", "deleted")
        return [(s, ("void",))]

    def x_Throw(self, n, st, fr):
        st = st.copy()
        rs = [(st, None)]
        if n.get("c"):
            rs = self.ev(n["c"][0], st, fr)
        for s, v in rs:
            s = s.copy()
            s.ev("throw", n.get("tt", "rethrow"), self.where(fr, n))
            self.abrupt[-1].append(("throw", s, n.get("tt", "rethrow")))
        return []

    # ---------------------------------------------------------------- calls
    def x_Construct(self, n, st, fr):
        loc = self.tmp()
        cls = n["fn"]["cls"]
        out = []
        # elidable copy/move of a prvalue
        if n.get("elid") and len(n["c"]) == 1:
            c = n["c"][0]
            cc = c["c"][0] if c["k"] == "Temp" else c
            if not cc.get("gl"):
                return self.ev(cc, st, fr)
        for s in self.construct(n, loc, st, fr):
            k = ckind(cls) if cls not in self.P.recs else None
            if cls in self.P.recs:
                out.append((s, ("obj", loc)))
            else:
                out.append((s, self.load(s, loc)))
        return out

    def construct(self, n, loc, st, fr):
        """run constructor call n on object loc -> [st]"""
        if n["k"] != "Construct":
            out = []
            for s, v in self.ev(n, st, fr):
                s = s.copy()
                if n.get("gl"):
                    v = self.load_obj(s, v, strip_t(n["t"]))
                elif v[0] == "obj":
                    self.copy_obj(s, loc, v[1], strip_t(n["t"]))
                    out.append(s)
                    continue
                self.store_obj(s, loc, v, strip_t(n["t"]), fr, n)
                out.append(s)
            return out
        fn = n["fn"]
        cls = fn["cls"]
        if n.get("elid") and len(n["c"]) == 1:
            c = n["c"][0]
            cc = c["c"][0] if c["k"] == "Temp" else c
            if not cc.get("gl"):
                return self.construct(cc, loc, st, fr)
        out = []
        if cls in self.P.recs:
            for s, args in self.args(n["c"], fn["pt"], st, fr):
                out += [s2 for s2, _ in self.call(fn, loc, args, s, fr, n, cls=cls)]
            return out
        # std types
        k = ckind(cls)
        res = []
        for s, vs in self.multi_rv(n["c"], st, fr):
            s = s.copy()
            if k in ("seq", "map", "set"):
                if not vs:
                    v = ("empty",)
                elif len(vs) == 1 or (len(vs) == 2 and fn["pt"] and is_ref(fn["pt"][0]) and ckind(fn["pt"][0])):
                    v = vs[0]
                    if v[0] == "num":
                        v = ("app", "seqn", v) if v != num(0) else ("empty",)
                elif len(vs) >= 2 and vs[0][0] == "it" and vs[1][0] == "it" and vs[0][1] == vs[1][1] and vs[0][2] == "begin" and vs[1][2] == "end":
                    v = self.load(s, vs[0][1])
                else:
                    v = ("app", "mk_" + k) + tuple(vs)
                if v[0] == "list" and k == "seq" and not v[1]:
                    v = ("empty",)
            elif k == "string":
                if not vs:
                    v = ("str", "")
                elif vs[0][0] == "num":
                    v = ("app", "strn") + tuple(vs)
                elif len(vs) >= 2 and vs[0][0] not in ("it", "rit") and fn["pt"] and len(fn["pt"]) > 1 and "allocator" not in fn["pt"][1]:
                    v = ("app", "substr") + tuple(x for x, t in zip(vs, fn["pt"]) if "allocator" not in t)
                else:
                    v = vs[0]
            elif k in ("iter", "riter"):
                v = vs[0] if vs else ("unk", self.new(), "iter")
                if k == "riter" and v[0] == "it":
                    v = ("app", "mkrit", v)
            elif k == "uptr":
                v = vs[0] if vs else NULL
                if v[0] == "obj":
                    v = self.load(s, v[1])
                # move: clear the source
                if n["c"] and ckind(strip_t(n["c"][0].get("t", ""))) == "uptr" and n["c"][0].get("gl"):
                    for s2, l in self.ev(n["c"][0], s, fr):
                        s = s2.copy()
                        s.s[self.canon(s, l)] = NULL
                        break
            elif k == "pair":
                v = ("rec", "pair", (("first", vs[0]), ("second", vs[1]))) if len(vs) == 2 else (vs[0] if vs else ("unk", self.new(), "pair"))
            else:
                v = ("app", "mk:" + cls) + tuple(vs)
                if "fstream" in cls and vs:
                    s.ev("io", "open", self.where(fr, n), tuple(vs), cls)
            s.s[loc] = v
            res.append(s)
        return res

    def multi_rv(self, nodes, st, fr):
        res = [(st, [])]
        for n in nodes:
            nx = []
            for s, vs in res:
                for s2, v in self.rv(n, s, fr):
                    nx.append((s2, vs + [v]))
            res = nx
        return res

    def args(self, nodes, pts, st, fr):
        """reference parameters -> ('ref',loc); others -> term"""
        res = [(st, [])]
        for i, n in enumerate(nodes):
            pt = pts[i] if i < len(pts) else ""
            nx = []
            for s, vs in res:
                if is_ref(pt):
                    for s2, l in self.lv(n, s, fr):
                        nx.append((s2, vs + [("ref", l)]))
                else:
                    for s2, v in self.ev(n, s, fr):
                        if n.get("gl"):
                            v = self.load_obj(s2, v, strip_t(n.get("t", "")))
                        nx.append((s2, vs + [v]))
            res = nx
        return res

    def x_MCall(self, n, st, fr):
        fn = n.get("fn")
        out = []
        if "obj" not in n or fn is None:
            st = st.copy()
            st.note("indirect member call at " + self.where(fr, n))
            return [(st, ("T", self.new()) if n.get("gl") else ("unk", self.new(), "mcall"))]
        obj = n["obj"]
        for s, v in self.ev(obj, st, fr):
            if n["arrow"]:
                if obj.get("gl"):
                    v = self.load(s, v)
                s = self.nonnull(s, v, fr, n)
                if s is None:
                    continue
                loc = self.deref(v)
            elif obj.get("gl"):
                loc = v
            elif v[0] == "obj":
                loc = v[1]
            else:
                loc = self.tmp()
                s = s.copy()
                s.s[loc] = v
            if fn["repo"] or fn["cls"] in self.P.recs:
                for s2, args in self.args(n["c"], fn["pt"], s, fr):
                    out += self.call(fn, loc, args, s2, fr, n)
            else:
                out += self.std_method(n, fn, loc, s, fr)
        return self.fix(n, out)

    def fix(self, n, out):
        """make call results match the value category of the node"""
        res = []
        for s, v in out:
            if n.get("gl"):
                if v[0] == "ref":
                    v = v[1]
                elif v[0] not in ("L", "G", "F", "P", "N", "E", "T", "S"):
                    l = self.tmp()
                    s = s.copy()
                    s.s[l] = v
                    v = l
            else:
                if v[0] == "ref":
                    v = self.load(s, v[1])
            res.append((s, v))
        return res

    def x_Call(self, n, st, fr):
        fn = n.get("fn")
        if fn is None:
            cal = n.get("callee")
            out = []
            for s, c in (self.rv(cal, st, fr) if cal else [(st, ("unk", 0, ""))]):
                if c[0] == "fn" and c[1] in self.P.funcs:
                    f = self.P.funcs[c[1]]
                    for s2, args in self.args(n["c"], f["pt"], s, fr):
                        out += self.call(f, None, args, s2, fr, n)
                else:
                    for s2, _ in self.evs(n["c"], s, fr):
                        s2 = s2.copy()
                        s2.note("indirect call at " + self.where(fr, n))
                        out.append((s2, ("unk", self.new(), "call")))
            return self.fix(n, out)
        if fn["repo"]:
            out = []
            for s2, args in self.args(n["c"], fn["pt"], st, fr):
                out += self.call(fn, None, args, s2, fr, n)
            return self.fix(n, out)
        return self.fix(n, self.std_call(n, fn, st, fr))

    def x_OpCall(self, n, st, fr):
        fn = n.get("fn")
        op = n["op"]
        if fn and fn["repo"]:
            out = []
            if fn.get("cls") and not fn.get("static"):
                if fn["cls"].startswith("lambda@") or "(lambda" in fn["cls"]:
                    for s, v in self.rv(n["c"][0], st, fr):
                        for s2, args in self.args(n["c"][1:], fn["pt"], s, fr):
                            out += self.call_lambda(v, args, s2, fr, n)
                    return self.fix(n, out)
                for s, l in self.lv(n["c"][0], st, fr):
                    for s2, args in self.args(n["c"][1:], fn["pt"], s, fr):
                        out += self.call(fn, l, args, s2, fr, n)
            else:
                for s2, args in self.args(n["c"], fn["pt"], st, fr):
                    out += self.call(fn, None, args, s2, fr, n)
            return self.fix(n, out)
        return self.fix(n, self.std_op(n, op, fn, st, fr))

    def call_lambda(self, v, args, st, fr, n):
        if v[0] == "fn" and v[1] in self.P.funcs:
            return self.call(self.P.funcs[v[1]], None, args, st, fr, n)
        if v[0] != "lam" or v[1] not in self.P.funcs:
            st = st.copy()
            st.note("opaque callable at " + self.where(fr, n))
            for a in args:
                if a[0] == "ref":
                    self.havoc(st, a[1], "callable")
            return [(st, ("unk", self.new(), "callable"))]
        f = self.P.funcs[v[1]]
        return self.inline(f, v[3], args, st, fr, n, caps=v[2], cls=fr.cls)

    def dyncls(self, st, loc, fr):
        c = st.s.get(("cls", loc))
        if c:
            return c[1]
        if loc == fr.this and fr.cls:
            return fr.cls
        return None

    def call(self, fn, loc, args, st, fr, n, cls=None):
        """call of a repo function (or repo-class member)"""
        target = fn
        dyn = None
        if loc is not None:
            loc = self.canon(st, loc)
            dyn = self.dyncls(st, loc, fr)
            st = self.uses(st, loc, (), fr, n)
            if fn.get("virt") and not n.get("qual"):
                if dyn:
                    t = self.P.final_overrider(dyn, fn["id"])
                    if t and t in self.P.funcs:
                        target = self.P.funcs[t]
                    elif t and t != fn["id"]:
                        target = dict(fn, id=t)
        st = self.uses(st, None, args, fr, n)
        for h in self.hooks:
            r = h(self, target, loc, dyn, args, st, fr, n)
            if r is not None:
                return r
        if fn.get("virt") and not n.get("qual") and dyn is None and loc is not None and not fn.get("dtor"):
            return self.unknown_virtual(fn, loc, args, st, fr, n)
        body = self.P.funcs.get(target["id"])
        if target.get("copyasg") or target.get("moveasg") or target.get("copy") or target.get("move"):
            if not target.get("user"):
                st = st.copy()
                src = args[0][1] if args[0][0] == "ref" else None
                if src is None:
                    self.store_obj(st, loc, args[0], target["cls"], fr, n)
                else:
                    self.copy_obj(st, loc, src, target["cls"], fr, n)
                if target.get("moveasg") or target.get("move"):
                    self.clear_moved(st, src, target["cls"])
                return [(st, ("ref", loc) if not target.get("ctor") else ("void",))]
        if target.get("ctor") and target.get("dflt") and not target.get("user"):
            st = st.copy()
            return [(s, ("void",)) for s in self.default_init(st, loc, target["cls"], fr)]
        if body is None or "body" not in body:
            return self.opaque(target, loc, args, st, fr, n)
        if not self.inline_io and any("basic_ostream" in p for p in target["pt"]):
            st = st.copy()
            st.ev("io", target["id"], self.where(fr, n))
            r = ("unk", self.new(), "io")
            for a, p in zip(args, target["pt"]):
                if "basic_ostream" in p and a[0] == "ref":
                    r = a
            return [(st, r)]
        if fr and fr.depth(target["id"]) >= 2:
            return self.opaque(target, loc, args, st, fr, n)
        return self.inline(body, loc, args, st, fr, n, cls=cls if cls else dyn)

    def uses(self, st, loc, args, fr, n):
        ls = [loc] if loc is not None else []
        for a in args:
            if not isinstance(a, tuple) or not a:
                continue
            if a[0] in ("ref", "obj"):
                ls.append(a[1])
                v = st.s.get(a[1])
                if v is not None and v[0] in ("it", "rit"):
                    ls.append(v[1])
            elif a[0] in ("it", "rit"):
                ls.append(a[1])
            elif a[0] == "ptr":
                ls.append(a[1])
        for l in ls:
            r = l
            while isinstance(r, tuple) and r:
                if st.s.get(("alloc", r)) == ("str", "deleted"):
                    st = st.copy()
                    self.dead(st, l, self.where(fr, n))
                    break
                if r[0] not in ("F", "E"):
                    break
                r = r[1]
        return st

    def copy_obj(self, st, dst, src, cls, fr=None, n=None):
        self.store_obj(st, dst, self.load_obj(st, src, cls), cls, fr, n)

    def clear_moved(self, st, src, cls):
        if src is None:
            return
        for f, t in self.fields(cls):
            k = ckind(strip_t(t))
            if k in ("seq", "map", "set", "string"):
                self.store(st, ("F", src, f), ("app", "movedfrom"))

    def default_init(self, st, loc, cls, fr):
        sts = [st]
        for b in self.P.recs[cls]["bases"]:
            pass
        for f, t in self.fields(cls):
            k = ckind(strip_t(t))
            ft = strip_t(t)
            if k in ("seq", "map", "set"):
                for s in sts:
                    s.s[("F", loc, f)] = ("empty",)
            elif k == "string":
                for s in sts:
                    s.s[("F", loc, f)] = ("str", "")
            elif k == "uptr":
                for s in sts:
                    s.s[("F", loc, f)] = NULL
            elif ft in self.P.recs:
                ctor = [x for x in self.P.funcs.values() if x.get("cls") == ft and x.get("dflt")]
                nx = []
                for s in sts:
                    if ctor:
                        nx += [s2 for s2, _ in self.call(ctor[0], ("F", loc, f), [], s, fr, {"l": 0}, cls=ft)]
                    else:
                        nx += self.default_init(s, ("F", loc, f), ft, fr)
                sts = nx
            else:
                for s in sts:
                    s.s[("F", loc, f)] = ("uninit", f)
        return sts

    def unknown_virtual(self, fn, loc, args, st, fr, n):
        st = st.copy()
        cid = self.new()
        st.ev("vcall", fn["id"], loc, tuple(args), cid, self.where(fr, n))
        if not fn.get("const"):
            for k in [k for k in st.s if self.under(k, loc)]:
                del st.s[k]
            st.s[("ver", loc)] = cid
            for a, p in zip(args, fn["pt"]):
                if a[0] == "ref" and not p.startswith("const "):
                    self.havoc(st, a[1], "vcall")
        return [(st, ("ret", cid, fn["n"], loc))]

    def opaque(self, fn, loc, args, st, fr, n):
        st = st.copy()
        cid = self.new()
        st.ev("call", fn["id"], loc, tuple(args), cid, self.where(fr, n))
        st.note("opaque call " + fn["id"])
        if loc is not None and not fn.get("const"):
            self.havoc(st, loc, "call")
        for a, p in zip(args, fn["pt"]):
            if a[0] == "ref" and not p.startswith("const "):
                self.havoc(st, a[1], "call")
            elif a[0] == "ptr" and a[1][0] == "L" and is_ptr(p) and not p.startswith("const "):
                self.havoc(st, a[1], "call")
        return [(st, ("ret", cid, fn["n"], loc))]

    def inline(self, f, loc, args, st, fr, n, caps=(), cls=None):
        self.analysed.add(f["id"])
        d = 0
        x = fr
        while x:
            d += 1
            x = x.up
        if d > self.MAXD:
            return self.opaque(f, loc, args, st, fr, n)
        st = st.copy()
        fid = self.new()
        nf = Frame(fid, loc, cls, f, fr)
        for cid, cn, cv in caps:
            st.s[("L", fid, cid, cn)] = cv
        for p, a in zip(f["params"], args):
            l = ("L", fid, p.get("id"), p["n"])
            if a[0] == "ref":
                if is_ref(p["t"]):
                    st.s[l] = a
                else:
                    self.store_obj(st, l, self.load_obj(st, a[1], strip_t(p["t"])), strip_t(p["t"]))
            elif a[0] == "obj":
                self.copy_obj(st, l, a[1], strip_t(p["t"]))
            elif strip_t(p["t"]) in self.P.recs and not is_ref(p["t"]) and not is_ptr(p["t"]):
                self.store_obj(st, l, a, strip_t(p["t"]))
            else:
                st.s[l] = a
        self.abrupt.append([])
        try:
            sts = [st]
            if f.get("ctor"):
                sts = self.run_inits(f, loc, st, nf, cls)
            outs = []
            for s in sts:
                outs += self.exec(f.get("body"), s, nf) if f.get("body") else [("next", s, None)]
        finally:
            ab = self.abrupt.pop()
        self.abrupt[-1].extend(ab)
        res = []
        for k, s, v in outs:
            if k in ("next", "return"):
                s = self.leave(f, nf, s, v, fr, n)
                if v is None:
                    v = ("void",)
                res.append((s, v))
            elif k == "throw" or k == "crash":
                self.abrupt[-1].append((k, s, v))
            else:
                s = s.copy()
                s.note("abnormal " + k)
                res.append((s, ("void",)))
        if len(res) > self.max_states:
            raise Undecided("too many paths in %s" % f["id"])
        return res

    def leave(self, f, nf, s, v, fr, n):
        """drop the frame's locals"""
        keep = None
        if v is not None and v[0] in ("ref", "obj"):
            keep = v[1]
        s = s.copy()
        for k in list(s.s):
            b = k
            if b[0] in ("ver", "cls", "alloc"):
                b = b[1]
            while b and b[0] in ("F", "E"):
                b = b[1]
            if b and b[0] == "L" and b[1] == nf.id:
                if keep is not None and self.root(keep) == b:
                    continue
                # objects captured by address stay readable
                del s.s[k]
        return s

    def root(self, loc):
        while loc and loc[0] in ("F", "E"):
            loc = loc[1]
        return loc

    def run_inits(self, f, loc, st, nf, cls):
        sts = [st]
        most = (cls == f["cls"])
        for s in sts:
            # construction: dynamic class is the class under construction
            s.s[("cls", loc)] = ("str", f["cls"])
        done = set()
        for i in f.get("inits", []):
            nx = []
            for s in sts:
                if "base" in i:
                    if i.get("vbase") and not most:
                        nx.append(s)
                        continue
                    if i["base"] not in self.P.recs:
                        if ckind(i["base"]):
                            for s2 in self.construct(i["e"], ("F", loc, "#c"), s, nf):
                                nx.append(s2)
                        else:
                            nx.append(s)
                        continue
                    e = i["e"]
                    if e["k"] != "Construct":
                        nx.append(s)
                        continue
                    for s2, args in self.args(e["c"], e["fn"]["pt"], s, nf):
                        for s3, _ in self.call(e["fn"], loc, args, s2, nf, e, cls=cls if False else None):
                            nx.append(s3)
                elif "field" in i:
                    fl = ("F", loc, i["field"])
                    ft = next((t for n_, t in self.fields(f["cls"]) if n_ == i["field"]), "")
                    if i["e"]["k"] == "Construct" or strip_t(ft) in self.P.recs and not is_ref(ft) and not is_ptr(ft):
                        nx += self.construct(i["e"], fl, s, nf)
                    elif is_ref(ft):
                        for s2, l in self.lv(i["e"], s, nf):
                            s2 = s2.copy()
                            s2.s[fl] = ("ref", l)
                            nx.append(s2)
                    else:
                        e = i["e"]
                        for s2, v in self.rv(e, s, nf):
                            s2 = s2.copy()
                            self.store(s2, fl, v, nf, i)
                            nx.append(s2)
                else:
                    e = i["e"]
                    for s2, args in self.args(e["c"], e["fn"]["pt"], s, nf):
                        for s3, _ in self.call(e["fn"], loc, args, s2, nf, e, cls=cls):
                            nx.append(s3)
            sts = nx
        # scalar fields of this very class without initialiser are indeterminate
        inited = {i.get("field") for i in f.get("inits", [])}
        deleg = any("deleg" in i for i in f.get("inits", []))
        if not deleg and not f.get("copy") and not f.get("move"):
            for fld in self.P.recs.get(f["cls"], {}).get("fields", []):
                if fld["n"] not in inited and fld.get("pod"):
                    for s in sts:
                        s.s[("F", loc, fld["n"])] = ("uninit", fld["n"])
        for s in sts:
            s.s[("cls", loc)] = ("str", f["cls"])
        return sts

    # ------------------------------------------------------------- std model
    def std_method(self, n, fn, loc, st, fr):
        cls = fn["cls"]
        k = ckind(cls)
        name = fn["n"]
        loc = self.canon(st, loc)
        out = []
        if k == "stream":
            for s, vs in self.multi_rv(n["c"], st, fr):
                s = s.copy()
                s.ev("io", name, self.where(fr, n), tuple(vs), cls)
                # extraction into reference arguments
                for a in n["c"]:
                    if a.get("gl") and name in ("get", "getline", "read"):
                        for s2, l in self.ev(a, s, fr):
                            s = s2.copy()
                            self.extract(s, loc, l, strip_t(a.get("t", "")))
                            break
                if name in ("operator bool", "fail", "eof"):
                    v = self.rdstate(s, loc, name)
                elif name in ("good", "is_open", "bad"):
                    v = cond(("truth", ("stream", name, self.new())))
                elif name == "str" and vs:
                    s.s[("F", loc, "#src")] = s.s[("F", loc, "#text")] = vs[0]
                    s.s[("F", loc, "#last")] = ("unk", self.new(), "stream")
                    v = ("void",)
                elif name == "precision" and vs:
                    s.s[("F", loc, "#prec")] = vs[0]
                    v = ("unk", self.new(), "precision")
                elif name == "str" and not vs:
                    v = self.text(s, loc)
                else:
                    v = ("ref", loc) if n.get("gl") else ("unk", self.new(), "stream")
                out.append((s, v))
            return out
        for s, vs in self.multi_rv(n["c"], st, fr):
            s = s.copy()
            if k in ("iter", "riter"):
                out += self.iter_method(n, name, loc, vs, s, fr)
                continue
            if k == "uptr":
                p = self.load(s, loc)
                if name in ("get",):
                    out.append((s, p))
                elif name == "release":
                    self.store(s, loc, NULL, fr, n)
                    out.append((s, p))
                elif name == "reset":
                    if p[0] != "null":
                        self.do_delete(s, p, fr, n)
                    self.store(s, loc, vs[0] if vs else NULL, fr, n)
                    out.append((s, ("void",)))
                elif name == "operator bool":
                    out.append((s, cnot(eq(p, NULL))))
                elif name in ("operator->", "operator*"):
                    out.append((s, p if name == "operator->" else ("ref", self.deref(p))))
                else:
                    s.note("uptr." + name)
                    out.append((s, ("unk", self.new(), name)))
                continue
            if k == "string":
                out += self.string_method(n, name, loc, vs, s, fr)
                continue
            if k in ("seq", "map", "set"):
                out += self.cont_method(n, name, loc, vs, s, fr, k)
                continue
            s.ev("stdm", cls, name, loc, tuple(vs), self.where(fr, n))
            if not fn.get("const"):
                self.havoc(s, loc, name)
            out.append((s, ("app", "%s::%s" % (cls.split("<")[0], name), self.load(s, loc)) + tuple(vs) if not n.get("gl") else ("T", self.new())))
        return out

    def string_method(self, n, name, loc, vs, s, fr):
        c = self.load(s, loc)
        if name in ("empty",):
            return [(s, streq(c, ("str", "")))]
        if name in ("size", "length"):
            return [(s, size(c))]
        if name in ("c_str", "data"):
            return [(s, c)]
        if name == "compare" and len(vs) == 1:
            return [(s, ("strcmp", c, vs[0]))]
        if name == "clear":
            self.store(s, loc, ("str", ""), fr, n)
            return [(s, ("void",))]
        if name in ("append", "push_back"):
            self.store(s, loc, cat(c, vs[0]), fr, n)
            return [(s, ("ref", loc))]
        if name in ("assign",) and len(vs) == 1:
            self.store(s, loc, vs[0], fr, n)
            return [(s, ("ref", loc))]
        if n.get("fn", {}).get("const"):
            return [(s, ("app", "string." + name, c) + tuple(vs))]
        self.store(s, loc, ("app", "string." + name, c) + tuple(vs), fr, n)
        return [(s, ("unk", self.new(), name))]

    def cont_method(self, n, name, loc, vs, s, fr, k):
        c = self.load(s, loc)
        w = self.where(fr, n)
        if name == "empty":
            return [(s, isempty(c))]
        if name == "size":
            return [(s, size(c))]
        if name in ("front", "top") and k == "seq" and name == "front":
            self.need_nonempty(s, loc, c, name, w)
            return [(s, ("ref", ("E", loc, ("num", num(0)[1]))))]
        if name in ("back", "top"):
            self.need_nonempty(s, loc, c, name, w)
            return [(s, ("ref", ("E", loc, "back")))]
        if name in ("begin", "cbegin"):
            return [(s, ("it", loc, "begin"))]
        if name in ("end", "cend"):
            return [(s, ("it", loc, "end"))]
        if name in ("rbegin", "crbegin"):
            return [(s, ("rit", loc, "begin"))]
        if name in ("rend", "crend"):
            return [(s, ("rit", loc, "end"))]
        if name == "clear":
            self.store(s, loc, ("empty",), fr, n)
            s.ev("clear", loc, w)
            return [(s, ("void",))]
        if name in ("push_back", "emplace_back", "push"):
            if name == "emplace_back" and len(vs) != 1:
                v = self.emplace(n, vs, s, fr)
            else:
                v = vs[0]
            self.store(s, loc, ("pushb", c, v), fr, n)
            s.ev("push_back", loc, v, w)
            return [(s, ("ref", ("E", loc, "back")))]
        if name in ("push_front", "emplace_front"):
            if name == "emplace_front" and len(vs) != 1:
                v = self.emplace(n, vs, s, fr)
            else:
                v = vs[0]
            self.store(s, loc, ("pushf", c, v), fr, n)
            s.ev("push_front", loc, v, w)
            return [(s, ("ref", ("E", loc, ("num", num(0)[1]))))]
        if name in ("pop_back", "pop_front", "pop"):
            self.need_nonempty(s, loc, c, name, w)
            if name == "pop_back" and c[0] == "pushb":
                nc = c[1]
            elif name in ("pop_front", "pop") and c[0] == "pushf":
                nc = c[1]
            elif name in ("pop_front", "pop") and c[0] == "pushb" and decide(s.f, isempty(c[1])) is True:
                nc = ("empty",)
            else:
                nc = ("popb" if name == "pop_back" else "popf", c)
            self.store(s, loc, nc, fr, n)
            s.ev(name, loc, w)
            return [(s, ("void",))]
        if name == "at":
            if k == "map":
                out = []
                s1 = self.assume(s, cond(("has", c, vs[0])), False)
                if s1 is not None:
                    s1 = s1.copy()
                    s1.ev("throw", "std::out_of_range", w)
                    self.abrupt[-1].append(("throw", s1, "std::out_of_range"))
                s2 = self.assume(s, cond(("has", c, vs[0])), True)
                if s2 is not None:
                    out.append((s2, ("ref", ("E", loc, ("key", vs[0])))))
                return out
            return [(s, ("ref", ("E", loc, self.pos(c, vs[0]))))]
        if name == "find":
            return [(s, ("it", loc, ("find", vs[0])))]
        if name == "count":
            return [(s, ("b2i", cond(("has", c, vs[0]))))]
        if name == "contains":
            return [(s, cond(("has", c, vs[0])))]
        if name == "swap":
            for s2, l in self.lv(n["c"][0], s, fr):
                o = self.load(s2, l)
                s2 = s2.copy()
                self.store(s2, l, c, fr, n)
                self.store(s2, loc, o, fr, n)
                return [(s2, ("void",))]
        if name == "assign" and len(vs) == 2 and vs[0][0] == "it" and vs[1] == ("it", vs[0][1], "end") and vs[0][2] == "begin":
            self.store(s, loc, self.load(s, vs[0][1]), fr, n)
            return [(s, ("void",))]
        if name == "insert" and len(vs) == 3 and k == "seq" and vs[1][0] == "it" and vs[2] == ("it", vs[1][1], "end") and vs[1][2] == "begin" and c[0] == "empty":
            self.store(s, loc, self.load(s, vs[1][1]), fr, n)
            return [(s, ("it", loc, "begin"))]
        if name == "insert" and k == "map" and len(vs) == 2 and vs[0][0] == "it" and vs[0][2] == "begin" and vs[1] == ("it", vs[0][1], "end"):
            self.store(s, loc, union(c, self.load(s, vs[0][1])), fr, n)
            return [(s, ("void",))]
        if name == "insert" and k == "seq" and len(vs) == 2 and vs[0] == ("it", loc, "begin") and vs[1][0] not in ("it", "rit", "list"):
            self.store(s, loc, ("pushf", c, vs[1]), fr, n)
            return [(s, ("it", loc, "begin"))]
        if name == "insert" and k == "seq" and len(vs) == 2 and vs[0] == ("it", loc, "end") and vs[1][0] not in ("it", "rit", "list"):
            self.store(s, loc, ("pushb", c, vs[1]), fr, n)
            return [(s, ("unk", self.new(), "iter"))]
        if name in ("insert", "emplace", "erase", "resize", "assign", "insert_or_assign"):
            s.ev("cont", name, loc, tuple(vs), w)
            if k == "map" and name in ("insert", "emplace", "insert_or_assign"):
                kv = None
                if len(vs) == 1 and vs[0][0] == "rec":
                    kv = (self.fieldof(vs[0], "first"), self.fieldof(vs[0], "second"))
                elif len(vs) == 2:
                    kv = (vs[0], vs[1])
                if kv:
                    if name == "insert_or_assign":
                        self.store(s, ("E", loc, ("key", kv[0])), kv[1], fr, n)
                    else:
                        # an existing element stays as it is
                        out = []
                        for b in (True, False):
                            s2 = self.assume(s, cond(("has", c, kv[0])), b)
                            if s2 is not None:
                                s2 = s2.copy()
                                if not b:
                                    self.store(s2, ("E", loc, ("key", kv[0])), kv[1], fr, n)
                                out.append((s2, ("unk", self.new(), name)))
                        return out
                    return [(s, ("unk", self.new(), name))]
            self.store(s, loc, ("app", name, c) + tuple(vs), fr, n)
            return [(s, ("unk", self.new(), name))]
        if name in ("reserve", "shrink_to_fit"):
            return [(s, ("void",))]
        s.note("container.%s at %s" % (name, w))
        if not n.get("fn", {}).get("const"):
            self.havoc(s, loc, name)
        return [(s, ("unk", self.new(), name))]

    def emplace(self, n, vs, s, fr):
        # construct the element from the arguments when its class is known
        t = n["fn"]["cls"]
        m = re.match(r"std::\w+<(.*)>$", t)
        et = m.group(1).split(", std::allocator")[0] if m else ""
        if et in self.P.recs:
            cands = [f for f in self.P.funcs.values() if f.get("cls") == et and f.get("ctor") and len(f["params"]) == len(vs)]
            if len(cands) == 1:
                l = self.tmp()
                r = self.call(cands[0], l, list(vs), s, fr, n, cls=et)
                if len(r) == 1:
                    s.s = r[0][0].s
                    return self.load_obj(s, l, et)
        return ("app", "emplaced") + tuple(vs)

    def need_nonempty(self, s, loc, c, name, w):
        d = decide(s.f, isempty(c))
        if d is not False:
            s.ev("nonempty?" if d is None else "onempty", name, loc, c, w)

    def pos(self, c, i):
        if i == sub(size(c), num(1)):
            return "back"
        return i

    def itpos(self, it):
        """element position denoted by an iterator"""
        p = it[2]
        if it[0] == "it":
            if p == "begin":
                return ("num", num(0)[1])
            if isinstance(p, tuple) and p[0] == "off" and p[1] == "begin":
                return p[2]
            if p == ("off", "end", num(-1)):
                return "back"
            return p
        if p == "begin":
            return "back"
        if isinstance(p, tuple) and p[0] == "off" and p[1] == "begin":
            return ("fromback", p[2])
        if p == ("off", "end", num(-1)):
            return ("num", num(0)[1])
        return ("r", p)

    def itoff(self, it, k):
        p = it[2]
        if isinstance(p, tuple) and p[0] == "off":
            b, o = p[1], add(p[2], k)
        else:
            b, o = p, k
        if o == num(0):
            return (it[0], it[1], b)
        return (it[0], it[1], ("off", b, o))

    def iter_method(self, n, name, loc, vs, s, fr):
        it = self.load(s, loc)
        if name == "base":
            return [(s, ("app", "base", it))]
        s.note("iter." + name)
        return [(s, ("unk", self.new(), name))]

    def itcmp(self, s, a, b):
        """equality of two iterators as condition"""
        if a == b:
            return TRUE
        if a[0] in ("it", "rit") and b[0] == a[0] and a[1] != b[1]:
            s.ev("itmix", a, b)
            return cond(("iteq",) + tuple(sorted((a, b), key=repr)))
        if a[0] in ("it", "rit") and b[0] == a[0]:
            if b[2] != "end":
                a, b = b, a
            c = self.load(s, a[1])
            if b[2] == "end":
                if isinstance(a[2], tuple) and a[2][0] == "find":
                    return cond(("has", c, a[2][1]), False)
                if a[2] == "begin":
                    return isempty(c)
                return cond(("itend", a[0], a[2], c))
            return cond(("iteq",) + tuple(sorted((a, b), key=repr)))
        return cond(("iteq",) + tuple(sorted((a, b), key=repr)))

    def write(self, st, l, a, r, w):
        """text written to a stream: kept for streams that are not global objects"""
        l = self.canon(st, l)
        glob = self.root(l) is None or self.root(l)[0] == "G"
        if glob and (self.inline_io != "all" or l[0] != "G"):
            return
        t = strip_t(a.get("t", ""))
        p, tl = ("F", l, "#prec"), ("F", l, "#text")
        v = self.load(st, r) if a.get("gl") else r
        m = a
        while m.get("k") in ("Cast", "Temp", "Paren") and m.get("c"):
            m = m["c"][0]
        name = m.get("n") if m.get("k") == "Ref" else None
        if v[0] == "manip":
            if v[1] == "setprecision":
                st.s[p] = v[2]
            else:
                st.s[tl] = cat(self.text(st, l), v)
                st.ev("wrote", l, v, w)
            return
        if "(*)(" in t or "(std::" in t or v[0] == "fn" or name in ("endl", "flush", "ends"):
            x = ("str", "\n") if name == "endl" else ("str", "") if name == "flush" else ("manip", name or "?")
        elif t in ("double", "float", "long double"):
            x = ("fmt", v, st.s.get(p, num(6)))
        elif t == "char" and v[0] == "num" and 0 < v[1] < 128:
            x = ("str", chr(int(v[1])))
        elif ckind(t) == "string" or "char" in t:
            x = v
        else:
            x = ("app", "to_string", v)
        st.s[tl] = cat(self.text(st, l), x)
        st.ev("wrote", l, x, w)

    def source(self, st, l):
        """what a stream reads from"""
        v = st.s.get(("F", l, "#src"))
        if v is not None:
            return v
        o = st.s.get(l)
        if o and o[0] == "app" and str(o[1]).startswith("mk:") and "stringstream" in o[1]:
            ini = [x for x in o[2:] if x[0] in ("str", "cat", "init", "fld", "elem", "app", "rd", "sym")]
            if ini:
                return ini[0]
        return ("stream", l)

    def extract(self, st, l, target, t, kind=None):
        """one formatted or line read from stream l into target"""
        l = self.canon(st, l)
        if kind is None:
            kind = "char" if t in ("char", "signed char", "unsigned char") else "word" if ckind(t) == "string" else "num"
        i = self.new()
        self.havoc(st, target, "stream")
        self.store(st, target, ("rd", i, kind, self.source(st, l)))
        if self.root(l) is not None and self.root(l)[0] != "G":
            st.s[("F", l, "#last")] = ("rdid", i, kind)

    def rdstate(self, st, l, name):
        """has the last read from stream l succeeded / met the end"""
        last = st.s.get(("F", self.canon(st, l), "#last"))
        if last is None or last[0] != "rdid":
            return cond(("truth", ("stream", name, self.new())))
        if name == "eof":
            return cond(("truth", ("eof", last[1], last[2])))
        v = cond(("truth", ("rdok", last[1], last[2])))
        return cnot(v) if name == "fail" else v

    def text(self, st, l):
        """what a stream holds"""
        l = self.canon(st, l)
        tl = ("F", l, "#text")
        v = st.s.get(tl)
        if v is not None:
            return v
        o = st.s.get(l)
        if o and o[0] == "app" and str(o[1]).startswith("mk:") and "stringstream" in o[1]:
            ini = [x for x in o[2:] if x[0] in ("str", "cat", "init", "fld", "elem", "app")]
            if not ini:
                return ("str", "")
        return ("init", tl)

    def std_op(self, n, op, fn, st, fr):
        c = n["c"]
        t0 = strip_t(c[0].get("t", ""))
        k0 = ckind(t0)
        w = self.where(fr, n)
        out = []
        cls = fn.get("cls") if fn else None
        if k0 == "stream" or op in ("<<", ">>") and "stream" in (n.get("t") or ""):
            res = [(st, None)]
            s = st
            if len(c) == 1:
                return [(s, self.rdstate(s, l[1] if l[0] == "ref" else l, "fail")) for s, l in self.ev(c[0], st, fr)]
            for s, l in self.lv(c[0], st, fr):
                for s2, r in self.ev(c[1], s, fr):
                    s2 = s2.copy()
                    if op == ">>" and c[1].get("gl"):
                        self.extract(s2, l, r, strip_t(c[1].get("t", "")))
                    s2.ev("io", op, w)
                    if op == "<<":
                        self.write(s2, l, c[1], r, w)
                    out.append((s2, ("ref", l)))
            return out
        if op == "=":
            # assignment of std objects
            for s, v in self.rv(c[1], st, fr):
                for s2, l in self.lv(c[0], s, fr):
                    s2 = s2.copy()
                    if k0 == "uptr":
                        p = self.load(s2, l)
                        if p[0] != "null" and p[0] != "init":
                            self.do_delete(s2, p, fr, n)
                        if c[1].get("gl"):
                            for s3, l2 in self.lv(c[1], s2, fr):
                                s2 = s3.copy()
                                s2.s[self.canon(s2, l2)] = NULL
                                break
                    if k0 == "seq" and v == ("list", ()):
                        v = ("empty",)
                    self.store(s2, l, v, fr, n)
                    # moved-from source
                    if fn and fn.get("moveasg") and c[1].get("gl") and k0 in ("seq", "map", "set", "string"):
                        for s3, l2 in self.lv(c[1], s2, fr):
                            if l2 != l and c[1]["k"] in ("Call",):
                                s2 = s3.copy()
                                self.store(s2, l2, ("app", "movedfrom"))
                            break
                    out.append((s2, ("ref", l)))
            return out
        if op in ("==", "!=", "<", ">", "<=", ">=", "!") and not (op == "!" and k0 == "stream"):
            for s, vs in self.multi_rv(c, st, fr):
                s = s.copy()
                if op == "!":
                    out.append((s, cnot(self.truth(vs[0]))))
                    continue
                a, b = vs
                if op in ("==", "!="):
                    if a[0] in ("it", "rit") or b[0] in ("it", "rit") or k0 in ("iter", "riter"):
                        e = self.itcmp(s, a, b)
                    elif k0 == "string" or ckind(strip_t(c[1].get("t", ""))) == "string":
                        e = streq(a, b)
                    elif k0 == "uptr":
                        e = eq(a, b)
                    else:
                        e = TRUE if a == b else cond(("veq",) + tuple(sorted((a, b), key=repr)))
                    out.append((s, e if op == "==" else cnot(e)))
                else:
                    out.append((s, cond(("truth", ("app", op, a, b)))))
            return out
        if k0 in ("iter", "riter"):
            if op in ("++", "--"):
                for s, l in self.lv(c[0], st, fr):
                    s = s.copy()
                    it = self.load(s, l)
                    nv = self.itoff(it, num(1 if op == "++" else -1)) if it[0] in ("it", "rit") else ("app", "it" + op, it)
                    self.store(s, l, nv, fr, n)
                    s.ev("itstep", it, w)
                    out.append((s, it if len(c) == 2 else ("ref", l)))
                return out
            if op in ("*", "->") and len(c) == 1:
                for s, v in self.rv(c[0], st, fr):
                    if v[0] in ("it", "rit"):
                        s = s.copy()
                        l = ("E", v[1], self.itpos(v))
                        s.ev("itderef", v, w, self.load(s, v[1]))
                        if decide(s.f, self.itcmp(s, v, (v[0], v[1], "end"))) is True:
                            s.ev("pastend", v, w)
                        self.dead(s, v[1], w)
                    else:
                        l = ("P", v)
                    out.append((s, ("ref", l) if op == "*" else self.addr(l)))
                return out
            if op in ("+", "-", "+=", "-="):
                for s, vs in self.multi_rv(c, st, fr):
                    a, b = vs
                    if a[0] in ("it", "rit") and b[0] not in ("it", "rit"):
                        r = self.itoff(a, b if op[0] == "+" else neg(b))
                    elif a[0] in ("it", "rit") and b[0] == a[0] and op == "-" and a[1] == b[1] and a[2] == "end" and b[2] == "begin":
                        r = size(self.load(s, a[1]))
                    else:
                        r = ("app", "it" + op, a, b)
                    if op in ("+=", "-="):
                        for s2, l in self.lv(c[0], s, fr):
                            s2 = s2.copy()
                            self.store(s2, l, r, fr, n)
                            out.append((s2, ("ref", l)))
                    else:
                        out.append((s, r))
                return out
            if op == "[]":
                for s, vs in self.multi_rv(c, st, fr):
                    it = self.itoff(vs[0], vs[1]) if vs[0][0] in ("it", "rit") else None
                    out.append((s, ("ref", ("E", it[1], self.itpos(it)) if it else ("P", vs[0]))))
                return out
        if op == "[]" and k0 in ("seq", "map", "string"):
            for s, l in self.lv(c[0], st, fr):
                l = self.canon(s, l)
                for s2, i in self.rv(c[1], s, fr):
                    s2 = s2.copy()
                    cv = self.load(s2, l)
                    if k0 == "map":
                        h = decide(s2.f, cond(("has", cv, i)))
                        if h is not True:
                            s2.ev("mapsub", l, i, w, cv)
                        out.append((s2, ("ref", ("E", l, ("key", i)))))
                    else:
                        s2.ev("index", l, i, w)
                        out.append((s2, ("ref", ("E", l, self.pos(cv, i)))))
            return out
        if k0 == "string" or ckind(strip_t(c[-1].get("t", ""))) == "string":
            if op == "+":
                for s, vs in self.multi_rv(c, st, fr):
                    out.append((s, cat(*vs)))
                return out
            if op == "+=":
                for s, l in self.lv(c[0], st, fr):
                    for s2, v in self.rv(c[1], s, fr):
                        s2 = s2.copy()
                        self.store(s2, l, cat(self.load(s2, l), v), fr, n)
                        out.append((s2, ("ref", l)))
                return out
        if k0 == "uptr" and op in ("*", "->"):
            for s, v in self.rv(c[0], st, fr):
                out.append((s, ("ref", self.deref(v)) if op == "*" else v))
            return out
        if op == "()":
            for s, v in self.rv(c[0], st, fr):
                args = []
                for s2, a in self.args(c[1:], (fn or {}).get("pt", []), s, fr):
                    if v[0] in ("lam", "fn"):
                        out += self.call_lambda(v, a, s2, fr, n)
                    else:
                        s2 = s2.copy()
                        if cls and ("less" in cls or "greater" in cls):
                            x = [self.load(s2, q[1]) if q[0] == "ref" else q for q in a]
                            out.append((s2, lt(x[0], x[1]) if "less" in cls else lt(x[1], x[0])))
                            continue
                        s2.note("operator() at " + w)
                        out.append((s2, ("unk", self.new(), "opcall")))
            return out
        for s, vs in self.multi_rv(c, st, fr):
            s = s.copy()
            if op == "|" and len(vs) == 2 and "_Ios_" in (fn or {}).get("rt", ""):
                out.append((s, ("bits", tuple(sorted({y for x in vs for y in (x[1] if x[0] == "bits" else (x,))}, key=repr)))))
                continue
            s.note("operator%s at %s" % (op, w))
            out.append((s, ("unk", self.new(), "op" + op)))
        return out

    def std_call(self, n, fn, st, fr):
        name, c = fn["n"], n["c"]
        q = fn["q"]
        w = self.where(fr, n)
        out = []
        if name in ("move", "forward", "as_const") and len(c) == 1:
            return [(s, ("ref", l)) for s, l in self.lv(c[0], st, fr)]
        if name in ("min", "max", "fmin", "fmax") and len(c) == 2:
            for s, vs in self.multi_rv(c, st, fr):
                out.append((s, (tmin if "min" in name else tmax)(*vs)))
            return out
        if name in ("min", "max") and len(c) == 1:
            for s, vs in self.multi_rv(c, st, fr):
                if vs[0][0] == "list":
                    out.append((s, (tmin if name == "min" else tmax)(*vs[0][1])))
                else:
                    out.append((s, ("unk", self.new(), name)))
            return out
        if name in ("fabs", "abs"):
            for s, vs in self.multi_rv(c, st, fr):
                v = vs[0]
                out.append((s, num(abs(v[1])) if v[0] == "num" else ("fabs", v)))
            return out
        if name in ("next", "prev"):
            for s, vs in self.multi_rv(c, st, fr):
                k = vs[1] if len(vs) > 1 else num(1)
                if vs[0][0] in ("it", "rit"):
                    out.append((s, self.itoff(vs[0], k if name == "next" else neg(k))))
                else:
                    out.append((s, ("app", name, vs[0])))
            return out
        if name in ("begin", "cbegin", "end", "cend", "rbegin", "rend") and len(c) == 1:
            for s, l in self.lv(c[0], st, fr):
                l = self.canon(s, l)
                t = strip_t(c[0].get("t", ""))
                if t in self.P.recs:
                    l = ("F", l, "#c")
                nm = name.lstrip("c")
                out.append((s, ("rit" if nm[0] == "r" else "it", l, "begin" if "begin" in nm else "end")))
            return out
        if name == "swap" and len(c) == 2:
            for s, l1 in self.lv(c[0], st, fr):
                for s2, l2 in self.lv(c[1], s, fr):
                    s2 = s2.copy()
                    t = strip_t(c[0].get("t", ""))
                    a, b = self.load_obj(s2, l1, t), self.load_obj(s2, l2, t)
                    self.store_obj(s2, l1, b, t, fr, n)
                    self.store_obj(s2, l2, a, t, fr, n)
                    out.append((s2, ("void",)))
            return out
        if name == "exchange" and len(c) == 2:
            for s, l in self.lv(c[0], st, fr):
                for s2, v in self.rv(c[1], s, fr):
                    s2 = s2.copy()
                    o = self.load(s2, l)
                    self.store(s2, l, v, fr, n)
                    out.append((s2, o))
            return out
        if name == "isnan":
            for s, vs in self.multi_rv(c, st, fr):
                out.append((s, cond(("truth", ("isnan", vs[0])))))
            return out
        if name in ("make_unique", "make_shared"):
            m = re.match(r".*_ptr<(.*?)(, std::default_delete.*)?>$", strip_t(n.get("t", "")))
            t = m.group(1) if m else ""
            for s, args in self.args(c, fn["pt"], st, fr):
                s = s.copy()
                loc0 = ("N", self.new(), t, w)
                if t in self.P.recs:
                    cands = [f for f in self.P.funcs.values() if f.get("cls") == t and f.get("ctor") and len(f["params"]) == len(args)]
                    if len(args) == 1 and args[0][0] == "ref" and (len(cands) != 1):
                        self.copy_obj(s, loc0, args[0][1], t)
                        rs = [(s, None)]
                    elif cands:
                        rs = self.call(cands[0], loc0, args, s, fr, n, cls=t)
                    else:
                        rs = [(s2, None) for s2 in self.default_init(s, loc0, t, fr)]
                else:
                    rs = [(s, None)]
                for s2, _ in rs:
                    s2 = s2.copy()
                    s2.s[("cls", loc0)] = ("str", t)
                    s2.s[("alloc", loc0)] = ("str", "live")
                    s2.ev("new", loc0, t, w)
                    out.append((s2, ("ptr", loc0)))
            return out
        if name in ("for_each", "any_of", "all_of", "none_of", "find_if", "count_if") and len(c) == 3:
            return self.std_algo(n, name, c, st, fr)
        if name in ("setprecision", "setw", "endl", "fixed", "getline", "printf", "puts"):
            for s, vs in self.multi_rv(c, st, fr):
                s = s.copy()
                if name == "getline":
                    done = False
                    for s1, l0 in self.lv(c[0], s, fr):
                        for s2, l in self.lv(c[1], s1, fr):
                            s = s2.copy()
                            self.extract(s, l0, l, "", "line")
                            s.ev("io", name, w)
                            out.append((s, l0))
                            done = True
                    if done:
                        continue
                s.ev("io", name, w)
                out.append((s, ("T", self.new()) if n.get("gl") else ("manip", name) + tuple(vs) if name.startswith("set") else ("unk", self.new(), name)))
            return out
        if name == "to_string":
            for s, vs in self.multi_rv(c, st, fr):
                out.append((s, ("app", "to_string") + tuple(vs)))
            return out
        if name in ("make_pair",):
            for s, vs in self.multi_rv(c, st, fr):
                out.append((s, ("rec", "pair", (("first", vs[0]), ("second", vs[1])))))
            return out
        if name in ("isfinite", "isinf", "signbit"):
            for s, vs in self.multi_rv(c, st, fr):
                out.append((s, cond(("truth", (name, vs[0])))))
            return out
        for s, vs in self.multi_rv(c, st, fr):
            s = s.copy()
            s.ev("ext", q, tuple(vs), w)
            for a, p in zip(c, fn["pt"]):
                if is_ref(p) and not p.startswith("const ") and a.get("gl"):
                    for s2, l in self.lv(a, s, fr):
                        s = s2.copy()
                        self.havoc(s, l, name)
                        s.note("ext %s at %s" % (q, w))
                        break
            for v, p in zip(vs, fn["pt"]):
                if is_ptr(p) and not p.startswith("const ") and v[0] == "ptr" and v[1][0] == "L":
                    self.havoc(s, v[1], name)
            out.append((s, ("T", self.new()) if n.get("gl") else ("app", q) + tuple(vs)))
        return out

    def std_algo(self, n, name, c, st, fr):
        """for_each / any_of / ... over a whole container: one abstract iteration"""
        out = []
        for s, vs in self.multi_rv(c, st, fr):
            b, e, f = vs
            if not (b[0] in ("it", "rit") and e[0] == b[0] and b[1] == e[1] and b[2] == "begin" and e[2] == "end" and f[0] in ("lam", "fn")):
                s = s.copy()
                s.note("algorithm %s at %s" % (name, self.where(fr, n)))
                out.append((s, ("unk", self.new(), name)))
                continue
            fn = self.P.funcs.get(f[1])
            lid = self.new()
            eloc = ("E", b[1], ("any", lid))

            def body(s0):
                self.abrupt.append([])
                try:
                    a = [("ref", eloc)] if is_ref(fn["pt"][0]) else [self.load(s0, eloc)]
                    rs = self.call_lambda(f, a, s0, fr, n)
                finally:
                    ab = self.abrupt.pop()
                return [("next", s1, v) for s1, v in rs] + ab
            if name == "for_each":
                for k2, s2, v in self.loop(s, body, lid, fr, n):
                    if k2 == "next":
                        out.append((s2, ("unk", self.new(), name)))
                    else:
                        self.abrupt[-1].append((k2, s2, v))
                continue
            # predicates: exists/forall as an opaque condition; evaluate once for effects
            for k2, s2, v in body(s.copy()):
                if k2 != "next":
                    self.abrupt[-1].append((k2, s2, v))
            s3 = s.copy()
            out.append((s3, cond(("truth", ("app", name, self.load(s3, b[1]), f))) if name in ("any_of", "all_of", "none_of") else ("unk", self.new(), name)))
        return out

    # ------------------------------------------------------------ statements
    def exec(self, node, st, fr):
        """-> [(kind, st, val)]"""
        if node is None:
            return [("next", st, None)]
        k = node["k"]
        m = getattr(self, "s_" + k, None)
        self.abrupt.append([])
        try:
            if m is None:
                outs = [("next", s, None) for s, _ in self.ev(node, st, fr)]
            else:
                outs = m(node, st, fr)
        finally:
            ab = self.abrupt.pop()
        outs = outs + ab
        if len(outs) > 1:
            outs = self.dedupe(outs)
        if len(outs) > self.max_states:
            raise Undecided("too many paths")
        return outs

    def dedupe(self, outs):
        seen, res = set(), []
        for o in outs:
            k, s, v = o
            if len(outs) < 8:
                res.append(o)
                continue
            key = (k, v, id(s.tr), frozenset(s.s.items()), frozenset(s.f.items()))
            if key in seen:
                continue
            seen.add(key)
            res.append(o)
        return res

    def seq(self, nodes, st, fr):
        cur = [("next", st, None)]
        done = []
        for n in nodes:
            nx = []
            for k, s, v in cur:
                for o in self.exec(n, s, fr):
                    (nx if o[0] == "next" else done).append(o)
            cur = nx
            if not cur:
                break
        return cur + done

    def s_Block(self, n, st, fr):
        outs = self.seq(n["c"], st, fr)
        return self.scope_exit(n, outs, fr)

    def scope_exit(self, n, outs, fr):
        """smart pointers declared in this block release what they own"""
        owners = []
        for d in n["c"]:
            if d["k"] == "Decl":
                for v in d["c"]:
                    if ckind(strip_t(v["t"])) == "uptr" and not is_ref(v["t"]) and "shared" not in v["t"]:
                        owners.append(("L", fr.id, v["id"], v["n"]))
        if not owners:
            return outs
        res = []
        for k, s, v in outs:
            s = s.copy()
            for l in owners:
                p = s.s.get(l)
                if p is not None and p[0] not in ("null", "ref"):
                    if k == "return" and v is not None and v == p and ckind(strip_t(fr.fn.get("rt", ""))) == "uptr":
                        continue
                    self.do_delete(s, p, fr, n)
                    s.s[l] = NULL
            res.append((k, s, v))
        return res

    def s_Null(self, n, st, fr):
        return [("next", st, None)]

    def s_Break(self, n, st, fr):
        return [("break", st, None)]

    def s_Continue(self, n, st, fr):
        return [("continue", st, None)]

    def s_Goto(self, n, st, fr):
        st = st.copy()
        st.note("goto")
        return [("goto", st, n["n"])]

    def s_Label(self, n, st, fr):
        return self.exec(n["sub"], st, fr)

    def s_Case(self, n, st, fr):
        return self.exec(n["sub"], st, fr)
    s_Default = s_Case

    def s_Return(self, n, st, fr):
        if n.get("v") is None:
            return [("return", st, None)]
        v = n["v"]
        rt = fr.fn.get("rt", "") if fr.fn else ""
        outs = []
        if is_ref(rt):
            for s, l in self.lv(v, st, fr):
                outs.append(("return", s, ("ref", l)))
            return outs
        for s, x in self.ev(v, st, fr):
            if v.get("gl"):
                t = strip_t(v.get("t", ""))
                if t in self.P.recs:
                    s = s.copy()
                    l = self.tmp()
                    self.copy_obj(s, l, x, t)
                    x = ("obj", l)
                else:
                    x = self.load(s, x)
            outs.append(("return", s, x))
        return outs

    def s_Decl(self, n, st, fr):
        sts = [st]
        for v in n["c"]:
            nx = []
            for s in sts:
                nx += self.decl(v, s, fr)
            sts = nx
        return [("next", s, None) for s in sts]

    def decl(self, v, st, fr):
        if v.get("sl"):
            st = st.copy()
            st.ev("staticlocal", v["n"], self.where(fr, v))
            return [st]
        loc = ("L", fr.id, v["id"], v["n"])
        t = v["t"]
        if "init" not in v or v["init"] is None:
            st = st.copy()
            b = strip_t(t)
            for k in [k for k in st.s if self.under(k, loc)]:
                del st.s[k]
            if b in self.P.recs and not is_ptr(t):
                return self.default_init(st, loc, b, fr)
            k = ckind(b)
            st.s[loc] = ("empty",) if k in ("seq", "map", "set") else ("str", "") if k == "string" else NULL if k == "uptr" else ("uninit", v["n"])
            return [st]
        e = v["init"]
        out = []
        if is_ref(t):
            for s, l in self.lv(e, st, fr):
                s = s.copy()
                s.s[loc] = ("ref", self.canon(s, l))
                out.append(s)
            return out
        st = st.copy()
        for k in [k for k in st.s if self.under(k, loc)]:
            del st.s[k]
        if strip_t(t) in self.P.recs and not is_ptr(t):
            return [self.setcls(s, loc, strip_t(t)) for s in self.construct(e, loc, st, fr)]
        for s, x in self.rv(e, st, fr):
            s = s.copy()
            self.store_obj(s, loc, x, strip_t(t), fr, v) if x[0] == "rec" and x[1] in self.P.recs else self.store(s, loc, x, fr, v)
            out.append(s)
        return out

    def setcls(self, s, loc, cls):
        s = s.copy()
        s.s[("cls", loc)] = ("str", cls)
        return s

    def s_If(self, n, st, fr):
        outs = []
        sts = [("next", st, None)]
        for pre in ("init", "cv"):
            if n.get(pre):
                nx = []
                for k, s, v in sts:
                    nx += self.exec(n[pre], s, fr)
                sts = nx
        for k, s, v in sts:
            if k != "next":
                outs.append((k, s, v))
                continue
            for s2, b in self.branch(n["cond"], s, fr):
                if b:
                    outs += self.exec(n["then"], s2, fr)
                else:
                    outs += self.exec(n.get("else"), s2, fr)
        return outs

    def s_Switch(self, n, st, fr):
        body = n["body"]
        items = body["c"] if body["k"] == "Block" else [body]
        flat = []   # (labels, stmt)
        for it in items:
            labs = []
            x = it
            while x is not None and x["k"] in ("Case", "Default"):
                labs.append(("default", None) if x["k"] == "Default" else ("case", x))
                x = x["sub"]
            flat.append((labs, x))
        outs = []
        for s, v in self.rv(n["cond"], st, fr):
            cur = s
            conds = []
            entries = []
            for i, (labs, x) in enumerate(flat):
                for kind, c in labs:
                    if kind == "case":
                        for s2, cv in self.rv(c["val"], s, fr):
                            conds.append(eq(v, cv))
                            entries.append((i, len(conds) - 1))
                            break
                    else:
                        entries.append((i, None))
            dflt = [i for i, ci in entries if ci is None]
            for i, ci in entries:
                if ci is None:
                    continue
                s2 = self.assume(s, conds[ci], True)
                if s2 is not None:
                    outs += self.run_from(flat, i, s2, fr)
            s3 = s
            for c in conds:
                s3 = self.assume(s3, c, False)
                if s3 is None:
                    break
            if s3 is not None and self.enum_left(n, v, conds):
                if dflt:
                    outs += self.run_from(flat, dflt[0], s3, fr)
                else:
                    outs.append(("next", s3, None))
        return [("next", s, None) if k == "break" else (k, s, v) for k, s, v in outs]

    def enum_left(self, n, v, conds):
        return True

    def run_from(self, flat, i, st, fr):
        return self.seq([x for _, x in flat[i:] if x is not None], st, fr)

    def s_Try(self, n, st, fr):
        outs = []
        for o in self.exec(n["body"], st, fr):
            k, s, v = o
            if k != "throw":
                outs.append(o)
                continue
            h = None
            for hd in n["handlers"]:
                t = strip_t(hd.get("t", "") or "")
                if t == "" or t == v or t.endswith("exception") and (v or "").startswith("std::") or (t == "std::logic_error" and v in ("std::invalid_argument", "std::out_of_range")) or (t == "std::runtime_error"):
                    h = hd
                    break
            if h is None:
                outs.append(o)
            else:
                s = s.copy()
                s.ev("caught", v)
                for o2 in self.exec(h["body"], s, fr):
                    if o2[0] == "throw" and o2[2] == "rethrow":
                        o2 = ("throw", o2[1], v)
                    outs.append(o2)
        return outs

    # loops -------------------------------------------------------------------
    def loop(self, st, once, lid, fr, n, test=None, at_least_once=False):
        """generic loop. once(st) runs the body (and increment); test(st) -> [(st,bool)]"""
        hv = {}          # loc -> havoc value
        outs = []
        first_exits = []
        for rnd in range(8):
            head = st.copy()
            for l, v in hv.items():
                head.s[l] = v
            mark = head.tr
            first = self.n
            back, exits, done = [], [], []
            ents = test(head.copy()) if test else [(head.copy(), True), (head.copy(), False)]
            for s, b in ents:
                if not b:
                    exits.append(s)
                    continue
                for k, s2, v in once(s):
                    if k in ("next", "continue"):
                        back.append(s2)
                    elif k == "break":
                        done.append(("next", s2, None))
                    else:
                        done.append((k, s2, v))
            grew = False
            for s2 in back:
                for l in set(s2.s) | set(head.s):
                    if l[0] in ("cls", "alloc"):
                        continue
                    a, b = head.s.get(l), s2.s.get(l)
                    if a == b:
                        continue
                    if l in hv and (l[0] == 'ver' or hv[l][0] != "it*"):
                        continue
                    if a is None and not self.outlives(l, st, fr):
                        continue
                    base = st.s.get(l)
                    hv[l] = self.havoc_val(st, l, base, b, lid)
                    grew = True
            if not grew:
                break
        iters = tuple(tuple(s2.trace(mark)) + (("itfacts", tuple((a, b) for a, b in s2.f.items() if st.f.get(a) != b),
                                                    tuple((l, v) for l, v in s2.s.items() if l[0] in ("F", "P", "G", "E") and head.s.get(l) != v),
                                                    tuple((l, v) for l, v in s2.s.items() if l[0] == "L" and l in head.s and head.s.get(l) != v)),) for s2 in back)
        self.loops.append((self.where(fr, n), (n or {}).get("k"), lid, hv, head, st.f, first, back, exits, done))
        if iters and any(iters):
            base = tuple((l, st.s.get(l, ("init", l))) for l in hv)
            for s in exits:
                self.splice(s, mark, ("loop", lid, iters, self.where(fr, n), base))
            for k, s, v in done:
                self.splice(s, mark, ("loop", lid, iters, self.where(fr, n), base))
        if not any(k == "next" for k, s, v in done):
            self.sum_maps(st, head, hv, lid, back, exits)
        res = [("next", s, None) for s in exits] + done
        # imprecision noted inside iterations stays visible
        notes = []
        for s2 in back:
            for x in s2.imp:
                if x not in st.imp:
                    notes.append(x)
        if notes:
            for k, s, v in res:
                for x in notes:
                    s.note(x)
        # ghost updates in iterations
        for s2 in back:
            for k, s, v in res:
                self.merge_ghost(s, s2)
        return res

    def sum_maps(self, st, head, hv, lid, back, exits):
        """a loop that writes every entry of one map into another: the entries of the former win"""
        for l, h in hv.items():
            if h != ("hv", lid, l) or not back:
                continue
            src = set()
            for s2 in back:
                v = s2.s.get(l)
                ok = v and v[0] == "upd" and v[1] == h and isinstance(v[2], tuple) and v[2][0] == "key" and v[2][1][0] == "anykey" and v[2][1][2] == lid
                m = v[2][1][1] if ok else None
                src.add(m if ok and m not in hv and v[3] == self.load(s2, ("E", m, v[2])) and l != m else None)
            if len(src) == 1 and None not in src:
                m = src.pop()
                for s in exits:
                    if s.s.get(l) == h:
                        s.s[l] = union(self.load(s, m), st.s.get(l, ("init", l)))

    def merge_ghost(self, s, s2):
        pass

    def outlives(self, l, st, fr):
        r = self.root(l[1] if l[0] == "ver" else l)
        if r and r[0] == "L":
            # locals first written inside the loop body
            return any(k[:3] == r[:3] for k in st.s if k[0] == "L")
        if r and r[0] == "T":
            return False
        if r and r[0] == "N":
            return any(self.root(k) == r for k in st.s if k[0] in ("F", "N", "E"))
        return True

    def havoc_val(self, st, l, base, new, lid):
        if l[0] == "ver":
            return self.new()
        if base is not None and base[0] in ("it", "rit") and new is not None and new[0] == base[0] and new[1] == base[1]:
            if base[2] == "begin" and new[2] in (("off", "begin", num(1)),) or (isinstance(new[2], tuple) and new[2][0] == "off" and new[2][1] == ("any", lid)):
                return (base[0], base[1], ("any", lid))
            return (base[0], base[1], ("hv", lid))
        if l[0] == "ver":
            return self.new()
        return ("hv", lid, l)

    def splice(self, s, mark, ev):
        evs = s.trace(mark)
        t = (mark, ev)
        for e in evs:
            t = (t, e)
        s.tr = t

    def s_While(self, n, st, fr):
        lid = self.new()

        def test(s):
            if n.get("cv"):
                r = []
                for k, s2, v in self.exec(n["cv"], s, fr):
                    if k == "next":
                        r += self.branch(n["cond"], s2, fr)
                return r
            return self.branch(n["cond"], s, fr)
        return self.loop(st, lambda s: self.exec(n["body"], s, fr), lid, fr, n, test)

    def s_Do(self, n, st, fr):
        lid = self.new()
        outs = []
        for k, s, v in self.exec(n["body"], st, fr):
            if k in ("next", "continue"):
                for s2, b in self.branch(n["cond"], s, fr):
                    if not b:
                        outs.append(("next", s2, None))
                    else:
                        outs += self.loop(s2, lambda z: self.exec(n["body"], z, fr), lid, fr, n, lambda z: self.branch(n["cond"], z, fr))
            elif k == "break":
                outs.append(("next", s, None))
            else:
                outs.append((k, s, v))
        return outs

    def s_For(self, n, st, fr):
        lid = self.new()
        outs = []
        for k, s0, v in (self.exec(n["init"], st, fr) if n.get("init") else [("next", st, None)]):
            if k != "next":
                outs.append((k, s0, v))
                continue

            def once(s):
                r = []
                for k2, s2, v2 in self.exec(n["body"], s, fr):
                    if k2 in ("next", "continue") and n.get("inc"):
                        r += self.exec(n["inc"], s2, fr)
                    else:
                        r.append((k2, s2, v2))
                return r
            test = (lambda s: self.branch(n["cond"], s, fr)) if n.get("cond") else (lambda s: [(s, True)])
            outs += self.loop(s0, once, lid, fr, n, test)
        return outs

    def s_ForRange(self, n, st, fr):
        lid = self.new()
        outs = []
        for s0, l in self.lv(n["range"], st, fr):
            l = self.canon(s0, l)
            t = strip_t(n["range"].get("t", ""))
            if t in self.P.recs:
                l = ("F", l, "#c")
            eloc = ("E", l, ("any", lid))
            v = n["var"]
            vl = ("L", fr.id, v["id"], v["n"])
            lst = s0.s.get(l)
            if lst is not None and lst[0] == "list" and strip_t(v["t"]) not in self.P.recs and len(lst[1]) <= 8 and n["range"].get("k") != "Ref":
                # the elements are written out: one round for each
                live = [s0]
                for i, x in enumerate(lst[1]):
                    nx = []
                    for s in live:
                        s = s.copy()
                        if is_ref(v["t"]):
                            t_ = self.tmp()
                            s.s[t_] = x
                            s.s[vl] = ("ref", t_)
                        else:
                            s.s[vl] = x
                        for k, s2, r in self.exec(n["body"], s, fr):
                            if k in ("next", "continue"):
                                nx.append(s2)
                            else:
                                outs.append(("next" if k == "break" else k, s2, r))
                    live = nx
                outs += [("next", s, None) for s in live]
                continue

            def once(s):
                s = s.copy()
                if is_ref(v["t"]):
                    s.s[vl] = ("ref", eloc)
                elif strip_t(v["t"]) in self.P.recs:
                    self.store_obj(s, vl, self.load(s, eloc), strip_t(v["t"]))
                else:
                    ev_ = self.load(s, eloc)
                    if ckind(strip_t(v["t"])) == "pair":
                        # map element by value
                        ev_ = ("rec", "pair", (("first", self.load(s, ("F", eloc, "first"))), ("second", self.load(s, ("F", eloc, "second")))))
                    s.s[vl] = ev_
                return self.exec(n["body"], s, fr)

            def test(s):
                e = isempty(self.load(s, l))
                r = []
                c = cond(("itend", "it", ("any", lid), self.load(s, l)))
                a = self.assume(s, c, False)
                if a is not None and decide(a.f, e) is not True:
                    a = self.assume(a, e, False)
                    if a is not None:
                        r.append((a, True))
                r.append((s, False))
                return r
            outs += self.loop(s0, once, lid, fr, n, test)
        return outs

    # ------------------------------------------------------------------ entry
    def run(self, fid, this=None, cls=None, args=None, st=None):
        f = self.P.funcs.get(fid)
        if f is None:
            raise Broken("anchor vanished: " + fid)
        st = st or St()
        if args is None:
            args = []
            for p in f["params"]:
                a = ("sym", p["n"])
                if is_ref(p["t"]):
                    args.append(("ref", ("P", ("sym", "&" + p["n"]))))
                else:
                    args.append(a)
        self.abrupt.append([])
        self.keep_frame = True
        self.analysed.add(fid)
        res = self.inline(f, this, args, st, None, {"l": f["line"]}, cls=cls)
        ab = self.abrupt.pop()
        return [("return", s, v) for s, v in res] + ab
