"""D01: what is displayed or dumped is what is stored: every item once, in order, told apart."""
import re
import mem
from proto import *
from calls import *
from F01 import Writer, at, counter, deep, itf, loops, opened, steps

DIG = 5         # fewest significant digits of a displayed number
WORD = set("0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ._+-")
COUT = ("G", "std::cout")


def check(P, c):
    c.rule = ("the text a display writes, as a sequence of values and literal text per path and loop iteration: the values are the stored ones, each exactly once, in the documented order, in loops that run over the whole container one by one; "
              "consecutive values are told apart by literal text; an empty signal and a missing formula are said to be so; everything goes to the stream or file named; the display without a stream writes what the one with a stream writes, to the standard output.")
    par = lambda f, i: ("P", ("sym", "&" + f["params"][i]["n"]))
    out = lambda f: par(f, 0)
    std = lambda f: COUT
    pt, sm = ("time", "value"), ("time", "value", "derivative")

    def flds(base, names):
        return [("is", init(F(base, n))) for n in names]

    def rows(cont, names):
        return [("each", cont, [("fld", n) for n in names])]

    for q, np, typ, stream, spec, empty in (
            ("operator<<", 2, "Point &", out, lambda f: flds(par(f, 1), pt), None),
            ("operator<<", 2, "Sample &", out, lambda f: flds(par(f, 1), sm), None),
            ("operator<<", 2, "Sequence &", out, lambda f: rows(F(par(f, 1), "#c"), pt), lambda f: F(par(f, 1), "#c")),
            ("operator<<", 2, "Signal &", out, lambda f: flds(par(f, 1), ("beginTime", "endTime")) + rows(F(par(f, 1), "#c"), sm), lambda f: F(par(f, 1), "#c")),
            ("operator<<", 2, "transducer &", out, lambda f: [("formula", par(f, 1))], None),
            ("Point::print_point", 0, "", std, lambda f: flds(THIS, pt), None),
            ("Sample::print_sample", 0, "", std, lambda f: flds(THIS, sm), None),
            ("Signal::dumpFile", 1, "", None, lambda f: rows(F(THIS, "#c"), sm), None),
            ("STLDriver::print", 1, "", out, lambda f: driver(), None),
            ("STLDriver::print", 0, "", std, lambda f: driver(), None),
            ("STLMonitor::display_signal_names", 0, "", std, lambda f: [("each", F(THIS, "signal_map"), [("key",), ("val",)])], None),
            ("STLMonitor::display_formula", 0, "", std, lambda f: [("opt", init(F(THIS, "formula")))], None),
            ("operator<<", 2, "STLMonitor &", out, lambda f: [("each", F(par(f, 1), "signal_map"), [("key",)]), ("each", F(par(f, 1), "param_map"), [("key",), ("val",)]), ("opt", init(F(par(f, 1), "formula")))], None)):
        c.guard(shown, P, c, q, np, typ, stream, spec, empty)
    c.guard(tables, P, c)
    c.guard(dump, P, c)
    c.guard(plain, P, c)


def driver():
    return [("each", F(THIS, "formula_map"), [("key",), ("fval",)]), ("each", F(THIS, "param_map"), [("key",), ("val",)])]


def start(P, c, f, cls=None):
    e = Eng(P, [], inline_io="all")
    outs = e.run(f["id"], this=THIS if f.get("cls") and not f.get("static") else None, cls=cls or f.get("cls"))
    c.functions |= e.analysed
    c.paths += len(outs)
    return e, outs


# ------------------------------------------------------------------ the text as tokens
def tokens(evs, stream, bad):
    """[("lit", text) | ("val", term, digits, where) | ("form", loc, where) | ("loop", event, [(facts, tokens)])]"""
    out = []
    for ev in evs:
        if ev[0] == "wrote":
            l, x, w = ev[1:4]
            if l != stream and not (stream == "file" and local(l)):
                if not local(l) and not all(p[0] in ("str", "manip") for p in pieces(x)):
                    bad.append(("elsewhere", w, l))
                continue
            for p in pieces(x):
                if p[0] == "str":
                    out.append(("lit", p[1], w))
                elif p[0] == "manip":
                    pass
                elif p[0] == "fmt":
                    out.append(("val", p[1], p[2], w))
                elif p[0] == "app" and p[1] == "to_string" and len(p) == 3:
                    out.append(("val", p[2], None, w))
                else:
                    out.append(("val", p, None, w))
        elif ev[0] == "vcall" and isinstance(ev[1], str) and "::print(" in ev[1]:
            tgt = [a[1] for a in vargs(ev) if isinstance(a, tuple) and a and a[0] == "ref"]
            if stream is not None and stream != "file" and tgt and tgt[0] != stream:
                bad.append(("elsewhere", ev[-1], tgt[0]))
            out.append(("form", ev[2], ev[-1]))
        elif ev[0] == "loop":
            vs = []
            for it in ev[2]:
                f, _ = itf(it)
                vs.append((f, tokens([x for x in it if x[0] != "itfacts"], stream, bad)))
            if any(t for f, t in vs):
                out.append(("loop", ev, vs))
    return out


def local(l):
    return l[0] == "L" or l[0] not in ("G", "P") and any(x and x[0] == "L" for x in subterms(l)) and not any(x and x[0] in ("G", "P", "THIS") for x in subterms(l))


def closed(f):
    """the file could not be opened"""
    for a, b in f.items():
        if a[0] == "truth" and isinstance(a[1], tuple) and a[1][0] == "stream":
            if b is (a[1][1] in ("fail", "bad", "operator!")):
                return True
    return False


def pieces(x):
    return list(x[1:]) if x[0] == "cat" else [x]


def vargs(ev):
    for y in ev[3:]:
        if isinstance(y, tuple) and y and isinstance(y[0], tuple):
            return y
    return ()


def unloc(l):
    """the pointer an object is reached through"""
    return l[1] if l and l[0] == "P" else None


class Shape:
    def __init__(self, c, q, pth, facts):
        self.c, self.q, self.pth, self.facts = c, q, pth, facts

    def viol(self, k, where, what):
        self.c.viol(self.q + ":" + k, where, what, self.pth)

    def skip(self, what):
        self.c.skip(self.q, what)

    def match(self, toks, spec, where):
        """toks show exactly the items of spec, in order"""
        items = [t for t in toks if t[0] != "lit"]
        want = [s for s in spec if not (s[0] == "opt" and self.absent(s[1]))]
        i = 0
        for s in want:
            t = items[i] if i < len(items) else None
            if t is None:
                self.viol("missing", where, "%s is not shown" % self.name(s))
                return
            if self.item(t, s):
                i += 1
            else:
                return
        for t in items[i:]:
            if t[0] == "loop" or has_unknown(t[1]):
                self.skip("more is written than understood")
            else:
                self.viol("extra", t[-1] if isinstance(t[-1], str) else where, "%s is shown as well" % (show(t[1])[:80] if t[0] == "val" else "a formula"))
            return
        for s in spec:
            if s[0] == "opt" and self.absent(s[1]):
                self.c.expect(any(t[0] == "lit" and t[1].strip() for t in toks), self.q + ":none", where, "nothing is said when there is no formula", self.pth)
        self.apart(toks, where)
        self.c.ok()

    def absent(self, v):
        return decide(self.facts, cond(("isnull", v))) is True

    def name(self, s):
        return {"is": lambda: show(s[1]), "each": lambda: "what %s holds" % showloc(s[1]), "opt": lambda: "the formula", "formula": lambda: "the formula"}[s[0]]()

    def item(self, t, s):
        if s[0] == "is":
            if t[0] != "val":
                self.viol("missing", loc_of(t), "%s is not shown" % self.name(s)) if t[0] != "loop" else self.skip("a loop where a value belongs")
                return False
            return self.value(t, t[1] == s[1], self.name(s))
        if s[0] in ("opt", "formula"):
            if t[0] != "form":
                self.viol("missing", loc_of(t), "the formula is not shown")
                return False
            p = unloc(t[1])
            ok = t[1] == s[1] if s[0] == "formula" else p == s[1]
            return self.value(t, ok, self.name(s))
        if t[0] != "loop":
            self.viol("missing", loc_of(t), "%s is not shown" % self.name(s))
            return False
        return self.each(t[1], t[2], s[1], s[2])

    def value(self, t, ok, what):
        if not ok and (has_unknown(t[1]) if t[0] == "val" else False):
            self.skip("%s is written where %s belongs" % (show(t[1])[:60], what))
            return False
        if not ok:
            self.viol("what", t[-1], "%s is shown where %s belongs" % (show(t[1])[:80] if t[0] == "val" else showloc(t[1])[:80], what))
            return False
        if t[0] == "val" and t[2] is not None and t[2][0] == "num":
            self.c.expect(t[2][1] >= DIG, self.q + ":digits", t[-1], "a number is shown with %s significant digits" % show(t[2]), self.pth)
        return True

    def each(self, lp, variants, cont, fields):
        w = Writer(self.c, self.q, None, False, self.pth)
        w.bounds(lp, 0, None)
        for a, b in lp[4]:
            if isinstance(b, tuple) and b[0] in ("it", "rit"):
                if b[1] != cont and b[1][0] != "?" and any(x == cont for x in [y[1] for _, y in lp[4] if isinstance(y, tuple) and y[0] in ("it", "rit")]):
                    continue
                if b[0] == "rit":
                    self.viol("order", lp[3], "the items are shown backwards")
                    return False
                if b[2] == "end":
                    self.viol("first", lp[3], "the loop starts behind the last item")
                    return False
        ended(self, lp)
        for f, toks in variants:
            items = [t for t in toks if t[0] != "lit"]
            want = [x for x in fields if not (x[0] == "fval" and any(a[0] == "isnull" and b is True and any(y[0] == "elem" for y in subterms(a)) for a, b in f.items()))]
            for k, x in enumerate(want):
                t = items[k] if k < len(items) else None
                if t is None:
                    if any(a[0] not in ("itend", "isempty", "pteq", "iteq") for a in f) and not items and not all_plain(f, lp):
                        self.viol("missing", lp[3], "an item is left out when %s" % showfacts_(f))
                    else:
                        self.viol("missing", lp[3], "%s of an item is not shown" % fname(x))
                    return False
                if t[0] == "loop":
                    self.skip("a loop within an item")
                    return False
                if not self.value(t, self.isfield(t, x, lp, cont), "%s of an item of %s" % (fname(x), showloc(cont))):
                    return False
            if len(items) > len(want):
                t = items[len(want)]
                if t[0] == "loop" or has_unknown(t[1]) and not at(t[1], lp):
                    self.skip("more is written per item than understood")
                else:
                    self.viol("extra", t[-1], "something is shown more than once or besides the item")
                return False
        # consecutive items
        tails = [(f, gap(toks, True)) for f, toks in variants]
        heads = [gap(toks, False) for f, toks in variants]
        if all(any(t[0] != "lit" for t in toks) for f, toks in variants):
            for f, g in tails:
                if not any(not apart(g + h) for h in heads):
                    self.c.ok()
                elif edge(f, lp):
                    self.c.ok()
                elif edge(f, lp) is None:
                    self.skip("a separator depends on a condition that is not understood")
                else:
                    self.viol("separator", lp[3], "consecutive items are not told apart")
        for f, toks in variants:
            self.apart(toks, lp[3])
        return True

    def isfield(self, t, x, lp, cont):
        if x[0] == "key":
            v = t[1]
            return t[0] == "val" and v[0] == "anykey" and v[1] in (cont, init(cont)) and v[2] == lp[1] or t[0] == "val" and keyof(v, cont, lp)
        if x[0] == "fval":
            if t[0] != "form":
                return False
            p = unloc(t[1])
            return p is not None and iselem(p, cont, lp)
        if t[0] != "val":
            return False
        if x[0] == "val":
            return iselem(t[1], cont, lp)
        v = t[1]
        return v[0] == "fld" and v[2] == x[1] and iselem(v[1], cont, lp) or v[0] == "init" and v[1][0] == "F" and v[1][2] == x[1] and at(v[1][1], lp)

    def apart(self, toks, where):
        """two values in a row have text between them"""
        prev, g = None, ""
        for t in toks:
            if t[0] == "lit":
                g += t[1]
                continue
            if t[0] == "loop":
                prev, g = None, ""
                continue
            if prev is not None:
                self.c.expect(apart(g), self.q + ":separator", t[-1], "consecutive values are not told apart", self.pth)
            prev, g = t, ""


def loc_of(t):
    return t[1][3] if t[0] == "loop" else t[-1]


def fname(x):
    return {"key": "the name", "val": "the value", "fval": "the formula"}.get(x[0]) or "." + x[1]


def showfacts_(f):
    return ", ".join("%s is %s" % (show(a)[:60], b) for a, b in list(f.items())[:3])


def all_plain(f, lp):
    return all(has_unknown(a) and not at(a, lp) for a in f if a[0] not in ("itend", "isempty", "pteq", "iteq"))


def iselem(v, cont, lp):
    """the element of cont this iteration is at"""
    if v[0] == "ver":
        return False
    if v[0] == "init" and v[1][0] == "F" and v[1][2] == "second":
        v = v[1][1]
    return v[0] == "elem" and v[1] == init(cont) and (at(v[2], lp) or v[2] == ("key", ("anykey", cont, lp[1])) or any(x and x[0] == "anykey" and x[2] == lp[1] for x in subterms(v[2])))


def keyof(v, cont, lp):
    return v[0] == "keyat" and cont in subterms(v) and at(v, lp)


def apart(g):
    return any(ch not in WORD for ch in g)


def gap(toks, tail):
    g = ""
    for t in (reversed(toks) if tail else toks):
        if t[0] != "lit":
            break
        g = t[1] + g if tail else g + t[1]
    return g


def edge(f, lp):
    """is this iteration the one at the last item (True), not (False), or unclear (None)"""
    r = False
    for a, b in f.items():
        if a[0] in ("itend",) and b is False and plainpos(a[2], lp) or a[0] == "isempty":
            continue
        if a[0] == "pteq" or a[0] == "iteq":
            if "back" in str(a) or "end" in str(a):
                if b is True:
                    return True
                continue
            if "begin" in str(a) or "front" in str(a):
                if b is True:
                    return True
                continue
            r = None
        elif a[0] == "itend":
            if b is True:
                return True
        elif a[0] == "isnull":
            continue
        else:
            h = counter(lp)
            if h:
                if decide(f, cond(("lt0", sub(h[1], h[0])))) is False or decide(f, eq(h[0], h[1])) is True or decide(f, cond(("lt0", sub(h[0], sub(h[2], num(1)))))) is False:
                    return True
                if a[0] in ("lt0", "eq0") and at(a, lp):
                    continue
            r = None
    return r


def plainpos(p, lp):
    return isinstance(p, tuple) and p[0] in ("any", "hv") and p[1] == lp[1]


def ended(S, lp):
    """the loop is left at the end of the container"""
    for a, b in S.facts.items():
        if a[0] == "itend" and b is False and plainpos(a[2], lp):
            S.viol("last", lp[3], "the loop can be left before the last item")


# ------------------------------------------------------------------ single displays
def shown(P, c, q, np, typ, stream, spec, empty):
    fs = [f for f in find(P, Q + q) if len(f["params"]) == np and (not typ or typ.split()[0] in re.split(r"[ :&]+", f["params"][-1]["t"]))]
    q = q + ("(" + typ + ")" if typ else "")
    if len(fs) != 1:
        raise Broken("anchor vanished: " + q)
    f = fs[0]
    e, outs = start(P, c, f)
    s = stream(f) if stream else "file"
    saidempty = None
    some = False
    for k, st, v in outs:
        pth = showfacts(st)
        if st.imp:
            c.skip(q, st.imp[0])
            continue
        if k != "return":
            c.skip(q, "does not return")
            continue
        if s == "file":
            if closed(st.f):
                continue
            opened(c, q, st, f, True)
        bad = []
        toks = tokens(st.trace(), s, bad)
        for kind, w, l in bad:
            c.viol(q + ":stream", w, "what is shown goes to %s instead of the stream given" % showloc(l), pth)
        if bad:
            continue
        S = Shape(c, q, pth, st.f)
        if empty:
            em = decide(st.f, isempty(init(empty(f))))
            if em is True:
                saidempty = True
                c.expect(any(t[0] == "lit" and t[1].strip() for t in toks), q + ":empty", fl(f), "nothing is said of a signal without samples", pth)
                continue
        some = True
        S.match(toks, spec(f), fl(f))
    if empty and not saidempty:
        if any(init(empty(f)) in subterms(a) and a[0] not in ("itend", "isempty") for k, st, v in outs for a in st.f):
            c.skip(q, "how an empty signal is noticed is not understood")
        else:
            c.viol(q + ":empty", fl(f), "a signal without samples is not told apart from others")
    if not some:
        c.skip(q, "no path shows anything")


# ------------------------------------------------------------------ traces
def tables(P, c):
    tp = [f for f in find(P, "print") if len(f["params"]) == 1 and "vector" in f["params"][0]["t"]]
    for q, fs, data in (("STLDriver::print_trace()", [f for f in find(P, Q + "STLDriver::print_trace") if not f["params"]], lambda f: F(THIS, "data")),
                        ("print(trace_data)", tp, lambda f: ("P", ("sym", "&" + f["params"][0]["n"]))),
                        ("transducer::print_trace", find(P, Q + "transducer::print_trace"), lambda f: ("P", init(F(THIS, "trace_data_ptr"))))):
        if len(fs) != 1:
            raise Broken("anchor vanished: " + q)
        c.guard(table, P, c, q, fs[0], data(fs[0]))


def table(P, c, q, f, data):
    e, outs = start(P, c, f)
    seen = False
    for k, st, v in outs:
        pth = showfacts(st)
        if st.imp:
            c.skip(q, st.imp[0])
            continue
        if k != "return":
            continue
        ls = [lp for lp in loops(st.trace()) if any(True for it in lp[2] for ev in deep(it) if ev[0] == "wrote")]
        if not ls:
            if decide(st.f, isempty(init(data))) is not True:
                if f["body"] and any(x.get("k") in ("For", "While", "Do", "ForRange", "RangeFor") for x in mem.walk(f["body"])) and not loops(st.trace()) and not events(st, "call", "vcall", "wrote"):
                    c.viol(q + ":rows", fl(f), "no row of a trace that has rows is printed", pth)
                    continue
                c.skip(q, "no loop over the rows")
            continue
        if len(ls) > 1:
            c.skip(q, "several loops write the rows")
            continue
        seen = True
        for a, b in ls[0][4]:
            if isinstance(b, tuple) and b[0] == "it" and b[2] == "end" and b[1] == data:
                c.viol(q + ":first", ls[0][3], "the loop starts behind the last row", pth)
        ended(Shape(c, q, pth, st.f), ls[0])
        Writer(c, q, data, False, pth).rows(ls[0], st)
    if not seen:
        c.skip(q, "no path writes the rows")


# ------------------------------------------------------------------ dump of all formulas
def dump(P, c):
    q = "STLDriver::dump"
    f = find1(P, Q + q, 0)
    e, outs = start(P, c, f)
    fm = F(THIS, "formula_map")
    seen = False
    for k, st, v in outs:
        pth = showfacts(st)
        if st.imp:
            c.skip(q, st.imp[0])
            continue
        ls = [lp for lp in loops(st.trace()) if any(ev[0] == "io" and ev[1] == "open" for it in lp[2] for ev in deep(it))]
        em = decide(st.f, isempty(init(F(THIS, "data"))))
        if not ls:
            if em is False:
                c.viol(q + ":missing", fl(f), "nothing is written although there is a trace", pth)
            continue
        if len(ls) > 1:
            c.skip(q, "several loops write files")
            continue
        seen = True
        lp = ls[0]
        S = Shape(c, q, pth, st.f)
        Writer(c, q, None, False, pth).bounds(lp, 0, None)
        ended(S, lp)
        for it in lp[2]:
            facts, _ = itf(it)
            opens = [ev for ev in it if ev[0] == "io" and ev[1] == "open" and len(ev) > 3 and ev[3]]
            if len(opens) != 1:
                if any(a[0] == "isnull" and b is True for a, b in facts.items()):
                    continue
                if opens or any(has_unknown(a) and not at(a, lp) for a in facts):
                    c.skip(q, "%d files are opened per formula" % len(opens))
                else:
                    c.viol(q + ":missing", lp[3], "the signal of a formula is not written", pth)
                continue
            nm = opens[0][3][0]
            ps = pieces(nm)
            if has_unknown(nm) and not at(nm, lp):
                c.skip(q, "the name of the file is not understood")
            else:
                c.expect(any(p[0] == "anykey" and p[1] in (fm, init(fm)) and p[2] == lp[1] for p in ps), q + ":file", opens[0][2], "the file is called %s, not after the formula" % show(nm)[:80], pth)
                c.expect(any(p == ("str", ".out") for p in ps[-1:]), q + ":file", opens[0][2], "the file is called %s instead of by the formula's name with .out" % show(nm)[:80], pth)
            if closed(facts):
                continue
            comp = [i for i, ev in enumerate(it) if ev[0] == "vcall" and "::compute_robustness(" in str(ev[1]) and iselem(unloc(ev[2]) or ("num", 0), fm, lp)]
            wl = [i for i, ev in enumerate(it) if ev[0] == "loop" and any(x[0] == "wrote" for y in ev[2] for x in deep(y))]
            if not comp:
                c.skip(q, "the evaluation of the formula is not found") if any(ev[0] in ("vcall", "call") and "compute" in str(ev[1]) for ev in it) else c.viol(q + ":what", opens[0][2], "a formula is written without having been evaluated", pth)
                continue
            for i in wl:
                if i < comp[-1]:
                    c.viol(q + ":what", it[i][3], "the signal is written before the formula is evaluated", pth)
                vals = [x[2][1] for y in it[i][2] for x in deep(y) if x[0] == "wrote" and x[2][0] == "fmt"]
                own = [l for v_ in vals for l in subterms(v_) if l[0] == "F" and l[2] == "#c"]
                if not own:
                    c.skip(q, "what is written is not understood")
                else:
                    c.expect(all(l[1][0] == "F" and l[1][2] == "z" and iselem(unloc(l[1][1]) or ("num", 0), fm, lp) for l in own), q + ":what", it[i][3], "%s is written instead of the formula's robustness signal" % showloc(own[0])[:80], pth)
            if not wl:
                c.viol(q + ":missing", opens[0][2], "the signal of a formula is not written", pth)
    if not seen:
        c.skip(q, "no path writes files")


# ------------------------------------------------------------------ display without a stream
def plain(P, c):
    for cls in sorted(P.recs):
        if not cls.startswith(Q):
            continue
        with_, no = [[f for f in find(P, cls + "::print") if len(f["params"]) == n and f.get("body")] for n in (1, 0)]
        if not no or len(no) != 1 or cls == Q + "transducer":
            continue
        q = cls[len(Q):] + "::print"
        if cls == Q + "STLDriver":
            continue
        if len(with_) != 1:
            c.skip(q, "display with a stream not found")
            continue
        c.guard(same, P, c, q, cls, no[0], with_[0])


def same(P, c, q, cls, a, b):
    _, oa = start(P, c, a, cls)
    _, ob = start(P, c, b, cls)
    sb = ("P", ("sym", "&" + b["params"][0]["n"]))
    texts = []
    for outs, s in ((oa, COUT), (ob, sb)):
        ts = set()
        for k, st, v in outs:
            if st.imp:
                c.skip(q, st.imp[0])
                return
            bad = []
            toks = tokens(st.trace(), s, bad)
            if bad:
                c.viol(q + ":stream", bad[0][1], "what is shown goes to %s" % showloc(bad[0][2]), showfacts(st))
                return
            if any(t[0] == "loop" for t in toks):
                c.skip(q, "a display with loops")
                return
            out, g = [], ""
            for t in toks:
                if t[0] == "lit":
                    g += t[1]
                else:
                    out += [g, t[:2]]
                    g = ""
            ts.add((tuple(out + [g.rstrip("\n")]), frozenset(st.f.items())))
        texts.append(ts)
    x, y = texts
    if {t for t, f in x} == {t for t, f in y}:
        c.ok()
        return
    only = sorted({t for t, f in x} - {t for t, f in y}, key=repr) or sorted({t for t, f in y} - {t for t, f in x}, key=repr)
    c.viol(q + ":differs", fl(a), "the display on the standard output is not the one on a stream (%s)" % (", ".join(u if isinstance(u, str) else show(u[1]) if u[0] == "val" else showloc(u[1]) for u in only[0])[:100]))
