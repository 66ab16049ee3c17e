"""Rules of G01: productions, grouping, spelling, entry points."""
from gram import *
from calls import converts

DRV = ("F", THIS, "driver")
STK = ("F", ("F", THIS, "yystack_"), "seq_")

ID1 = frozenset(map(ord, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"))
IDN = ID1 | frozenset(map(ord, "0123456789_"))
DIG = frozenset(map(ord, "0123456789"))
ALL = frozenset(range(1, 256))
NNL = ALL - {10}

SPELL = {"<>": "DIAMOND", "<>_": "DIAMOND", "[]": "BOX", "[]_": "BOX", "[": "LINT", "]": "RINT", "(": "LPAREN", ")": "RPAREN", "=>": "IMPLIES", "->": "IMPLIES",
         "<": "LT", ">": "GT", "<=": "LT", ">=": "GT", "!": "NOT", ",": "COMMA", "&": "AND", "|": "OR", ":=": "ASSIGN", "+": "PLUS", "-": "MINUS", "*": "MULT"}
WORDS = {"F": "DIAMOND", "F_": "DIAMOND", "ev": "DIAMOND", "ev_": "DIAMOND", "G": "BOX", "G_": "BOX", "alw": "BOX", "alw_": "BOX", "U": "UNTIL", "U_": "UNTIL",
         "until": "UNTIL", "until_": "UNTIL", "and": "AND", "or": "OR", "not": "NOT", "true": "BOOL_TRUE", "false": "BOOL_FALSE", "t": "TIME", "abs": "ABS",
         "param": "PARAM_DECL", "test": "TEST", "signal": "SIGNAL_DECL"}


class Prod:
    """one production's action, its operands and result"""

    def __init__(self, g, A, r):
        self.g, self.r = g, r
        self.lhs, self.rhs = g.prods[r]
        self.sig = tuple(g.sym(x) if x < g.ntok else "_" for x in self.rhs)
        self.n = len(self.rhs)

    def d(self, k, field):
        """value of operand k (1-based)"""
        i = self.n - k
        idx = "back" if i == 0 else sub(("size", ("init", STK)), num(i + 1))
        return ("init", F(("E", STK, idx), "value", field))

    def text(self, k):
        return ("init", ("P", self.d(k, "stringVal")))


def load_grammar(P, c):
    try:
        g = Grammar(P)
        A = Actions(P, [num_hook, test_hook])
    except (LookupError, ValueError, IndexError, KeyError, TypeError) as x:
        c.skip("parser", "tables or actions not recognised: %s" % x)
        return None, None
    if not A.lhs or not g.prods:
        c.skip("parser", "tables or actions not recognised")
        return None, None
    return g, A


def test_hook(e, fn, loc, dyn, args, st, fr, n):
    """test registration is judged elsewhere: here only what it is called with"""
    if fn["n"] not in ("add_stl_test", "add_trace_test") or fn.get("cls") != Q + "STLDriver":
        return None
    st = st.copy()
    st.ev("reg", fn["n"], loc, tuple(e.load(st, a[1]) if a[0] == "ref" else a for a in args), e.where(fr, n))
    return [(st, ("void",))]


def actions(P, c):
    g, A = load_grammar(P, c)
    if g is None:
        return
    ps = {r: Prod(g, A, r) for r in g.prods}
    by = {}
    for p in ps.values():
        by.setdefault(p.sig, []).append(p)
    reach = {}
    for p in ps.values():
        reach.setdefault(p.lhs, set()).update(x for x in p.rhs if x >= g.ntok)

    def below(nt):
        out, todo = set(), [nt]
        while todo:
            x = todo.pop()
            for y in reach.get(x, ()):
                if y not in out:
                    out.add(y)
                    todo.append(y)
        return out
    R = Runner(P, c, g, A)
    done = set()

    def each(sig, fn):
        for p in by.get(sig, []):
            if p.r in A.stmts:
                fn(p)
                done.add(p.r)
    un = lambda cls, **kw: (lambda p: R.node(p, cls, **kw))
    each(("NOT", "_"), un("not_transducer", child=2))
    for t, cls in (("AND", "and_transducer"), ("OR", "or_transducer"), ("IMPLIES", "implies_transducer"), ("PLUS", "plus_transducer"), ("MINUS", "minus_transducer"), ("MULT", "mult_transducer")):
        each(("_", t, "_"), un(cls, childL=1, childR=3))
    each(("DIAMOND", "_", "_"), un("ev_transducer", I=2, child=3))
    each(("BOX", "_", "_"), un("alw_transducer", I=2, child=3))
    each(("_", "UNTIL", "_", "_"), un("until_transducer", childL=1, I=3, childR=4))
    each(("ABS", "LPAREN", "_", "RPAREN"), un("abs_transducer", child=3))
    # parentheses: formula and arithmetic hand on their content, parameter lists likewise
    each(("LPAREN", "_", "RPAREN"), lambda p: R.handon(p, 2))
    ivl = [p for p in ps.values() if p.sig[:1] == ("LINT",) and p.sig[-1:] == ("RINT",) and len(p.sig) in (4, 5)]
    strs = {x for p in ivl for x in p.rhs if x >= g.ntok}
    for p in ivl:
        if p.r in A.stmts:
            R.interval(p, 2, 4 if len(p.sig) == 5 else 3)
            done.add(p.r)
    for t in ("CONSTANT", "PARAM_ID"):
        each((t,), lambda p: R.handon(p, 1) if p.lhs in strs else R.constant(p))
    each(("SIGNAL_ID", "LINT", "TIME", "RINT"), R.signal)
    each(("PHI_ID",), R.reference)
    each(("NEW_ID", "ASSIGN", "_"), R.assign)
    each(("PHI_ID", "ASSIGN", "_"), R.assign)
    # comparisons
    ops = {}
    for t in ("LT", "GT"):
        for p in by.get((t,), []):
            if p.r in A.stmts:
                ops[t] = (p, R.opstring(p))
                done.add(p.r)
    for p in by.get(("_", "_", "_"), []):
        if ops and p.rhs[1] in {q.lhs for q, _ in ops.values()} and p.r in A.stmts:
            R.atom(p, ops)
            done.add(p.r)
    # declarations
    glob = set()
    for p in ps.values():
        if p.sig and p.sig[0] == "PARAM_DECL":
            glob |= below(p.lhs)
    for s in (("PARAM_ID", "=", "CONSTANT"), ("NEW_ID", "=", "CONSTANT")):
        each(s, lambda p: R.param(p, p.lhs in glob))
    each(("_", "COMMA", "_"), R.paramlist)
    each((), R.nolist)
    sigs = set()
    for p in ps.values():
        if p.sig and p.sig[0] == "SIGNAL_DECL":
            sigs |= below(p.lhs)
    each(("NEW_ID",), lambda p: R.newsignal(p) if p.lhs in sigs else None)
    each(("SIGNAL_ID",), lambda p: R.oldsignal(p) if p.lhs in sigs else None)
    each(("BOOL_TRUE",), lambda p: R.boolean(p, True))
    each(("BOOL_FALSE",), lambda p: R.boolean(p, False))
    each(("TEST", "NEW_ID", ":", "STRING"), lambda p: R.tracetest(p, None, None))
    each(("TEST", "NEW_ID", ":", "STRING", "COMMA", "CONSTANT", "COMMA", "_"), lambda p: R.tracetest(p, 6, 8))
    each(("NEW_ID", "_", "{", "_", "COMMA", "STRING", "COMMA", "STRING", "COMMA", "_", "}"), R.stltest)
    each(("STL_TEST_ID", "_"), R.oldtest)
    # what is left must be plain hand-ons
    for r, p in sorted(ps.items()):
        if r in A.stmts and r not in done:
            if len(p.rhs) == 1 and p.rhs[0] >= g.ntok:
                R.handon(p, 1)
            else:
                c.skip("production " + g.show(r), "form not in the specification")
    c.sites += ["production %d  %s" % (r, g.show(r)) for r in sorted(g.prods)]


class Runner:
    def __init__(self, P, c, g, A):
        self.P, self.c, self.g, self.A = P, c, g, A

    def paths(self, p):
        c, name = self.c, self.name(p)
        try:
            e, outs = self.A.run(p.r)
        except Undecided as u:
            c.skip(name, str(u))
            return
        c.functions |= e.analysed
        for k, st, v in outs:
            c.paths += 1
            if st.imp:
                c.skip(name, "; ".join(st.imp[:2]))
                continue
            yield e, k, st, showfacts(st)

    def name(self, p):
        return "production " + " ".join(self.g.sym(x) if x < self.g.ntok else "_" for x in p.rhs)

    def w(self, p):
        return self.A.line(p.r)

    def result(self, e, st, field):
        return e.load(st, F(RES, "value", field))

    def fields(self, st):
        return {l[2]: x for l, x in st.s.items() if l[0] == "F" and l[1] == F(RES, "value")}

    def quiet(self, p, st, pth, allowed=()):
        """the driver is changed only as expected"""
        for l, x in st.s.items():
            if root(l) != THIS or l[0] not in ("F", "E"):
                continue
            f = l
            while f[0] == "E" or (f[0] == "F" and f[1] != DRV):
                f = f[1]
                if f == THIS:
                    break
            if f == THIS or f[2] in allowed or x == init(l):
                continue
            self.c.viol("%s:%s" % (self.name(p), f[2]), self.w(p), "reducing \"%s\" also changes the driver's %s" % (self.g.show(p.r), f[2]), pth)

    def node(self, p, cls, **kids):
        c, nm = self.c, self.name(p)
        for e, k, st, pth in self.paths(p):
            if k == "throw":
                c.viol(nm + ":refused", self.w(p), "\"%s\" is refused" % self.g.show(p.r), pth)
                continue
            v = self.result(e, st, "transducer_ptr")
            if not self.made(p, st, v, cls, pth):
                continue
            for fld, i in kids.items():
                got = e.load(st, F(v[1], fld))
                want = p.d(i, "interval_ptr" if fld == "I" else "transducer_ptr")
                c.expect(got == want, "%s:%s" % (nm, fld), self.w(p), "in \"%s\" the %s is %s" % (self.g.show(p.r), {"I": "interval", "child": "operand", "childL": "left operand", "childR": "right operand"}[fld], self.sh(p, got)), pth)
            self.kept(p, st, pth, set(kids.values()))
            self.quiet(p, st, pth)

    def kept(self, p, st, pth, ks):
        for k in ks:
            for fld in ("transducer_ptr", "interval_ptr"):
                self.c.expect(p.d(k, fld) not in [x[1] for x in events(st, "delete")], "%s:operand-freed" % self.name(p), self.w(p), "in \"%s\" an operand of the new node is deleted" % self.g.show(p.r), pth)

    def made(self, p, st, v, cls, pth):
        c, nm = self.c, self.name(p)
        if v[0] != "ptr" or v[1][0] != "N":
            c.viol(nm + ":node", self.w(p), "\"%s\" builds %s instead of a new %s" % (self.g.show(p.r), self.sh(p, v), cls), pth)
            return False
        got = v[1][2].split("::")[-1]
        if got != cls:
            if got not in [x.split("::")[-1] for x in self.P.recs]:
                return False
            c.viol(nm + ":node", self.w(p), "\"%s\" builds a %s instead of a %s" % (self.g.show(p.r), got, cls), pth)
            return False
        c.expect(st.s.get(("alloc", v[1])) != ("str", "deleted"), nm + ":freed", self.w(p), "the new node is deleted", pth)
        return True

    def sh(self, p, v):
        for k in range(1, p.n + 1):
            for f in ("transducer_ptr", "interval_ptr", "stringVal", "param_map_ptr", "boolVal"):
                if v == p.d(k, f):
                    return "the value of $%d" % k
            if v == p.text(k):
                return "the text of $%d" % k
        return show(v)[:120]

    def handon(self, p, k):
        c, nm = self.c, self.name(p)
        for e, kd, st, pth in self.paths(p):
            if kd == "throw":
                c.viol(nm + ":refused", self.w(p), "\"%s\" is refused" % self.g.show(p.r), pth)
                continue
            w = self.fields(st)
            if not w:
                c.expect(k == 1, nm + ":result", self.w(p), "\"%s\" does not hand on its content" % self.g.show(p.r), pth)
            for f, v in w.items():
                c.expect(v == p.d(k, f), nm + ":result", self.w(p), "\"%s\" hands on %s" % (self.g.show(p.r), self.sh(p, v)), pth)
                c.expect(v not in [x[1] for x in events(st, "delete")], nm + ":freed", self.w(p), "\"%s\" hands on a deleted object" % self.g.show(p.r), pth)
            self.quiet(p, st, pth)

    def numeric(self, st, t):
        return decide(st.f, cond(("numeric", t)))

    def interval(self, p, a, b):
        c, nm = self.c, self.name(p)
        for e, k, st, pth in self.paths(p):
            if k == "throw":
                c.viol(nm + ":refused", self.w(p), "\"%s\" is refused" % self.g.show(p.r), pth)
                continue
            v = self.result(e, st, "interval_ptr")
            if v[0] != "ptr" or v[1][0] != "N":
                c.viol(nm + ":node", self.w(p), "\"%s\" builds %s instead of a new interval" % (self.g.show(p.r), self.sh(p, v)), pth)
                continue
            for fld, i in (("begin", a), ("end", b)):
                t = p.text(i)
                isn = self.numeric(st, t)
                s_, v_ = e.load(st, F(v[1], fld + "_str")), e.load(st, F(v[1], fld))
                if isn is True:
                    ok = s_ == ("str", "") and v_ == ("app", "number", t)
                elif isn is False:
                    ok = s_ == t
                else:
                    ok = s_ == t or v_ == ("app", "number", t)
                    if not ok and not any(x[0] == "numeric" for x in st.f):
                        c.skip(nm, "bound not recognised")
                        continue
                c.expect(ok, "%s:%s" % (nm, fld), self.w(p), "in \"%s\" the %s of the interval is %s" % (self.g.show(p.r), fld, self.sh(p, v_ if s_ == ("str", "") else s_)), pth)
            self.quiet(p, st, pth)

    def constant(self, p):
        c, nm = self.c, self.name(p)
        for e, k, st, pth in self.paths(p):
            if k == "throw":
                c.viol(nm + ":refused", self.w(p), "\"%s\" is refused" % self.g.show(p.r), pth)
                continue
            v = self.result(e, st, "transducer_ptr")
            if not self.made(p, st, v, "constant_transducer", pth):
                continue
            t = p.text(1)
            isn = self.numeric(st, t)
            par, val = e.load(st, F(v[1], "param")), e.load(st, F(v[1], "value"))
            if isn is None:
                if any(converts(self.P.funcs[x].get("body")) for x in e.analysed if x in self.P.funcs and (self.P.funcs[x]["cls"] or "").endswith("::constant_transducer")) or converts(self.A.stmts[p.r]):
                    c.skip(nm, "constant not recognised")
                else:
                    c.viol(nm + ":value", self.w(p), "the constant's text is never examined: numbers and parameter names are not told apart", pth)
            else:
                c.expect((par == ("str", "") and val == ("app", "number", t)) if isn else par == t, nm + ":value", self.w(p), "the constant is %s" % self.sh(p, par if par != ("str", "") else val), pth)
            self.quiet(p, st, pth)

    def signal(self, p):
        c, nm = self.c, self.name(p)
        for e, k, st, pth in self.paths(p):
            t = p.text(1)
            ent = ("elem", init(F(DRV, "signal_map")), ("key", t))
            known = decide(st.f, cond(("has", init(F(DRV, "signal_map")), t)))
            zero = decide(st.f, cond(("eq0", ent)))
            if k == "throw":
                c.expect(known is False or zero is True, nm + ":refused", self.w(p), "a declared signal is refused", pth)
                continue
            v = self.result(e, st, "transducer_ptr")
            if known is False or zero is True:
                c.viol(nm + ":accepted", self.w(p), "an undeclared signal is accepted", pth)
                continue
            if not self.made(p, st, v, "signal_transducer", pth):
                continue
            c.expect(e.load(st, F(v[1], "variable")) == t, nm + ":variable", self.w(p), "the node reads the signal %s" % self.sh(p, e.load(st, F(v[1], "variable"))), pth)
            m = e.load(st, F(v[1], "signal_map"))
            c.expect(m == init(F(DRV, "signal_map")), nm + ":columns", self.w(p), "the node's signal table is %s instead of the driver's" % show(m)[:80], pth)
            self.quiet(p, st, pth, ("signal_map",) if False else ())

    def reference(self, p):
        c, nm = self.c, self.name(p)
        for e, k, st, pth in self.paths(p):
            t = p.text(1)
            fm = init(F(DRV, "formula_map"))
            ent = ("elem", fm, ("key", t))
            gone = decide(st.f, cond(("isnull", ent))) is True or decide(st.f, cond(("has", fm, t))) is False
            if k == "throw":
                c.expect(gone, nm + ":refused", self.w(p), "a defined formula is refused", pth)
                continue
            if gone:
                c.viol(nm + ":accepted", self.w(p), "an undefined formula is accepted", pth)
                continue
            v = self.result(e, st, "transducer_ptr")
            cl = {("ret", ev[4], "clone", ev[2]): ev[2] for ev in events(st, "vcall") if ev[1].split("(")[0].endswith("::clone")}
            c.expect(cl.get(v) == ("P", ent), nm + ":copy", self.w(p), "a reference to a formula yields %s instead of a copy of that formula" % ("the stored formula itself" if v == ent else self.sh(p, v)), pth)
            self.quiet(p, st, pth)

    def assign(self, p):
        c, nm = self.c, self.name(p)
        L = F(DRV, "formula_map")
        for e, k, st, pth in self.paths(p):
            if k == "throw":
                c.viol(nm + ":refused", self.w(p), "a definition is refused", pth)
                continue
            v = e.load(st, L)
            val = p.d(3, "transducer_ptr")
            ok = v[0] in ("upd", "ins") and v[1] == init(L) and v[2] == ("key", p.text(1)) and v[3] == val
            if not ok and v[0] in ("upd", "ins"):
                inner = [x for x in subterms(v) if x[0] in ("upd", "ins") and x[2:3] == (("key", p.text(1)),)]
                ok = bool(inner) and v[2] == ("key", p.text(1)) and v[3] == val
            c.expect(ok, nm + ":stored", self.w(p), "the definition leaves %s" % show(v)[:160], pth)
            self.kept(p, st, pth, {3})
            self.quiet(p, st, pth, ("formula_map",))

    def opstring(self, p):
        out = set()
        for e, k, st, pth in self.paths(p):
            v = self.result(e, st, "stringVal")
            if v[0] == "ptr":
                out.add(e.load(st, v[1]))
        return out.pop() if len(out) == 1 else None

    def atom(self, p, ops):
        c, nm = self.c, "comparison"
        want = {"LT": "LESSTHAN", "GT": "GREATERTHAN"}
        seen = set()
        for e, k, st, pth in self.paths(p):
            if k == "throw":
                c.viol(nm + ":refused", self.w(p), "a comparison is refused", pth)
                continue
            v = self.result(e, st, "transducer_ptr")
            if not self.made(p, st, v, "stl_atom", pth):
                continue
            for fld, i in (("childL", 1), ("childR", 3)):
                got = e.load(st, F(v[1], fld))
                c.expect(got == p.d(i, "transducer_ptr"), "%s:%s" % (nm, fld), self.w(p), "in a comparison the %s operand is %s" % ("left" if i == 1 else "right", self.sh(p, got)), pth)
            comp = e.load(st, F(v[1], "comp"))
            t = p.text(2)
            for op, (q, s) in ops.items():
                if s is None or s[0] != "str":
                    c.skip(nm, "operator text not constant")
                    continue
                ok = True
                for a, pol in st.f.items():
                    if a[0] == "streq" and t in a[1:3]:
                        o = a[2] if a[1] == t else a[1]
                        if o[0] != "str" or (o[1] == s[1]) != pol:
                            ok = False
                if not ok:
                    continue
                seen.add(op)
                if comp[0] == "enum":
                    c.expect(comp[1].split("::")[-1] == want[op], "%s:%s" % (nm, op), self.w(p), "%s is read as %s" % ("<" if op == "LT" else ">", comp[1].split("::")[-1]), pth)
                else:
                    c.skip(nm, "comparison mode %s" % show(comp)[:60])
            self.kept(p, st, pth, {1, 3})
            self.quiet(p, st, pth)
        for op in ops:
            if op not in seen:
                c.skip(nm, op + " not traced through")

    def param(self, p, glob):
        c, nm = self.c, self.name(p) + (":global" if glob else ":local")
        for e, k, st, pth in self.paths(p):
            if k == "throw":
                continue
            t, x = p.text(1), p.text(3)
            isn = self.numeric(st, x)
            if isn is None and not st.imp and not converts(self.A.stmts[p.r]):
                c.viol(nm + ":number", self.w(p), "the text of the number in \"%s\" is never turned into a value" % self.g.show(p.r), pth)
                continue
            if isn is not True:
                continue
            val = ("app", "number", x)
            if glob:
                L = F(DRV, "param_map")
                if self.g.sym(p.rhs[0]) in ("NEW_ID", "PARAM_ID") and decide(st.f, cond(("has", init(L), t))) is (self.g.sym(p.rhs[0]) == "NEW_ID"):
                    continue  # the scanner tells new names from parameters
                v = e.load(st, L)
                c.expect(v == ("upd", init(L), ("key", t), val), nm + ":stored", self.w(p), "the declaration leaves %s" % show(v)[:160], pth)
                self.quiet(p, st, pth, ("param_map",))
            else:
                v = self.result(e, st, "param_map_ptr")
                m = e.load(st, ("F", v[1], "#c")) if v[0] == "ptr" else None
                m2 = e.load(st, v[1]) if v[0] == "ptr" else None
                ok = any(x and x[0] == "upd" and x[1] == ("empty",) and x[2] == ("key", t) and x[3] == val for x in (m, m2))
                c.expect(ok, nm + ":stored", self.w(p), "the local parameter list is %s" % show(m2 or v)[:160], pth)
                self.quiet(p, st, pth)

    def paramlist(self, p):
        c, nm = self.c, "local parameter list"
        for e, k, st, pth in self.paths(p):
            v = self.result(e, st, "param_map_ptr")
            if v == p.d(1, "param_map_ptr"):
                m = e.load(st, e.deref(v))
            elif v[0] == "ptr":
                m = e.load(st, v[1])
            else:
                c.skip(nm, show(v)[:80])
                continue
            one, more = ("init", ("P", p.d(3, "param_map_ptr"))), ("init", ("P", p.d(1, "param_map_ptr")))
            ok = m[0] == "upd" and m[1] == more and has_sub(m[2], one) and has_sub(m[3], one) or m[0] in ("union", "insall", "cat") and has_sub(m, one) and has_sub(m, more)
            if not ok and (has_unknown(m) or m[0] not in ("upd", "init", "empty")):
                c.skip(nm, show(m)[:80])
                continue
            c.expect(ok, nm + ":extended", self.w(p), "the list of local parameters is %s" % show(m)[:160], pth)
            self.quiet(p, st, pth)

    def nolist(self, p):
        for e, k, st, pth in self.paths(p):
            v = self.result(e, st, "param_map_ptr")
            m = e.load(st, v[1]) if v[0] == "ptr" else None
            self.c.expect(m == ("empty",), "no local parameters", self.w(p), "an absent parameter list is %s" % show(m or v)[:100], pth)
            self.quiet(p, st, pth)

    def newsignal(self, p):
        c, nm = self.c, "signal declaration"
        L = F(DRV, "signal_map")
        for e, k, st, pth in self.paths(p):
            v = e.load(st, L)
            t = p.text(1)
            c.expect(v == ("upd", init(L), ("key", t), add(("size", init(L)), num(1))), nm, self.w(p), "a declared signal is given the column %s" % (show(v[3])[:100] if v[0] == "upd" else show(v)[:100]), pth)
            self.quiet(p, st, pth, ("signal_map",))

    def oldsignal(self, p):
        for e, k, st, pth in self.paths(p):
            self.c.ok()
            self.quiet(p, st, pth)

    def boolean(self, p, b):
        for e, k, st, pth in self.paths(p):
            v = self.result(e, st, "boolVal")
            self.c.expect(v == (TRUE if b else FALSE), "literal %s" % ("true" if b else "false"), self.w(p), "the literal %s is read as %s" % ("true" if b else "false", show(v)), pth)

    def tracetest(self, p, tm, vis):
        c, nm = self.c, "trace test" if tm else "short trace test"
        for e, k, st, pth in self.paths(p):
            if k == "throw":
                c.viol(nm + ":refused", self.w(p), "a trace test is refused", pth)
                continue
            r = events(st, "reg")
            if len(r) != 1 or r[0][1] != "add_trace_test":
                c.viol(nm + ":registered", self.w(p), "the trace test is registered %d times" % len(r), pth)
                continue
            a = r[0][3]
            if len(a) != 4:
                c.skip(nm, "registration changed")
                continue
            isn = self.numeric(st, p.text(tm)) if tm else None
            if tm and isn is not True:
                continue
            c.expect(a[0] == p.text(2), nm + ":id", self.w(p), "the trace test's name is %s" % self.sh(p, a[0]), pth)
            c.expect(a[1] == p.text(4), nm + ":file", self.w(p), "the trace test's file is %s" % self.sh(p, a[1]), pth)
            c.expect(a[2] == (("app", "number", p.text(tm)) if tm else num(0)), nm + ":time", self.w(p), "the trace test's duration is %s" % self.sh(p, a[2]), pth)
            c.expect(a[3] == (p.d(vis, "boolVal") if vis else FALSE), nm + ":visual", self.w(p), "the trace test's display flag is %s" % self.sh(p, a[3]), pth)
            self.quiet(p, st, pth)

    def stltest(self, p):
        c, nm = self.c, "test definition"
        for e, k, st, pth in self.paths(p):
            r = events(st, "reg")
            if k == "throw" or len(r) != 1 or r[0][1] != "add_stl_test":
                c.viol(nm + ":registered", self.w(p), "the test is registered %d times" % len(r), pth)
                continue
            a = r[0][3]
            if len(a) != 6:
                c.skip(nm, "registration changed")
                continue
            for i, (what, want) in enumerate((("name", p.text(1)), ("local parameters", ("init", ("P", p.d(2, "param_map_ptr")))), ("formula", p.d(4, "transducer_ptr")),
                                              ("report on success", p.text(6)), ("report on failure", p.text(8)), ("error flag", p.d(10, "boolVal")))):
                c.expect(a[i] == want, "%s:%s" % (nm, what.replace(" ", "-")), self.w(p), "the test's %s is %s" % (what, self.sh(p, a[i])), pth)
            self.quiet(p, st, pth)

    def oldtest(self, p):
        c, nm = self.c, "test reference"
        for e, k, st, pth in self.paths(p):
            r = events(st, "reg")
            if k == "throw" or len(r) != 1 or r[0][1] != "add_stl_test":
                c.viol(nm + ":registered", self.w(p), "the test is registered %d times" % len(r), pth)
                continue
            a = r[0][3]
            m = ("init", ("P", p.d(2, "param_map_ptr")))
            c.expect(a[0] == p.text(1), nm + ":name", self.w(p), "the test referred to is %s" % self.sh(p, a[0]), pth)
            em = decide(st.f, isempty(m))
            if em is not True:
                c.expect(len(a) == 2 and a[1] == m, nm + ":local-parameters", self.w(p), "local parameters are lost", pth)
            self.quiet(p, st, pth)


def has_sub(t, x):
    return any(y == x for y in subterms(t))


# ---------------------------------------------------------------- grouping

def grouping(P, c):
    """shift or reduce: which of two adjacent operators takes the operand between them"""
    try:
        g = Grammar(P)
    except (LookupError, ValueError, IndexError, KeyError, TypeError) as x:
        c.skip("parser", "tables not recognised: %s" % x)
        return
    w = "src/stl_parser.cpp"
    gl = P.globals.get(Q + "Parser::yytable_")
    if gl and gl.get("file"):
        w = "%s:%s" % (gl["file"], gl.get("line", gl.get("l")))
    num_ = {v: k for k, v in g.names.items()}
    by = {}
    for r, (l, rhs) in g.prods.items():
        by[tuple(g.sym(x) if x < g.ntok else "_" for x in rhs)] = r

    def rel(sig, tok):
        """set of decisions in states that complete the production, on that lookahead"""
        r = by.get(sig)
        t = num_.get(tok)
        if r is None or t is None:
            return None
        out = set()
        for s in g.done.get(r, ()):
            a = g.action(s, t)
            out.add("left" if a == ("reduce", r) else "right" if a[0] == "shift" else a[0])
        return out
    unary = {"not": ("NOT", "_"), "ev": ("DIAMOND", "_", "_"), "alw": ("BOX", "_", "_"), "until": ("_", "UNTIL", "_", "_")}
    binary = {"and": ("_", "AND", "_"), "or": ("_", "OR", "_"), "=>": ("_", "IMPLIES", "_")}
    for n, sg in unary.items():
        for t in ("AND", "OR"):
            d = rel(sg, t)
            if d is None:
                c.skip("grouping", "%s before %s" % (n, t))
                continue
            c.expect(d == {"left"}, "grouping:%s-%s" % (n, t.lower()), w, "in \"%s p %s q\" the operator %s extends over %s" % (n, t.lower(), n, t.lower()))
    for n in ("ev", "alw"):
        d = rel(unary[n], "IMPLIES")
        if d is not None:
            c.expect(d == {"left"}, "grouping:%s-implies" % n, w, "in \"%s p => q\" the operator %s extends over the implication" % (n, n))
    for n, sg in binary.items():
        d = rel(sg, "UNTIL")
        if d is not None:
            c.expect(d == {"right"}, "grouping:%s-until" % n, w, "in \"p %s q until r\" the connective takes q away from until" % n)
    ar = {"PLUS": ("_", "PLUS", "_"), "MINUS": ("_", "MINUS", "_"), "MULT": ("_", "MULT", "_")}
    # arithmetic is layered by nonterminals: what may stand on each side of an operator
    below = {}
    for r, (l, rhs) in g.prods.items():
        below.setdefault(l, []).append((r, rhs))

    def can(nt, sig, seen=None):
        """can nt derive an unparenthesised expression whose outermost operator is that of sig"""
        seen = seen if seen is not None else set()
        if nt in seen or nt < g.ntok:
            return False
        seen.add(nt)
        for r, rhs in below.get(nt, []):
            if by.get(sig) == r:
                return True
            if len(rhs) == 1 and can(rhs[0], sig, seen):
                return True
        return False
    for o, sg in ar.items():
        r = by.get(sg)
        if r is None:
            c.skip("grouping", "no production for " + o)
            continue
        l, rhs = g.prods[r]
        for o2, sg2 in ar.items():
            lo, ro = can(rhs[0], sg2), can(rhs[2], sg2)
            a, b = {"PLUS": "+", "MINUS": "-", "MULT": "*"}[o2], {"PLUS": "+", "MINUS": "-", "MULT": "*"}[o]
            tight2, tight = o2 == "MULT", o == "MULT"
            # left side: x a y b z grouped (x a y) b z
            if tight and not tight2:
                c.expect(not lo, "grouping:%s-%s" % (o2.lower(), o.lower()), w, "\"x %s y %s z\" is read as \"(x %s y) %s z\"" % (a, b, a, b))
            # right side: z b x a y grouped z b (x a y)
            if not (tight2 and not tight):
                c.expect(not ro, "grouping:%s-%s-right" % (o.lower(), o2.lower()), w, "\"x %s y %s z\" is read as \"x %s (y %s z)\"" % (b, a, b, a))


# ---------------------------------------------------------------- spelling

def spec_nfa():
    n = Nfa()
    k = 0
    n.rule(k, "skip", ("plus", frozenset(map(ord, " \t\r"))))
    n.rule(1, "skip", "\n")
    for s, t in SPELL.items():
        n.rule(2, t, s)
    n.rule(3, "word", ("seq", ID1, ("star", IDN)))
    sg = ("opt", frozenset(map(ord, "+-")))
    n.rule(4, "CONSTANT", ("seq", sg, ("star", DIG), ".", ("star", DIG)))
    n.rule(4, "CONSTANT", ("seq", sg, ("plus", DIG)))
    n.rule(5, "STRING", ("seq", '"', ("star", ("alt", ("seq", "\\", NNL), ALL - {ord("\\"), ord('"')})), '"'))
    n.rule(6, "skip", ("seq", "#", ("star", NNL), "\n"))
    n.rule(7, "char", NNL)
    return n


def spelling(P, c):
    try:
        D, L = Dfa(P), Lex(P)
    except (LookupError, ValueError, IndexError, KeyError, TypeError) as x:
        c.skip("scanner", "tables or actions not recognised: %s" % x)
        return
    S = spec_nfa()
    cls = {}
    text = ("app", "substr", init(F(THIS, "yytext")), init(F(THIS, "yyleng")))
    inner = ("app", "substr", None, sub(init(F(THIS, "yyleng")), num(2)))

    def klass(r):
        """what a rule of the scanner does"""
        if r not in cls:
            cls[r] = rule_class(P, c, L, r, text)
        return cls[r]
    start = (D.start, S.close({S.start}))
    seen, todo = {start: ""}, [start]
    bad = {}
    pairs = 0
    while todo:
        d, s = todo.pop()
        w = seen[(d, s)]
        pairs += 1
        got = None if d == D.jam else D.accept[d] or None
        want = S.cls(s)
        if w:
            g = klass(got) if got else None
            if g != want and (g is None or want is None or g[0] != "?"):
                bad.setdefault((g, want), w)
            else:
                c.ok()
        for ch in range(1, 256):
            if d == D.jam and not s:
                continue
            d2 = D.jam if d == D.jam else D.step(d, ch)
            s2 = S.step(s, ch)
            if d2 == D.jam and not s2:
                continue
            k = (d2, s2)
            if k not in seen:
                seen[k] = w + chr(ch)
                todo.append(k)
    c.paths += pairs
    c.functions |= {L.fn["id"]}
    for (g, want), w in sorted(bad.items(), key=repr):
        c.viol("spelling:%s:%s" % (want, g), L.line(D.accept[D.start]) if False else fl(L.fn), "the text %r is read as %s instead of %s" % (w, g or "nothing", want or "nothing"))
    c.sites.append("scanner automaton x specification: %d state pairs" % pairs)
    words(P, c, L)


def rule_class(P, c, L, r, text):
    """skip / token name / word / char / ? of one scanner rule, checking what it hands over"""
    if r not in L.stmts:
        return "?"
    try:
        e, outs = L.run(r)
    except Undecided as u:
        c.skip("scanner rule %d" % r, str(u))
        return "?"
    c.functions |= e.analysed
    res = set()
    for k, st, v in outs:
        c.paths += 1
        if k in ("break", "next", "continue"):
            res.add("skip")
        elif k == "return" and v is not None:
            if v[0] == "enum":
                t = v[1].split("::")[-1]
                res.add(t)
                val = [x for l, x in st.s.items() if l[0] == "F" and l[2] == "stringVal"]
                if t in ("CONSTANT", "STRING", "PHI_ID", "PARAM_ID", "SIGNAL_ID", "STL_TEST_ID", "NEW_ID"):
                    got = e.load(st, val[-1][1]) if val and val[-1][0] == "ptr" else None
                    if got is None:
                        c.viol("spelling:%s:text" % t, L.line(r), "a %s token is returned without its text" % t, showfacts(st))
                    elif t == "STRING":
                        ok = got[0] == "app" and got[1] == "substr" and len(got) == 4 and got[3] == sub(init(F(THIS, "yyleng")), num(2)) and "yytext" in repr(got[2]) and got[2] != init(F(THIS, "yytext"))
                        c.expect(ok, "spelling:STRING:text", L.line(r), "a quoted text is handed over as %s" % show(got)[:120], showfacts(st))
                    else:
                        c.expect(got == text, "spelling:%s:text" % t, L.line(r), "the text of a %s token is %s" % (t, show(got)[:120]), showfacts(st))
            elif v[0] == "elem" and v[1] == init(("G", Q + "STLDriver::reserved")):
                res.add("keyword")
            elif v == init(("P", init(F(THIS, "yytext")))):
                res.add("char")
            else:
                res.add("?")
        else:
            res.add("?")
    if "keyword" in res or "NEW_ID" in res:
        return "word"
    return res.pop() if len(res) == 1 else "?" if "?" in res else "mixed %s" % sorted(res)


ORDER = [("formula_map", "PHI_ID"), ("param_map", "PARAM_ID"), ("signal_map", "SIGNAL_ID"), ("stl_test_map", "STL_TEST_ID")]


def words(P, c, L):
    # keyword table
    K = {}
    some = False
    tok = tokens(P)
    for f in P.funcs.values():
        if f["q"] == Q + "Scanner::Scanner" and f.get("body") and not f.get("copy"):
            e = Eng(P, [num_hook])
            try:
                outs = e.run(f["id"], this=THIS, cls=f["cls"])
            except Undecided as u:
                c.skip("keywords", str(u))
                continue
            for k, st, v in outs:
                t = st.s.get(("G", Q + "STLDriver::reserved"))
                if t is None:
                    continue
                some = True
                got = {}
                while t[0] in ("upd", "ins") and t[2][0] == "key" and t[2][1][0] == "str":
                    got.setdefault(t[2][1][1], t[3])
                    t = t[1]
                if t not in (init(("G", Q + "STLDriver::reserved")), ("empty",)):
                    c.skip("keywords", "table built by %s" % t[0])
                    continue
                for w, tk in WORDS.items():
                    x = got.get(w)
                    c.expect(x is not None and x[0] == "enum" and x[1].split("::")[-1] == tk, "keyword:" + w, fl(f), "the word %s is read as %s instead of %s" % (w, x[1].split("::")[-1] if x and x[0] == "enum" else "a name", tk))
                for w in got:
                    c.expect(w in WORDS, "keyword:" + w, fl(f), "the word %s can no longer be used as a name" % w)
    if not some:
        c.skip("keywords", "table not found")
    # lookup of other names
    for r in L.stmts:
        if r <= 0 or r > 200:
            continue
        try:
            e, outs = L.run(r)
        except Undecided:
            continue
        vs = {v[1].split("::")[-1] for k, st, v in outs if k == "return" and v and v[0] == "enum"}
        if "NEW_ID" not in vs:
            continue
        txt = ("app", "substr", init(F(THIS, "yytext")), init(F(THIS, "yyleng")))
        drv = None
        for k, st, v in outs:
            if k != "return" or st.imp:
                c.skip("names", "; ".join(st.imp[:1]) or k)
                continue
            has = {}
            for a, t in st.f.items():
                if a[0] == "has" and a[2] == txt and a[1][0] == "init":
                    has[a[1][1][-1] if a[1][1][0] == "F" else a[1][1][1].split("::")[-1]] = t
            pth = showfacts(st)
            if has.get("reserved") is True:
                c.expect(v[0] == "elem" and v[2] == ("key", txt), "names:reserved", L.line(r), "a keyword is read as %s" % show(v)[:80], pth)
                continue
            # the tables are disjoint, so the order in which they are consulted is not observable
            tk = v[1].split("::")[-1] if v[0] == "enum" else show(v)[:60]
            own = {t: m for m, t in ORDER}
            true = [t for m, t in ORDER if has.get(m) is True]
            if tk == "NEW_ID":
                c.expect(not true, "names:NEW_ID", L.line(r), "a name known as %s is taken for new" % "/".join(true), pth)
                miss = [m for m, t in ORDER + [("reserved", "")] if has.get(m) is None]
                c.expect(not miss, "names:NEW_ID", L.line(r), "a name is taken for new without looking at %s" % ", ".join(miss), pth)
            elif tk in own:
                c.expect(has.get(own[tk]) is True, "names:" + tk, L.line(r), "a name is read as %s without being found in %s" % (tk, own[tk]), pth)
            elif true:
                c.viol("names:" + true[0], L.line(r), "a name known as %s is read as %s" % (true[0], tk), pth)
            else:
                c.viol("names:NEW_ID", L.line(r), "an unknown name is read as %s" % tk, pth)


# ---------------------------------------------------------------- entry points

def entry(P, c):
    """parse_string and parse_stream report success exactly when the parser does (its results are 0, 1 and 2)"""
    pid = find1(P, Q + "Parser::parse", 0)["id"]
    for name in ("parse_stream", "parse_string", "parse_file"):
        for f in find(P, Q + "STLDriver::" + name):
            for res in (0, 1, 2):
                verdict(P, c, f, name, pid, res)


def unreadable(f):
    """is the path one where the file could not be read: True, False, or None when unclear"""
    r = False
    for a, b in f.items():
        if a[0] != "truth":
            continue
        if isinstance(a[1], tuple) and a[1][0] == "stream":
            if b is (a[1][1] in ("fail", "bad", "operator!", "eof")):
                return True
        else:
            r = None
    return r


def given(c, f, name, st, pth):
    """the parser of this driver reads, through the scanner, the text that was given"""
    pe = events(st, "parse")[0]
    sc = [ev for ev in events(st, "scan")]
    par = f["params"][0]["n"] if f["params"] else ""
    text = [("sym", "&" + par), init(("P", ("sym", "&" + par)))]
    if has_unknown(pe[4]) or has_unknown(pe[5]) or len(sc) != 1:
        c.skip(name, "how the parser gets at the text is not understood")
        return
    c.expect(pe[4] == ("ptr", sc[0][1]), name + ":scanner", pe[3], "the parser reads from %s instead of the scanner of this text" % show(pe[4])[:80], pth)
    if pe[5][0] in ("ref", "ptr"):
        c.expect(pe[5][1] == THIS, name + ":driver", pe[3], "the parser fills another driver", pth)
    src = sc[0][2]
    if name == "parse_stream":
        c.expect(src in text, name + ":source", sc[0][3], "the scanner reads %s instead of the stream given" % show(src)[:80], pth)
    elif any(x in subterms(src) for x in text):
        c.expect(not (src[0] == "app" and src[1].startswith("mk:") and src[2] not in text), name + ":source", sc[0][3], "the scanner reads %s instead of what was given" % show(src)[:80], pth)
    elif src[0] == "app" and src[1].startswith("mk:") and len(src) > 2 and not has_unknown(src[2]) and src[2][0] in ("init", "str"):
        c.viol(name + ":source", sc[0][3], "the scanner reads %s instead of what was given" % show(src[2])[:80], pth)
    else:
        opens = [ev for ev in events(st, "io") if ev[1] == "open" and len(ev) > 3 and ev[3]]
        c.expect(any(t in subterms(ev[3][0]) for ev in opens for t in text), name + ":source", sc[0][3], "the scanner reads %s instead of what was given" % show(src)[:80], pth) if opens else c.skip(name, "where the scanner reads from is not understood")


def verdict(P, c, f, name, pid, res):
    def hook(e, fn, loc, dyn, args, st, fr, n):
        if fn["id"] == pid:
            st = st.copy()
            st.ev("parse", loc, e.new(), e.where(fr, n), e.load(st, F(THIS, "lexer")), e.load(st, F(loc, "driver")))
            for m in ("formula_map", "param_map", "signal_map"):
                e.havoc(st, F(THIS, m), "parse")
            return [(st, num(res))]
        if fn.get("cls") == Q + "Scanner" and fn.get("ctor") and args and loc is not None:
            st = st.copy()
            a = args[0]
            src = st.s.get(("F", a[1], "#src")) or e.load(st, a[1]) if a[0] == "ptr" else a
            st.ev("scan", loc, src, e.where(fr, n))
            return e.opaque(fn, loc, args, st, fr, n)
        if fn.get("cls") in ("STLFlexLexer", "FlexLexer", Q + "Scanner") and fn["n"] not in ("Scanner",):
            return [(st, ("void",))] if fn["rt"] == "void" or fn.get("dtor") else None
        return None
    e = Eng(P, [hook])
    try:
        outs = e.run(f["id"], this=THIS, cls=f["cls"])
    except Undecided as u:
        c.skip(name, str(u))
        return
    c.functions |= e.analysed
    for k, st, v in outs:
        c.paths += 1
        pth = showfacts(st)
        imp = [x for x in st.imp if "Scanner::#ctor" not in x]
        if imp or k != "return":
            c.skip(name, "; ".join(imp[:2]) or k)
            continue
        n = len(events(st, "parse"))
        if n == 0 and name == "parse_file":
            c.expect(v in (("bool", False), num(0)), name + ":unreadable", fl(f), "success is reported without parsing anything", pth)
            c.expect(unreadable(st.f) is not False, name + ":unread", fl(f), "a file that can be read is not parsed", pth)
            continue
        c.expect(n == 1, name + ":runs", fl(f), "the parser runs %d times" % n, pth)
        if n == 1:
            given(c, f, name, st, pth)
            if name == "parse_file" and not any(a[0] in ("truth", "isnull", "eq0", "lt0") for a in st.f):
                c.viol(name + ":missing", fl(f), "the text is parsed, and success reported, whether or not the file could be read", pth)
        if isnum(v):
            v = ("bool", v != num(0))
        if v[0] == "bool":
            c.expect(v[1] == (res == 0), name + ":verdict", fl(f), "%s reports %s when the parser returns %d" % (name, "success" if v[1] else "failure", res), pth)
        else:
            c.skip(name, "verdict %s" % show(v)[:80])
