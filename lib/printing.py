"""Printed formulas: the text every node class prints, tokenised by the scanner's automaton and parsed by the LALR tables."""
from formula_text import *
from ctx import Ctx

EXPR = {"signal_transducer": (), "constant_transducer": (), "abs_transducer": ("child",), "plus_transducer": ("childL", "childR"), "minus_transducer": ("childL", "childR"), "mult_transducer": ("childL", "childR")}
FORM = {"not_transducer": ("child",), "and_transducer": ("childL", "childR"), "or_transducer": ("childL", "childR"), "implies_transducer": ("childL", "childR"), "ev_transducer": ("child",),
        "alw_transducer": ("child",), "until_transducer": ("childL", "childR"), "stl_atom": ("childL", "childR")}
KIDS = dict(EXPR, **FORM)
SIGS = {("NOT", "_"): ("not_transducer", {"child": 2}), ("DIAMOND", "_", "_"): ("ev_transducer", {"I": 2, "child": 3}), ("BOX", "_", "_"): ("alw_transducer", {"I": 2, "child": 3}),
        ("_", "UNTIL", "_", "_"): ("until_transducer", {"childL": 1, "I": 3, "childR": 4}), ("ABS", "LPAREN", "_", "RPAREN"): ("abs_transducer", {"child": 3})}
for _t, _c in (("AND", "and"), ("OR", "or"), ("IMPLIES", "implies"), ("PLUS", "plus"), ("MINUS", "minus"), ("MULT", "mult")):
    SIGS[("_", _t, "_")] = (_c + "_transducer", {"childL": 1, "childR": 3})
IV = ("P", init(F(THIS, "I")))


def kind(cls):
    return "expr" if cls in EXPR else "form"


def kidkind(cls):
    return "form" if cls in FORM and cls != "stl_atom" else "expr"


class Bad(Exception):
    pass


class Dunno(Exception):
    pass


# ---------------------------------------------------------------- what a node prints

def child_hook(e, fn, loc, dyn, args, st, fr, n):
    """a child's text is a hole of its own"""
    if fn["n"] != "print" or len(args) != 1 or not fn.get("virt") or dyn is not None or loc is None or loc == THIS:
        return None
    a = args[0]
    if a[0] != "ref":
        return None
    l = e.canon(st, a[1])
    st = st.copy()
    t = e.text(st, l)
    st.s[F(l, "#text")] = ("cat",) + (t[1:] if t[0] == "cat" else (t,)) + (("child", loc),)
    return [(st, ("void",))]


def templates(P, c):
    """class -> (function, [(parts, facts)])"""
    out = {}
    base = [f for f in find(P, Q + "transducer::print", 1)]
    if len(base) != 1:
        c.skip("print", "declaration not found")
        return out
    for cls in KIDS:
        q = Q + cls
        if q not in P.recs:
            c.skip(cls, "class not found")
            continue
        fid = P.final_overrider(q, base[0]["id"])
        f = P.funcs.get(fid)
        if not f or not f.get("body"):
            c.skip(cls, "print has no body")
            continue
        e = Eng(P, [child_hook], inline_io=True)
        try:
            outs = e.run(f["id"], this=THIS, cls=q)
        except Undecided as u:
            c.skip(cls + "::print", str(u))
            continue
        c.functions |= e.analysed
        ts = []
        for k, st, v in outs:
            c.paths += 1
            if st.imp or k != "return":
                c.skip(cls + "::print", "; ".join(st.imp[:1]) or k)
                continue
            os = [l for l in st.s if l[0] == "F" and l[2] == "#text" and e.root(l) and e.root(l)[0] == "P"]
            comp = [a for a in st.f if a[0] == "eq0" and has_sub(a, init(F(THIS, "comp")))]
            if cls == "stl_atom" and comp and not any(st.f[a] for a in comp):
                vals = {a for a in comp}
                if len(vals) >= 2:
                    continue        # a comparison that is neither < nor >
            if len(os) > 1:
                c.skip(cls + "::print", "several streams")
                continue
            t = st.s[os[0]] if os else None
            if t is None:
                ps = []
            else:
                xs = t[1:] if t[0] == "cat" else (t,)
                if xs[0] != ("init", os[0]):
                    c.skip(cls + "::print", "stream rewritten")
                    continue
                ps = [x for x in xs[1:] if x != ("str", "")]
            if any(has_unknown(x) or x[0] not in ("str", "fmt", "init", "child", "fld") for x in ps):
                c.skip(cls + "::print", "text " + show(("cat",) + tuple(ps))[:120])
                continue
            ts.append((ps, st.f, showfacts(st)))
        out[cls] = (f, ts)
    return out


# ---------------------------------------------------------------- tokens of a text

def hole_steps(x):
    """automaton of a hole: start, transitions, accepting states"""
    if x[0] == "fmt":
        return "S", {"S": [(frozenset([45]), "m"), (DIG, "i")], "m": [(DIG, "i")], "i": [(DIG, "i"), (frozenset([46]), "p")], "p": [(DIG, "f")], "f": [(DIG, "f")]}, ("i", "f")
    return "S", {"S": [(ID1, "n")], "n": [(IDN, "n")]}, ("n",)


class Tokens:
    def __init__(self, P, c):
        self.D, self.L = Dfa(P), Lex(P)
        self.cls = {}
        self.P = P
        self.mute = Ctx("R01", "quick")
        self.text = ("app", "substr", init(F(THIS, "yytext")), init(F(THIS, "yyleng")))
        self.first = {"expr": set(), "form": set()}      # characters a child can begin with
        self.last = {"expr": set(), "form": set()}       # automaton states a child can end in
        self.kw = keywords(P)
        c.functions |= {self.L.fn["id"]}

    def klass(self, d):
        r = self.D.accept[d]
        if not r:
            return None
        if r not in self.cls:
            self.cls[r] = rule_class(self.P, self.mute, self.L, r, self.text)
        return self.cls[r]

    def joins(self, q, ch):
        """would the character be read into the token that ends in state q (blanks may run together)"""
        if q == self.D.start:
            return False
        d = self.D.step(q, ch)
        return d != self.D.jam and not (self.klass(q) == "skip" and self.klass(d) == "skip")

    def token(self, d, cur, parts):
        """grammar symbol and content of a finished token"""
        k = self.klass(d)
        if k is None:
            raise Dunno("a token needs backing up")
        txt = "".join(x if isinstance(x, str) else "\u00b7" for x in cur)
        if k == "skip":
            return None
        if k == "word":
            if len(cur) == 1 and isinstance(cur[0], int):
                return ("NAME", parts[cur[0]])
            if all(isinstance(x, str) for x in cur):
                w = "".join(cur)
                return (self.kw.get(w, "NEW_ID"), ("str", w))
            raise Bad("\"%s\" runs a name together with other letters" % txt)
        if k == "char":
            return ("".join(cur), None)
        if k == "?" or k.startswith("mixed"):
            raise Dunno("scanner rule not recognised")
        if k == "CONSTANT":
            if len(cur) == 1 and isinstance(cur[0], int):
                return (k, parts[cur[0]])
            if all(isinstance(x, str) for x in cur):
                return (k, ("str", "".join(cur)))
            raise Bad("\"%s\" runs a number together with other characters" % txt)
        if not all(isinstance(x, str) for x in cur):
            raise Bad("a name or number is read as part of the token \"%s\"" % txt)
        return (k, ("str", "".join(cur)))

    def run(self, parts, kk, final):
        """token sequences of a template; first characters and last states are returned too"""
        D = self.D
        first, last, seqs = set(), set(), set()
        # state: (part, position in part, automaton state or None before the first character, pending text, after child?, tokens)
        todo, seen = [(0, 0, D.start, (), False, ())], set()

        def emit(d, cur, toks):
            if not cur:
                return toks
            t = self.token(d, cur, parts)
            return toks if t is None else toks + (t,)
        while todo:
            s = todo.pop()
            if s in seen:
                continue
            seen.add(s)
            if len(seen) > 20000:
                raise Dunno("too many tokenisations")
            i, o, d, cur, after, toks = s
            if i == len(parts):
                if after:
                    last |= self.last[kk]
                else:
                    last.add(d)
                seqs.add(emit(d, cur, toks))
                continue
            x = parts[i]
            if x[0] == "child":
                for ch in self.first[kk]:
                    if i == 0:
                        first.add(ch)
                    for q in (self.last[kk] if after else [d]):
                        if final and self.joins(q, ch):
                            raise Bad("the text before an operand and the operand's first character %r form one token" % chr(ch))
                todo.append((i + 1, 0, D.start, (), True, emit(d, cur, toks) + (("KID", x[1]),)))
                continue
            if x[0] == "str":
                if o == len(x[1]):
                    todo.append((i + 1, 0, d, cur, after, toks))
                    continue
                nxt = [(frozenset([ord(x[1][o])]), o + 1)]
                name = x[1][o]
            else:
                st, tr, acc = hole_steps(x)
                cs = st if o == 0 else o
                if cs in acc:
                    todo.append((i + 1, 0, d, cur, after, toks))
                nxt = tr.get(cs, [])
                name = i
            for chars, o2 in nxt:
                for ch in chars:
                    if not cur and not after and not toks and d == D.start:
                        first.add(ch)
                    if after:
                        for q in self.last[kk]:
                            if final and self.joins(q, ch):
                                raise Bad("the end of an operand and the character %r that follows form one token" % chr(ch))
                        d2, cur2, toks2 = D.step(D.start, ch), (), toks
                    else:
                        d2, cur2, toks2 = D.step(d, ch), cur, toks
                        if d2 == D.jam:
                            toks2 = emit(d, cur, toks)
                            d2, cur2 = D.step(D.start, ch), ()
                    if d2 == D.jam:
                        raise Bad("the character %r is not read by the scanner" % chr(ch))
                    if isinstance(name, int):
                        cur2 = cur2 if cur2 and cur2[-1] == name else cur2 + (name,)
                    else:
                        cur2 = cur2 + (name,)
                    todo.append((i, o2, d2, cur2, False, toks2))
        return seqs, first, last


def keywords(P):
    """reserved words and their tokens, as the scanner's constructor registers them"""
    out = {}
    for f in P.funcs.values():
        if f["q"] == Q + "Scanner::Scanner" and f.get("body") and not f.get("copy"):
            e = Eng(P, [num_hook])
            for k, st, v in e.run(f["id"], this=THIS, cls=f["cls"]):
                t = st.s.get(("G", Q + "STLDriver::reserved"))
                while t is not None and t[0] in ("upd", "ins") and t[2][0] == "key" and t[2][1][0] == "str":
                    out.setdefault(t[2][1][1], t[3][1].split("::")[-1] if t[3][0] == "enum" else "?")
                    t = t[1]
    return out


# ---------------------------------------------------------------- parsing a token sequence

class Reader:
    def __init__(self, P, c, g):
        self.g = g
        self.num = {v: k for k, v in g.names.items()}
        self.sig = {r: tuple(g.sym(x) if x < g.ntok else "_" for x in rhs) for r, (l, rhs) in g.prods.items()}
        self.result = {}            # class -> nonterminal its text is reduced to
        self.first = {"expr": set(), "form": set()}      # tokens a child's text can begin with
        self.FORMNT = {l for r, (l, rhs) in g.prods.items() if self.sig[r] == ("NOT", "_")}
        self.ops = {l for r, (l, rhs) in g.prods.items() if self.sig[r] in (("LT",), ("GT",))}
        self.ivs = {l for r, (l, rhs) in g.prods.items() if self.sig[r][:1] == ("LINT",)}
        self.strs = {x for r, (l, rhs) in g.prods.items() if l in self.ivs for x in rhs if x >= g.ntok}

    def value(self, r, vs):
        g, sig = self.g, self.sig[r]
        l = g.prods[r][0]
        if sig in SIGS:
            cls, ks = SIGS[sig]
            return ("node", cls, tuple(sorted((k, vs[i - 1]) for k, i in ks.items())))
        if sig == ("LPAREN", "_", "RPAREN"):
            return vs[1]
        if sig[:1] == ("LINT",) and sig[-1:] == ("RINT",) and len(sig) in (4, 5):
            return ("ivl", vs[1], vs[-2])
        if sig in (("CONSTANT",), ("PARAM_ID",)):
            return vs[0] if l in self.strs else ("node", "constant_transducer", (("text", vs[0]),))
        if sig == ("SIGNAL_ID", "LINT", "TIME", "RINT"):
            return ("node", "signal_transducer", (("variable", vs[0]),))
        if sig in (("LT",), ("GT",)):
            return ("op", sig[0])
        if sig == ("_", "_", "_") and g.prods[r][1][1] in self.ops:
            return ("node", "stl_atom", (("childL", vs[0]), ("childR", vs[2]), ("comp", vs[1])))
        if len(vs) == 1 and sig == ("_",):
            return vs[0]
        return ("other", g.show(r))

    def reduce(self, stack, a, base=1):
        """stack after the reductions made on lookahead a; stack entries are (state, value)"""
        g = self.g
        for _ in range(200):
            act = g.action(stack[-1][0], a)
            if act[0] != "reduce":
                return stack, act
            stack = self.once(stack, act[1])
        raise Dunno("reductions do not end")

    def once(self, stack, r):
        g = self.g
        n = len(g.prods[r][1])
        if n >= len(stack):
            raise Bad("it is attached to the text before it (%s)" % g.show(r))
        vs = [v for s, v in stack[len(stack) - n:]] if n else []
        stack = stack[:len(stack) - n]
        nt = g.prods[r][0]
        to = g.goto(stack[-1][0], nt)
        return stack + [(to, self.value(r, vs))]

    def parse(self, q0, cls, toks, la, goals):
        """reads one class's token sequence from state q0 with lookahead la after it -> set of (nonterminal, value)"""
        g = self.g
        kk = kidkind(cls)
        done = set()

        def nextla(i):
            if i == len(toks):
                return {la}
            if toks[i][0] == "KID":
                return self.first[kk]
            return self.sym(toks[i])

        def go(i, stack):
            if i == len(toks):
                for _ in range(200):
                    if len(stack) == 2 and isinstance(stack[1][1], tuple) and stack[1][1][:2] == ("node", cls) and all(x[1] is not None for x in [stack[1]]):
                        done.add((g.stos[stack[1][0]], stack[1][1]))
                        return
                    act = g.action(stack[-1][0], la)
                    if act[0] != "reduce":
                        raise Bad("it is not complete before %s" % g.sym(la) if act[0] == "shift" else "it is refused before %s" % g.sym(la))
                    if len(g.prods[act[1]][1]) >= len(stack):
                        v = stack[1][1] if len(stack) == 2 else None
                        raise Bad("it is read as %s" % show_value(v) if v is not None else "it is attached to the text before it (%s)" % g.show(act[1]))
                    stack = self.once(stack, act[1])
                raise Dunno("reductions do not end")
            t = toks[i]
            if t[0] == "KID":
                stacks = set()
                for a in self.first[kk]:
                    s2, act = self.reduce(stack, a)
                    if act[0] != "shift":
                        raise Bad("an operand beginning with %s is refused" % g.sym(a))
                    stacks.add(tuple(s2))
                if not stacks:
                    return
                if len(stacks) != 1:
                    raise Dunno("the operand's first token decides")
                s2 = list(stacks.pop())
                for a in nextla(i + 1):
                    goals.add((s2[-1][0], kk, a))
                for x in {self.result[k] for k in KIDS if kind(k) == kk and k in self.result}:
                    to = g.goto(s2[-1][0], x)
                    if (s2[-1][0], x) not in g.edge:
                        raise Bad("an operand cannot stand here")
                    go(i + 1, s2 + [(to, ("kid", t[1]))])
                return
            for a in self.sym(t):
                s2, act = self.reduce(stack, a)
                if act[0] != "shift":
                    raise Bad("%s is refused%s" % (g.sym(a), "" if t[1] is None or t[1][0] != "str" else " (\"%s\")" % t[1][1]))
                go(i + 1, s2 + [(act[1], ("tok", g.sym(a), t[1]))])
        go(0, [(q0, None)])
        return done

    def sym(self, t):
        """grammar symbol(s) of a token"""
        n = t[0]
        if n == "NAME":
            n = "SIGNAL_ID" if t[1] == init(F(THIS, "variable")) else "PARAM_ID"
        if n not in self.num:
            raise Bad("the token %s is not used by the grammar" % n)
        return {self.num[n]}


def show_value(v):
    if v[0] == "node":
        return "a %s" % v[1]
    if v[0] == "kid":
        return "its operand alone"
    return v[0]


# ---------------------------------------------------------------- rule

def printing(P, c):
    try:
        g = Grammar(P)
        T = Tokens(P, c)
    except (LookupError, ValueError, IndexError, KeyError, TypeError, Undecided) as x:
        c.skip("tables", "not recognised: %s" % x)
        return
    tpl = templates(P, c)
    if len(tpl) < len(KIDS):
        c.skip("printing", "not every node class could be read; operands of unread classes are left out")
    # characters and automaton states at the borders of operands: least fixed point
    bad = set()
    for _ in range(50):
        before = ({k: set(v) for k, v in T.first.items()}, {k: set(v) for k, v in T.last.items()})
        for cls, (f, ts) in tpl.items():
            for j, (ps, fs, pth) in enumerate(ts):
                try:
                    seqs, fi, la = T.run(ps, kidkind(cls), False)
                except (Bad, Dunno):
                    continue
                T.first[kind(cls)] |= fi
                T.last[kind(cls)] |= la
        if before == (T.first, T.last):
            break
    seqs = {}
    R = Reader(P, c, g)
    for cls, (f, ts) in tpl.items():
        for j, (ps, fs, pth) in enumerate(ts):
            try:
                ss, fi, la = T.run(ps, kidkind(cls), True)
            except Bad as b:
                c.viol("print:%s:tokens" % cls, fl(f), "the printed form %s of a %s: %s" % (shape(ps), cls, b), pth)
                continue
            except Dunno as u:
                c.skip(cls + "::print", str(u))
                continue
            if len(ss) != 1:
                c.viol("print:%s:tokens" % cls, fl(f), "the printed form %s of a %s is tokenised differently depending on its names and numbers" % (shape(ps), cls), pth)
                continue
            s = ss.pop()
            if not s:
                c.viol("print:%s:empty" % cls, fl(f), "a %s prints nothing" % cls, pth)
                continue
            c.ok()
            seqs.setdefault(cls, []).append((s, ps, fs, pth))
    # first tokens of operands
    for _ in range(20):
        before = {k: set(v) for k, v in R.first.items()}
        for cls, xs in seqs.items():
            for s, ps, fs, pth in xs:
                try:
                    R.first[kind(cls)] |= R.first[kidkind(cls)] if s[0][0] == "KID" else R.sym(s[0])
                except Bad:
                    pass
        if before == R.first:
            break
    # contexts in which a formula is written
    goals = set()
    follow = follows(g)
    for r, (l, rhs) in g.prods.items():
        for i, x in enumerate(rhs):
            if x in R.FORMNT and l not in R.FORMNT and i > 0:
                las = {rhs[i + 1]} if i + 1 < len(rhs) and rhs[i + 1] < g.ntok else follow.get(l, set())
                for s in range(g.nstates):
                    if g.stos[s] == rhs[i - 1] and (s, x) in g.edge:
                        for a in las:
                            if r in g.done and g.done[r]:
                                goals.add((s, "form", a))
    if not goals:
        c.skip("contexts", "no place for a formula found in the grammar")
        return
    top = set(goals)
    # the nonterminal each class's text is reduced to, found bottom-up by the first context in which it parses
    reported, seen, todo = set(), set(), set(goals)
    values = {}
    rounds = 0
    while True:
        rounds += 1
        before = dict(R.result), set(todo)
        errs = []
        for (q, k, a) in sorted(todo):
            for cls, xs in seqs.items():
                if kind(cls) != k:
                    continue
                for s, ps, fs, pth in xs:
                    new = set()
                    try:
                        got = R.parse(q, cls, s, a, new)
                    except Bad as b:
                        errs.append((cls, ps, pth, q, a, str(b)))
                        continue
                    except Dunno as u:
                        errs.append((cls, ps, pth, q, a, None))
                        continue
                    finally:
                        todo = todo | new
                    for x, v in got:
                        if cls in R.result and R.result[cls] != x:
                            errs.append((cls, ps, pth, q, a, None))
                        R.result.setdefault(cls, x)
                        values.setdefault((cls, s), set()).add(v)
        if (dict(R.result), todo) == before or rounds > 60:
            break
    for cls, ps, pth, q, a, why in errs:
        if why is None:
            c.skip(cls + "::print", "reading it back is not decided")
        else:
            c.viol("print:%s:parse" % cls, fl(tpl[cls][0]), "the printed form %s of a %s, followed by %s: %s" % (shape(ps), cls, g.sym(a), why), pth)
    c.sites += ["%s prints %s, read as %s" % (cls, shape(ps), " ".join(show_tok(t) for t in s)) for cls, xs in seqs.items() for s, ps, fs, pth in xs]
    c.sites.append("%d parser contexts (state, operand kind, lookahead)" % len(todo))
    c.paths += len(todo)
    n = 0
    for cls, xs in seqs.items():
        for s, ps, fs, pth in xs:
            for v in values.get((cls, s), ()):
                n += 1
                content(P, c, cls, fl(tpl[cls][0]), ps, fs, pth, v)
            if not values.get((cls, s)) and not any(e[0] == cls for e in errs):
                c.skip(cls + "::print", "no context reached")


def content(P, c, cls, w, ps, fs, pth, v):
    """the node read back has the operands, interval, operator, name and number of the printed one"""
    d = dict(v[2])
    for k in KIDS[cls]:
        c.expect(d.get(k) == ("kid", ("P", init(F(THIS, k)))), "print:%s:%s" % (cls, k), w, "the printed form %s of a %s reads back with %s" % (shape(ps), cls, "its operands exchanged" if len(KIDS[cls]) == 2 else "another operand"), pth)
    if "I" in d:
        if d["I"][0] != "ivl":
            c.viol("print:%s:interval" % cls, w, "the interval of the printed form %s is not read back" % shape(ps), pth)
        else:
            for what, t in (("begin", d["I"][1]), ("end", d["I"][2])):
                scalar(c, "print:%s:%s" % (cls, what), w, "the interval's %s in %s" % (what, shape(ps)), t[2], F(IV, what), F(IV, what + "_str"), fs, pth)
    if cls == "constant_transducer":
        scalar(c, "print:%s" % cls, w, "the constant", d["text"][2], F(THIS, "value"), F(THIS, "param"), fs, pth)
    if cls == "signal_transducer":
        c.expect(d["variable"][2] == init(F(THIS, "variable")), "print:%s:variable" % cls, w, "a signal prints as %s" % shape(ps), pth)
    if cls == "stl_atom":
        op = d["comp"][1]
        want = {"LT": "LESSTHAN", "GT": "GREATERTHAN"}[op]
        en = comparators(P)
        x = init(F(THIS, "comp"))
        if want not in en:
            c.skip("stl_atom::print", "comparison modes not found")
            return
        t = decide(fs, cond(("eq0", sub(x, num(en[want]))))) if en[want] else decide(fs, cond(("eq0", x)))
        others = [decide(fs, cond(("eq0", sub(x, num(k)) if k else x))) for n_, k in en.items() if n_ != want]
        if t is True or (others and all(o is False for o in others)):
            c.ok()
        else:
            c.viol("print:stl_atom:comp", w, "%s is printed for a comparison that is not known to be %s" % ("<" if op == "LT" else ">", want), pth)


def comparators(P):
    return {n["n"]: n["iv"] for f in P.funcs.values() for n in walk(f) if n.get("k") == "Ref" and n.get("rk") == "enum" and n.get("t", "").endswith("comparator") and "iv" in n}


def scalar(c, key, w, what, got, numloc, strloc, fs, pth):
    """number printed when there is no name, name otherwise"""
    nameless = decide(fs, cond(("streq", init(strloc), ("str", ""))))
    if nameless is None:
        nameless = decide(fs, isempty(init(strloc)))
    if got == init(strloc):
        c.expect(nameless is False, key, w, "%s is printed as a name without there being one" % what, pth)
    elif got[0] == "fmt" and got[1] == init(numloc):
        c.expect(nameless is True, key, w, "%s is printed as a number although it may have a name" % what, pth)
    else:
        c.viol(key, w, "%s is printed as %s" % (what, show(got)[:80]), pth)


def follows(g):
    """tokens that may follow each nonterminal"""
    nullable, first, follow = set(), {}, {}
    ch = True
    while ch:
        ch = False
        for r, (l, rhs) in g.prods.items():
            fi = first.setdefault(l, set())
            b = (len(fi), l in nullable)
            for x in rhs:
                fi |= {x} if x < g.ntok else first.get(x, set())
                if x < g.ntok or x not in nullable:
                    break
            else:
                nullable.add(l)
            ch |= (len(fi), l in nullable) != b
    ch = True
    while ch:
        ch = False
        for r, (l, rhs) in g.prods.items():
            for i, x in enumerate(rhs):
                if x < g.ntok:
                    continue
                fo = follow.setdefault(x, set())
                b = len(fo)
                for y in rhs[i + 1:]:
                    fo |= {y} if y < g.ntok else first.get(y, set())
                    if y < g.ntok or y not in nullable:
                        break
                else:
                    fo |= follow.get(l, set())
                ch |= len(fo) != b
    return follow


def shape(ps):
    return "\"" + "".join(x[1] if x[0] == "str" else "<%s>" % x[1][1][-1] if x[0] == "child" and x[1][1][0] == "F" else "<operand>" if x[0] == "child" else "<number>" if x[0] == "fmt" else "<name>" for x in ps) + "\""


def show_tok(t):
    if t[0] == "KID":
        return "<operand>"
    return t[0]
