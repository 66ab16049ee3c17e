"""Formula text: the parser's LALR tables, semantic actions and the scanner's automaton, read from the sources."""
from util import *
import sigops
from engine import Frame


def walk(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            yield from walk(v)
    elif isinstance(n, list):
        for v in n:
            yield from walk(v)


def const(n):
    """integer value of a constant initialiser"""
    k = n["k"]
    if k in ("Int", "Char"):
        return int(n["v"])
    if k == "Cast" or k == "Const":
        return const(n["c"][0])
    if k == "Un" and n["op"] == "-":
        return -const(n["c"][0])
    if k == "Ref" and "iv" in n:
        return n["iv"]
    if k == "InitList":
        return [const(x) for x in n["c"]]
    raise ValueError(k)


class Table:
    def __init__(self, P):
        self.P = P

    def __call__(self, q):
        g = self.P.globals.get(q)
        if g is None:
            raise LookupError(q)
        if g.get("table"):
            return [int(x) for x in g["table"]]
        return const(g["init"])


def tokens(P):
    """enumerator name -> external token number, from every reference in the sources"""
    out = {}
    for f in P.funcs.values():
        for n in walk(f.get("body")):
            if n.get("k") == "Ref" and n.get("rk") == "enum" and "::token::" in n.get("q", ""):
                out[n["q"].split("::")[-1]] = n["iv"]
    return out


class Grammar:
    """productions and LALR automaton"""

    def __init__(self, P):
        self.P = P
        T = Table(P)
        p = Q + "Parser::yy"
        self.pact, self.defact, self.pgoto, self.defgoto = T(p + "pact_"), T(p + "defact_"), T(p + "pgoto_"), T(p + "defgoto_")
        self.table, self.chk, self.stos, self.r1, self.r2 = T(p + "table_"), T(p + "check_"), T(p + "stos_"), T(p + "r1_"), T(p + "r2_")
        self.ninf, self.tninf = T(p + "pact_ninf_"), T(p + "table_ninf_")
        tr = [g for q, g in P.globals.items() if q.startswith("translate_table")]
        self.trans = [int(x) for x in tr[0]["table"]]
        self.names = {}
        self.tok = tokens(P)
        for n, v in self.tok.items():
            self.names[self.trans[v]] = n
        for i in range(1, 256):
            if self.trans[i] != 2:
                self.names[self.trans[i]] = chr(i)
        self.names.setdefault(0, "END")
        self.ntok = min(x for x in self.r1[1:])     # first nonterminal number
        self.nstates = len(self.pact)
        # the states that complete each production
        self.done = {}
        for s in range(self.nstates):
            for t in list(range(self.ntok)) + [None]:
                a = self.action(s, t) if t is not None else (("reduce", self.defact[s]) if self.defact[s] else ("err",))
                if a[0] == "reduce":
                    self.done.setdefault(a[1], set()).add(s)
        # transitions: shifts, then the gotos that some reduction can take (least fixed point)
        self.edge, self.pred = {}, {}
        for s in range(self.nstates):
            for t in range(self.ntok):
                a = self.action(s, t)
                if a[0] == "shift":
                    self.edge[(s, t)] = a[1]
                    self.pred.setdefault(a[1], set()).add(s)
        grew = True
        while grew:
            grew = False
            for r, ds in self.done.items():
                for d in ds:
                    cur = {d}
                    for _ in range(self.r2[r]):
                        cur = {y for x in cur for y in self.pred.get(x, ())}
                    for s in cur:
                        if (s, self.r1[r]) not in self.edge:
                            t = self.goto(s, self.r1[r])
                            if t is not None:
                                self.edge[(s, self.r1[r])] = t
                                self.pred.setdefault(t, set()).add(s)
                                grew = True
        self.prods = {}
        for r in range(1, len(self.r1)):
            rhs = self.rhs(r)
            if rhs is not None:
                self.prods[r] = (self.r1[r], rhs)

    def action(self, s, t):
        n = self.pact[s]
        if n == self.ninf:
            return ("reduce", self.defact[s]) if self.defact[s] else ("err",)
        i = n + t
        if i < 0 or i >= len(self.table) or self.chk[i] != t:
            return ("reduce", self.defact[s]) if self.defact[s] else ("err",)
        a = self.table[i]
        if a <= 0:
            if a == self.tninf:
                return ("err",)
            return ("reduce", -a)
        return ("shift", a)

    def goto(self, s, nt, strict=False):
        k = nt - self.ntok
        i = self.pgoto[k] + s
        if 0 <= i < len(self.table) and self.chk[i] == s:
            return self.table[i]
        d = self.defgoto[k]
        return d if d >= 0 else None

    def rhs(self, r):
        n = self.r2[r]
        best = None
        for s in self.done.get(r, ()):
            cur, seq = {s}, []
            for _ in range(n):
                syms = {self.stos[x] for x in cur}
                if len(syms) != 1:
                    return None
                seq.append(syms.pop())
                cur = {y for x in cur for y in self.pred.get(x, ())}
            seq.reverse()
            if best is not None and best != seq:
                return None
            best = seq
        return best

    def sym(self, x):
        return self.names.get(x, "tok%d" % x) if x < self.ntok else "N%d" % x

    def show(self, r):
        l, rhs = self.prods[r]
        return "%s: %s" % (self.sym(l), " ".join(self.sym(x) for x in rhs))


RES = ("P", ("sym", "&yylhs"))


# ---------------------------------------------------------------- semantic actions

def switch_of(fn):
    sw = [n for n in walk(fn["body"]) if n.get("k") == "Switch"]
    sw = [n for n in sw if len([x for x in walk(n) if x.get("k") == "Case"]) > 3]
    if not sw:
        raise LookupError("no switch in %s" % fn["q"])
    return max(sw, key=lambda n: len([x for x in walk(n) if x.get("k") == "Case"]))


def cases_of(sw):
    """statements run for each case value, up to the break (falling through consecutive labels)"""
    body = sw["body"] if "body" in sw else sw["c"][-1]
    flat, stmts = [], {}
    for x in body["c"]:
        while x and x.get("k") in ("Case", "Default"):
            flat.append(("label", x.get("iv") if x["k"] == "Case" else None))
            x = x.get("sub")
        if x:
            flat.append(("stmt", x))
    for i, (k, v) in enumerate(flat):
        if k == "label" and v is not None:
            out = []
            for k2, x in flat[i + 1:]:
                if k2 == "stmt":
                    out.append(x)
                    if x.get("k") in ("Break", "Goto", "Return"):
                        break
            stmts[v] = out
    return stmts


class Actions:
    """runs the action of one production on symbolic operand values"""

    def __init__(self, P, hooks=()):
        self.P = P
        self.hooks = list(hooks)
        self.fn = find1(P, Q + "Parser::parse", 0)
        sw = switch_of(self.fn)
        self.stmts = cases_of(sw)
        # declaration of the result symbol
        ids = {}
        for n in walk(sw):
            if n.get("k") == "Ref" and n.get("rk") == "var" and "stack_symbol_type" in n.get("vt", n.get("t", "")):
                ids[n["id"]] = n["n"]
        self.lhs = None
        for n in walk(self.fn["body"]):
            if n.get("k") == "Decl":
                for v in n["c"]:
                    if v.get("id") in ids:
                        self.lhs = (n, v)

    def line(self, r):
        xs = self.stmts.get(r)
        return "%s:%s" % (self.fn["file"], xs[0].get("l")) if xs else fl(self.fn)

    def run(self, r):
        """[(kind, state, frame-location of the result)] with kind return / error"""
        def fix(n):
            if isinstance(n, dict):
                if n.get("k") == "Goto":
                    return {"k": "Throw", "l": n.get("l"), "tt": "YYERROR", "yyerr": n.get("n")}
                return {k: fix(v) for k, v in n.items()}
            if isinstance(n, list):
                return [fix(x) for x in n]
            return n
        body = {"k": "Block", "l": 0, "c": [fix(x) for x in self.stmts[r] if x.get("k") != "Break"] + [{"k": "Return", "l": 0, "v": None}]}
        f = dict(self.fn)
        par = {"id": self.lhs[1]["id"], "n": self.lhs[1]["n"], "t": self.lhs[1]["t"] + " &"}
        f.update(id="STLRom::Parser::parse#%d" % r, params=[par], body=body, rt="void")
        e = Eng(self.P, self.hooks)
        e.abrupt.append([])
        st = St()
        e.analysed.add(self.fn["id"])
        res = e.inline(f, THIS, [("ref", RES)], st, None, {"l": f["line"]}, cls=self.fn["cls"])
        ab = e.abrupt.pop()
        return e, [("return", s, v) for s, v in res] + ab


def num_hook(e, fn, loc, dyn, args, st, fr, n):
    """text to number: an abstract partial function; the number is written only where it is defined"""
    if fn["n"] != "s_to_d" or len(args) != 2:
        return None
    a, b = args
    sv = e.load(st, a[1]) if a[0] == "ref" else a
    if b[0] != "ref":
        return None
    out = []
    for s, v in two(e, st, ("numeric", sv)):
        s = s.copy()
        e.store(s, b[1], ("app", "number", sv) if v else ("app", "nonumber", sv), fr, n)
        out.append((s, TRUE if v else FALSE))
    return out


def two(e, st, atom):
    out = []
    for pol in (True, False):
        s = e.assume(st, cond(atom), pol)
        if s is not None:
            out.append((s, pol))
    return out


# ---------------------------------------------------------------- scanner

class Dfa:
    """the scanner's automaton from its compressed tables"""

    def __init__(self, P):
        T = Table(P)
        self.accept, self.ec, self.meta, self.base, self.defs, self.nxt, self.chk = [T("yy_" + x) for x in ("accept", "ec", "meta", "base", "def", "nxt", "chk")]
        self.n = len(self.accept)
        self.jam = self.n - 1
        self.start = 1

    def step(self, s, c):
        x = self.ec[c]
        while self.chk[self.base[s] + x] != s:
            s = self.defs[s]
            if s >= self.n:
                x = self.meta[x]
        return self.nxt[self.base[s] + x]


class Nfa:
    """nondeterministic automaton of the specification's token classes"""

    def __init__(self):
        self.eps, self.tr, self.acc = {}, {}, {}
        self.k = 0
        self.start = self.new()

    def new(self):
        self.k += 1
        self.eps[self.k], self.tr[self.k] = set(), []
        return self.k

    def build(self, x, a):
        """adds x from state a, returns the end state"""
        if isinstance(x, str):
            for ch in x:
                b = self.new()
                self.tr[a].append((frozenset([ord(ch)]), b))
                a = b
            return a
        if isinstance(x, frozenset):
            b = self.new()
            self.tr[a].append((x, b))
            return b
        op = x[0]
        if op == "seq":
            for y in x[1:]:
                a = self.build(y, a)
            return a
        if op == "alt":
            b = self.new()
            for y in x[1:]:
                self.eps[self.build(y, a)].add(b)
            return b
        if op == "opt":
            b = self.build(x[1], a)
            self.eps[a].add(b)
            return b
        if op == "star":
            m = self.new()
            self.eps[a].add(m)
            self.eps[self.build(x[1], m)].add(m)
            b = self.new()
            self.eps[m].add(b)
            return b
        if op == "plus":
            return self.build(("seq", x[1], ("star", x[1])), a)
        raise ValueError(op)

    def rule(self, prio, cls, x):
        a = self.new()
        self.eps[self.start].add(a)
        self.acc[self.build(x, a)] = (prio, cls)

    def close(self, ss):
        st, out = list(ss), set(ss)
        while st:
            for y in self.eps[st.pop()]:
                if y not in out:
                    out.add(y)
                    st.append(y)
        return frozenset(out)

    def step(self, ss, c):
        return self.close({b for a in ss for cs, b in self.tr[a] if c in cs})

    def cls(self, ss):
        xs = [self.acc[s] for s in ss if s in self.acc]
        return min(xs)[1] if xs else None


class Lex:
    """actions of the scanner's rules"""

    def __init__(self, P):
        self.P = P
        self.fn = find1(P, Q + "Scanner::lex")
        self.stmts = cases_of(switch_of(self.fn))

    def line(self, r):
        xs = self.stmts.get(r)
        return "%s:%s" % (self.fn["file"], xs[0].get("l")) if xs else fl(self.fn)

    def run(self, r):
        body = {"k": "Block", "l": 0, "c": [x for x in self.stmts[r]]}
        e = Eng(self.P, [num_hook])
        e.abrupt.append([])
        e.analysed.add(self.fn["id"])
        fr = Frame(e.new(), THIS, self.fn["cls"], self.fn, None)
        st = St()
        for p in self.fn["params"]:
            st.s[("L", fr.id, p.get("id"), p["n"])] = ("ref", ("P", ("sym", "&" + p["n"]))) if is_ref(p["t"]) else ("sym", p["n"])
        outs = e.exec(body, st, fr)
        return e, outs + e.abrupt.pop()
