"""F01: traces survive the way to a file and back; generated and listed data have the shape they claim."""
from proto import *
from calls import *

DIGITS = 17


def check(P, c):
    c.rule = ("the trace writer puts the values of each row in order, separated by blanks and with enough digits, on a line of their own; the reader turns every line, the last included, into one row of the numbers on it in order, "
              "skips only empty lines, reports success only at the end of the text and refuses a missing file or a word that is not a number; reading replaces the trace; the list of names has each signal at its column; "
              "a generated trace has the requested rows and columns at increasing times.")
    for q in ("STLDriver::dump_trace_file", "STLDriver::print_trace"):
        c.guard(writer, P, c, q)
    c.guard(reader, P, c)
    c.guard(replaces, P, c)
    c.guard(logfile, P, c)
    c.guard(names, P, c)
    c.guard(generated, P, c)


def start(P, c, f, this, inline_io=False):
    e = Eng(P, [], inline_io=inline_io)
    outs = e.run(f["id"], this=this, cls=f.get("cls"))
    c.functions |= e.analysed
    c.paths += len(outs)
    return e, outs


def opened(c, q, st, f, write):
    """the file opened is the one named, and it is written from scratch"""
    name = init(("P", ("sym", "&" + f["params"][0]["n"])))
    for ev in events(st, "io"):
        if ev[1] != "open" or len(ev) < 5 or not ev[3]:
            continue
        vs, cls = ev[3], ev[4]
        if name in subterms(vs[0]):
            c.expect(vs[0] == name, q + ":file", ev[2], "the file opened is %s" % show(vs[0])[:80])
        elif vs[0][0] == "str" or root_of(vs[0]):
            c.viol(q + ":file", ev[2], "the file opened is %s, not the one named" % show(vs[0])[:80])
        if not write:
            continue
        m = vs[1] if len(vs) > 1 else None
        ws = m[1] if m and m[0] == "bits" else (m,) if m else ()
        fl_ = {w[1].split("::")[-1] if w[0] == "enum" else w[1][1].split("::")[-1] if w[0] == "init" and w[1][0] == "G" else "?" for w in ws}
        if "?" in fl_:
            c.skip(q, "open mode not understood")
            continue
        if not ws:
            fl_ = {"out"} if "ofstream" in cls else {"in", "out"}
        if "ofstream" in cls:
            fl_.add("out")
        c.expect("out" in fl_, q + ":mode", ev[2], "the file is not opened for writing")
        c.expect("app" not in fl_ and ("trunc" in fl_ or "in" not in fl_), q + ":mode", ev[2], "what the file held before is kept, so reading it gives other samples as well")


def root_of(v):
    return v[0] == "init" and v[1][0] == "F"


def loops(tr):
    return [ev for ev in tr if ev[0] == "loop"]


def itf(it):
    """(facts, stores) of one iteration"""
    for ev in it:
        if ev[0] == "itfacts":
            return dict(ev[1]), dict(list(ev[2]) + list(ev[3]))
    return {}, {}


def parts(t):
    return list(t[1:]) if isinstance(t, tuple) and t and t[0] == "cat" else [t]


def is_head(t, tl):
    return isinstance(t, tuple) and t and (t[0] == "hv" or t == ("init", tl))


def blank(t):
    return isinstance(t, tuple) and t[0] == "str" and t[1] != "" and t[1].strip() == ""


# ------------------------------------------------------------------ writing
def writer(P, c, q):
    fs = [f for f in find(P, Q + q) if len(f["params"]) == 1]
    if len(fs) != 1:
        raise Broken("anchor vanished: " + q)
    f = fs[0]
    tofile = "string" in f["params"][0]["t"]
    e, outs = start(P, c, f, THIS, inline_io=True)
    data = F(THIS, "data")
    seen = False
    for k, st, v in outs:
        pth = showfacts(st)
        if st.imp:
            c.skip(q, st.imp[0])
            continue
        if k != "return":
            continue
        if tofile and any(a[0] == "truth" and "is_open" in str(a) and b is False for a, b in st.f.items()):
            continue
        ls = [lp for lp in loops(st.trace()) if any(True for it in lp[2] for ev in deep(it) if ev[0] == "wrote")]
        if not ls:
            if decide(st.f, isempty(init(data))) is not True:
                c.skip(q, "no loop over the rows")
            continue
        if len(ls) > 1:
            c.skip(q, "several loops write the rows")
            continue
        seen = True
        if tofile:
            opened(c, q, st, f, True)
        Writer(c, q, data, tofile, pth).rows(ls[0], st)
    if not seen:
        c.skip(q, "no path writes the rows")


def deep(evs):
    for ev in evs:
        if ev[0] == "loop":
            for it in ev[2]:
                yield from deep(it)
        else:
            yield ev


class Writer:
    """the text of one row as an automaton over values, blanks and line ends"""

    def __init__(self, c, q, data, tofile, pth):
        self.c, self.q, self.data, self.tofile, self.pth = c, q, data, tofile, pth

    def viol(self, k, where, what):
        self.c.viol(self.q + ":" + k, where, what, self.pth)

    def rows(self, lp, st):
        self.lp = lp
        self.bounds(lp, 0, ("size", init(self.data)))
        for it in lp[2]:
            if not any(ev[0] == "wrote" and ev[2][0] == "fmt" for ev in deep(it)) and not loops(it):
                f, s = itf(it)
                if all(a[0] == "itend" or at_count(a, lp) for a in f):
                    self.viol("row", lp[3], "a row is reached of which nothing is written")
                elif not any(a[0] == "isempty" for a in f):
                    self.c.skip(self.q, "a row of which nothing is written")
                continue
            self.direct = 0
            out = self.run(it, {("N", 0)}, None)
            for last, nl in out:
                self.c.expect(nl == 1 and last == "N", self.q + ":line", lp[3], "a row is not written as exactly one line (%s)" % (
                    "no line end after its last value" if nl == 0 else "more than one line end" if nl > 1 else "text follows its line end"), self.pth)

    def run(self, evs, states, il):
        for ev in evs:
            if ev[0] == "wrote":
                states = self.put(ev[2], states, ev[3], il)
            elif ev[0] == "loop" and any(x[0] == "wrote" for it in ev[2] for x in deep(it)):
                states = self.loop(ev, states)
        return states

    def loop(self, lp, states):
        if any(x[0] == "wrote" and x[2][0] == "fmt" for it in lp[2] for x in deep(it)):
            self.bounds(lp, self.direct, None)
        variants = {tuple(("V",) if x[2][0] == "fmt" else x[2] for x in deep(it) if x[0] == "wrote") for it in lp[2]}
        if len(variants) > 1:
            # separators that depend on the position: only the first or the last value may lack one
            plain = [it for it in lp[2] if not any(blank(x[2]) for x in deep(it) if x[0] == "wrote")]
            rest = [it for it in lp[2] if it not in plain]
            for it in plain:
                if not self.edge(it, lp):
                    self.c.skip(self.q, "a separator depends on a condition that is not understood")
            for it in rest:
                states = states | self.run(it, states | {("B", nl) for l, nl in states}, lp)
            return states | {("V", nl) for l, nl in states}
        while True:
            new = set(states)
            for it in lp[2]:
                new |= self.run(it, states, lp)
            if new == states:
                return states
            states = new

    def edge(self, it, lp):
        facts, _ = itf(it)
        h = counter(lp)
        for a, b in facts.items():
            if a[0] == "iteq" and b is True:
                return True
            if a[0] == "itend" and b is True:
                return True
        if h:
            return decide(facts, cond(("lt0", sub(h[1], h[0])))) is False or decide(facts, eq(h[0], h[1])) is True or \
                decide(facts, cond(("lt0", sub(h[0], sub(h[2], num(1)))))) is False
        return False

    def put(self, x, states, where, il):
        if x[0] == "str":
            for ch in x[1]:
                if ch == "\n":
                    states = {("N", min(nl + 1, 2)) for l, nl in states}
                elif ch.isspace():
                    states = {("B", nl) for l, nl in states}
                else:
                    self.viol("junk", where, "text other than values and blanks is written (%r)" % x[1])
                    break
            return states
        if x[0] != "fmt":
            if x[0] in ("elem", "app") or not has_unknown(x):
                self.viol("value", where, "%s is written instead of the value" % show(x)[:100])
            else:
                self.c.skip(self.q, "what is written is not understood")
            return {("V", nl) for l, nl in states}
        t = x[1]
        inrow = t[0] == "elem" and t[1][0] == "elem" and t[1][1] == init(self.data)
        if il is None:
            self.direct += 1
        ok = inrow and at(t[1][2], self.lp) and (il is None or at(t[2], il))
        if ok or not (t[0] == "unk" or has_unknown(t) and not at(t, self.lp) and not (il and at(t, il))):
            self.c.expect(ok, self.q + ":what", where, "the value written is %s, not the value at this place of the trace" % show(t)[:100], self.pth)
        if self.tofile:
            d = x[2]
            if d[0] == "num":
                self.c.expect(d[1] >= DIGITS, self.q + ":digits", where, "values are written with %s significant digits: other numbers come back" % show(d), self.pth)
            else:
                self.c.skip(self.q, "number of digits not known")
        for l, nl in states:
            self.c.expect(l != "V", self.q + ":separator", where, "consecutive values are not separated by a blank", self.pth)
            self.c.expect(nl == 0, self.q + ":line", where, "a value of a row is written behind the row's line end", self.pth)
        return {("V", nl) for l, nl in states}

    def bounds(self, lp, k, size):
        """the loop starts at element k, goes on one by one and ends at the end"""
        for a, b in lp[4]:
            if isinstance(b, tuple) and b[0] == "it":
                pos = b[2]
                off = 0 if pos == "begin" else pos[2] if isinstance(pos, tuple) and pos[0] == "off" and pos[1] == "begin" else None
                off = off[1] if isinstance(off, tuple) and off[0] == "num" else off
                if isinstance(off, int) or off is not None and not isinstance(off, tuple):
                    self.c.expect(off == k, self.q + ":first", lp[3], "the loop starts at element %s, %d came before" % (off, k), self.pth)
        steps(self.c, self.q, lp, self.pth)
        n = counter(lp)
        if n:
            if n[1] is not None and n[1][0] == "num":
                self.c.expect(n[1] == num(k), self.q + ":first", lp[3], "the loop starts at element %s, %d came before" % (show(n[1]), k), self.pth)
            cst, d = lin(n[2])
            if len(d) == 1 and next(iter(d))[0] == "size":
                self.c.expect(cst == 0 and d[next(iter(d))] == 1, self.q + ":last", lp[3], "the loop ends before element %s" % show(n[2]), self.pth)


def at(pos, lp):
    """does a position move with this loop"""
    return any(x and x[0] in ("any", "hv") and x[1] == lp[1] for x in subterms(pos)) if isinstance(pos, tuple) else False


def steps(c, q, lp, pth):
    """the position advances by one in each iteration"""
    for it in lp[2]:
        _, stores = itf(it)
        for l, v in stores.items():
            if isinstance(v, tuple) and v[0] == "it" and isinstance(v[2], tuple) and v[2][0] == "off":
                c.expect(v[2][2] in (1, num(1)), q + ":step", lp[3], "the loop advances by %s" % (show(v[2][2]) if isinstance(v[2][2], tuple) else v[2][2]), pth)


# ------------------------------------------------------------------ reading
def reader(P, c):
    q = "read_trace"
    f = find1(P, q, 2)
    w = fl(f)
    e, outs = start(P, c, f, None)
    D = ("P", ("sym", "&" + f["params"][1]["n"]))
    seen = False
    for k, st, v in outs:
        pth = showfacts(st)
        if st.imp:
            c.skip(q, st.imp[0])
            continue
        is_open = next((b for a, b in st.f.items() if a[0] == "truth" and "is_open" in str(a)), None)
        ls = loops(st.trace())
        res = v if k == "return" else None
        if is_open is None and not ls:
            is_open = next((not b for a, b in st.f.items() if a[0] == "truth"), None)
            c.skip(q, "how a missing file is noticed is not understood") if is_open is None else None
        if is_open is False:
            c.expect(k == "throw" or res == FALSE, q + ":missing", w, "a file that cannot be opened is reported as read", pth)
            continue
        if not ls:
            c.skip(q, "a path without a loop over the lines")
            continue
        seen = True
        opened(c, q, st, f, False)
        lp = ls[-1] if len(ls) == 1 else next((l for l in ls if any(loops(i) for i in l[2])), ls[0])
        lines(P, c, q, lp, D, w, pth)
        # how the text ends
        bad = [a for a, b in st.f.items() if b is False and a[0] == "truth" and a[1][0] == "rdok" and a[1][2] == "line"]
        numfail = [a for a, b in st.f.items() if b is False and a[0] == "truth" and a[1][0] == "rdok" and a[1][2] == "num"]
        left = [a for a, b in st.f.items() if b is True and a[0] == "truth" and a[1][0] == "rdok" and a[1][2] == "char"]
        eofs = [a for a, b in st.f.items() if a[0] == "truth" and a[1][0] == "eof"]
        if res == TRUE:
            if bad:
                c.ok()
            elif eofs and not bad:
                c.viol(q + ":last-line", w, "reading ends when the end of the file is met, although the line just read (without a line end) still holds values", pth)
            elif not numfail and not left:
                c.skip(q, "how the end of the text is noticed is not understood")
            c.expect(not numfail and not left, q + ":nonnumber", w, "text that is not a number is accepted", pth)
        elif bad:
            c.viol(q + ":refused", w, "a file read to its end is reported as %s" % show(res)[:60], pth)
        elif res == FALSE:
            c.expect(bool(numfail or left) or not bad, q + ":refused", w, "a file read to its end is reported as a failure", pth)
    if not seen:
        c.skip(q, "no path reads lines")


def lines(P, c, q, lp, D, w, pth):
    for it in lp[2]:
        facts, stores = itf(it)
        inner = loops(it)
        lineok = [a for a, b in facts.items() if b is True and a[0] == "truth" and a[1][0] == "rdok" and a[1][2] == "line"]
        eofline = [a for a, b in facts.items() if a[0] == "truth" and a[1][0] == "eof"]
        if not lineok and eofline:
            c.viol(q + ":last-line", lp[3], "a line is used or dropped depending on the end of the file instead of on whether a line was read", pth)
        new = stores.get(D)
        if not inner:
            c.skip(q, "a line without a loop over its words")
            continue
        rowl = None
        for il in inner:
            for iit in il[2]:
                f2, s2 = itf(iit)
                pushed = False
                for l, v in s2.items():
                    if isinstance(v, tuple) and v[0] in ("pushb", "pushf") and l != D:
                        rowl = l
                        pushed = True
                        value(c, q, il, l, v, f2, pth)
                if not pushed:
                    c.viol(q + ":dropped", il[3], "a word of a line is read without becoming a value of the row", pth)
        empty = None
        for a, b in facts.items():
            if a[0] == "isempty":
                empty = b
        if new is None:
            c.expect(empty is True, q + ":row-dropped", lp[3], "a line with values does not become a row", pth)
        elif isinstance(new, tuple) and new[0] == "pushb":
            c.expect(new[1][0] == "hv", q + ":rows", lp[3], "a row replaces earlier rows", pth)
            ok = new[2][0] == "hv" or new[2] == ("empty",)
            c.expect(empty is False, q + ":row-empty", lp[3], "a line without values becomes an empty row", pth)
            c.expect(ok, q + ":row", lp[3], "the row added is %s, not the values of the line" % show(new[2])[:100], pth)
            # the row starts empty for each line
            for il in inner:
                for a, b in il[4]:
                    if a == rowl:
                        c.expect(b == ("empty",), q + ":fresh", lp[3], "a row starts with the values of an earlier line", pth)
        elif isinstance(new, tuple) and new[0] == "pushf":
            c.viol(q + ":order", lp[3], "rows are put in front of earlier ones", pth)
        else:
            c.skip(q, "how a row is added is not understood")


def value(c, q, il, l, v, facts, pth):
    c.expect(v[0] == "pushb" and v[1][0] == "hv", q + ":value-order", il[3], "a value is not appended behind the values before it", pth)
    x = v[2]

    def ok(i):
        return facts.get(("truth", ("rdok", i[1], i[2]))) is True
    if x[0] != "rd":
        if not has_unknown(x) and x[0] in ("num", "sum"):
            c.viol(q + ":value", il[3], "the value stored is %s, not the number read" % show(x)[:80], pth)
        else:
            c.skip(q, "where a value comes from is not understood")
        return
    c.expect(x[2] == "num", q + ":value-kind", il[3], "the value stored was not read as a number", pth)
    src = x[3]
    c.expect(ok(x), q + ":unchecked", il[3], "a value is stored whether or not a number was read (the last value or an undefined one enters the trace)", pth)
    if src[0] == "rd" and src[2] == "word":
        c.expect(ok(src), q + ":word-unchecked", il[3], "a value is stored whether or not there was another word on the line", pth)
        src = src[3]
    if not (src[0] == "rd" and src[2] == "line"):
        if src[0] == "rd":
            c.viol(q + ":source", il[3], "the value is read from %s, not from the line" % show(src)[:80], pth)
        else:
            c.skip(q, "the value's source is not the line")


def replaces(P, c):
    q = "STLDriver::read_trace_file"
    f = find1(P, Q + q, 1)
    log = []

    def hook(e, fn, loc, dyn, args, st, fr, n):
        if fn["n"] != "read_trace":
            return None
        st = st.copy()
        d = e.canon(st, args[1][1])
        a = e.load(st, args[0][1]) if args[0][0] in ("ref", "obj") else args[0]
        old = e.load(st, d)
        st.ev("readtrace", a, d, old, e.where(fr, n))
        e.store(st, d, ("app", "rows", old), fr, n)
        return [(st, ("app", "read_trace", num(e.new())))]
    e = Eng(P, [hook])
    outs = e.run(f["id"], this=THIS, cls=f["cls"])
    c.functions |= e.analysed
    nm = par(e, f, 0)
    for k, st, v in outs:
        c.paths += 1
        pth = showfacts(st)
        rt = events(st, "readtrace")
        if not rt:
            c.viol(q + ":never", fl(f), "no file is read", pth)
            continue
        for ev in rt:
            c.expect(ev[1] in nm, q + ":file", ev[4], "the file read is %s" % show(ev[1])[:80], pth)
            now = e.load(st, F(THIS, "data"))
            if now[0] == "app" and now[1] == "rows":
                c.expect(now[2] == ("empty",), q + ":append", ev[4], "the rows read are added to the previous trace instead of replacing it", pth)
            elif not has_unknown(now) and k == "return":
                if v == FALSE or any(a[0] == "truth" and a[1][0] == "app" and a[1][1] == "read_trace" and b is False for a, b in st.f.items()):
                    continue
                c.viol(q + ":kept", ev[4], "after reading, the trace is %s" % show(now)[:80], pth)
        tv = v[1] if v[0] in ("truth",) else v
        c.expect(any(x and x[0] == "app" and x[1] == "read_trace" for x in subterms(v)), q + ":result", fl(f), "the outcome of reading is not reported", pth)


def par(e, f, i):
    p = f["params"][i]
    return (("sym", p["n"]), ("init", ("P", ("sym", "&" + p["n"]))))


def logfile(P, c):
    q = "STLDriver::dump_test_log_file"
    f = find1(P, Q + q, 1)
    e, outs = start(P, c, f, THIS)
    for k, st, v in outs:
        if st.imp:
            c.skip(q, st.imp[0])
            continue
        pth = showfacts(st)
        is_open = next((b for a, b in st.f.items() if a[0] == "truth" and "is_open" in str(a)), None)
        opened(c, q, st, f, True)
        texts = [ev[2] for ev in events(st, "wrote")]
        if is_open is False:
            c.expect(v == FALSE, q + ":missing", fl(f), "a file that cannot be opened is reported as written", pth)
        elif is_open is True:
            c.expect(v == TRUE, q + ":written", fl(f), "a written log is reported as a failure", pth)
            ps = [p for x in texts for p in parts(x)]
            order = []
            for p in ps:
                for nm in ("test_log", "nb_test_pos", "nb_test_total"):
                    if init(F(THIS, nm)) in subterms(p):
                        order.append(nm)
            c.expect(order == ["test_log", "nb_test_pos", "nb_test_total"], q + ":content", fl(f), "the log file holds %s instead of the log and the numbers of passed and run tests" % (order or "nothing"), pth)


# ------------------------------------------------------------------ names in column order
def names(P, c):
    q = "signal_map_to_string"
    f = find1(P, q, 1)
    e, outs = start(P, c, f, None)
    M = None
    for k, st, v in outs:
        pth = showfacts(st)
        if st.imp:
            c.skip(q, st.imp[0])
            continue
        em = next((b for a, b in st.f.items() if a[0] == "isempty"), None)
        ls = loops(st.trace())
        if em is True and not ls:
            c.expect(v == ("str", ""), q + ":none", fl(f), "without signals %s is listed" % show(v)[:60], pth)
            continue
        if em is None:
            c.viol(q + ":empty", fl(f), "the first name is taken whether or not a signal is declared", pth)
            continue
        placed = joined = False
        for lp in ls:
            overmap = any(b for a, b in lp[4]) and any(any(x and x[0] == "anykey" for x in subterms(v)) for it in lp[2] for ev in it if ev[0] == "itfacts" for v in [ev[1:]])
            if overmap and any(x[0] == "upd" for it in lp[2] for x in itf(it)[1].values()):
                c.expect(all(any(x[0] == "upd" for x in itf(it)[1].values()) for it in lp[2]), q + ":omitted", lp[3], "some names are not put into the list", pth)
            for it in lp[2]:
                _, stores = itf(it)
                for l, x in stores.items():
                    if x[0] == "upd" and x[1][0] == "hv":
                        placed = True
                        i1 = add(x[2], num(1))
                        ok = len(x) == 4 and i1[0] == "elem" and i1[2] == ("key", x[3])
                        c.expect(ok, q + ":place", lp[3], "a name is put at %s instead of at its column" % show(x[2])[:100], pth)
                    elif x[0] == "cat" and x[1][0] == "hv":
                        joined = True
                        ps = parts(x)[1:]
                        el = [p for p in ps if p[0] == "elem"]
                        lit = "".join(p[1] for p in ps if p[0] == "str")
                        if len(el) == 1 and lit == "" and Writer(c, q, None, False, pth).edge(it, lp):
                            continue        # before the first or behind the last name no blank is needed
                        c.expect(len(el) == 1 and lit.strip() == "" and len(lit) >= 1, q + ":join", lp[3], "names are joined as %s" % show(x)[:100], pth)
                        if el:
                            i = el[0][2]
                            s0 = next((b for a, b in lp[4] if i == ("hv", lp[1], ("init", a)) or i[0] == "hv" and a in i), None)
                            b0 = next((b for a, b in lp[4] if a == l), None)
                            cn = counter(lp)
                            if cn is not None and cn[2][0] == "size" and b0 is not None:
                                c.ok()
                            elif cn is not None and any(x and x[0] == "size" for x in subterms(cn[2])):
                                c.viol(q + ":upto", lp[3], "the list goes up to name %s" % show(cn[2]), pth)
                            if s0 is not None and s0[0] == "num" and b0 is not None:
                                if b0[0] == "elem":
                                    c.expect(b0[2] == num(0) and s0 == num(1), q + ":range", lp[3], "the list starts with name %s and goes on with name %s" % (show(b0[2]), show(s0)), pth)
                                elif b0 == ("str", ""):
                                    c.expect(s0 == num(0), q + ":range", lp[3], "the list starts with name %s" % show(s0), pth)
        if not placed or not joined:
            c.skip(q, "the list is built in a way that is not understood")


# ------------------------------------------------------------------ generated traces
def generated(P, c):
    q = "rand_trace_data"
    f = find1(P, q, 2)
    e, outs = start(P, c, f, None)
    m, n = ("sym", f["params"][0]["n"]), ("sym", f["params"][1]["n"])
    some = False
    for k, st, v in outs:
        pth = showfacts(st)
        if st.imp:
            c.skip(q, st.imp[0])
            continue
        for lp in loops(st.trace()):
            i0 = counter(lp)
            if i0 is None:
                c.skip(q, "no row counter")
                continue
            cnt, lo, hi, step = i0
            some = True
            c.expect(rng(lo, hi, m), q + ":rows", lp[3], "rows are generated for %s from %s on, %s rows were asked for" % (show(hi) if hi else "?", show(lo), show(m)), pth)
            for it in lp[2]:
                _, stores = itf(it)
                kept = [t for t in stores.values() if t[0] == "pushb" and t[1][0] == "hv" and t[1][1] == lp[1]]
                if not kept and not any(ev[0] in ("call", "vcall") for ev in it) and not unread(tuple(stores.values())):
                    c.viol(q + ":kept", lp[3], "a row that is generated is not put into the trace", pth)
                for il in loops(it):
                    j0 = counter(il)
                    base = [b for a, b in il[4] if isinstance(b, tuple) and b[0] == "pushb"]
                    if j0 is None:
                        continue
                    width(c, q, il, j0, base, n, cnt, pth)
    if not some:
        c.skip(q, "no loop over the rows")


def counter(lp):
    """(head value, start, exclusive end, step) of a counting loop"""
    for it in lp[2]:
        facts, stores = itf(it)
        for l, v in stores.items():
            heads = [x for x in subterms(v) if x[0] == "hv"]
            h = next((x for x in heads if x[1] == lp[1]), None)
            if h is None or v != add(h, num(1)):
                continue
            lo = next((b for a, b in lp[4] if a == l), None)
            for a, b in facts.items():
                if a[0] == "lt0" and b is True:
                    hi = add(h, neg(a[1]))
                    if h not in subterms(hi):
                        return h, lo, hi, 1
                if a[0] == "lt0" and b is False:
                    hi = add(add(h, a[1]), num(1))      # not (n - h < 0): h <= n
                    if h not in subterms(hi):
                        return h, lo, hi, 1
                if a[0] == "le0" and b is True:
                    hi = add(add(h, neg(a[1])), num(1))
                    if h not in subterms(hi):
                        return h, lo, hi, 1
    return None


def at_count(a, lp):
    h = counter(lp)
    return h is not None and a[0] in ("lt0", "le0", "eq0") and h[0] in list(subterms(a)) and not has_unknown(a)


def rng(lo, hi, want):
    return add(hi, neg(lo)) == want


def width(c, q, il, j0, base, n, row, pth):
    pushes = []
    for it in il[2]:
        _, stores = itf(it)
        pushes.append([v for v in stores.values() if v[0] == "pushb"])
    if not base:
        row_ = {l for it in il[2] for l, v in itf(it)[1].items() if v[0] == "pushb"}
        base = [b for a, b in il[4] if a in row_ and b == ("empty",)]
        if not base or len(row_) != 1:
            return c.skip(q, "the row's first value is not understood")
    b = base[0]
    k = 0
    t = b
    first = None
    while t[0] == "pushb":
        first = t[2]
        t = t[1]
        k += 1
    c.expect(t == ("empty",), q + ":fresh", il[3], "a row starts with values of an earlier one", pth)
    c.expect(all(len(p) == 1 for p in pushes) and add(add(j0[2], neg(j0[1])), num(k)) == add(n, num(1)), q + ":columns", il[3],
             "a row gets %s values instead of a time and %s values" % (show(add(add(j0[2], neg(j0[1])), num(k))), show(n)), pth)
    # increasing times: the first value grows with the row number
    k0, d = lin(first)
    c.expect(d.get(row, 0) > 0 and set(d) == {row}, q + ":times", il[3], "the time of a row is %s: not increasing from row to row" % show(first)[:60], pth)
