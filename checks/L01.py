"""L01: every operation finishes."""
from util import *
import sigops
import kernops
import mem


def check(P, c):
    c.rule = ("for every loop of the library and every path once around it: something that the decisions of that path depend on is different at the end of the round (otherwise the same path is taken for ever), "
              "and a counter or iterator compared with a bound moves towards it; no function calls itself, directly or through others, on every path it can take.")
    c.guard(loops, P, c)
    c.guard(recursion, P, c)


LOOPS = ("While", "Do", "For")


def loops(P, c):
    for f in sorted(P.funcs.values(), key=lambda f: f["id"]):
        if mem.generated(f) or not f.get("body") or f.get("lambda"):
            continue
        mine = {"%s:%s" % (f["file"], x.get("l")) for x in mem.walk(f["body"]) if x.get("k") in LOOPS}
        if mine:
            c.guard(judge, P, c, f, mine)
        for x in mem.walk(f["body"]):
            if x.get("k") in LOOPS and below_zero(x.get("cond")):
                c.viol("%s:unsigned" % f["q"].replace(Q, ""), "%s:%s" % (f["file"], x.get("l")), "the loop in %s goes on while an unsigned number is not negative, which it never is" % f["q"].replace(Q, ""))


def bare(n):
    while isinstance(n, dict) and n.get("k") in ("Cast", "Paren", "Implicit") and n.get("c"):
        n = n["c"][0]
    return n


def below_zero(n):
    n = bare(n)
    if not isinstance(n, dict) or n.get("k") != "Bin" or n.get("op") not in (">=", "<="):
        return False
    a, b = n["c"] if n["op"] == ">=" else n["c"][::-1]
    z = bare(b)
    return str(z.get("v")) == "0" and isinstance(bare(a), dict) and ("unsigned" in str(bare(a).get("t", "")) or "size_t" in str(bare(a).get("t", "")) or "size_type" in str(bare(a).get("t", "")))


def judge(P, c, f, mine):
    me = f["n"]
    name = f["q"].replace(Q, "")
    seen = {}
    hooks = [mem.hook_clone, kernops.hook(set(kernops.KERN) - {me}), kernops.free(skip=(me,))]
    if f.get("cls") != sigops.SIG:
        hooks.append(sigops.hook)
    e = Eng(P, hooks)
    try:
        outs = e.run(f["id"], this=THIS if f.get("cls") and not f.get("static") else None, cls=f.get("cls"))
        c.paths += len(outs)
    except Undecided as u:
        c.skip(name, str(u))
    c.functions.add(f["id"])
    for rec in e.loops:
        where, kind = rec[0], rec[1]
        if kind in LOOPS and where in mine:
            seen[where] = seen.get(where, 0) + 1
            around(c, e, name, rec)
    for w in mine - set(seen):
        c.skip(name, "loop at %s not reached" % w)
    if seen:
        c.sites.append("%s: loops at %s" % (name, ", ".join(sorted(seen))))


def around(c, e, name, rec):
    where, kind, lid, hv, head, pre, first, back, exits, done = rec
    line = where.split(":")[-1]
    if not back:
        c.ok()
        return
    if not exits and not done:
        c.viol("%s:endless" % name, where, "the loop in %s has no way out" % name)
        return
    for s in back:
        if [x for x in s.imp if x not in head.imp]:
            c.skip(name, "loop at %s: %s" % (where, s.imp[-1]))
            continue
        facts = [(a, t) for a, t in s.f.items() if pre.get(a) != t]
        parts = set()
        for a, t in facts:
            parts.update(subterms(a))
        fixed = {a: t for a, t in facts if not any(y in ("hv", "any") for y in heads(a)) and not any(world(y, first) or y[0] in ("post", "after", "unk") and any(
            isinstance(z, int) and z > first for z in y[1:]) for y in subterms(a))}
        if fixed and all(any(x.f.get(a) is (not t) for a, t in fixed.items()) for x in list(exits) + list(done)):
            c.viol("%s:stuck" % name, where, "a round of the loop in %s changes nothing that any way out depends on, so it never ends" % name,
                   ["assuming %s%s" % ("" if t else "not ", show(a)) for a, t in facts])
            continue
        inner = nested(s, head, parts)
        for l, h in hv.items():
            if h and l[0] != "ver" and h[0] in ("it", "rit"):
                position(c, name, where, l, hv, s, facts)
        turned = {h for l, h in hv.items() if l[0] == "ver" and s.s.get(l) != h}
        if any(world(y, first) or y[0] == "post" and y[1] in turned for y in parts):
            c.ok()      # depends on what the world answers in this round
            continue
        read = {l for l, h in hv.items() if l[0] != "ver" and ident(h) in parts}
        moved = {l for l in read if s.s.get(l) != head.s.get(l)}
        pth = ["assuming %s%s" % ("" if t else "not ", show(a)) for a, t in facts]
        again = settled(hv, s, head, first)
        same = read <= set(again) and next_round(pre, facts, {hv[l]: v for l, v in again.items()}) or not inner and repeats(hv, s, facts)
        if not c.expect(bool(moved) and not same, "%s:stuck" % name, where, "a round of the loop in %s %s, so it never ends" % (
                name, "leads to the same round again" if moved else "changes nothing its continuation depends on"), pth):
            continue
        if len(moved) == 1:
            direction(c, name, where, next(iter(moved)), hv, s, facts, pth)


def heads(a):
    return {y[0] for y in subterms(a)}


def ident(h):
    """the part of a value at the head of the loop that stands for the arbitrary round"""
    if h[0] in ("it", "rit"):
        return h[2] if isinstance(h[2], tuple) else h
    return h


def world(y, first):
    """an answer of the outside given in this round"""
    return y[0] in ("ret", "unk", "stream", "rd", "rdok") and not (y[0] == "ret" and str(y[2]).startswith("compute")) and any(isinstance(z, int) and z > first for z in y[1:])


def settled(hv, s, head, first):
    """location -> its value at the next head, for what has the same value at every head from now on"""
    ids = {ident(h): l for l, h in hv.items() if l[0] != "ver"}
    out = {l: hv[l] for l in hv if l[0] != "ver" and s.s.get(l) == head.s.get(l)}
    grew = True
    while grew:
        grew = False
        for l in hv:
            v = s.s.get(l)
            if l in out or l[0] == "ver" or v is None or hv[l][0] in ("it", "rit"):
                continue
            fine = True
            for y in subterms(v):
                if y in ids and ids[y] not in out or world(y, first) or y[0] in ("hv", "any") and isinstance(y[1], int) and y[1] > first:
                    fine = False
                elif y[0] == "ptr":
                    p = y[1]
                    while isinstance(p, tuple) and p and p[0] in ("F", "E"):
                        if p in hv and p not in out:
                            fine = False
                        p = p[1]
            if fine:
                out[l] = v
                grew = True
    return out


def next_round(pre, facts, m):
    """can the decisions of this round be taken in the same way with the values m?"""
    f = dict(pre)
    f.update(facts)
    for a, t in facts:
        cnd = recond(rebuild(a, m))
        d = decide(f, cnd if t else cnot(cnd))
        if d is False:
            return False
        if d is None and cnd[0] == "cond":
            f[cnd[1]] = cnd[2] == t
    return True


def repeats(hv, s, facts):
    """every decision of the round is the same question, or a settled one, in the next round"""
    m = {}
    for l, h in hv.items():
        if l[0] == "ver":
            continue
        v = s.s.get(l)
        if v is None:
            return False
        if h[0] in ("it", "rit"):
            if v[0] != h[0]:
                return False
            m[h[2]] = v[2]
        m[h] = v
    for a, t in facts:
        cnd = recond(rebuild(a, m))
        if cnd not in (("cond", a, True), ("bool", t)):
            return False
    return bool(facts)


def rebuild(x, m):
    if not isinstance(x, tuple) or not x:
        return x
    if x in m:
        return m[x]
    if x[0] == "lin":
        r = num(x[1])
        for k, v in x[2]:
            r = add(r, scale(rebuild(k, m), v))
        return r
    if x[0] == "size":
        return size(rebuild(x[1], m))
    if x[0] == "P" and x[1] in m and m[x[1]][0] == "ptr":
        return m[x[1]][1]
    return tuple(rebuild(y, m) for y in x)


def recond(a):
    if a[0] == "lt0":
        return lt(a[1], num(0))
    if a[0] == "eq0":
        return eq(a[1], num(0))
    if a[0] == "isnull":
        return eq(a[1], NULL)
    if a[0] == "isempty":
        return isempty(a[1])
    if a[0] == "streq":
        return streq(a[1], a[2])
    if a[0] == "truth":
        v = a[1]
        if v[0] == "b2i":
            v = v[1]
        if v[0] in ("bool", "cond"):
            return v
        if isnum(v):
            return ("bool", v[1] != 0)
    return cond(a)


def nested(s, head, parts):
    """decisions of inner loops are part of the round"""
    any_ = []
    def go(evs):
        for ev in evs:
            if ev[0] == "loop":
                for it in ev[2]:
                    for z in it:
                        if z[0] == "itfacts":
                            for a, t in z[1]:
                                parts.update(subterms(a))
                    go(it)
    go(s.trace(head.tr))
    return bool(any_)


def position(c, name, where, l, hv, s, facts):
    """a position compared with the end of its container moves towards that end, and is not compared with another container's"""
    h, now = hv[l], s.s.get(l)
    p = ["assuming %s%s" % ("" if t else "not ", show(a)) for a, t in facts]
    for a, t in facts:
        if a[0] == "iteq" and (a[1] == h or a[2] == h):
            o = a[2] if a[1] == h else a[1]
            c.expect(not (o[0] == h[0] and o[1] != h[1]), "%s:elsewhere" % name, where, "the loop in %s waits for a position of another container" % name, p)
    if not isinstance(now, tuple) or now[0] != h[0] or now[1] != h[1]:
        return
    q = now[2]
    step = 0 if q == h[2] else q[2][1] if isinstance(q, tuple) and q[0] == "off" and q[1] == h[2] and isnum(q[2]) else None
    if step is not None and any(a[0] == "itend" and not t and a[1] == h[0] and a[2] == h[2] for a, t in facts):
        c.expect(step >= 0, "%s:away" % name, where, "the loop in %s moves its position away from the end it waits for" % name, p)


def direction(c, name, where, l, hv, s, facts, pth):
    h, now = hv[l], s.s.get(l)
    x = ident(h)
    mine = [(a, t) for a, t in facts if any(y == x for y in subterms(a))]
    if h[0] in ("it", "rit"):
        return
    d = sub(now, h) if now[0] not in ("it", "rit", "str", "null", "ptr") else None
    if d is None or not isnum(d):
        return
    good = bad = 0
    for a, t in mine:
        if a[0] != "lt0":
            return
        k0, ks = lin(a[1])
        if h not in ks or any(y == x for z in ks if z != h for y in subterms(z)):
            return
        if ks[h] * d[1] * (1 if t else -1) > 0:
            good += 1
        else:
            bad += 1
    if good or bad:
        c.expect(good > 0, "%s:away" % name, where, "the loop in %s moves its counter away from the bound it waits for" % name, pth)


# ---------------------------------------------------------------- recursion

STOP = ("If", "Switch", "For", "While", "Do", "ForRange", "Cond", "Lambda", "Try", "Case", "Default")


def always(n, out):
    """calls made on every path through n, in order; False when control may leave before the rest"""
    if isinstance(n, list):
        for x in n:
            if not always(x, out):
                return False
        return True
    if not isinstance(n, dict):
        return True
    k = n.get("k")
    if k in ("Return", "Throw"):
        for v in n.values():
            always(v, out)
        return False
    if k in STOP:
        always(n.get("cond"), out)
        return not any(x.get("k") in ("Return", "Throw", "Break", "Continue", "Goto") for x in mem.walk(n))
    if k == "Bin" and n.get("op") in ("&&", "||"):
        return always(n["c"][0], out)
    for key, v in n.items():
        if key in ("fn", "t"):
            continue
        if isinstance(v, (dict, list)) and not always(v, out):
            return False
    if isinstance(n.get("fn"), dict) and k in ("Call", "MCall", "MemberCall", "OpCall", "Construct", "New"):
        out.append(n)
    return True


def onthis(n):
    o = n.get("obj")
    while isinstance(o, dict) and o.get("k") in ("Cast", "Paren", "Implicit"):
        o = (o.get("c") or [None])[0]
    return o is None or o.get("k") == "This"


def recursion(P, c):
    edges = {}
    for f in P.funcs.values():
        if mem.generated(f) or not f.get("body"):
            continue
        calls = []
        always(f["body"], calls)
        to = set()
        for n in calls:
            g = n["fn"]
            if g["id"] not in P.funcs:
                continue
            if g.get("cls") and not g.get("static") and not onthis(n):
                continue        # another object: a sub-formula, a part
            if g.get("virt"):
                if n.get("qual"):
                    to.add(g["id"])
                    continue
                for cls in sigops.classes(P):
                    if P.derives(cls, f["cls"]) if f.get("cls") else False:
                        to.add(P.final_overrider(cls, g["id"]))
            else:
                to.add(g["id"])
        edges[f["id"]] = to
        c.functions.add(f["id"])
        c.ok()
    # functions from which every path leads back to themselves
    for a in sorted(edges):
        seen, todo = set(), list(edges[a])
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo += edges.get(x, ())
        if a in seen:
            f = P.funcs[a]
            c.viol("%s:recursion" % f["q"].replace(Q, ""), fl(f), "every call of %s leads to another call of it" % f["q"].replace(Q, ""))
