"""Syntactic queries over the whole program: call graph, walks."""
from util import *


def walk(x):
    stack = [x]
    while stack:
        y = stack.pop()
        if isinstance(y, dict):
            yield y
            stack.extend(v for v in y.values() if isinstance(v, (dict, list)))
        elif isinstance(y, list):
            stack.extend(v for v in y if isinstance(v, (dict, list)))


def bodies(f):
    return [f.get("body"), f.get("inits")]


def callees(f):
    """(fn record, node) of every call in f's body and initialisers"""
    for b in bodies(f):
        for n in walk(b):
            if n.get("k") in ("Call", "MCall", "OpCall", "Construct") and isinstance(n.get("fn"), dict):
                yield n["fn"], n


def targets(P, fn):
    """function ids a call may run"""
    out = {fn["id"]}
    if fn.get("virt") and fn.get("cls") in P.recs:
        for k in P.recs:
            if P.derives(k, fn["cls"]):
                t = P.final_overrider(k, fn["id"])
                if t:
                    out.add(t)
    return out


def graph(P):
    g = {}
    for fid, f in P.funcs.items():
        s = set()
        for fn, n in callees(f):
            s |= {t for t in targets(P, fn) if t in P.funcs}
        g[fid] = s
    return g


def reach(g, roots):
    seen = set(roots)
    todo = list(roots)
    while todo:
        for t in g.get(todo.pop(), ()):
            if t not in seen:
                seen.add(t)
                todo.append(t)
    return seen


def invert(g):
    r = {}
    for a, bs in g.items():
        for b in bs:
            r.setdefault(b, set()).add(a)
    return r


def tops(g, fids):
    """callers of fids (transitively) that nobody in the program calls; fids themselves when uncalled"""
    r = invert(g)
    out, seen, todo = set(), set(fids), list(fids)
    while todo:
        x = todo.pop()
        cs = r.get(x, set()) - {x}
        if not cs:
            out.add(x)
        for y in cs:
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return out


def is_global(n):
    if n.get("k") == "Member" and n.get("mk") == "var":
        return not (n.get("vt") or n.get("t") or "").startswith("const ")
    return n.get("k") == "Ref" and n.get("rk") == "var" and (n.get("g") or n.get("sl")) and not (n.get("t") or "").startswith("const ") \
        and not str(n.get("g") or "").startswith("std::")


def lroot(n):
    """variable an lvalue expression designates a part of (through members, indices, casts; not through loads of pointers)"""
    while isinstance(n, dict):
        k = n.get("k")
        if k == "Member" and n.get("mk") == "field" and not n.get("arrow"):
            n = n["c"][0]
        elif k in ("Index", "Cast", "Temp") and n.get("c"):
            n = n["c"][0]
        elif k == "MCall" and n.get("fn", {}).get("rt", "").endswith("&"):
            n = n.get("obj")
        elif k == "OpCall" and n.get("c"):
            n = n["c"][0]
        else:
            return n
    return n


def global_writes(P, f):
    """(variable, line) of mutable globals, static members and static locals that f may write directly"""
    out = []

    def hit(n):
        r = lroot(n)
        if isinstance(r, dict) and is_global(r):
            out.append((r.get("g") if isinstance(r.get("g"), str) else r.get("n"), r.get("l")))
    for b in bodies(f):
        for n in walk(b):
            k = n.get("k")
            if k == "Bin" and n.get("op", "").endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                hit(n["c"][0])
            elif k == "Un" and n.get("op") in ("++", "--", "&"):
                hit(n["c"][0])
            elif k == "MCall" and not n["fn"].get("const") and not n["fn"].get("static"):
                hit(n.get("obj"))
            if k in ("Call", "MCall", "OpCall", "Construct") and isinstance(n.get("fn"), dict):
                pts = n["fn"].get("pt", [])
                args = n.get("c", [])
                if k == "OpCall" and n["fn"].get("cls"):
                    if not n["fn"].get("const") and args:
                        hit(args[0])
                    args = args[1:]
                for a, p in zip(args, pts):
                    if p.endswith("&") and not p.startswith("const ") and not p.endswith("&&") and "basic_ostream" not in p:
                        hit(a)
    return out


CONV = {"stod", "stof", "stold", "stoi", "stol", "strtod", "strtof", "strtold", "strtol", "atof", "atoi", "sscanf", "from_chars", "operator>>", "lexical_cast", "get", "read", "regex_match"}


def converts(body):
    """does this code turn text into a number by other means than s_to_d?"""
    for n in walk(body):
        if n.get("k") in ("Call", "MCall", "OpCall") and isinstance(n.get("fn"), dict) and n["fn"].get("n") in CONV:
            return True
    return False
