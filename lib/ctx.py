"""Common runner of the checks: obligations, violations, known findings, evidence."""
import importlib.util
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.viols = []
        self.seen = set()
        self.obligations = 0
        self.paths = 0
        self.skipped = []
        self.functions = set()
        self.sites = []
        self.rule = ""
        self.notes = []
        self.assumptions = []

    def ok(self, n=1):
        self.obligations += n

    def viol(self, key, where, msg, path=None):
        """key: stable identification of the construct and of what is wrong with it"""
        self.obligations += 1
        if key in self.seen:
            return
        self.seen.add(key)
        self.viols.append({"key": key, "where": where, "what": msg, "path": path or []})

    def expect(self, cond, key, where, msg, path=None):
        if cond:
            self.ok()
        else:
            self.viol(key, where, msg, path)
        return cond

    def skip(self, what, why):
        """an obligation the analysis cannot decide: recorded, never an alarm"""
        self.skipped.append("%s: %s" % (what, why))

    def guard(self, fn, *a):
        """run one rule; a construct it is anchored in that is gone, or a form it cannot read, leaves that rule undecided"""
        try:
            return fn(*a)
        except Exception as x:
            tb = traceback.extract_tb(x.__traceback__)[-1]
            self.skip("%s(%s)" % (fn.__name__, ", ".join(str(y) for y in a if isinstance(y, (str, int)))),
                      "not decided: %s %s (%s:%d)" % (type(x).__name__, x, os.path.basename(tb.filename), tb.lineno))


def known(pid):
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("finding: property=%s " % pid):
                rest = ln.split(" ", 2)[2]
                key, what = rest.split(" ", 1)
                assert key.startswith("key=")
                out[key[4:]] = what
    return out


def main(pid, tier):
    sys.path.insert(0, os.path.join(HERE, "lib"))
    sys.path.insert(0, os.path.join(HERE, "checks"))
    sys.setrecursionlimit(20000)
    t0 = time.time()
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    replay = os.path.join(ev, "%s.replay.txt" % pid)
    c = Ctx(pid, tier)
    import load
    try:
        P = load.load()
        spec = importlib.util.spec_from_file_location("chk_" + pid, os.path.join(HERE, "checks", pid + ".py"))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        c.guard(m.check, P, c)
        if not c.obligations:
            raise load.Broken("nothing decided: " + "; ".join(c.skipped[:3]))
    except load.Broken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % pid)
        return 2
    kn = known(pid)
    new, old = [], []
    for v in c.viols:
        k = v["key"].replace(" ", "_")
        (old if k in kn else new).append((k, v))
    for k, v in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, kn[k]))
    if os.path.exists(replay):
        os.unlink(replay)
    if new:
        with open(replay, "w") as f:
            f.write("property %s: %s\n" % (pid, c.rule))
            for k, v in new:
                f.write("\n[%s]\n at %s\n %s\n" % (k, v["where"], v["what"]))
                for p in v["path"]:
                    f.write("   %s\n" % p)
        for k, v in new:
            print("  %s: %s  [%s]" % (v["where"], v["what"], k))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
    wall = round(time.time() - t0, 2)
    doc = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": "Rule: %s Decided from the syntax tree and resolved types of every translation unit of the library on this run; %d obligations over %d abstract paths in %d functions."
                           % (c.rule, c.obligations, c.paths, len(c.functions)),
            "obligations": c.obligations, "abstract_paths": c.paths,
            "functions_analysed": len(c.functions),
            "functions": sorted(c.functions)[:400],
            "sites": c.sites[:200],
            "undecided": c.skipped[:100],
            "translation_units": len(getattr(P, "tus", [])) or None,
        },
        "wall_s": wall, "violations": len(new),
        "known_findings": [k for k, v in old],
        "assumptions": c.assumptions or [
            "clang 18 parses the sources as the build does (compile commands come from the project's own CMake files)",
            "standard containers, strings and iterators behave as the C++ standard says (modelled, not analysed)"],
    }
    doc["coverage"] = {k: v for k, v in doc["coverage"].items() if v is not None}
    with open(os.path.join(ev, pid + ".json"), "w") as f:
        json.dump(doc, f, indent=1)
    for x in c.skipped[:20]:
        print("  undecided: " + x)
    print("%s: %d obligations, %d paths, %d functions, %d undecided, %d violations, %.1fs" % (
        pid, c.obligations, c.paths, len(c.functions), len(c.skipped), len(new), wall))
    return 1 if new else 0
