"""Front end: real build flags -> astx JSON -> one merged, resolved program."""
import json, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
ASTX = os.path.join(VERIF, "build", "astx")


class Broken(Exception):
    """The analysis cannot give an answer (anchor vanished, tree does not parse)."""


def ensure_tool():
    src = os.path.join(VERIF, "tool", "astx.cpp")
    if os.path.exists(ASTX) and os.path.getmtime(ASTX) >= os.path.getmtime(src):
        return
    r = subprocess.run(["make", "-s", "-C", os.path.join(VERIF, "tool")], capture_output=True, text=True)
    if r.returncode or not os.path.exists(ASTX):
        raise Broken("cannot build astx: " + r.stderr[-2000:])


def compdb(scratch):
    if not shutil.which("ninja") or not shutil.which("cmake"):
        raise Broken("cmake/ninja missing")
    r = subprocess.run(["cmake", "-S", REPO, "-B", scratch, "-G", "Ninja", "-Wno-dev",
                        "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON", "-DCMAKE_C_COMPILER=gcc",
                        "-DCMAKE_CXX_COMPILER=g++", "-DPYTHON_EXECUTABLE=/usr/bin/python3"],
                       capture_output=True, text=True)
    p = os.path.join(scratch, "compile_commands.json")
    if r.returncode or not os.path.exists(p):
        raise Broken("cmake configure failed: " + r.stderr[-2000:])
    db = [e for e in json.load(open(p)) if "stlrom.dir" in e["command"]]
    if not db:
        raise Broken("no stlrom translation units in the compilation database")
    for e in db:  # clang front end: drop gcc-only flags
        e["command"] = e["command"].replace("-fno-fat-lto-objects", "").replace("-flto", "")
    json.dump(db, open(p, "w"))
    return db


class Program:
    def __init__(self):
        self.funcs, self.recs, self.globals, self.tus = {}, {}, {}, []
        self.by_name = {}

    def add(self, j):
        self.tus.append(j["tu"])
        for f in j["funcs"]:
            self.funcs.setdefault(f["id"], f)
        for r in j["recs"]:
            self.recs.setdefault(r["n"], r)
        for g in j["globals"]:
            o = self.globals.get(g["q"])
            if o is None or ("init" in g and "init" not in o):
                self.globals[g["q"]] = g

    def finish(self):
        for r in self.recs.values():
            r["subs"] = []
        for r in self.recs.values():
            for b in r["bases"]:
                if b["n"] in self.recs:
                    self.recs[b["n"]]["subs"].append(r["n"])
        for f in self.funcs.values():
            self.by_name.setdefault(f["q"], []).append(f)

    # class hierarchy -------------------------------------------------------
    def bases(self, c, out=None):
        """All base classes in the repo, nearest first, without duplicates."""
        out = [] if out is None else out
        r = self.recs.get(c)
        if r:
            for b in r["bases"]:
                if b["n"] not in out:
                    out.append(b["n"])
            for b in r["bases"]:
                self.bases(b["n"], out)
        return out

    def derives(self, c, base):
        return c == base or base in self.bases(c)

    def all_fields(self, c):
        """[(declaring class, field)] for c and its repo bases."""
        out = []
        for k in [c] + self.bases(c):
            for f in self.recs.get(k, {}).get("fields", []):
                out.append((k, f))
        return out

    def leaf_classes(self, base):
        """Concrete classes below base that are complete and not only intermediate."""
        return sorted(n for n in self.recs if n != base and self.derives(n, base))

    def method_decl(self, cls, fid):
        for m in self.recs.get(cls, {}).get("methods", []):
            if m["id"] == fid:
                return m
        return None

    def overrides(self, m, target, seen=None):
        """does method record m (transitively) override target id"""
        for o in m.get("over", []):
            if o == target:
                return True
            oc = o.split("(")[0].rsplit("::", 1)[0]
            om = self.method_decl(oc, o)
            if om and self.overrides(om, target):
                return True
        return False

    def final_overrider(self, cls, fid):
        """function id that a virtual call to fid on dynamic class cls runs"""
        best = None
        for k in [cls] + self.bases(cls):
            for m in self.recs.get(k, {}).get("methods", []):
                if m["id"] == fid or self.overrides(m, fid):
                    if best is None or self.derives(k, best[0]):
                        best = (k, m["id"])
        return best[1] if best else None


def load(only=None):
    ensure_tool()
    scratch = tempfile.mkdtemp(prefix="astdb.")
    try:
        db = compdb(scratch)
        files = sorted({e["file"] for e in db})
        if only:
            files = [f for f in files if only(f)]

        def one(f):
            out = os.path.join(scratch, os.path.basename(f) + ".json")
            r = subprocess.run([ASTX, "-p", scratch, "--root", REPO, "--out", out, f],
                               capture_output=True, text=True)
            if r.returncode or not os.path.exists(out):
                raise Broken("astx failed on %s: %s" % (f, r.stderr[-1500:]))
            j = json.load(open(out))
            if j["errors"]:
                raise Broken("%s does not parse: %s" % (f, r.stderr[-1500:]))
            return j
        P = Program()
        with cf.ThreadPoolExecutor(8) as ex:
            for j in ex.map(one, files):
                P.add(j)
        P.finish()
        return P
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    import time
    t = time.time()
    P = load()
    print(len(P.tus), "TUs", len(P.funcs), "funcs", len(P.recs), "recs", len(P.globals), "globals", "%.1fs" % (time.time() - t))
    unk = {}

    def walk(n):
        if isinstance(n, dict):
            k = n.get("k")
            if isinstance(k, str) and k.startswith("?"):
                unk[k] = unk.get(k, 0) + 1
            for v in n.values():
                walk(v)
        elif isinstance(n, list):
            for v in n:
                walk(v)
    for f in P.funcs.values():
        walk(f.get("body"))
    print(unk)
