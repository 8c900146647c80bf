"""Front end: runs gdast over every translation unit of the project and merges the dumps.

Fails loudly (FrontendError) when the sources do not parse, so that a check never passes on
code it has not seen.
"""
import concurrent.futures, glob, hashlib, json, os, subprocess, sys, tempfile, re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GEODIFF_REPO", "/repo")
SRC = REPO + "/geodiff/src"


class FrontendError(Exception):
    pass


def units():
    us = sorted(glob.glob(SRC + "/*.cpp") + glob.glob(SRC + "/drivers/*.cpp") + glob.glob(SRC + "/3rdparty/*.cpp"))
    if len(us) < 10:
        raise FrontendError("only %d translation units below %s" % (len(us), SRC))
    return us


def flags(gen):
    return ["-std=gnu++11", "-w", "-DNDEBUG", "-DSQLITE_CORE", "-DSQLITE_ENABLE_SESSION", "-DSQLITE_ENABLE_PREUPDATE_HOOK",
            "-DENABLE_TESTS", "-DGEODIFF_STATIC", "-I" + SRC, "-I" + SRC + "/3rdparty", "-I" + SRC + "/drivers",
            "-I" + gen, "-I" + VERIF + "/stubs", "-I/usr/include/postgresql",
            "-I/usr/lib/llvm-18/lib/clang/18/include"]


def _config(gen):
    t = open(REPO + "/geodiff/cmake_templates/geodiff_config.hpp.in").read()
    t = re.sub(r"#cmakedefine\s+HAVE_POSTGRES", "#define HAVE_POSTGRES", t)
    open(gen + "/geodiff_config.hpp", "w").write(t)


def _digest():
    h = hashlib.sha256()
    for root, ds, fs in os.walk(SRC):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(root, f)
            h.update(p.encode())
            h.update(open(p, "rb").read())
    h.update(open(REPO + "/geodiff/cmake_templates/geodiff_config.hpp.in", "rb").read())
    for f in ("gdast/gdast.cpp", "sa/frontend.py"):
        h.update(open(os.path.join(VERIF, f), "rb").read())
    return h.hexdigest()[:24]


class Program:
    def __init__(self):
        self.functions = {}
        self.globals = {}
        self.enums = {}
        self.types = {}
        self.records = {}
        self.decls = {}
        self.units = []

    def add(self, d):
        self.units.append(d["main"])
        for f in d["functions"]:
            if "body" in f or "inits" in f:
                self.functions.setdefault(f["f"], f)
        for g in d["globals"]:
            if g["gn"] not in self.globals or "init" in g:
                self.globals[g["gn"]] = g
        for e in d["enums"]:
            self.enums.setdefault(e["n"], e)
        for k, v in d["types"].items():
            if k not in self.types or len(v) > len(self.types[k]):
                self.types[k] = v
        for k, v in d["records"].items():
            if k not in self.records or len(v) > len(self.records[k]):
                self.records[k] = v
        for k, v in d["decls"].items():
            self.decls.setdefault(k, v)

    def finish(self):
        self.byname = {}
        for f in self.functions.values():
            self.byname.setdefault(f["n"], []).append(f)
        self.overriders = {}   # fid -> set of fids overriding it (transitively)
        for r in self.records.values():
            for m in r.get("methods", ()):
                for o in m.get("over", ()):
                    self.overriders.setdefault(o, set()).add(m["f"])
        changed = True
        while changed:
            changed = False
            for o, s in self.overriders.items():
                add = set()
                for m in s:
                    add |= self.overriders.get(m, set())
                if not add <= s:
                    s |= add
                    changed = True
        self.recbycls = {}
        for k, r in self.records.items():
            self.recbycls.setdefault(r["n"], r)

    def fn(self, name):
        l = self.byname.get(name, [])
        return l


_cache = None


def load():
    global _cache
    if _cache:
        return _cache
    subprocess.run([VERIF + "/gdast/build.sh"], check=True)
    dig = _digest()
    build = VERIF + "/build"
    cf = "%s/prog-%s.json" % (build, dig)
    p = Program()
    if os.path.exists(cf):
        try:
            ds = json.load(open(cf))
        except Exception:
            ds = None
    else:
        ds = None
    if ds is None:
        with tempfile.TemporaryDirectory(prefix="gdast") as gen:
            _config(gen)

            def one(u):
                r = subprocess.run([build + "/gdast", SRC, u, "--"] + flags(gen), stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE, timeout=600)
                if r.returncode or not r.stdout.strip():
                    raise FrontendError("%s does not parse:\n%s" % (u, r.stderr.decode(errors="replace")[:3000]))
                return json.loads(r.stdout)
            with concurrent.futures.ThreadPoolExecutor(8) as ex:
                ds = list(ex.map(one, units()))
        tmp = cf + ".%d" % os.getpid()
        json.dump(ds, open(tmp, "w"))
        os.replace(tmp, cf)
        old = sorted(glob.glob(build + "/prog-*.json"), key=os.path.getmtime)
        for o in old[:-6]:
            try:
                os.unlink(o)
            except OSError:
                pass
    for d in ds:
        p.add(d)
    p.finish()
    _cache = p
    return p


if __name__ == "__main__":
    p = load()
    print(len(p.units), "units", len(p.functions), "functions", len(p.records), "records", len(p.types), "types")
    unk = {}

    def walk(n):
        if isinstance(n, dict):
            if n.get("k") in ("unknown", "unknownstmt", "dep"):
                unk[n.get("cn", n["k"])] = unk.get(n.get("cn", n["k"]), 0) + 1
            for v in n.values():
                walk(v)
        elif isinstance(n, list):
            for v in n:
                walk(v)
    for f in p.functions.values():
        walk(f)
    print(unk)
