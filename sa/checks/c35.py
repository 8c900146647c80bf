"""C35: names of temporary files.

Every exported operation is interpreted over an abstract file system; the paths of the files that it writes are
terms.  A path that does not come from the caller lies in the folder that all processes share, so its name has to
depend on something that no other operation has at the same time: a backward slice of every symbol of the path
finds what it is computed from.
"""
from ..terms import *
from ..astutil import nodes
from .. import fs, ops
from ..origin import Origins, RAND

LEVEL = "other"
CACHE = {}


def sites(p):
    """node id of a unit -> (function, node)"""
    if "s" not in CACHE:
        CACHE["s"] = {}
        for f in p.functions.values():
            for x in nodes(f):
                if "x" in x and x.get("k") in ("call", "ctor"):
                    CACHE["s"].setdefault(x["x"], []).append((f, x))
    return CACHE["s"]


def seeded(p, o):
    """whether rand() is seeded with something unpredictable"""
    for f in p.functions.values():
        for x in nodes(f):
            if x.get("k") == "call" and x.get("n") in ("srand", "srandom", "srand48") and x.get("a"):
                t = o.expr(f, x["a"][0])
                if "entropy" in t or "pid" in t and "time" in t:
                    return True
    return False


def symbols(t):
    """the symbols of a path"""
    return leaves(t)


def one(ctx, fn):
    n = fn["n"]
    en, res, thrown = fs.analyse(ctx.p, fn, limit=200)
    o = CACHE.setdefault("o", Origins(ctx.p))
    ctx.cover(*en.covered)
    seen = {}
    for st in [s for s, _ in res] + [s for s, _, _ in thrown]:
        for path, ev in ops.written(st).items():
            if path not in seen:
                seen[path] = ev
    for path, ev in seen.items():
        ls = [l for l in symbols(path) if l.op == "s"]
        if any(l.a[0] == "arg" for l in ls):
            continue            # the caller chose the name
        tags = set()
        for l in ls:
            name = l.a[0] if l.a[0] != "old" else l.a[1]
            if name in RAND:
                tags.add("rand")
            site = next((a for a in l.a if isinstance(a, tuple)), ())
            for f, x in sites(ctx.p).get(site[-1] if site else None, ()):
                if x.get("n", "").split("::")[-1] == str(name).split("::")[-1] and (len(sites(ctx.p)[site[-1]]) == 1 or f["n"] in en.covered):
                    tags |= o.expr(f, x)
        ok = "entropy" in tags or "rand" in tags and seeded(ctx.p, o) or "pid" in tags and tags & {"state", "time", "rand", "tid"}
        why = "depends on nothing but the folder" if not tags else "is computed from %s" % ", ".join(
            {"rand": "rand(), which gives every process the same numbers", "time": "the time", "pid": "the process number", "state": "a counter of the process", "tid": "the thread", "entropy": "random numbers"}[t] for t in sorted(tags))
        ctx.count("temporary files")
        ctx.check(ok, "own names", ev[-1], "%s: the name of the temporary file %s %s" % (n, show(path), why), key="name|%s|%s" % (n, show(path).replace("$", "")[-30:]), what="%s: %s" % (n, show(path)))
    for f, x, v in o.lengths.values():
        ctx.check(v >= 4, "enough", "%s:%s" % (f["file"], x.get("l")), "%s: %s( %d ) is too short a name" % (f["n"], x.get("n"), v), key="short|%s" % f["n"], what="%s: %d" % (f["n"], v))
    ctx.functions |= o.functions


def run(ctx):
    ctx.rule("own names", "the name of a file in the shared folder for temporary files depends on random numbers of the operating system, or on the process and a counter")
    ctx.rule("enough", "a function that makes random text for such a name is asked for at least four characters")
    fns = ops.exported(ctx.p)
    ctx.need("exported operations", fns)
    ctx.par(one, fns)
    ctx.need("temporary files", ctx.counts.get("temporary files"))
