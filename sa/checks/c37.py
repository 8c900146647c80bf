"""C37: failures are explained.

Every exported operation is interpreted over an abstract file system with a failing variant of each storage step; on
every path that reports an error an error message has gone to the log.  Nothing else is printed: the only functions
that write to the standard streams are callbacks of the log.
"""
from ..terms import *
from ..astutil import nodes, walk, callees
from .. import contracts, fs, ops
from ..engine import Engine, Hooks, State

LEVEL = "other"
STREAMS = {"std::cout", "std::cerr", "std::clog", "std::wcout", "std::wcerr", "stdout", "stderr"}
PRINTS = {"printf", "puts", "putchar", "perror", "vprintf", "std::printf", "std::puts", "std::perror", "wprintf"}


def said(en, st, this, args, e):
    st.mon["said"] = True
    return [(st, ZERO)]


STEPS = {}


def statuses(p, fn):
    """the pairs (status is an error, a message has been logged) that a step may return"""
    r = STEPS.get(fn["f"])
    if r is None:
        en = Engine(p, dict(contracts.UP, **{"Logger::error": said}), Hooks(), limit=200, soft=8, hard=40)
        st = State()
        res, _ = en.run(fn, args=[en.symarg(st, fn, q) for q in fn["params"]], st=st)
        r = set()
        for s, v in res:
            d = [cv(v)] if is_c(v) else en.dom(s, v) or [0, 1]
            r |= {(x != 0, bool(s.mon.get("said"))) for x in d}
        STEPS[fn["f"]] = r
    return r


class H(fs.FSHooks):
    """steps of rebasing that return an error status: whether they have explained it"""
    def pre_call(self, en, st, name, this, args, e):
        r = super().pre_call(en, st, name, this, args, e)
        fn = self.p.functions.get(e.get("f"))
        if r is None or fn is None or len(r) < 2:
            return r
        kinds = statuses(self.p, fn)
        out = []
        for s, v in r:
            if is_c(v):
                out.append((s, v))
            elif (True, False) in kinds:
                out.append((s, v))
            elif (True, True) in kinds:
                s.mon["said"] = True
                out.append((s, v))
        return out


def one(ctx, item):
    fn, null = item
    n = fn["n"]
    en, res, thrown = fs.analyse(ctx.p, fn, limit=200, models=dict(fs.FS, **{"Logger::error": said}), null=null, hooks=H(ctx.p))
    ctx.cover(*en.covered)
    for st, v in res:
        ok = ops.succeeded(en, st, fn, v)
        if ok is not False:
            continue
        ctx.count("failing paths")
        fl = st.mon.get("failed", ())
        why = "%s is NULL" % null if null else "%s fails" % fl[-1][0] if fl else "it refuses its arguments"
        ctx.check(st.mon.get("said"), "explained", fl[-1][1] if fl else ops.where(fn), "%s reports an error without a message in the log when %s" % (n, why), key="silent|%s|%s" % (n, "null" if null else (fl[-1][0].split(" $")[0] if fl else "")), path=st.path(), what="%s, %s" % (n, why))


def callbacks(p):
    """functions that can be the callback of the log, and what only they call"""
    r = set()
    for f in p.functions.values():
        ps = [q["t"] for q in f.get("params", ())]
        if len(ps) == 2 and "LoggerLevel" in ps[0] and "char" in ps[1]:
            r.add(f["f"])
    callers = {}
    for f in p.functions.values():
        for x in nodes(f):
            if x.get("k") in ("call", "ctor") and "f" in x:
                for g in callees(p, x):
                    callers.setdefault(g["f"], set()).add(f["f"])
    grown = True
    while grown:
        grown = False
        for g, cs in callers.items():
            if g not in r and cs <= r:
                r.add(g)
                grown = True
    return r


def run(ctx):
    ctx.rule("explained", "on every path of an operation that returns an error, an error message has been logged")
    ctx.rule("only the log", "outside the command line tool, only callbacks of the log write to the standard streams")
    ctx.rule("text", "no exception is thrown with an empty message")
    fns = ops.exported(ctx.p)
    ctx.need("exported operations", fns)
    items = [(f, None) for f in fns] + [(f, q["n"]) for f in fns for q in f["params"] if "char" in q["t"] and "extrainfo" not in q["n"].lower() and "conninfo" not in q["n"].lower()]
    for f in ctx.p.functions.values():
        if "body" in f and not f.get("method") and f.get("ret") == "int" and any("ChangesetReader" in q["t"] for q in f["params"]):
            statuses(ctx.p, f)
    ctx.par(one, items)
    ctx.need("failing paths", ctx.counts.get("failing paths"))
    cb = callbacks(ctx.p)
    for f in ctx.p.functions.values():
        if f["file"].split("/")[-1] in ("geodiffinfo.cpp", "main.cpp"):
            continue
        for x in nodes(f):
            k = x.get("k")
            n = str(x.get("gn") or x.get("n") or "").split("@")[0]
            if k in ("var", "gvar") and n in STREAMS | {s.split("::")[-1] for s in STREAMS} and x.get("g") or k == "call" and x.get("n") in PRINTS:
                ctx.check(f["f"] in cb, "only the log", "%s:%s" % (f["file"], x.get("l")), "%s writes to %s instead of the log" % (f["n"], n), key="print|%s" % f["n"], what="%s in %s" % (n, f["n"]))
            elif k == "throw" and isinstance(x.get("e"), dict) and "GeoDiffException" in str(x.get("tt")):
                lits = [y for y in walk(x["e"]) if y.get("k") == "str"]
                vs = [y for y in walk(x["e"]) if y.get("k") in ("var", "mem") or y.get("k") == "call"]
                ctx.count("exceptions")
                if lits and not vs:
                    ctx.check(any(y.get("v") for y in lits), "text", "%s:%s" % (f["file"], x.get("l")), "%s throws an exception without a message" % f["n"], key="empty|%s" % f["n"])
    ctx.ok("text", "%d exceptions" % ctx.counts.get("exceptions", 0))
