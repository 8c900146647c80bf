"""C09: abstract interpretation of every exported function with one string argument NULL.

For each exported function and each string parameter (optional extra connection information aside),
the function is interpreted with that argument NULL and the others arbitrary non-NULL strings.
"""
from ..astutil import *
from ..terms import *
from ..engine import Engine, Hooks, State, AnalysisError
from .. import contracts

LEVEL = "other"
EFFECTS = {"fopen", "fopen64", "remove", "unlink", "rename", "sqlite3_open_v2", "sqlite3_open", "PQconnectdb", "open", "_wfopen", "DeleteFileW",
           "std::basic_ofstream::ctor", "std::basic_ofstream::open", "std::basic_ifstream::ctor", "std::basic_ifstream::open"} | set(
    n for n in contracts.CON if n.startswith(("ChangesetReader::", "ChangesetWriter::open", "Driver::open", "Driver::create")))
NONNULL = {"std::basic_string::ctor": (0,), "strlen": (0,), "strcmp": (0, 1), "std::operator+": (0, 1), "std::basic_string::operator=": (0,),
           "std::basic_string::append": (0,), "std::basic_string::operator+=": (0,), "fopen": (0,), "remove": (0,), "std::basic_string::assign": (0,),
           "std::operator==": (0, 1), "std::operator<<": (1,), "std::basic_ofstream::ctor": (0,), "std::basic_ifstream::ctor": (0,),
           "std::basic_ofstream::open": (0,), "std::basic_ifstream::open": (0,)}
COUNTS = ("GEODIFF_hasChanges", "GEODIFF_changesCount")


class H(Hooks):
    def __init__(self, ctx, fn, par):
        self.c, self.fn, self.par = ctx, fn, par

    def bad(self, en, st, msg, kind, e):
        self.c.viol(kind, en.where(e), "%s with %s = NULL: %s" % (self.fn["n"], self.par, msg),
                    key="%s|%s|%s" % (kind, self.fn["n"], self.par), path=st.path())

    def pre_call(self, en, st, name, this, args, e):
        for i in NONNULL.get(name, ()):
            if i < len(args) and en.load(st, args[i]) is NULL if i < len(args) and is_loc(args[i]) else i < len(args) and args[i] is NULL:
                self.bad(en, st, "%s is given the NULL pointer" % name, "dereference", e)
        if name in EFFECTS:
            self.bad(en, st, "%s is called before the argument is refused" % name, "no effect", e)
        return None

    def on_deref(self, en, st, l, e):
        if l is NULL:
            self.bad(en, st, "the NULL pointer is dereferenced", "dereference", e)


def one(ctx, item):
    fn, par = item
    p = ctx.p
    h = H(ctx, fn, par)
    en = Engine(p, contracts.UP, h, limit=120, soft=8, hard=24)
    st = State()
    args = []
    en.frames = []
    for q in fn["params"]:
        if q["n"] == par:
            args.append(NULL)
        else:
            s = en.symarg(st, fn, q)
            if not is_loc(s):
                contracts.nn(st, s) if p.types.get(q["t"], {}).get("k") == "ptr" and "ExtraInfo" not in q["n"] else None
            args.append(s)
    n0 = len(ctx.violations)
    res, thrown = en.run(fn, args=args, st=st)
    ctx.cover(*en.covered)
    where = "%s:%d" % (fn["file"], fn["l"])
    for s, cls, v in thrown:
        ctx.viol("error code", where, "%s with %s = NULL: %s leaves the function" % (fn["n"], par, cls), key="throw|%s|%s" % (fn["n"], par), path=s.path())
    for s, v in res:
        if is_c(v):
            k = cv(v)
            ok = k < 0 if fn["n"] in COUNTS else k != 0
            ctx.check(ok, "error code", where, "%s with %s = NULL returns %s" % (fn["n"], par, k), key="code|%s|%s" % (fn["n"], par), path=s.path(), what="%s(%s)" % (fn["n"], par))
        else:
            ctx.notes.append("%s with %s = NULL returns %s" % (fn["n"], par, show(v)[:100]))
    if len(ctx.violations) == n0:
        ctx.ok("dereference")
        ctx.ok("no effect")


def run(ctx):
    p = ctx.p
    ctx.rule("error code", "every path returns an error code")
    ctx.rule("dereference", "the NULL pointer is not dereferenced")
    ctx.rule("no effect", "nothing is opened, created or removed before the argument is refused")
    items = []
    for f in p.functions.values():
        if f.get("externC") and f["n"].startswith("GEODIFF_"):
            for q in f["params"]:
                d = p.types.get(q["t"], {})
                if d.get("k") == "ptr" and "char" in q["t"] and "(" not in q["t"] and "extrainfo" not in q["n"].lower():
                    items.append((f, q["n"]))
    ctx.need("string parameters of exported functions", items)
    ctx.count("function/parameter pairs", len(items))
    ctx.par(one, items)
