"""C27: abstract interpretation of the command line tool.

main() is interpreted for every documented command, every number of arguments from none to one more
than documented, and every result of the library function; the argument texts are unknown except for the
command.  The calls of library functions are recorded with the origin of each argument.
"""
from ..world import *

LEVEL = "other"

# the documented commands (help text of the tool, README): the function and the number of arguments,
# which are passed in the documented order
COMMANDS = {
    "createChangeset": ("GEODIFF_createChangeset", 3),
    "createRebasedChangeset": ("GEODIFF_createRebasedChangeset", 5),
    "applyChangeset": ("GEODIFF_applyChangeset", 2),
    "listChanges": ("GEODIFF_listChanges", 2),
    "listChangesSummary": ("GEODIFF_listChangesSummary", 2),
    "makeCopy": ("GEODIFF_makeCopy", 6),
    "createChangesetEx": ("GEODIFF_createChangesetEx", 5),
    "applyChangesetEx": ("GEODIFF_applyChangesetEx", 4),
    "rebaseEx": ("GEODIFF_rebaseEx", 6),
    "dumpData": ("GEODIFF_dumpData", 4),
}
AUX = ("GEODIFF_init", "GEODIFF_version", "GEODIFF_setMaximumLoggerLevel", "GEODIFF_setLoggerCallback")


class Env:
    def __init__(self, p, ret):
        self.ret = ret
        self.calls = []
        self.p = p

    def attach(self, w):
        self.w = w
        for n in set(self.p.byname) | {d.get("n") for d in self.p.decls.values() if isinstance(d, dict)}:
            if n and n.startswith("GEODIFF_"):
                w.ext[n] = lambda it, this, args, e, n=n: self.call(n, args)

    def call(self, n, args):
        args = [a.get() if isinstance(a, Ref) else a for a in args]
        if n in AUX:
            if n == "GEODIFF_version":
                return Ptr(S("1.2.3").d + [K(0, 8)], 0)
            return None
        self.calls.append((n, args))
        return K(self.ret, 32)

    def x_getenv(self, k):
        return Ptr(S("1").d + [K(0, 8)], 0) if self.w.decide("environment") else None

    def x_printf(self, *a):
        return K(1, 32)

    x_puts = x_fprintf = x_printf

    def stream(self, s, d):
        pass

    def streq(self, x, y):
        return None


def argname(a, argv):
    """which argument of the tool is this?"""
    if a is None:
        return None
    if isinstance(a, Op):
        return a.t
    if isinstance(a, Ptr):
        v = a.c[a.k] if a.ref is None else None
        if isinstance(v, Chunk):
            return v.t
        if isinstance(v, BV):
            return "text"
    return "unknown"


def run(ctx):
    p = ctx.p
    ctx.rule("commands", "each documented command, with all its arguments, calls the function it stands for exactly once with the arguments in the documented order and exits with success exactly if the function reports success")
    ctx.rule("refused", "with fewer arguments than documented, without a command or with an unknown one the tool exits with an error and calls no function of the library")
    mains = [f for f in p.byname.get("main", []) if "body" in f and f["file"].endswith("geodiffinfo.cpp")]
    ctx.need("main of the command line tool", mains)
    m = mains[0]
    where = "main (%s:%d)" % (m["file"].split("/")[-1], m["l"])

    def go(argv, ret):
        def body(it):
            l = [Ptr(S("geodiff").d + [K(0, 8)], 0)]
            for a in argv:
                if isinstance(a, str):
                    l.append(Ptr(S(a).d + [K(0, 8)], 0))
                else:
                    l.append(Ptr([Chunk(a), K(0, 8)], 0))
            v = Str(l + [None], "arr")
            args = [K(len(l), 32), Ptr(v.d, 0, obj=v)]
            r = it.callfn(m, args[:len(m["params"])])
            return r if r is not None else K(0, 32)
        done, why = explore(p, lambda: Env(p, ret), body, 300)
        out = []
        for it, r in done:
            ctx.count("runs")
            ctx.functions |= it.covered
            if r[0] == "error":
                ctx.incomplete.append(r[1])
                continue
            out.append((it.env.calls, r))
        return out

    def status(r):
        if r[0] != "ok":
            return None
        try:
            return r[1].const()
        except Exception:
            return None

    for cmd, (fn, n) in sorted(COMMANDS.items()):
        full = [cmd] + [("argument", i) for i in range(1, n + 1)]
        for ret in (0, 1, 2):
            for calls, r in go(full, ret):
                msg = None
                st = status(r)
                want = [("argument", i) for i in range(1, n + 1)]
                if r[0] != "ok":
                    msg = "it fails (%s)" % (r[1] if len(r) > 1 else r[0])
                elif [c[0] for c in calls] != [fn]:
                    msg = "it calls %s instead of %s once" % (", ".join(c[0] for c in calls) or "nothing", fn)
                elif [argname(a, None) for a in calls[0][1]] != want:
                    msg = "%s gets %s" % (fn, ", ".join("argument %d" % a[1] if isinstance(a, tuple) else str(a) for a in [argname(x, None) for x in calls[0][1]]))
                elif st is None:
                    msg = "no exit status"
                elif (st & 0xff == 0) != (ret == 0):
                    msg = "the exit status is %d when the function returns %d" % (st, ret)
                ctx.check(msg is None, "commands", where, "command %s: %s" % (cmd, msg), key="commands|" + cmd, what=cmd)
        for k in range(n):
            for calls, r in go(full[:k + 1], 0):
                st = status(r)
                msg = None
                if calls:
                    msg = "it calls %s" % calls[0][0]
                elif r[0] in ("oob", "undef", "throw", "terminate"):
                    msg = "it fails (%s)" % r[0]
                elif st is not None and st & 0xff == 0:
                    msg = "it exits with success"
                ctx.check(msg is None, "refused", where, "command %s with %d of %d arguments: %s" % (cmd, k, n, msg), key="refused|%s|%d" % (cmd, k), what="%s, %d arguments" % (cmd, k))
    near = [[x] + [("argument", i) for i in range(1, 8)] for c in sorted(COMMANDS) for x in (c + "x", c[:-2], "x" + c) if x not in COMMANDS]
    for argv in near + [[], ["nonsense"], ["nonsense", ("argument", 1), ("argument", 2), ("argument", 3)], [""], ["createchangeset", ("argument", 1), ("argument", 2), ("argument", 3)], ["createChangese", ("argument", 1), ("argument", 2), ("argument", 3)]]:
        for calls, r in go(argv, 0):
            st = status(r)
            msg = "it calls %s" % calls[0][0] if calls else "it exits with success" if st is not None and st & 0xff == 0 else "it fails (%s)" % r[0] if r[0] != "ok" else None
            ctx.check(msg is None, "refused", where, "%s: %s" % ("unknown command" if argv else "no command", msg), key="refused|%s" % (argv[:1],), what=str(argv[:1]))
    for calls, r in go(["version"], 0):
        st = status(r)
        ctx.check(not calls and st == 0, "commands", where, "command version: exit status %s" % st, key="commands|version", what="version")
