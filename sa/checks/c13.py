"""C13: every exported operation is interpreted over an abstract file system; each write, creation and removal
on any path must concern an output argument or a temporary file."""
from ..terms import *
from .. import fs, ops, scen

LEVEL = "other"


def one(ctx, fn):
    n = fn["n"]
    en, res, thrown = fs.analyse(ctx.p, fn, limit=200)
    ctx.cover(*en.covered)
    A = [S("arg", q["n"]) for q in fn["params"]]
    if n not in ops.OUT:
        ctx.notes.append("%s: its outputs are not documented here" % n)
        return
    out = [A[i] for i in ops.OUT[n]]
    for st in [s for s, _ in res] + [s for s, _, _ in thrown]:
        for ev in st.mon.get("log", ()):
            if len(ev) != 4 or ev[0] in ("read", "compatible"):
                continue
            path = ev[1]
            if path in A:
                ctx.check(path in out, "only outputs", ev[-1], "%s: %s on its input %s" % (n, ev[0], show(path)), key="in|%s|%s" % (n, show(path)),
                          path=st.path(), what="%s: %s %s" % (n, ev[0], show(path)))
            elif path.op == "s" and path.a[0] == "arg" or is_c(path) and cv(path) == "":
                ctx.viol("only outputs", ev[-1], "%s: %s on %s" % (n, ev[0], show(path)), key="in|%s|%s" % (n, show(path)), path=st.path())
            else:
                ctx.ok("only outputs", "%s: %s on its own file %s" % (n, ev[0], show(path)))


READ = ("open", "listTables", "tableSchema", "createChangeset", "dumpData", "checkCompatibleForRebase")


def driver(ctx, kind, o, it, r):
    """one behaviour of an operation of a driver: what it changed in the databases"""
    m = o.method
    what = "%s, %s (%s)" % (kind, o.name, scen.fault_text(it))
    e = it.env
    base = scen.opener(kind)["base"]
    writes = [x[2] for x in e.events if x[0] == "write" and x[2][0] != "setval"]
    if o.method["n"].split("::")[-1] in READ:
        ctx.check(not writes, "databases", scen.where(m), "%s, %s changes the database it reads (%s)" % (kind, o.name, writes[0][0] if writes else ""), path=[what] + scen.story(it), what=what)
        ctx.check(not e.removed, "databases", scen.where(m), "%s, %s removes %s" % (kind, o.name, e.removed[0] if e.removed else ""), path=[what])
        fl = [x for x in e.events if x[0] == "open" and len(x) > 2 and x[2] & 4]
        ctx.check(not fl, "databases", scen.where(m), "%s, %s creates the database if it does not exist" % (kind, o.name), path=[what] + scen.story(it))
    else:
        ctx.check(all(x == base for x in e.removed), "databases", scen.where(m), "%s, %s removes another file" % (kind, o.name), path=[what] + [str(x) for x in e.removed], what=what)
        if o.name == "create" or o.name.startswith("apply"):
            ctx.check(not e.removed, "databases", scen.where(m), "%s, %s removes the database" % (kind, o.name), path=[what] + scen.story(it))
        other = [x for x in writes if x[0] in scen.DML and x[1] not in ("main", base)]
        ctx.check(not other, "databases", scen.where(m), "%s, %s changes another database" % (kind, o.name), path=[what] + scen.story(it))


def run(ctx):
    ctx.rule("databases", "comparing, dumping and inspecting change and create no database; applying and creating change only the one they were asked to")
    ctx.rule("only outputs", "files written, created or removed are outputs of the operation or files of its own")
    fns = ops.exported(ctx.p)
    ctx.need("exported operations", fns)
    ctx.par(one, fns)
    scen.all_ops(ctx, driver, 1, limit=120)
    ctx.need("behaviours of the drivers", ctx.counts.get("behaviours"))
