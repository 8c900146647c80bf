"""C10: every exported operation is interpreted with a failing variant of each storage step; success must not be
reported on a path on which a step failed or on which writing the output was not verified.

The operations of the drivers are interpreted against an abstract database any call of which may fail."""
from ..terms import *
from .. import fs, ops, scen

LEVEL = "other"


def one(ctx, fn):
    n = fn["n"]
    en, res, thrown = fs.analyse(ctx.p, fn, limit=200)
    ctx.cover(*en.covered)
    A = [S("arg", q["n"]) for q in fn["params"]]
    for st, v in res:
        ok = ops.succeeded(en, st, fn, v)
        if not ok:
            if ok is False:
                ctx.ok("steps", "%s returns an error" % n)
            continue
        fl = st.mon.get("failed", ())
        ctx.check(not fl, "steps", fl[0][1] if fl else "", "%s reports success although %s failed" % (n, fl[0][0] if fl else ""),
                  key="step|%s|%s" % (n, fl[0][0].split(" $")[0] if fl else ""), path=st.path(), what="%s succeeds" % n)
        for path, ev in ops.written(st).items():
            c = fs.get(st, path)
            if path in A:
                why = None
                for t in ops.subterms(c):
                    if t.op == "unchecked":
                        why = "without checking that everything was written"
                    elif t.op == "buffered":
                        why = "while part of it is still buffered"
                    elif t.op == "partial":
                        why = "although only part of it was written"
                ctx.check(why is None, "output complete", ev[-1], "%s reports success %s (%s)" % (n, why, show(path)), key="out|%s|%s" % (n, show(path)), path=st.path(), what="%s: %s" % (n, show(path)))


def driver(ctx, kind, o, it, r):
    """one behaviour of an operation of a driver"""
    m = o.method
    f = scen.faulted(it)
    bad = [x for x in it.env.events if x[0] == "bad sql"]
    what = "%s, %s (%s)" % (kind, o.name, scen.fault_text(it))
    if not f and not bad:
        if r[0] in ("undef", "oob"):
            ctx.incomplete.append("%s: %s" % (what, r[0]))
        return
    step = f[0][1] if f else "preparing a statement"
    ctx.check(r[0] != "ok", "database steps", scen.where(m), "%s, %s reports success although a step failed: %s" % (kind, o.name, step), key="db|%s|%s|%s" % (kind, o.name, step), path=[what] + scen.story(it), what=what)
    ctx.check(r[0] not in ("undef", "oob", "terminate"), "survives", scen.where(m), "%s, %s goes wrong after a step failed: %s" % (kind, o.name, step), key="crash|%s|%s|%s" % (kind, o.name, step), path=[what, str(r)[:200]] + scen.story(it))


def run(ctx):
    ctx.rule("database steps", "an operation of a driver in which a call of the database library, the changeset reader or writer failed does not report success")
    ctx.rule("survives", "it neither uses results that are not there nor ends the process")
    ctx.rule("steps", "success is not reported on a path with a failed step")
    ctx.rule("output complete", "success is reported only after the result of writing the output is known")
    fns = ops.exported(ctx.p)
    ctx.need("exported operations", fns)
    ctx.par(one, fns)
    scen.all_ops(ctx, driver, 2 if ctx.thorough else 1, limit=400 if ctx.thorough else 120)
    ctx.need("behaviours of the drivers", ctx.counts.get("behaviours"))
