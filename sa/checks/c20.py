"""C20: abstract interpretation of applying a changeset to a database with triggers.

The abstract database records which triggers exist when each change is made, and what is permanent at
the end.
"""
from ..scen import *

LEVEL = "other"


def judge(ctx, kind, name, es, m, it, r):
    w = where(m)
    what = "%s (%s)" % (name, fault_text(it))
    db = it.env.conns[0]
    orig = {x[0]: x[2] for x in it.env.trig0}
    for x in dml([e[2] for e in it.env.events if e[0] == "write"]):
        own = [t for t in x[6] if t in OWN + NEARLY]
        ctx.check(not own, "removed", w, "the trigger %s is active while the changeset is applied" % (own[0] if own else ""), path=[what] + story(it), what=what)
        gone = [t for t in orig if t in MACHINERY and t not in x[6]]
        ctx.check(not gone, "machinery", w, "the GeoPackage trigger %s is inactive while the changeset is applied" % (gone[0] if gone else ""), path=[what] + story(it), what=what)
    db.log = []
    last = {t[0]: t[2] for t in it.env.trig0}
    for x in db.durable:
        if x[0] == "droptrigger":
            last.pop(x[1], None)
        elif x[0] == "createtrigger":
            last[x[1]] = x[2]
    norm = lambda s: s.strip().rstrip(";").strip()
    if r[0] == "ok":
        for t in orig:
            ctx.check(t in last, "restored", w, "after applying, the trigger %s is gone" % t, path=[what] + story(it), what=what)
            ctx.check(t not in last or norm(last[t]) == norm(orig[t]), "restored", w, "after applying, the trigger %s has another definition" % t, path=[what, str(last.get(t))])
        ctx.check(all(t in orig for t in last), "restored", w, "after applying there are new triggers", path=[what])
    elif r[0] in ("throw", "terminate"):
        ctx.check(last == orig, "failure", w, "applying fails and leaves the triggers changed", path=[what] + story(it), what=what)
    else:
        ctx.incomplete.append("%s: %s" % (what, r[0]))


def run(ctx):
    ctx.rule("removed", "no trigger other than those of the GeoPackage machinery exists while a change is made")
    ctx.rule("machinery", "the triggers of the GeoPackage machinery exist while a change is made")
    ctx.rule("restored", "after success each trigger exists with its original definition")
    ctx.rule("failure", "after a failure the triggers are as they were")
    p = ctx.p
    A, B = T1, T2
    sets = {"several triggers": TRIGGERS, "one trigger": TRIGGERS[:1], "only machinery": [TRIGGERS[1], TRIGGERS[3]], "none": []}
    items = []
    for n, t in sets.items():
        for en, es in (("one entry", [entry(A, "insert", "i")]), ("two tables", [entry(A, "update", "u"), entry(B, "delete", "d")]), ("nothing", [])):
            items.append(("%s, %s" % (n, en), t, es))

    # every name that is close to one of the machinery, without failures
    near = [trig(n) for n in NEARLY] + [TRIGGERS[1], TRIGGERS[3]]
    items.append(("names close to those of GeoPackage", near, [entry(A, "insert", "i")]))

    def one(c, item):
        name, trigs, es = item
        cfg = Cfg(faults=0 if trigs is near else 2 if c.thorough else 1, triggers=trigs, tables=[T1, T2])
        done, why, m = applying(c.p, "sqlite", es, cfg)
        c.cover(m["n"], "sqliteTriggers")
        for it, r in outcomes(c, done, why, name):
            it.env.trig0 = trigs
            judge(c, "sqlite", name, es, m, it, r)
    ctx.par(one, items)
    ctx.need("behaviours", ctx.counts.get("behaviours"))
