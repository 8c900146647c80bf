"""C11: abstract interpretation with resource objects.

Connections, statements, results, copied values, SQL texts, mutexes and writers are abstract resources
of the modelled libraries.  Every operation of both drivers is interpreted with any call failing; at
the end, after the driver object is destroyed, no resource may be left, and none may be released twice or
used after its release.
"""
from ..scen import *

LEVEL = "other"


def judge(ctx, kind, o, it, r):
    m = o.method
    what = "%s, %s (%s)" % (kind, o.name, fault_text(it))
    if r[0] not in ("ok", "throw"):
        return
    left = it.env.leaks()
    ctx.check(not left, "released", where(m), "%s, %s: not released: %s" % (kind, o.name, ", ".join(left)), key="leak|%s|%s|%s" % (kind, o.name, ",".join(left)), path=[what, "outcome: " + r[0]] + story(it), what=what)
    bad = it.env.misuse
    ctx.check(not bad, "once", where(m), "%s, %s: %s" % (kind, o.name, bad[0] if bad else ""), key="misuse|%s|%s|%s" % (kind, o.name, bad[0] if bad else ""), path=[what, "outcome: " + r[0]] + story(it), what=what)
    open_ = [d.n for d in it.env.conns if getattr(d, "mutex", 0)]
    ctx.check(not open_, "unlocked", where(m), "%s, %s: the database's mutex is not released" % (kind, o.name), path=[what] + story(it))


def run(ctx):
    ctx.rule("released", "after the operation and the destruction of the driver every acquired resource has been released")
    ctx.rule("once", "no resource is released twice or used after its release")
    ctx.rule("unlocked", "mutexes that were entered have been left")
    all_ops(ctx, judge, 2 if ctx.thorough else 1, limit=400 if ctx.thorough else 120)
    ctx.need("behaviours", ctx.counts.get("behaviours"))
