"""C01: abstract interpretation of applying a changeset against an abstract transactional database.

applyChangeset() of each driver is interpreted with every combination of the environment's answers: any
library call may fail (one failure per run, two in the thorough tier), any statement may match no row, reading
the changeset may fail at any point.  The abstract database keeps the open transaction's changes apart
from the permanent ones.
"""
from ..scen import *

LEVEL = "other"


def judge(ctx, kind, name, es, m, it, r):
    w = where(m)
    what = "%s (%s)" % (name, fault_text(it))
    for db in it.env.conns:
        ctx.check(not db.auto, "one transaction", w, "%s: a change is made outside of a transaction" % kind,
                  path=[what] + story(it), what=what)
        ctx.check(db.commits <= 1, "one transaction", w, "%s: changes are made permanent in more than one step" % kind, path=[what] + story(it))
        all_ = [x[2] for x in it.env.events if x[0] == "write" and x[1] == db.n]
        if r[0] == "ok":
            ctx.check(len(db.durable) == len(all_) and not any(x[0] == "rollback" for x in it.env.events), "success", w,
                      "%s: applying succeeds although not every change was made permanent" % kind, path=[what] + story(it), what=what)
        elif r[0] in ("throw", "terminate"):
            # setting a sequence is not undone by a rollback: only a failure after it excuses it
            ev = it.env.events
            seq = [i for i, x in enumerate(ev) if x[0] == "write" and x[1] == db.n and x[2][0] == "setval"]
            if seq:
                later = any(x[0] in ("failed", "connection lost") for x in ev[seq[0]:]) or any(x[1] not in ("PQexec", "connection", "no row") for x in faulted(it))
                ctx.check(later, "sequences", w, "%s: a changeset that is refused changes a sequence" % kind, path=[what] + story(it), what=what)
            else:
                ctx.ok("sequences")
            ctx.check(not db.durable, "failure", w, "%s: applying fails and leaves changes in the database" % kind, path=[what] + story(it), what=what)
        else:
            ctx.incomplete.append("%s: %s" % (what, r[0]))


def run(ctx):
    ctx.rule("success", "when applying succeeds, every change that was made is permanent")
    ctx.rule("failure", "when applying fails, for whatever reason and wherever, no change is permanent")
    ctx.rule("one transaction", "every change is made inside one transaction, which is committed after the last change")
    ctx.rule("sequences", "when a changeset is refused, no sequence has been changed (setting a sequence is not undone by a rollback)")
    apply_all(ctx, judge, 2 if ctx.thorough else 1)
    ctx.need("behaviours", ctx.counts.get("behaviours"))
