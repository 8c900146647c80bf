"""C23: abstract interpretation of creating a rebased changeset: the conflicts that are reported.

The same scenarios as C22; the list given to the JSON writer and the writing of the conflict file are
compared with the columns both sides changed.
"""
from ..rebasing import *

LEVEL = "other"


def run(ctx):
    p = ctx.p
    ctx.rule("every conflict", "every column of a row to which both sides gave (different) new values is reported")
    ctx.rule("only conflicts", "nothing else is reported, and nothing twice")
    ctx.rule("values", "a conflict carries the base value and the new values of both sides")
    ctx.rule("conflict file", "the conflict file is written exactly if there are conflicts, and with the reported ones")
    scen = scenarios(ctx.thorough)
    ctx.need("GEODIFF_createRebasedChangesetEx", fn(p, "GEODIFF_createRebasedChangesetEx"))

    def work(c, l):
        for s in l:
            one(c, *s)

    def one(c, what, theirs, own):
        done, why, f = rebased(p, theirs, own)
        where = "%s (%s:%d)" % (f["n"], f["file"].split("/")[-1], f["l"])
        path = ["theirs: %r" % (x,) for x in theirs] + ["own: %r" % (x,) for x in own]
        if why:
            c.incomplete.append(why)
        for it, r in done:
            c.count("runs")
            c.functions |= it.covered
            if r[0] == "error":
                c.incomplete.append("%s: %s" % (what, r[1]))
                continue
            if r[0] != "ok" or it.sconst(r[1]) != 0:
                continue
            rep = it.env.reported
            pr = conflict_problem(theirs, own, rep)
            if pr:
                c.check(False, pr[0], where, pr[1] + " (%s)" % what, key=pr[0], path=path + ["reported: %r" % (x,) for x in rep or ()])
            else:
                for k in ("every conflict", "only conflicts", "values"):
                    c.ok(k, what)
            w = it.env.written
            if rep and any(x[2] for x in rep):
                ok = w == [(CONF, "the conflicts")]
                c.check(ok, "conflict file", where, "the conflicts are not written to the conflict file", key="file", path=path + [str(w)], what=what)
            else:
                c.check(not w, "conflict file", where, "a conflict file is written although there is no conflict", key="file", path=path + [str(w)], what=what)
    ctx.par(work, [scen[i::24] for i in range(24)])
    ctx.need("runs", ctx.counts.get("runs"))
