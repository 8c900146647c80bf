"""C22: abstract interpretation of creating a rebased changeset.

GEODIFF_createRebasedChangesetEx() is interpreted for pairs of changesets with opaque values; keys are
representatives of every way they can coincide.  The changeset written is compared with the rule.
"""
from ..rebasing import *

LEVEL = "other"


def run(ctx):
    p = ctx.p
    ctx.rule("kept", "every own entry is kept in its table, once, with its values")
    ctx.rule("dropped", "updates and deletes of rows that the other side deleted are dropped")
    ctx.rule("values", "updates keep the own new values")
    ctx.rule("old values", "old values of updates and deletes are the other side's new values where it has any, else the own ones")
    ctx.rule("keys", "own inserts have keys that no insert of the other side and no other own insert has, and are renumbered only if their key was taken")
    ctx.rule("form", "the entries are written under the header of their table")
    ctx.rule("succeeds", "rebasing changesets of tables with one integer or text key succeeds")
    ctx.rule("failure", "a failure to read or write makes rebasing fail")
    scen = scenarios(ctx.thorough)
    ctx.need("GEODIFF_createRebasedChangesetEx", fn(p, "GEODIFF_createRebasedChangesetEx"))

    def work(c, l):
        for s in l:
            one(c, *s)

    def one(c, what, theirs, own):
        done, why, f = rebased(p, theirs, own)
        where = "%s (%s:%d)" % (fn(p, "rebase")["n"] if p.byname.get("rebase") else f["n"], f["file"].split("/")[-1], f["l"])
        path = ["theirs: %r" % (x,) for x in theirs] + ["own: %r" % (x,) for x in own]
        if why:
            c.incomplete.append(why)
        for it, r in done:
            c.count("runs")
            c.functions |= it.covered
            if r[0] == "error":
                c.incomplete.append("%s: %s" % (what, r[1]))
                continue
            rc = it.sconst(r[1]) if r[0] == "ok" else None
            if what.startswith("two definitions") and r[0] == "ok" and rc != 0:
                continue    # one table has one key: such a changeset may be refused
            if not c.check(rc == 0, "succeeds", where, "rebasing fails (%s)" % what, key="succeeds|" + what.split(" ")[0], path=path + [str(r)[:200]], what=what):
                continue
            o = it.env.out.get(OUT)
            if not theirs or not own:
                ok = o == ("copy", OWN) or isinstance(o, list) and not own and not [x for x in o if x[0] == "entry"]
                if not ok and isinstance(o, list):
                    es, msg = decode(o)
                    ok = msg is None and [e.key() for e in es] == [e.key() for e in own]
                c.check(ok, "kept", where, "with %s, the rebased changeset is not the own one" % what, key="copy", path=path, what=what)
                continue
            if not isinstance(o, list):
                c.check(False, "kept", where, "no rebased changeset is written (%s)" % what, key="none", path=path)
                continue
            es, msg = decode(o)
            if not c.check(msg is None, "form", where, "%s (%s)" % (msg, what), key="form", path=path, what=what):
                continue
            pr = changeset_problem(theirs, own, es)
            path += ["rebased: %r" % (x,) for x in es]
            if pr:
                c.check(False, pr[0], where, pr[1] + " (%s)" % what, key=pr[0], path=path)
            else:
                for k in ("kept", "dropped", "values", "old values", "keys"):
                    c.ok(k, what)
    ctx.par(work, [scen[i::24] for i in range(24)])

    def faulty(c, s):
        what, theirs, own = s
        done, why, f = rebased(p, theirs, own, 1, 300)
        where = "%s (%s:%d)" % (f["n"], f["file"].split("/")[-1], f["l"])
        for it, r in done:
            if r[0] == "error":
                c.incomplete.append(r[1])
            elif it.nfaults and r[0] == "ok":
                n = [k[0] for k, v in it.cell.items() if v and isinstance(k[0], tuple) and k[0][0] == "fault"]
                c.check(it.sconst(r[1]) != 0, "failure", where, "rebasing succeeds although %s failed" % (n[0][1] if n else "a step"), key="failure", what=what)
    ctx.par(faulty, [s for s in scen if s[0] in ("several tables",)][:8] + [s for s in scen if s[0].startswith("nothing")] + [s for s in scen if s[0] == "their cc, own cc"])
    ctx.need("runs", ctx.counts.get("runs"))
