"""C25: every exported operation is interpreted over an abstract file system whose contents are provenance
terms; on every successful path the outputs must hold the documented term of the inputs."""
from ..terms import *
from .. import fs, ops
from ..engine import AnalysisError

LEVEL = "other"


def rebased_ok(en, st, c, mine, their, p, ctx, fn):
    """c is the content of a rebased changeset; None if fine, otherwise what is wrong"""
    c = fs.norm(c)
    if fs.isempty(en, st, mine) and fs.isempty(en, st, c):
        return None
    if fs.same(en, st, c, mine):
        if fs.isempty(en, st, their) or fs.isempty(en, st, mine):
            return None
        return "the own changeset is used unchanged although both sides have changes"
    if c.op != "res" or c.a[1] != "file":
        return "it holds %s" % show(c)[:160]
    for t in ops.subterms(c):
        if t.op == "rest":
            return "a changeset is read from the middle: %s" % show(t)[:120]
    lm, lt = fs.norm(mine), fs.norm(their)

    def uses(t):
        r = set()
        stk, seen = [t], set()
        while stk:
            x = stk.pop()
            if x is lm:
                r.add("own")
            elif x is lt:
                r.add("their")
            elif isinstance(x, T) and x.op in ("file0", "diff", "inv", "apply"):
                r.add(show(x)[:80])
            elif isinstance(x, T):
                if id(x) not in seen:
                    seen.add(id(x))
                    stk += list(x.a)
            elif isinstance(x, tuple):
                stk += list(x)
        return r

    def step(t):
        fl = [f for f in p.fn(t.a[0]) if "body" in f]
        if len(fl) != 1:
            return None
        ps = fl[0]["params"]
        ins = t.a[2:]
        if len(ps) != len(ins):
            return None
        return list(zip(ps, ins))

    u = uses(c)
    if "their" not in u:
        return "it does not depend on the other side's changeset"
    if "own" not in u:
        return "it does not depend on the own changeset"
    if u - {"own", "their"}:
        return "it depends on %s" % ", ".join(sorted(u - {"own", "their"}))
    z = step(c)
    if z is not None:
        for q, t in z:
            if "ChangesetReader" in q["t"] and t is not lm:
                return "the rebased entries are taken from %s instead of the own changeset" % show(t)[:120]
            if "DatabaseRebaseInfo" in q["t"] and uses(t) - {"their"}:
                return "the information about the other side's changes is taken from %s" % ", ".join(sorted(uses(t)))
    return None


def conns(st):
    """driver name and connection info each database was opened with"""
    r = []
    for ev in st.mon.get("log", ()):
        if ev[0] == "dbopen":
            r.append((st.mon.get(("n", ev[1])), ev[2], ev[3], ev[4], ev[5]))
    return r


def one(ctx, fn):
    p = ctx.p
    n = fn["n"]
    en, res, thrown = fs.analyse(p, fn, limit=200)
    ctx.cover(*en.covered)
    ctx.count("final states", len(res))
    A = [S("arg", q["n"]) for q in fn["params"]]
    W = ops.where(fn)
    F = lambda i: mk("file0", A[i])
    nsucc = 0

    def bad(rule, msg, st, key=None):
        ctx.viol(rule, W, "%s: %s" % (n, msg), key="%s|%s|%s" % (rule, n, key or ""), path=st.path())

    for st, v in res:
        ok = ops.succeeded(en, st, fn, v)
        if ok is None:
            if n == "GEODIFF_hasChanges":
                e = mk("isEmpty", F(0))
                if en.truth(st, mk("not", e)) is None and v in (e, mk("not", e)):
                    ctx.check(v is mk("not", e), "result", W, "%s reports an empty changeset as changes" % n, key="hasChanges")
            continue
        g = lambda x: fs.get(st, x)
        if not ok:
            if n in ("GEODIFF_rebase", "GEODIFF_rebaseEx"):
                m = A[2 if n == "GEODIFF_rebase" else 3]
                ctx.check(m not in ops.written(st) or fs.same(en, st, g(m), mk("file0", m)), "unchanged on error", W,
                          "%s: reports an error but leaves the modified database as %s" % (n, show(fs.norm(g(m)))[:160]), key="err|" + n, path=st.path())
            continue
        nsucc += 1
        if st.mon.get("failed"):
            f = st.mon["failed"][0]
            # a changeset whose emptiness could not be determined counts as non-empty; a later step then fails
            bad("stop on failure", "%s fails (%s) but success is reported" % f, st, "failed|" + f[0].split(" $")[0])
            continue
        ctx.ok("stop on failure")

        def expect(path, content, what):
            c = g(path)
            ctx.check(fs.same(en, st, c, content), "outputs", W, "%s: %s should be %s but is %s" % (
                n, what, show(fs.norm(content))[:200], show(fs.norm(c))[:200]), key="out|%s|%s" % (n, what), path=st.path(), what="%s: %s" % (n, what))

        if n == "GEODIFF_createChangeset":
            expect(A[2], mk("diff", F(0), F(1)), "the changeset")
        elif n == "GEODIFF_createChangesetEx":
            expect(A[4], mk("diff", F(2), F(3)), "the changeset")
        elif n == "GEODIFF_applyChangeset":
            expect(A[0], F(0) if fs.isempty(en, st, F(1)) and fs.get(st, A[0]) is F(0) else mk("apply", F(0), F(1)), "the database")
        elif n == "GEODIFF_applyChangesetEx":
            expect(A[2], F(2) if fs.isempty(en, st, F(3)) and fs.get(st, A[2]) is F(2) else mk("apply", F(2), F(3)), "the database")
        elif n == "GEODIFF_invertChangeset":
            expect(A[1], mk("inv", F(0)), "the inverted changeset")
        elif n == "GEODIFF_listChanges":
            expect(A[1], mk("json", "changesetToJSON", F(0)), "the listing")
        elif n == "GEODIFF_listChangesSummary":
            expect(A[1], mk("json", "changesetToJSONSummary", F(0)), "the summary")
        elif n == "GEODIFF_dumpData":
            expect(A[3], mk("dump", F(2)), "the dump")
        elif n == "GEODIFF_makeCopy":
            c = fs.norm(g(A[5]))
            why = copy_ok(en, st, c, F(2), A)
            ctx.check(why is None, "outputs", W, "%s: the copy: %s" % (n, why), key="out|%s" % n, path=st.path(), what="%s: the copy" % n)
        elif n in ("GEODIFF_createRebasedChangeset", "GEODIFF_createRebasedChangesetEx"):
            if n.endswith("Ex"):
                mine, their, out = F(3), F(4), A[5]
            else:
                mine, their, out = mk("diff", F(0), F(1)), F(2), A[3]
            why = rebased_ok(en, st, g(out), mine, their, p, ctx, fn)
            ctx.check(why is None, "outputs", W, "%s: the rebased changeset: %s" % (n, why), key="out|%s" % n, path=st.path(), what="%s: the rebased changeset" % n)
        elif n in ("GEODIFF_rebase", "GEODIFF_rebaseEx"):
            if n.endswith("Ex"):
                mod, base, their = A[3], A[2], F(4)
            else:
                mod, base, their = A[2], A[0], mk("diff", F(0), F(1))
            mine = mk("diff", mk("file0", base), mk("file0", mod))
            c = fs.norm(g(mod))
            why = final_ok(en, st, c, mk("file0", mod), mine, their, p, ctx, fn)
            ctx.check(why is None, "outputs", W, "%s: the modified database: %s" % (n, why), key="out|%s" % n, path=st.path(), what="%s: the modified database" % n)
        conf = {"GEODIFF_createRebasedChangeset": 4, "GEODIFF_createRebasedChangesetEx": 6, "GEODIFF_rebase": 3, "GEODIFF_rebaseEx": 5}.get(n)
        if conf is not None:
            c = fs.norm(g(A[conf]))
            ctx.check(c is fs.ABSENT or any(t.op == "conflictsJSON" for t in ops.subterms(c)), "conflict file", W,
                      "%s: it succeeds and the conflict file is %s, neither absent nor the conflicts of this run" % (n, show(c)[:160]), key="conf|" + n, path=st.path(), what="%s: the conflict file" % n)
        # databases are opened with the caller's driver
        names = {"GEODIFF_createChangesetEx": (0, 1), "GEODIFF_applyChangesetEx": (0, 1), "GEODIFF_rebaseEx": (0, 1), "GEODIFF_dumpData": (0, 1)}
        if n in names:
            dn, di = names[n]
            for nm, b, m, ci, w in conns(st):
                ctx.check(nm is None or nm is A[dn], "driver", w, "%s: a database is opened with the driver %s" % (n, show(nm)), key="drv|" + n, path=st.path())
                good = ci is A[di] or ci is None and en.truth(st, A[di]) is not True
                ctx.check(good, "driver", w, "%s: a database is opened with the connection %s" % (n, show(ci)), key="drvci|" + n, path=st.path())
        if n == "GEODIFF_makeCopy":
            for nm, b, m, ci, w in conns(st):
                if b is A[2]:
                    ctx.check(nm is A[0] and ci in (None, A[1]), "driver", w, "%s: the source is opened with driver %s, connection %s" % (n, show(nm), show(ci)), key="drvs|" + n, path=st.path())
                elif b is A[5]:
                    ctx.check(nm is A[3] and ci in (None, A[4]), "driver", w, "%s: the copy is made with driver %s, connection %s" % (n, show(nm), show(ci)), key="drvd|" + n, path=st.path())
    if en.unmodelled:
        ctx.notes.append("%s: no model for %s" % (n, ", ".join(sorted(map(str, en.unmodelled)))[:300]))
    if not nsucc and n not in ops.COUNTS:
        ctx.incomplete.append("%s: no successful path was found" % n)


def final_ok(en, st, c, mod0, mine, their, p, ctx, fn):
    steps = []
    x = c
    while x.op == "apply":
        steps.append(x.a[1])
        x = x.a[0]
    steps.reverse()
    if len(steps) != 3:
        steps = [s for s in steps if not fs.isempty(en, st, s)]
    if x is not mod0:
        return "it is replaced by %s" % show(c)[:160]
    E = lambda t: fs.isempty(en, st, t)
    inv, th = fs.norm(mk("inv", mine)), fs.norm(their)
    if E(th) is True:
        return None if not steps else "nothing changed on the other side but %s is applied" % show(steps[0])[:120]
    if E(fs.norm(mine)) is True:
        return None if len(steps) == 1 and fs.same(en, st, steps[0], th) else "without own changes, %s is applied instead of the other side's changeset" % (show(steps)[:200])
    # both sides changed
    if len(steps) == 0:
        # the concatenation is empty only if each part is
        return None if any(k.op == "isEmpty" and st.facts.get(k) == ("d", frozenset([1])) for k in st.facts if isinstance(k, T)) else "nothing is applied although both sides have changes"
    if len(steps) != 3:
        return "%d steps are applied (%s) instead of undoing the own changes, applying theirs and applying the rebased ones" % (len(steps), "; ".join(show(s)[:90] for s in steps))
    if not fs.same(en, st, steps[0], inv):
        return "the first step is %s instead of undoing the own changes" % show(steps[0])[:160]
    if not fs.same(en, st, steps[1], th):
        return "the second step is %s instead of the other side's changes" % show(steps[1])[:160]
    why = rebased_ok(en, st, steps[2], mine, their, p, ctx, fn)
    return None if why is None else "the third step is not the rebased changeset: " + why


def copy_ok(en, st, c, src, A):
    x = c
    if x.op != "apply":
        return "no data is inserted: it is %s" % show(c)[:160]
    if fs.norm(x.a[1]) is not mk("dump", src):
        return "the inserted data is %s instead of a dump of the source" % show(x.a[1])[:160]
    x = x.a[0]
    if x.op != "withTables":
        return "the tables are not created before data is inserted: %s" % show(c)[:160]
    if x.a[0].op != "newdb":
        return "the copy is not created anew: %s" % show(x.a[0])[:160]
    t = x.a[1]
    els = [y for y in ops.subterms(t) if y.op == "schema"]
    if not els:
        return None if t.op == "vec" and not t.a else "the tables created are %s" % show(t)[:160]
    for y in ops.subterms(t):
        if y.op == "schema":
            if y.a[0] is not src:
                return "a table definition is taken from %s" % show(y.a[0])[:120]
            if not any(z is mk("tables", src) for z in ops.subterms(y.a[1])):
                return "the table definition is that of %s instead of a table of the source" % show(y.a[1])[:120]
        if y.op == "convert":
            if [z for z in y.a[:2]] != [A[0], A[3]]:
                return "table definitions are converted from %s to %s" % (show(y.a[0]), show(y.a[1]))
            if y.a[-1].op != "schema":
                return "the converted table definition is %s" % show(y.a[-1])[:120]
    if not any(y.op == "convert" for y in ops.subterms(t)) and en.truth(st, binop("==", size(t), ZERO)) is not True:
        return "table definitions are not converted to the target driver"
    if t.op == "vec" and t.a and not any(z.op == "tables" for y in t.a for z in ops.subterms(y)):
        return "the tables created are %s" % show(t)[:160]
    return None


def run(ctx):
    ctx.rule("outputs", "on success each output holds the documented combination of the inputs")
    ctx.rule("stop on failure", "success is reported only if no step failed")
    ctx.rule("unchanged on error", "when rebasing fails the modified database is as before")
    ctx.rule("conflict file", "when rebasing succeeds the conflict file is absent or holds the conflicts of this run, never those of an earlier one")
    ctx.rule("driver", "databases are opened with the driver and connection the caller named")
    ctx.rule("result", "hasChanges is the negation of being empty")
    fns = ops.exported(ctx.p)
    ctx.need("exported operations", fns)
    ctx.par(one, fns)
