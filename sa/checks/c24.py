"""C24: path analysis of createRebasedChangeset (the compatibility check precedes every output, and its failure
is an error), plus abstract interpretation of the driver's check on databases with every kind of trigger and
foreign key."""
from ..terms import *
from .. import fs, ops, scen
from ..scen import Table, Schema, Cfg, trig, K

LEVEL = "other"


def gate(ctx):
    p = ctx.p
    fl = [f for f in p.fn("GEODIFF_createRebasedChangeset") if "body" in f]
    ctx.need("GEODIFF_createRebasedChangeset", fl)
    fn = fl[0]
    en, res, thrown = fs.analyse(p, fn, limit=200)
    ctx.cover(*en.covered)
    A = [S("arg", q["n"]) for q in fn["params"]]
    outs = [A[3], A[4]]
    mod = mk("file0", A[1])
    for st, v in res:
        ok = ops.succeeded(en, st, fn, v)
        checked = False
        for ev in st.mon.get("log", ()):
            if ev[0] == "compatible":
                checked = checked or ev[1] is mod
                ctx.check(ev[1] is mod, "which database", ev[-1], "the compatibility of %s is checked instead of that of the modified database" % show(ev[1]), key="which", path=st.path())
            elif len(ev) == 4 and ev[1] in outs and ev[2] is not fs.ABSENT:
                ctx.check(checked, "check first", ev[-1], "%s is written before the compatibility of the modified database has been checked" % show(ev[1]), key="before|" + show(ev[1]), path=st.path(), what=show(ev[1]))
        if ok:
            ctx.check(checked, "check first", ops.where(fn), "success without checking the compatibility of the modified database", key="never", path=st.path())
            f = [x for x in st.mon.get("failed", ()) if "rebased" in x[0]]
            ctx.check(not f, "failure is an error", ops.where(fn), "success although the compatibility check failed", key="ignored", path=st.path())


KIDS = [Table("par'ent", [("id", "INTEGER", 1, 1), ("code", "TEXT", 0, 0)]),
        Table("aaa", [("x", "INTEGER", 0, 0), ("y\"z", "TEXT", 0, 0)]),
        Table("text key", [("v", "INTEGER", 0, 0), ("id", "TEXT", 1, 1)]),
        Table("two keys", [("v", "INTEGER", 0, 0), ("k2", "INTEGER", 1, 2), ("w", "TEXT", 0, 0), ("k1", "TEXT", 1, 1)]),
        Table("norow", [("v", "INTEGER", 0, 0), ("k2", "INTEGER", 1, 2), ("w", "TEXT", 0, 0), ("k1", "TEXT", 1, 1)], "CREATE TABLE norow(...) WITHOUT ROWID"),
        Table("ROWID'd", [("rowid", "INTEGER", 0, 0), ("oid", "TEXT", 0, 0), ("_rowid_", "TEXT", 0, 0)]),
        Table("gpkg_metadata_reference", [("md_file_id", "INTEGER", 1, 0), ("md_parent_id", "INTEGER", 0, 0)]),
        Table("zz", [("id", "INTEGER", 1, 1), ("ref", "INTEGER", 0, 0)])]


def databases():
    """(label, triggers, foreign keys, whether rebasing is to be refused)"""
    G = ("gpkg_metadata_reference", "md_file_id", "par'ent", "id")
    for n in scen.NEARLY + scen.OWN:
        yield "trigger " + n, [trig(n, "zz")], [], True
        yield "trigger %s among those of GeoPackage" % n, [trig(scen.MACHINERY[1]), trig(n, "zz"), trig(scen.MACHINERY[2])], [], True
    for n in scen.MACHINERY + tuple(p + "x" for p in scen.PREFIXES):
        yield "trigger " + n, [trig(n, "zz")], [], False
    yield "nothing", [], [], False
    yield "foreign key of a GeoPackage table", [], [G], False
    for t in KIDS:
        if t.name.startswith("gpkg_"):
            continue
        for c in t.cols:
            for to, col in (("par'ent", "id"), ("par'ent", None), ("two keys", "k2"), ("norow", None), (t.name, t.cols[0][0]), ("no such table", "id"), ("gpkg_metadata_reference", "md_file_id")):
                yield "foreign key of %s.%s to %s.%s" % (t.name, c[0], to, col), [], [(t.name, c[0], to, col)], True
        yield "foreign keys of %s and GeoPackage" % t.name, [trig(scen.MACHINERY[0])], [G, (t.name, t.cols[-1][0], "par'ent", "id"), G], True


def discover(ctx, item):
    label, trigs, fks, bad = item
    m = scen.method(ctx.p, "SqliteDriver", "checkCompatibleForRebase")
    db = Schema(KIDS, trigs, fks=fks)
    done, why = scen.operation(ctx.p, "sqlite", lambda it, d: it.callfn(m, [K(0, 8)], d), Cfg(faults=0, base=db))
    ctx.cover(m["n"], "sqliteTriggers", "sqliteForeignKeys", "sqliteColumnNames", "sqliteTables", "isLayerTable")
    for it, r in scen.outcomes(ctx, done, why, label):
        if r[0] not in ("ok", "throw"):
            ctx.viol("discovery", scen.where(m), "%s: the check ends with %s" % (label, r[0]), key="ends|" + r[0], path=[label])
        elif bad:
            ctx.check(r[0] == "throw", "discovery", scen.where(m), "a database with a %s is taken for one that can be rebased" % label, key="missed|" + label.split()[0], path=[label], what=label)
        else:
            ctx.check(r[0] == "ok", "discovery", scen.where(m), "a database that can be rebased is refused (%s)" % label, key="refused|" + label.split()[0], path=[label], what=label)


def run(ctx):
    ctx.rule("discovery", "the check refuses a database exactly if it has a trigger that is not of the GeoPackage machinery or a foreign key of a layer table")
    ctx.need("SqliteDriver::checkCompatibleForRebase", scen.method(ctx.p, "SqliteDriver", "checkCompatibleForRebase"))
    ctx.par(discover, list(databases()))
    ctx.need("discovered databases", ctx.counts.get("behaviours"))
    ctx.rule("check first", "the modified database is checked before anything is written to the outputs")
    ctx.rule("which database", "the database that is checked is the modified one")
    ctx.rule("failure is an error", "if the check refuses the database an error is returned")
    gate(ctx)
