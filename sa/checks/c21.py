"""C21: abstract interpretation of comparing databases whose schemas differ in one detail, and of applying
changesets whose table headers do not fit the database.

The abstract database answers the catalogue queries from the scenario's schema.
"""
from ..scen import *

LEVEL = "other"


def with_(t, i, **k):
    """a copy of the table with one attribute of a column changed"""
    names = ("name", "type", "notnull", "pk")
    cols = [list(c) for c in t.cols]
    for a, v in k.items():
        cols[i][names.index(a)] = v
    r = Table(t.name, [tuple(c) for c in cols], t.sql)
    r.serial = getattr(t, "serial", set())
    return r


def like(t, cols):
    r = Table(t.name, cols)
    r.serial = getattr(t, "serial", set())
    return r


def variants(kind):
    """(name, tables and metadata of the other database, must they count as equal?)"""
    A, B, K = (T1, T2, NOPK) if kind == "sqlite" else (P1, P2, PNOPK)
    G = Table("geo", [("fid", "INTEGER" if kind == "sqlite" else "integer", 1, 1), ("g\"eom", "POINT" if kind == "sqlite" else "geometry(Point,4326)", 0, 0)])
    if kind == "sqlite":
        geom = [("geo", "g\"eom", "POINT", 4326, 0, 0)]
        srs = [("n", 4326, "EPSG", 4326, "WK'T", ""), ("m", 5514, "EPSG", 5514, "other", "")]
        meta = [GEOMCOLS, SRS]
    else:
        geom = [("geo", "g\"eom", "POINT", 4326)]
        srs = [(4326, "EPSG", 4326, "WK'T"), (5514, "EPSG", 5514, "other")]
        meta = []
    base = Schema([A, B, K, G] + meta, geom=geom, srs=srs)

    def alt(tables=None, geom_=None, srs_=None):
        return Schema((tables if tables is not None else [A, B, K, G]) + meta, geom=geom if geom_ is None else geom_, srs=srs if srs_ is None else srs_)
    out = [("the same schema", alt(), True)]
    out += [
        ("a table is missing", alt([A, K, G]), False),
        ("the last table is missing", alt([A, B, G]), False),
        ("a further table", alt([A, B, K, G, Table("zz", [("a", A.cols[0][1], 1, 1)])]), False),
        ("another table name", alt([A, like(Table("two  keys", B.cols), B.cols), K, G]), False),
        ("no tables", alt([], [], None), False),
    ]
    ty = {"INTEGER": "BIGINT", "TEXT": "BLOB", "REAL": "TEXT", "BLOB": "TEXT", "integer": "bigint", "text": "bytea", "double precision": "text", "bytea": "text"}
    for t, rest in ((A, [B, K, G]), (B, [A, K, G]), (K, [A, B, G])):
        n = len(t.cols)
        for i in (range(n) if t is not K else [n - 1]):
            c = t.cols[i]
            out.append(("another column name", alt([with_(t, i, name="other")] + rest), False))
            if c[1] in ty:
                out.append(("another column type", alt([with_(t, i, type=ty[c[1]])] + rest), False))
            out.append(("another key", alt([with_(t, i, pk=0 if c[3] else 3)] + rest), False))
            out.append(("another not-null constraint", alt([with_(t, i, notnull=0 if c[2] else 1)] + rest), False))
        out.append(("one column less", alt([like(t, t.cols[:-1])] + rest), False))
        out.append(("one column more", alt([like(t, t.cols + [("more", t.cols[0][1], 0, 0)])] + rest), False))
        out.append(("other order of columns", alt([like(t, t.cols[1:] + t.cols[:1])] + rest), False))
    if kind == "sqlite":
        g = list(geom[0])
        for what, i, v in (("geometry type", 2, "LINESTRING"), ("CRS of the geometry", 3, 5514), ("Z coordinates", 4, 1), ("M coordinates", 5, 1)):
            x = list(g)
            x[i] = v
            out.append(("another " + what, alt(geom_=[tuple(x)]), False))
        out.append(("no geometry", alt(geom_=[]), False))
        for what, i, v in (("authority of the CRS", 2, "X"), ("code of the CRS", 3, 7), ("definition of the CRS", 4, "x")):
            x = list(srs[0])
            x[i] = v
            out.append(("another " + what, alt(srs_=[tuple(x), srs[1]]), False))
    else:
        s2 = [s for s in srs]
        for what, c, g in (("geometry type", "geometry(LineString,4326)", ("geo", "g\"eom", "LINESTRING", 4326)), ("CRS of the geometry", "geometry(Point,5514)", ("geo", "g\"eom", "POINT", 5514)),
                           ("Z coordinates", "geometry(PointZ,4326)", ("geo", "g\"eom", "POINTZ", 4326)), ("M coordinates", "geometry(PointM,4326)", ("geo", "g\"eom", "POINTM", 4326))):
            out.append(("another " + what, alt([A, B, K, with_(G, 1, type=c)], [g], s2), False))
    return base, out


def headers(kind):
    """(name, entries, index of the first entry that must be refused)"""
    A, B, C = (T1, T2, T3) if kind == "sqlite" else (P1, P2, P3)
    out = []
    flip = lambda pk, i: tuple(not x if j == i else x for j, x in enumerate(pk))

    def cut(e, n=1):
        return E(e.table, e.pk[:-n], e.op, e.old[:-n] if e.old else None, e.new[:-n] if e.new else None)

    def more(e):
        return E(e.table, tuple(e.pk) + (False,), e.op, list(e.old) + [U if e.op == "update" else N] if e.old else None, list(e.new) + [U if e.op == "update" else N] if e.new else None)
    for op in ("insert", "update", "delete"):
        for t in (A, B):
            e, f = entry(t, op, "x"), entry(t, op, "y")
            bad = [("one column less", cut(e)), ("one column more", more(e)), ("no such table", E("nowhere", e.pk, e.op, e.old, e.new))]
            bad += [("other key flags", E(e.table, flip(e.pk, i), e.op, e.old, e.new)) for i in range(len(t.cols))]
            for n, b in bad:
                out.append(("%s, %s" % (op, n), [b], 0))
                if n != "other key flags":
                    out.append(("%s, %s, after another table" % (op, n), [entry(C, "insert", "z"), b], 1))
            out.append(("%s, other key flags after a proper header" % op, [f, E(e.table, flip(e.pk, len(t.cols) - 1), e.op, e.old, e.new)], 1))
            out.append(("%s, other key flags, first column, after a proper header" % op, [f, E(e.table, flip(e.pk, 0), e.op, e.old, e.new)], 1))
            out.append(("%s, one column less after a proper header" % op, [f, cut(e)], 1))
            out.append(("%s, one column more after a proper header" % op, [f, more(e)], 1))
    return out


def run(ctx):
    ctx.rule("compare", "comparing fails if the schemas differ in a table, a column, a key, a constraint, a geometry attribute or the CRS")
    ctx.rule("equal", "comparing databases with equal schemas does not fail")
    ctx.rule("apply", "applying fails at an entry whose header does not fit the table of the database")
    ctx.rule("unchanged", "no statement is executed for such an entry, and nothing becomes permanent")
    p = ctx.p
    items = []
    for kind in ("sqlite", "postgres"):
        m = method(p, CLS[kind], "createChangeset")
        base, vs = variants(kind)
        for n, s, same in vs:
            items.append(("compare", kind, n, (base, s, same, False)))
            if not same:
                items.append(("compare", kind, n, (s, base, same, True)))
        for n, es, i in headers(kind):
            items.append(("apply", kind, n, (es, i)))

    def one(c, item):
        what, kind, name, arg = item
        label = "%s, %s" % (kind, name)
        if what == "compare":
            base, mod, same, swapped = arg
            m = method(c.p, CLS[kind], "createChangeset")
            c.cover(m["n"], CLS[kind] + "::tableSchema", CLS[kind] + "::listTables")
            cfg = Cfg(faults=0, base=base, mod=mod, maxrows=0, active="")
            done, why = operation(c.p, kind, lambda it, d: it.callfn(m, [writer("out")], d), cfg, two=True)
            for it, r in outcomes(c, done, why, label):
                if same:
                    c.check(r[0] == "ok", "equal", where(m), "%s: comparing two databases with the same schema fails" % kind, path=[str(r)[:200]] + story(it), what=label)
                elif r[0] in ("ok", "throw"):
                    c.check(r[0] == "throw", "compare", where(m), "%s: comparing succeeds although the databases differ in: %s" % (kind, name), path=["base has it" if swapped else "modified has it"] + story(it), what=label)
                else:
                    c.incomplete.append("%s: %s" % (label, r[0]))
            return
        es, bad = arg
        done, why, m = applying(c.p, kind, es, Cfg(faults=0, nodml=True, triggers=[]))
        for it, r in outcomes(c, done, why, label):
            if r[0] == "oob":
                c.check(False, "apply", where(m), "%s: applying an entry whose header does not fit the table (%s) accesses columns that are not there" % (kind, name), path=[label, repr(es[bad])] + story(it))
                continue
            if r[0] not in ("ok", "throw"):
                c.incomplete.append("%s: %s" % (label, r[0]))
                continue
            c.check(r[0] == "throw", "apply", where(m), "%s: a changeset is applied although an entry's header does not fit the table (%s)" % (kind, name), path=[label, repr(es[bad])] + story(it), what=label)
            ws = dml([e[2] for e in it.env.events if e[0] == "write"])
            dur = [x for d in it.env.conns for x in d.durable]
            c.check(len(ws) <= bad and not dur, "unchanged", where(m), "%s: a statement is executed for an entry whose header does not fit the table (%s)" % (kind, name), path=[label, repr(es[bad])] + story(it), what=label)
    ctx.par(one, items)
    ctx.need("behaviours", ctx.counts.get("behaviours"))
