"""C29: abstract interpretation of schema conversion and of creating tables.

tableSchemaConvert() is run on every type name the source driver can read (and spellings of it) with every
combination of geometry attributes; the result must be a type of the same kind in the target.  createTables()
is run on tables with keys, constraints and geometry columns; the statements it executes are parsed and must
define exactly these tables.
"""
import re
from ..scen import *
from ..world import text, Str, explore
from ..sql import SqlError
from .c34 import FIELDS, field

LEVEL = "other"

INT, REAL, BOOL, TEXT, BLOB, TIME, GEOM = "integer", "floating point", "boolean", "text", "binary", "date and time", "geometry"
LITE = {INT: ("int", "integer", "tinyint", "smallint", "mediumint", "bigint"), REAL: ("double", "float", "real", "double precision"), BOOL: ("bool", "boolean"),
        TEXT: ("text", "text(20)", "varchar(255)", "date", "unknown kind", "nvarchar(3)", ""), BLOB: ("blob", "blob(100)"), TIME: ("datetime",)}
PGK = {INT: ("integer",), REAL: ("real", "double precision"), BOOL: ("boolean", "bool"), TEXT: ("text", "char", "varchar", "citext"), BLOB: ("bytea",), TIME: ("timestamp without time zone",)}
TOPG = {INT: ("integer", "bigint", "serial", "bigserial"), REAL: ("double precision", "float8"), BOOL: ("boolean", "bool"), TEXT: ("text", "citext", "varchar", "character varying"), BLOB: ("bytea",),
        TIME: ("timestamp", "timestamp without time zone")}
GT = ("POINT", "LINESTRING", "POLYGON")


def affinity(t):
    """of a column declared with this type (https://sqlite.org/datatype3.html)"""
    t = t.upper()
    if "INT" in t:
        return "INTEGER"
    if "CHAR" in t or "CLOB" in t or "TEXT" in t:
        return "TEXT"
    if "BLOB" in t or not t:
        return "BLOB"
    if "REAL" in t or "FLOA" in t or "DOUB" in t:
        return "REAL"
    return "NUMERIC"


AFF = {INT: ("INTEGER", "NUMERIC", "BLOB"), BOOL: ("INTEGER", "NUMERIC", "BLOB"), REAL: ("REAL", "BLOB"), TEXT: ("TEXT", "BLOB"), TIME: ("TEXT", "BLOB", "NUMERIC"), BLOB: ("BLOB", "TEXT", "INTEGER", "NUMERIC", "REAL"),
       GEOM: ("BLOB", "TEXT", "INTEGER", "NUMERIC", "REAL")}


def mixed(t):
    return "".join(c.upper() if i % 2 else c for i, c in enumerate(t))


def flags(i):
    return dict(isPrimaryKey=bool(i & 1), isNotNull=bool(i & 2))


def columns(src):
    """(column attributes, kind)"""
    out = []
    for k, ts in (LITE if src == "sqlite" else PGK).items():
        for i, t in enumerate(ts):
            for j, s in enumerate((t, t.upper(), mixed(t)) if src == "sqlite" else (t,)):
                out.append((dict(name="c\"%d%s" % (len(out), t), type=s, **flags(i + j)), k))
                if k == INT and t == "integer":
                    out.append((dict(name="auto%d" % len(out), type=s, isPrimaryKey=True, isNotNull=True, isAutoIncrement=True), k))
                    out.append((dict(name="auto%d" % len(out), type=s, isPrimaryKey=True, isAutoIncrement=True), k))
    return out


def geoms(src):
    out = []
    for g in GT:
        for z in (False, True):
            for m in (False, True):
                full = g + "Z" * z + "M" * m
                for n, t in enumerate((g, "BLOB", "Geometry") if src == "sqlite" else ("geometry(%s,3857)" % full.title(),)):
                    out.append((dict(name="g'e", type=t, isGeometry=True, geomType=g, geomSrsId=3857, geomHasZ=z, geomHasM=m, isNotNull=bool(n)), GEOM, full))
    return out


def build(it, name, cols, crs):
    v = type("V", (), {})()
    v.d = []
    mktable(it, v, name, cols, crs)
    return v.d[0]


DEF = dict(isPrimaryKey=False, isNotNull=False, isAutoIncrement=False, isGeometry=False, geomType="", geomSrsId=-1, geomHasZ=False, geomHasM=False)


def conversion(c, src, dst, cols, label):
    f = [g for g in c.p.functions.values() if g["n"].split("::")[-1] == "tableSchemaConvert"]
    c.need("tableSchemaConvert", f)
    f = f[0]
    c.cover(f["n"])
    got = []

    def body(it):
        o = build(it, "t'b", [x[0] for x in cols], CRS)
        it.callfn(f, [S(src), S(dst), Ref({0: o}, 0)])
        got.append((it, o))
    done, why = explore(c.p, lambda: environment(c.p, "sqlite", None, Cfg(faults=0)), body, 200, None)
    for it, r in outcomes(c, done, why, label):
        o = [x for i, x in got if i is it]
        if r[0] == "throw" and src != dst and {src, dst} == {"sqlite", "postgres"} or r[0] != "ok" or not o:
            c.check(False, "attributes", where(f), "%s: conversion fails" % label, path=[str(r)[:200]])
            continue
        o = o[0]
        q = o.f["columns"].d
        s = {k: field(it, o.f["crs"], k) for k in CRS}
        c.check(field(it, o, "name") == "t'b" and len(q) == len(cols) and s == CRS, "attributes", where(f), "%s: the table's name, number of columns or CRS is not carried over" % label,
                path=[field(it, o, "name"), str(len(q)), str(s)], what=label)
        for x, e in zip(q, cols):
            want = dict(DEF, **e[0])
            for k in FIELDS:
                if k == "type" and src != dst:
                    continue
                v = field(it, x, k)
                c.check(v == want[k], "attributes", where(f), "%s: %s of a column is %r after the conversion but was %r" % (label, k, v, want[k]), path=[str(e[0])], what=label)
            t = field(it, x, "type")
            if src == dst:
                continue
            if dst == "postgres":
                if e[1] == GEOM:
                    m = re.fullmatch(r"geometry\(\s*(\w+?)\s*,\s*(-?\d+)\s*\)", t.lower())
                    good = bool(m) and m.group(1).upper() == e[2] and m.group(2) == "3857"
                else:
                    good = t.lower() in TOPG[e[1]] and (not t.lower().endswith("serial") or want["isAutoIncrement"])
            else:
                good = affinity(t) in AFF[e[1]] and not re.search(r"[(\"'`;,)]", re.sub(r"\(\s*\d+\s*(,\s*\d+\s*)?\)$", "", t))
                if e[1] == GEOM:
                    good = good and t.upper() in (e[0]["geomType"], e[2], "GEOMETRY", "BLOB")
            c.check(good, "kind", where(f), "%s: a %s column of type %r becomes a column of type %r" % (label, e[1], e[0]["type"], t), path=[str(e[0])], what=label)
            c.count("column types")


CRSS = (dict(srsId=4326, authName="EP'SG", authCode=1326, wkt="WK'T\"%s"), dict(srsId=5514, authName="own", authCode=-3, wkt=""))


def given(kind):
    """tables to create: (name, columns, CRS)"""
    I, T, R, B = ("INTEGER", "TEXT", "REAL", "BLOB") if kind == "sqlite" else ("integer", "text", "double precision", "bytea")
    geo = lambda n, g, z, m, sid, nn=False: dict(name=n, type=g if kind == "sqlite" else "geometry(%s, %d)" % (g + "Z" * z + "M" * m, sid), isGeometry=True, geomType=g, geomSrsId=sid, geomHasZ=z, geomHasM=m, isNotNull=nn)
    out = []
    for i, g in enumerate(GT):
        for j, (z, m) in enumerate(((False, False), (True, False), (False, True), (True, True))):
            n = "t%d%d" % (i, j) if (i, j) != (0, 1) else "T'a\"b %s;"
            key = dict(name="F i\"d", type=I, isPrimaryKey=True, isNotNull=True, isAutoIncrement=True)
            crs = CRSS[(i + j) % 2 if j else 0]
            gc = geo("g\"e'om", g, z, m, crs["srsId"], j == 2)
            rest = [dict(name="na\"me", type=T), dict(name="select", type=R, isNotNull=True), dict(name="c %d", type=B)]
            cols = [[key, gc] + rest, [gc] + rest[:2] + [key] + rest[2:], rest + [key, gc], [dict(key, isAutoIncrement=False), gc, dict(name="K\"2", type=T, isPrimaryKey=True, isNotNull=j % 2 == 0)]][(i + j) % 4]
            out.append((n, cols, crs))
    return out


def lit(e):
    if e[0] == "str":
        return e[1]
    if e[0] == "num":
        return float(e[1]) if "." in str(e[1]) else int(e[1])
    if e[0] == "neg":
        v = lit(e[1])
        return -v if isinstance(v, (int, float)) else e
    return e


def creation(c, kind):
    m = method(c.p, CLS[kind], "createTables")
    c.cover(m["n"])
    tabs = given(kind)
    for lo in range(0, len(tabs), 3):
        create(c, kind, m, tabs[lo:lo + 3], "%s, tables %d to %d" % (kind, lo, lo + 2))
    if kind == "postgres":
        create(c, kind, m, tabs[:1] + [("gpkg_contents", [dict(name="a", type="text", isPrimaryKey=True)], None)] + [("plain", [dict(name="a", type="text", isPrimaryKey=True)], None)], "postgres, GeoPackage tables",
               hidden={"gpkg_contents"})


def create(c, kind, m, tabs, label, hidden=()):
    def f(it, d):
        t = m["params"][0]["t"]
        v = it.default(it.ty(t).get("to", t))
        for n, cols, crs in tabs:
            mktable(it, v, n, cols, crs)
        it.callfn(m, [Ref({0: v}, 0)], d)
    how, extra = ("create", (K(1, 8),)) if kind == "sqlite" else ("open", ())
    done, why = operation(c.p, kind, f, Cfg(faults=0, active=""), how=how, extra=extra)
    for it, r in outcomes(c, done, why, label):
        if r[0] != "ok":
            c.check(False, "created", where(m), "%s: creating tables fails" % label, path=[str(r)[:300]] + story(it))
            continue
        ws = [e[2] for e in it.env.events if e[0] == "write"]
        made = [w for w in ws if w[0] == "ddl" and w[1][0] == "create" and w[1][1] == "TABLE"]
        names = [w[1][2][-1] for w in made]
        want = [t for t in tabs if t[0] not in hidden]
        c.check(sorted(names) == sorted(t[0] for t in want), "created", where(m), "%s: tables created are %s instead of %s" % (label, names, [t[0] for t in want]), path=story(it), what=label)
        for w in made:
            n, cols, pk, txt = w[1][2], w[1][3], w[1][4] or [], w[2]
            t = [x for x in want if x[0] == n[-1]]
            if len(t) != 1:
                continue
            t = t[0]
            sch = {"sqlite": ("main",), "postgres": (BASE,)}[kind]
            c.check(tuple(n[:-1]) == sch or kind == "sqlite" and len(n) == 1, "created", where(m), "%s: the table is created in %s" % (label, n[:-1]), path=story(it), what=label)
            g = [x[0] for x in cols]
            c.check(g == [x["name"] for x in t[1]], "created", where(m), "%s: the columns of the new table are %s instead of %s" % (label, g, [x["name"] for x in t[1]]), path=story(it), what=label)
            kp = [x["name"] for x in t[1] if x.get("isPrimaryKey")]
            inl = [x[0] for x in cols if "PRIMARY" in x[2]]
            c.check(sorted(pk + inl) == sorted(kp), "created", where(m), "%s: the primary key of the new table is %s instead of %s" % (label, pk + inl, kp), path=story(it), what=label)
            for x, e in zip(cols, t[1]):
                ty = "".join(c0 for c0, _ in txt[x[1][0]:x[1][1]]) if x[1] else ""
                c.check(("NOT" in x[2]) == bool(e.get("isNotNull")) or e.get("isPrimaryKey") and kind == "postgres" and not e.get("isNotNull") is True, "created", where(m),
                        "%s: NOT NULL of column %r is %s instead of %s" % (label, e["name"], "NOT" in x[2], bool(e.get("isNotNull"))), path=story(it), what=label)
                if kind == "postgres" and e.get("isAutoIncrement"):
                    c.check(ty.lower() in ("serial", "bigserial"), "created", where(m), "%s: the auto-increment column %r is created with type %r" % (label, e["name"], ty), path=story(it), what=label)
                else:
                    c.check(ty == e["type"], "created", where(m), "%s: column %r is created with type %r instead of %r" % (label, e["name"], ty, e["type"]), path=story(it), what=label)
                c.count("created columns")
        if kind == "sqlite":
            registered(c, m, label, it, tabs, ws)


def registered(c, m, label, it, tabs, ws):
    ins = [w for w in ws if w[0] == "insert"]
    rows = {}
    for w in ins:
        st = w[3]
        vals = st[3]
        if not isinstance(vals, list):
            c.incomplete.append(label + ": registration by a query")
            return
        names = st[2] or {"gpkg_geometry_columns": [x[0] for x in GEOMCOLS.cols], "gpkg_spatial_ref_sys": [x[0] for x in SRS.cols]}.get(w[2])
        for r in vals:
            rows.setdefault(w[2], []).append(dict(zip(names, [lit(x) if x[0] != "param" else w[4].get(x[1], x) for x in r])) if names else None)
    g = rows.get("gpkg_geometry_columns", [])
    ct = rows.get("gpkg_contents", [])
    sr = rows.get("gpkg_spatial_ref_sys", [])
    for n, cols, crs in tabs:
        e = [x for x in cols if x.get("isGeometry")][0]
        l = [x for x in g if x and x.get("table_name") == n]
        want = dict(table_name=n, column_name=e["name"], geometry_type_name=e["geomType"], srs_id=e["geomSrsId"], z=int(e["geomHasZ"]), m=int(e["geomHasM"]))
        c.check(len(l) == 1 and l[0] == want, "registered", where(m), "%s: the geometry column is registered as %s instead of %s" % (label, l, want), path=story(it), what=label)
        l = [x for x in ct if x and x.get("table_name") == n]
        c.check(len(l) == 1 and l[0].get("data_type") == "features" and l[0].get("srs_id") == e["geomSrsId"], "registered", where(m), "%s: the table's contents entry is %s" % (label, l), path=story(it), what=label)
    ids = {x.get("srs_id") for x in sr if x}
    c.check(len(ids) == len(sr), "registered", where(m), "%s: a CRS is defined twice" % label, path=[str(sr)], what=label)
    for x in sr:
        w = [k for k in CRSS if x and k["srsId"] == x.get("srs_id")]
        c.check(bool(w) and (x.get("organization"), x.get("organization_coordsys_id"), x.get("definition")) == (w[0]["authName"], w[0]["authCode"], w[0]["wkt"]), "registered", where(m),
                "%s: the CRS is defined as %s" % (label, x), path=story(it), what=label)
        c.count("CRS definitions")
    for n, cols, crs in tabs:
        c.check(crs["srsId"] in ids, "registered", where(m), "%s: the CRS of a new table is not defined" % label, path=[str(crs)] + story(it), what=label)


def run(ctx):
    ctx.rule("kind", "each column type the source driver reads becomes a type of the same kind that the target driver reads and writes")
    ctx.rule("attributes", "names, order, keys, constraints, geometry attributes and CRS are the same after a conversion; between equal drivers nothing changes")
    ctx.rule("created", "createTables() creates each table once, with the columns, types, not-null constraints and primary key of its schema")
    ctx.rule("registered", "createTables() in a GeoPackage registers each table, its geometry column with type, CRS, Z and M, and the CRS definition")
    items = []
    for s in ("sqlite", "postgres"):
        for d in ("sqlite", "postgres"):
            items.append(("convert", s, d, columns(s), "%s to %s" % (s, d)))
            for g in geoms(s):
                items.append(("convert", s, d, [g, (dict(name="fid", type="INTEGER" if s == "sqlite" else "integer", isPrimaryKey=True, isNotNull=True), INT)], "%s to %s, geometry" % (s, d)))
        items.append(("create", s))

    def one(c, it):
        if it[0] == "convert":
            conversion(c, *it[1:])
        else:
            creation(c, it[1])
    ctx.par(one, items)
    ctx.need("scenarios", items)
