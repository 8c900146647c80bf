"""C34: abstract interpretation of listTables() and tableSchema() of both drivers on abstract databases.

The abstract database answers the catalogue queries (sqlite_master, table_info, the GeoPackage tables,
pg_attribute, pg_index, pg_attrdef, geometry_columns ...) from the scenario; what the driver returns is
compared with the scenario, column by column.
"""
from ..scen import *
from ..world import text, Str

LEVEL = "other"
FIELDS = ("name", "type", "isPrimaryKey", "isNotNull", "isAutoIncrement", "isGeometry", "geomType", "geomSrsId", "geomHasZ", "geomHasM")
TYPES = ("POINT", "LINESTRING", "POLYGON")
WKT = "WK'T"


def col(c, key=None, auto=False, geom=None):
    """what is to be read of the column (name, type, notnull, pk)"""
    d = dict(name=c[0], type=c[1], isPrimaryKey=bool(c[3]), isNotNull=bool(c[2]), isAutoIncrement=auto, isGeometry=False, geomType="", geomSrsId=-1, geomHasZ=False, geomHasM=False)
    if geom:
        d.update(isGeometry=True, geomType=geom[0], geomSrsId=geom[1], geomHasZ=bool(geom[2]), geomHasM=bool(geom[3]))
    return d


def flat(t):
    z = t.endswith(("Z", "ZM"))
    m = t.endswith("M")
    return t[:len(t) - z - m], z, m


def cases(kind):
    """(what, schema of the base, schema of the modified, table, modified?, expected columns, expected CRS)"""
    out = []
    lite = kind == "sqlite"
    ty = (lambda a, b: a) if lite else (lambda a, b: b)
    INT, TXT, REAL = ty("INTEGER", "integer"), ty("TEXT", "text"), ty("REAL", "double precision")
    plain = [
        ("one key", [("fid", INT, 1, 1), ("na'm\"e", TXT, 0, 0), ("v", REAL, 1, 0)]),
        ("composite key, key columns not first", [("a", TXT, 0, 0), ("k1", TXT, 1, 2), ("select", REAL, 1, 0), ("k2", ty("VARCHAR(5)", "character varying(5)"), 1, 1)]),
        ("no key", [("x", INT, 0, 0), ("y", TXT, 1, 0)]),
        ("only a key", [("x", TXT, 1, 1)]),
        ("a key of lower case type", [("Id", "integer", 0, 1), ("v", TXT, 0, 0)]),
        ("a key of another type", [("id", ty("BIGINT", "bigint"), 1, 1), ("v", INT, 0, 0)]),
        ("many types", [("fid", INT, 1, 1)] + [("c%d" % i, t, i % 2, 0) for i, t in enumerate(
            ("integer", "BOOLEAN", "tinyint", "smallint", "MEDIUMINT", "bigint", "double", "float", "DATE", "DATETIME", "timestamp", "TEXT(20)", "varchar(3)", "BLOB", "numeric(5,2)", "uuid") if lite else
            ("smallint", "integer", "bigint", "boolean", "real", "double precision", "numeric(5,2)", "text", "character varying(20)", "character varying", "character(3)", "date",
             "timestamp without time zone", "timestamp with time zone", "time without time zone", "bytea", "uuid", "integer[]"))]),
    ]
    other = Table("oth'er", [("fid", INT, 1, 1), ("v", TXT, 0, 0), ("na'm\"e", REAL, 1, 0)])
    meta = [GEOMCOLS, SRS] if lite else []
    for what, cols in plain:
        for name in ("t", "T'a\"b %s;") if what == "one key" else ("t",):
            t = Table(name, cols)
            auto = {i for i, c in enumerate(cols) if lite and c[3] and c[1].lower() == "integer"}
            if not lite and what == "one key":
                t.serial = {"fid"}
                auto = {0}
            if not lite and what == "many types":
                t.defaults = {"c0", "c7"}
            exp = [col(c, auto=i in auto) for i, c in enumerate(cols)]
            for mod in (False, True):
                for indexed in (False, True) if not lite else (False,):
                    tt = Table(name, cols)
                    for k in ("serial", "defaults"):
                        if hasattr(t, k):
                            setattr(tt, k, getattr(t, k))
                    if indexed:
                        n = len(cols)
                        tt.indexes = [[0], [n - 1], list(range(n))]
                    me = Schema([other, tt] + meta)
                    diff = Schema([Table(name, [("zz", TXT, 0, 0)] + cols[:1]), other] + meta)
                    out.append((what + (", with further indexes" if indexed else "") + (", modified database" if mod else ""), diff if mod else me, me if mod else diff, name, mod, exp, None))
                if lite and not mod:
                    me = Schema([other, Table(name, cols)])
                    out.append((what + ", no GeoPackage", me, me, name, False, exp, None))
    srs = ([("other", 5514, "OTH", 14, "other", ""), ("n", 4326, "EP'SG", 1326, WKT, "")] if lite else [(5514, "OTH", 14, "other"), (4326, "EP'SG", 1326, WKT)])
    for g in TYPES:
        for z in ("", "Z", "M", "ZM"):
            for mod in (False, True):
                full = g + z
                gt = g if lite else "geometry(%s,4326)" % (g.title().replace("string", "String") + z)
                cols = [("g\"eom", gt, 1, 0), ("fid", INT, 1, 1), ("v", TXT, 0, 0)]
                t = Table("geo'", cols)
                r = ("geo'", "g\"eom", g, 4326, int("Z" in z), int("M" in z)) if lite else ("geo'", "g\"eom", full, 4326)
                o = ("oth'er", "v", "POLYGON", 5514, 0, 0) if lite else ("oth'er", "v", "POLYGON", 5514)
                exp = [col(cols[0], geom=(g, 4326, "Z" in z, "M" in z)), col(cols[1], auto=lite), col(cols[2])]
                z1 = ("zoth", "g\"eom", "POLYGON" if g == "POINT" else "POINT", 5514) + ((0, 0) if lite else ())
                zt = Table("zoth", [("id", INT, 1, 1), ("g\"eom", z1[2] if lite else "geometry(%s,5514)" % z1[2].title(), 0, 0)])
                me = Schema([other, zt, t] + meta, geom=[o, r, z1], srs=srs)
                d = Schema([other, Table("geo'", cols)] + meta, geom=[o] + [(r[0], r[1], "LINESTRING" if g == "POINT" else "POINT", 5514) + ((0, 0) if lite else ())], srs=srs)
                out.append(("geometry %s%s" % (full, ", modified database" if mod else ""), d if mod else me, me if mod else d, "geo'", mod, exp, dict(srsId=4326, authName="EP'SG", authCode=1326, wkt=WKT)))
    return out


def field(it, o, f):
    v = o.f[f]
    if isinstance(v, Str):
        return text(v)
    n = it.sconst(v)
    return bool(n) if f.startswith(("is", "geomHas")) else n


def run(ctx):
    ctx.rule("columns", "tableSchema() returns every column of the table exactly once and in order")
    ctx.rule("attribute", "each attribute of each column is the one the database has")
    ctx.rule("crs", "the CRS is that of the geometry column, or unset without one")
    ctx.rule("tables", "listTables() returns every table of the user exactly once, and no table of another schema, view, virtual table or internal table")
    p = ctx.p
    items = []
    for kind in ("sqlite", "postgres"):
        for c in cases(kind):
            items.append(("schema", kind, c))
        for mod in (False, True):
            items.append(("list", kind, mod))

    def one(c, item):
        what, kind, x = item
        if what == "list":
            return tables(c, kind, x)
        name, base, mod, tn, m2, exp, crs = x
        m = method(c.p, CLS[kind], "tableSchema")
        c.cover(m["n"])
        label = "%s, %s" % (kind, name)
        got = []

        def f(it, d):
            got.append((it, it.callfn(m, [S(tn), K(int(m2), 8)], d)))
        cfg = Cfg(faults=0, base=base, mod=mod, maxrows=0, active="")
        done, why = operation(c.p, kind, f, cfg, two=True)
        for it, r in outcomes(c, done, why, label):
            res = [g for i, g in got if i is it]
            if r[0] != "ok" or not res:
                c.check(False, "columns", where(m), "%s: reading the schema of a table fails (%s)" % (kind, name), path=[str(r)[:200]] + story(it))
                continue
            o = res[0]
            cols = o.f["columns"].d
            names = [field(it, q, "name") for q in cols]
            c.check(names == [e["name"] for e in exp] and field(it, o, "name") == tn, "columns", where(m),
                    "%s: the columns of a table are read as %s but are %s (%s)" % (kind, names, [e["name"] for e in exp], name), path=story(it), what=label)
            if len(names) == len(exp):
                for q, e in zip(cols, exp):
                    for k in FIELDS:
                        v = field(it, q, k)
                        c.check(v == e[k], "attribute", where(m), "%s: %s of column %r (%s) is read as %r but is %r (%s)" % (kind, k, e["name"], e["type"], v, e[k], name), path=story(it), what=label)
            s = {k: field(it, o.f["crs"], k) for k in ("srsId", "authName", "authCode", "wkt")}
            c.check(s == crs if crs else s["wkt"] == "" and s["authName"] == "", "crs", where(m), "%s: the CRS is read as %s (%s)" % (kind, s, name), path=story(it), what=label)
        c.count("schemas")

    def tables(c, kind, mod):
        lite = kind == "sqlite"
        m = method(c.p, CLS[kind], "listTables")
        c.cover(m["n"])
        k = [("a", "TEXT" if lite else "text", 1, 1)]
        mine = ["b", "a'c", "Z", "gpkg_contents", "my_rtree_x", "other gpkg_ogr_contents", "select"] if lite else ["b", "a'c", "Z", "gpkg_contents", "rtree_x_y", "select"]
        hidden = ["gpkg_ogr_contents", "rtree_b_geom_node", "sqlite_sequence"] if lite else []
        ts = [Table(n, k) for n in mine + hidden]
        if lite:
            ts.append(Table("rtree_b_geom", k, "CREATE VIRTUAL TABLE \"rtree_b_geom\" USING rtree(id, minx)"))
            ts.append(Table("vt", k, "CREATE VIRTUAL TABLE \"vt\" USING fts5(a)"))
        here = Schema(ts, triggers=FEW if lite else ())
        there = Schema([Table("elsewhere", k), Table("b", k)])
        got = []

        def f(it, d):
            got.append((it, it.callfn(m, [K(int(mod), 8)], d)))
        done, why = operation(c.p, kind, f, Cfg(faults=0, base=there if mod else here, mod=here if mod else there, maxrows=0, active=""), two=True)
        label = "%s, list of the tables%s" % (kind, ", modified database" if mod else "")
        for it, r in outcomes(c, done, why, label):
            res = [g for i, g in got if i is it]
            if r[0] != "ok" or not res:
                c.check(False, "tables", where(m), "%s: listing the tables fails" % kind, path=[str(r)[:200]] + story(it))
                continue
            names = [text(x) for x in res[0].d]
            for n in mine:
                c.check(names.count(n) == 1, "tables", where(m), "%s: table %r is listed %d times" % (kind, n, names.count(n)), path=[str(names)] + story(it), what=label)
            c.check(set(names) <= set(mine), "tables", where(m), "%s: listed but no table of the user: %s" % (kind, sorted(set(names) - set(mine))), path=story(it), what=label)
    ctx.par(one, items)
    ctx.need("scenarios", items)
