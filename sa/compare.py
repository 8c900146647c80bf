"""Comparing two databases: the queries that are run and the rows whose values the entries carry."""
from .scen import *
from .pgval import PgEval, PgV, Geom
from . import sql as SQL


def tables(kind):
    """tables with keys of every kind and position"""
    if kind == "sqlite":
        i, t, r, b = "INTEGER", "TEXT", "REAL", "BLOB"
    else:
        i, t, r, b = "integer", "text", "double precision", "bytea"
    n = "ta'\"ble"
    out = [
        Table(n, [("f\"id", i, 1, 1), ("v", t, 0, 0)]),
        Table(n, [("v", t, 0, 0), ("id", i, 1, 1)]),
        Table("k two", [("k1", i, 1, 1), ("v", r, 0, 0), ("k2", t, 1, 2)]),
        Table("two first", [("k1", t, 1, 2), ("k2", i, 1, 1), ("v", b, 0, 0)]),
        Table("keys", [("k1", i, 1, 1), ("k2", t, 1, 2)]),
        Table("key", [("k1", i, 1, 1)]),
        Table("text key", [("na'me", t, 1, 1), ("a", i, 0, 0), ("sel\"ect", t, 0, 0), ("c", r, 1, 0)]),
        Table("three", [("a", t, 1, 1), ("v", i, 0, 0), ("b", i, 1, 2), ("c", t, 1, 3)]),
        Table("real key", [("k", r, 1, 1), ("v", b, 0, 0)]),
    ]
    if kind == "sqlite":
        out.append(Table("gener", [("id", i, 1, 1), ("v", t, 0, 0), ("w", r, 0, 0)], gen=[(1, "g'en")]))
    if kind == "postgres":
        out.append(Table("geo", [("g", "geometry(Point,4326)", 0, 0), ("id", i, 1, 1), ("f", "boolean", 0, 0), ("ts", "timestamp without time zone", 0, 0), ("x", "real", 0, 0)]))
        for x in out:
            x.serial = set()
    return out


def dbschema(kind, ts):
    if kind == "sqlite":
        return Schema(list(ts))
    g = [(t.name, c[0], "POINT", 4326) for t in ts for c in t.cols if c[1].startswith("geometry")]
    return Schema(list(ts), geom=g, srs=[(4326, "EPSG", 4326, "WK'T")])


def comparisons(p, kind, ts, active=None, maxrows=1, few=True, name="createChangeset", args=None, two=True, kinds=None, special=None, fixture=None):
    """behaviours of comparing databases with these tables"""
    m = method(p, CLS[kind], name)
    cfg = Cfg(faults=0, active=active, maxrows=maxrows, few=few, base=dbschema(kind, ts), mod=dbschema(kind, ts), maxruns=20000, limit=150, kinds=kinds, special=special, fixture=fixture)
    a = args or (lambda: [writer("out")])
    done, why = operation(p, kind, lambda it, d: it.callfn(m, a(), d), cfg, None, two)
    return done, why, m


def role(kind, it, d):
    """which database a name in a query stands for"""
    if kind == "postgres":
        return {BASE: "base", MOD: "modified"}.get(d)
    for c in it.env.conns:
        s = c.attached.get(d)
        if s is not None:
            for path, r in (("ba's\"e", "base"), ("mo'd\"x", "modified")):
                if s is it.env.dbs.get(path):
                    return r
    return None


def cellsin(v, out):
    if isinstance(v, tuple):
        if len(v) == 4 and v[0] == "val" and isinstance(v[1], tuple):
            out.append(v)
            return
        for x in v:
            cellsin(x, out)


def entries(it):
    """[(governing header, kind, old, new)]"""
    cur = None
    out = []
    for x in it.env.out.get("out", []):
        if x[0] == "header":
            cur = x
        elif x[0] == "entry":
            out.append((cur, x[1], x[2], x[3]))
    return out


def pgindex(it, kind):
    """value of the changeset -> (query, row), for the representatives of an interpretation"""
    out = {}
    for (q, r), l in it.env.rowinfo.items():
        for col, v in l:
            if v is not None and kindtext(v.type) != "bool":
                for srid in (0, 4326):
                    out[v.value(srid)] = (q, r)
    return out


def kindtext(t):
    return "bool" if t.startswith("bool") else "other"


def rowof(kind, it, e, ix=None, t=None):
    """(query, row) the values of an entry come from; None: unknown, or several"""
    s = set()
    for l in ((e[2] if e[1] != "insert" else []), (e[3] if e[1] != "delete" else [])):
        for i, v in enumerate(l):
            if kind == "sqlite":
                c = []
                cellsin(v, c)
                s |= {(x[2], x[3]) for x in c}
            elif v in (ix or {}) and not (t and i < len(t.cols) and kindtext(t.cols[i][1]) == "bool"):
                s.add(ix[v])
    return s.pop() if len(s) == 1 else None
