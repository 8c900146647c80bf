"""Scenarios shared by the checks of the database operations."""
import itertools, struct
from .lite import *
from .pg import Pg, Rep
from .codec import fn


def where(f):
    return "%s (%s:%d)" % (f["n"], f["file"].split("/")[-1], f["l"])


N1, N2, C1 = "sim\"ple's; --", "two keys", "na\"me's"
T1 = Table(N1, [("fid", "INTEGER", 1, 1), (C1, "TEXT", 0, 0), ("v", "REAL", 0, 0)])
T2 = Table(N2, [("a", "BLOB", 0, 0), ("k1", "INTEGER", 1, 1), ("select", "TEXT", 0, 0), ("k2", "TEXT", 1, 2)], gen=[(1, "ge'n")])
T3 = Table("keysonly", [("x", "INTEGER", 1, 1), ("y", "TEXT", 1, 2)])
T4 = Table("gpkg_extra", [("id", "INTEGER", 1, 1), ("d", "TEXT", 0, 0)])
NOPK = Table("no key", [("x", "INTEGER", 0, 0), ("y", "TEXT", 0, 0)])
META0 = [Table("gpkg_ogr_contents", [("table_name", "TEXT", 1, 1), ("feature_count", "INTEGER", 0, 0)]),
         Table("rtree_simple_geometry_node", [("nodeno", "INTEGER", 0, 1), ("data", "BLOB", 0, 0)]),
         Table("sqlite_sequence", [("name", "", 0, 0), ("seq", "", 0, 0)])]
P1 = Table(N1, [("fid", "integer", 1, 1), (C1, "text", 0, 0), ("v", "double precision", 0, 0), ("ge\"om", "geometry(Point,4326)", 0, 0), ("on", "boolean", 0, 0)])
P1.serial = {"fid"}
P2 = Table(N2, [("a", "bytea", 0, 0), ("k1", "integer", 1, 1), ("select", "text", 0, 0), ("k2", "text", 1, 2)])
P3 = Table("keysonly", [("x", "integer", 1, 1), ("y", "text", 1, 2)])
P4 = Table("gpkg_extra", [("id", "integer", 1, 1), ("d", "text", 0, 0)])
PS = Table(N1, [("fid", "integer", 1, 1), (C1, "text", 0, 0), ("ge\"om", "geometry(Point,4326)", 0, 0)])
PS.serial = {"fid"}
PNOPK = Table("no key", [("x", "integer", 0, 0), ("y", "text", 0, 0)])
BASE, MOD = "ba\"se's", "mo\"d's"


def trig(name, table=N1, body="BEGIN SELECT 1; END"):
    return (name, table, "CREATE TRIGGER \"%s\" AFTER INSERT ON \"%s\" %s" % (name.replace('"', '""'), table.replace('"', '""'), body))


OWN = ("ow\"n tri'gger", "second", "my_gpkg_trigger", "trigger_insert_feature", "xrtree_trigger", "trigger_update_feature_count_x")
MACHINERY = ("gpkg_metadata_x", "rtree_simple_geometry_insert", "trigger_insert_feature_count_simple", "trigger_delete_feature_count_simple")
PREFIXES = ("gpkg_", "rtree_", "trigger_insert_feature_count_", "trigger_delete_feature_count_")
# names that begin like those of the machinery, up to every length, or contain them
NEARLY = tuple(dict.fromkeys([p[:k] + "Zq" for p in PREFIXES for k in range(1, len(p))] + ["z" + p + "x" for p in PREFIXES] + ["trigger_update_feature_count_x", "sqlite", "aux_trigger", "main_trigger", "geom_trigger"]))
TRIGGERS = [trig(OWN[0]), trig(MACHINERY[0]), trig(OWN[1], N2, "BEGIN UPDATE \"two keys\" SET \"select\" = 'x; y''s %% 100'; END"), trig(MACHINERY[1]),
            trig(MACHINERY[2]), trig(OWN[2], N2), trig(MACHINERY[3]), trig(OWN[3]), trig(OWN[4]), trig(OWN[5])]
FEW = [TRIGGERS[0], TRIGGERS[1], TRIGGERS[2]]


def schema(triggers=TRIGGERS, tables=None):
    return Schema(tables or [T1, T2, T3, T4, NOPK], triggers)


def pgschema(tables=None):
    return Schema(tables or [P1, P2, P3, P4, PNOPK], geom=[(N1, "ge\"om", "POINT", 4326)], srs=[(4326, "EPSG", 4326, "WK'T")])


def kindof(type):
    t = type.upper()
    return "int" if "INT" in t else "real" if t in ("REAL", "DOUBLE", "DOUBLE PRECISION") else "blob" if t in ("BLOB", "BYTEA") else "geom" if t.startswith("GEOM") else "bool" if t.startswith("BOOL") else "text"


_ids = {}
EXACT = False


def value(kind, key, exact=False):
    """a value nobody else has"""
    n = _ids.setdefault((kind, key), len(_ids) + 1)
    if kind == "int":
        return ("int", 1000000 + n)
    if kind == "bool":
        return ("int", int(key[-1] == "new"))
    if kind == "real":
        return ("real", ("dbl", struct.unpack("<Q", struct.pack("<d", n + 1 / 3))[0]) if exact else ("r", n))
    if kind == "text":
        return ("text", "t'%d\"x\\%%" % n)
    if kind == "geom":
        return ("blob", b"GP\0\1" + struct.pack("<i", 4326) + b"\1\1\0\0\0'%d\xff" % n)
    return ("blob", b"b\0'%d\xff" % n)


def entry(t, op, tag, shape=None):
    """entry of a table; the shape gives one letter per column: for an update
    = unchanged, c changed, n to NULL, m from NULL; else v a value, 0 NULL"""
    old, new = [], []
    exact = any(c[1].islower() for c in t.cols)
    for i, c in enumerate(t.cols):
        k = kindof(c[1])
        a, b = value(k, (t.name, tag, i, "old"), exact), value(k, (t.name, tag, i, "new"), exact)
        s = shape[i] if shape else ("=" if c[3] else "c") if op == "update" else "v"
        if op == "update":
            if s == "=":
                old.append(a if c[3] else U)
                new.append(U)
            else:
                old.append(N if s == "m" else a)
                new.append(N if s == "n" else b)
        else:
            (new if op == "insert" else old).append(N if s == "0" else b if op == "insert" else a)
    return E(t.name, t.pk, op, old if op != "insert" else None, new if op != "delete" else None)


class Cfg:
    """what one exploration examines"""

    def __init__(self, **k):
        self.faults = 1
        self.openfaults = False
        self.limit = 200
        self.maxruns = 4000
        self.triggers = FEW
        self.tables = None
        self.base = self.mod = None
        self.nodml = False
        self.active = None
        self.maxrows = 1
        self.few = False
        self.maybe = ()
        self.kinds = None
        self.special = self.fixture = None
        self.__dict__.update(k)


def opener(kind, two=False):
    """connection parameters"""
    if kind == "sqlite":
        return {"base": "ba's\"e", **({"modified": "mo'd\"x"} if two else {})}
    return {"conninfo": "host='x'", "base": BASE, **({"modified": MOD} if two else {})}


CLS = {"sqlite": "SqliteDriver", "postgres": "PostgresDriver"}


def environment(p, kind, files=None, cfg=None, two=False):
    cfg = cfg or Cfg()
    if kind == "sqlite":
        e = Lite(p, files, {"ba's\"e": cfg.base or schema(cfg.triggers, cfg.tables)})
        if two:
            e.dbs["mo'd\"x"] = cfg.mod or schema(cfg.triggers, cfg.tables)
    else:
        e = Pg(p, files, {BASE: cfg.base or pgschema(cfg.tables)})
        if two:
            e.dbs[MOD] = cfg.mod or pgschema(cfg.tables)
        elif not cfg.tables:
            e.dbs["other"] = pgschema([Table(N1, [("other", "text", 0, 1)])])
    e.nodml = cfg.nodml
    e.active = cfg.active
    e.maxrows = cfg.maxrows
    e.few = cfg.few
    e.maybe = cfg.maybe
    e.special, e.fixture = cfg.special, cfg.fixture
    if cfg.kinds:
        e.kinds = cfg.kinds
    return e


def operation(p, kind, f, cfg=None, files=None, two=False, how="open", extra=()):
    """every behaviour of opening a database and f(interp, driver)"""
    cfg = cfg or Cfg()

    def body(it):
        it.maxfaults = cfg.faults if cfg.openfaults else 0

        def g(d):
            it.maxfaults = cfg.faults
            try:
                f(it, d)
            finally:
                it.maxfaults = 0
        return session(p, it, CLS[kind], opener(kind, two), g, how, extra)
    return explore(p, lambda: environment(p, kind, files, cfg, two), body, cfg.maxruns, cfg.limit)


def applying(p, kind, entries, cfg=None):
    m = method(p, CLS[kind], "applyChangeset")
    done, why = operation(p, kind, lambda it, d: it.callfn(m, [reader("diff")], d), cfg, {"diff": entries})
    return done, why, m


def outcomes(ctx, done, why, what):
    """splits off the runs that could not be interpreted"""
    good = []
    errs = {}
    for it, r in done:
        if r[0] == "error":
            errs.setdefault(r[1], 0)
            errs[r[1]] += 1
        else:
            good.append((it, r))
    for k, n in errs.items():
        ctx.incomplete.append("%s: %s (%d behaviours)" % (what, k, n))
    if why:
        ctx.incomplete.append("%s: %s" % (what, why))
    ctx.count("behaviours", len(good))
    return good


def faulted(it):
    return [k[0] for k, v in it.cell.items() if v and isinstance(k[0], tuple) and k[0][0] == "fault"]


def fault_text(it):
    f = faulted(it)
    return "no failure" if not f else ", ".join("%s no. %d fails" % (x[1], x[2] + 1) for x in f)


DML = ("insert", "update", "delete")


def dml(ws):
    return [w for w in ws if w[0] in DML]


def conc(v):
    """a concrete stand-in of an abstract value, distinct for distinct values"""
    if v[0] == "null":
        return None
    if isinstance(v[1], int):
        return v[1]
    if v[0] in ("text", "blob") and isinstance(v[1], (str, bytes)):
        return v[1]
    return "\x01%s %r" % (v[0], v[1])


def sentries(kind):
    """entries used to examine applying: tables change, change back; every kind of entry"""
    A, B, C, D = (T1, T2, T3, T4) if kind == "sqlite" else (P1, P2, P3, P4)
    n = len(A.cols)
    return [
        ("insert", [entry(A, "insert", "i")]), ("update", [entry(A, "update", "u")]), ("delete", [entry(A, "delete", "d")]),
        ("three tables", [entry(A, "insert", "i"), entry(B, "update", "u"), entry(A, "delete", "d")]),
        ("updates", [entry(B, "update", "u1", "c=c="), entry(B, "update", "u2", "n=m="), entry(A, "update", "u3", "=c" + "=" * (n - 2)), entry(A, "update", "u4", "==" + "c" * (n - 2))]),
        ("keys only", [entry(C, "delete", "d"), entry(C, "insert", "i"), entry(D, "insert", "g"), entry(A, "insert", "i2", "v" + "0" * (n - 1)), entry(D, "update", "g2")]),
        ("nulls", [entry(A, "delete", "d", "v0" + "v" * (n - 2)), entry(B, "delete", "d", "0v0v"), entry(B, "insert", "i", "0v0v")]),
        ("nulls after values", [entry(A, "insert", "a"), entry(A, "insert", "b", "v" + "0" * (n - 1)), entry(A, "delete", "c"), entry(A, "delete", "d", "v" + "0" * (n - 1))]),
        ("reals", [entry(A, "insert", "r%d" % i) for i in range(2)] + [entry(A, "update", "r", "==c" + "=" * (n - 3))]),
        ("key changes", [entry(A, "update", "k", "c" + "=" * (n - 1)), entry(B, "update", "k", "===c"), entry(B, "update", "k2", "cccc")]),
        ("nothing", []),
    ] + ([("null keys", [entry(B, "delete", "d", "v0vv"), entry(B, "delete", "e", "vvv0"), entry(B, "insert", "i", "v0v0")])] if kind == "sqlite" else [])


def applied(kind, e):
    return kind == "sqlite" or not e.table.startswith("gpkg_")


def apply_all(ctx, judge, faults=1, kinds=("sqlite", "postgres"), triggers=None):
    """judge(ctx, kind, label, entries, method, interp, outcome) for every behaviour of applying the
    scenarios' changesets"""
    items = []
    for kind in kinds:
        ctx.need("%s::applyChangeset" % CLS[kind], method(ctx.p, CLS[kind], "applyChangeset"))
        for name, es in sentries(kind):
            items.append((kind + ", " + name, kind, es))

    def one(c, item):
        name, kind, es = item
        cfg = Cfg(faults=faults)
        if triggers is not None:
            cfg.triggers = triggers
        done, why, m = applying(c.p, kind, es, cfg)
        c.cover(m["n"])
        for it, r in outcomes(c, done, why, name):
            c.functions |= {f for f in it.called} if hasattr(it, "called") else set()
            judge(c, kind, name, es, m, it, r)
    ctx.par(one, items)


def story(it, n=12):
    """the last things that happened"""
    out = []
    for x in it.env.events[-n:]:
        out.append(" ".join(str(y) if not isinstance(y, (tuple, dict)) else str(y)[:60] for y in x)[:140])
    return out


# ---- all operations of a driver ----

def mktable(it, vecobj, name, cols, crs=None, elem=None):
    """a TableSchema object appended to the vector"""
    o = it.default("TableSchema")
    o.f["name"] = S(name)
    cv = o.f["columns"]
    for c in cols:
        x = it.default("TableColumnInfo")
        for k, v in c.items():
            x.f[k] = S(v) if isinstance(v, str) else K(int(v), 8 if isinstance(v, bool) else 32)
        cv.d.append(x)
    if crs:
        x = o.f["crs"]
        for k, v in crs.items():
            x.f[k] = S(v) if isinstance(v, str) else K(int(v), 32)
    vecobj.d.append(o)


CRS = {"srsId": 4326, "authName": "EP'SG", "authCode": 4326, "wkt": "WK'T\"%s"}


def newtables(kind):
    if kind == "sqlite":
        ty = ("INTEGER", "TEXT", "POINT", "REAL")
    else:
        ty = ("integer", "text", "geometry(Point, 4326)", "double precision")
    return [(N1, [dict(name="fid", type=ty[0], isPrimaryKey=True, isNotNull=True, isAutoIncrement=True), dict(name=C1, type=ty[1]),
                  dict(name="g\"e'om", type=ty[2], isGeometry=True, geomType="POINT", geomSrsId=4326), dict(name="v", type=ty[3], isNotNull=True)], CRS),
            (N2, [dict(name="g", type=ty[2], isGeometry=True, geomType="POINT", geomSrsId=4326), dict(name="a k", type=ty[0], isPrimaryKey=True, isNotNull=True), dict(name="select", type=ty[1], isPrimaryKey=True, isNotNull=True)], CRS)]


class Op:
    """an operation of a driver"""

    def __init__(self, name, two, method, f, how="open", extra=(), files=None, writes=()):
        self.name, self.two, self.method, self.f, self.how, self.extra, self.files, self.writes = name, two, method, f, how, extra, files, writes


def ops(p, kind):
    cls = CLS[kind]
    m = lambda n: method(p, cls, n)
    T = N1
    out = []

    def add(name, two, mn, f, **k):
        out.append(Op(name, two, m(mn), f, **k))
    call = lambda mn, args: lambda it, d: it.callfn(m(mn), args(it), d)
    b = lambda v: K(int(v), 8)
    add("open", False, "open", lambda it, d: None)
    add("open two", True, "open", lambda it, d: None)
    for ov in (False, True):
        add("create%s" % (", overwriting" if ov else ""), False, "create", lambda it, d: None, how="create", extra=(b(ov),), writes=("create",))
    for mod in (False, True):
        n = " of the modified" if mod else ""
        add("listTables" + n, mod, "listTables", call("listTables", lambda it, mod=mod: [b(mod)]))
        add("tableSchema" + n, mod, "tableSchema", call("tableSchema", lambda it, mod=mod: [S(T), b(mod)]))
        add("dumpData" + n, mod, "dumpData", call("dumpData", lambda it, mod=mod: [writer("out"), b(mod)]))
        add("checkCompatibleForRebase" + n, mod, "checkCompatibleForRebase", call("checkCompatibleForRebase", lambda it, mod=mod: [b(mod)]))
    add("createChangeset", True, "createChangeset", call("createChangeset", lambda it: [writer("out")]))
    for n, es in sentries(kind)[3:6]:
        add("applyChangeset, " + n, False, "applyChangeset", call("applyChangeset", lambda it: [reader("diff")]), files={"diff": es}, writes=("apply",))

    def create(it, d):
        f = m("createTables")
        t = f["params"][0]["t"]
        v = it.default(it.ty(t).get("to", t))
        for n, cols, crs in newtables(kind):
            mktable(it, v, n, cols, crs)
        it.callfn(f, [Ref({0: v}, 0)], d)
    add("createTables", False, "createTables", create, writes=("create",), how="create" if kind == "sqlite" else "open", extra=(b(True),) if kind == "sqlite" else ())
    add("createTables, open", False, "createTables", create, writes=("create",))
    return out


def spatial(kind, full=False):
    """schema with a geometry column"""
    if not full:
        if kind == "sqlite":
            return Schema([T1, T2, NOPK], FEW)
        return pgschema([PS, PNOPK])
    if kind == "sqlite":
        g = Table("geo'", [("fid", "INTEGER", 1, 1), ("g\"eom", "POINT", 0, 0)])
        return Schema([T1, T2, T4, NOPK, g, GEOMCOLS, SRS], FEW, [("geo'", "g\"eom", "POINT", 4326, 0, 0)], [("n", 4326, "EPSG", 4326, "WK'T", "")])
    return pgschema()


def run_op(p, kind, op, cfg):
    return operation(p, kind, op.f, cfg, op.files, op.two, op.how, op.extra)


def all_ops(ctx, judge, faults=1, kinds=("sqlite", "postgres"), only=None, **cfg):
    """judge(ctx, kind, op, interp, outcome) for every behaviour of every operation"""
    items = []
    for kind in kinds:
        for o in ops(ctx.p, kind):
            if only is None or only(o):
                items.append(("%s, %s" % (kind, o.name), kind, o))

    def one(c, item):
        name, kind, o = item
        k = dict(faults=faults, openfaults=o.name.startswith(("open", "create")) and o.name != "createChangeset", active="", maxrows=2, few=True,
                 maybe={"ba's\"e"} if o.how == "create" and o.name != "createTables" else ())
        if o.name == "createTables":
            k["openfaults"] = False
        k.update(cfg)
        if o.name.startswith(("listTables", "tableSchema", "dumpData", "open", "check", "createChangeset")):
            k["base"] = k["mod"] = spatial(kind, not o.name.startswith(("dump", "createChangeset")))
        done, why = run_op(c.p, kind, o, Cfg(**k))
        c.cover(o.method["n"])
        for it, r in outcomes(c, done, why, name):
            judge(c, kind, o, it, r)
    ctx.par(one, items)
