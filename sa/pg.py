"""Abstract PostgreSQL behind the functions of libpq.

Catalogue queries are evaluated on the tables of the scenario.  A query over user data yields an
undetermined number of rows; their values are representatives (one distinct value per database, table,
column and row, of the column's type), and whether a value is NULL or equal to its counterpart is
undetermined.  Commands are recorded; any of them may fail, or the connection may break.
"""
import re, struct
from .lite import *

EMPTY, COMMAND_OK, TUPLES_OK, FATAL = 0, 1, 2, 7


def kindof(type):
    t = type.lower()
    if t == "boolean":
        return "bool"
    if t in ("integer", "bigint", "smallint", "int"):
        return "int"
    if t in ("real", "double precision") or t.startswith("numeric"):
        return "real"
    if t.startswith("geometry"):
        return "geom"
    if t == "bytea":
        return "bytea"
    return "text"


class Rep:
    """a representative value of a column"""
    __slots__ = ("type", "n", "col")

    def __init__(self, type, n, col):
        self.type, self.n, self.col = type, n, col

    def text(self):
        k = kindof(self.type)
        n = self.n
        if k == "bool":
            return "t" if n % 2 else "f"
        if k == "int":
            return str(n if n % 2 else -n)
        if k == "real":
            return repr(n + 0.1) if self.type != "real" else "%d.25" % n
        if k == "geom" or k == "bytea":
            return "\\x" + self.raw().hex()
        if self.type.startswith("timestamp"):
            return "2020-07-13T16:%02d:%02d%sZ" % (n // 60 % 60, n % 60, ".%06d" % (n * 7 % 1000 * 10 + 1) if n % 2 else "")
        return "t'%d\"\\x" % n

    def raw(self):
        return b"\x01\x01\x00\x00\x00\x00'" + struct.pack(">I", self.n) + b"\xff\x00\\"

    def value(self, srid=0):
        """what the changeset has to carry"""
        k = kindof(self.type)
        if k == "bool":
            return ("int", self.n % 2)
        if k == "int":
            return ("int", self.n if self.n % 2 else -self.n)
        if k == "real":
            return ("real", ("dbl", struct.unpack("<Q", struct.pack("<d", float(self.text())))[0]))
        if k == "geom":
            return ("blob", b"GP\x00\x01" + struct.pack("<i", srid) + self.raw())
        if k == "bytea":
            return ("blob", self.raw())
        return ("text", self.text())

    def __repr__(self):
        return "%s#%d" % (".".join(self.col[1:]), self.n)


def tochar(v, f):
    """to_char() of a timestamp"""
    s, _, fr = v.partition(".")
    d, _, h = s.partition(" ")
    y, mo, da = d.split("-")
    h, mi, se = h.split(":")
    us = (fr + "000000")[:6]
    out, i = "", 0
    while i < len(f):
        if f[i] == '"':
            j = f.index('"', i + 1)
            out += f[i + 1:j]
            i = j + 1
            continue
        for k, x in (("YYYY", y), ("MM", mo), ("DD", da), ("HH24", h), ("MI", mi), ("SS", se), ("US", us), ("MS", us[:3])):
            if f.startswith(k, i):
                out += x
                i += len(k)
                break
        else:
            if f[i].isalnum() and f[i] not in "TZ":
                raise SQL.Unknown("format " + f)
            out += f[i]
            i += 1
    return out


class One(SQL.Eval):
    """an expression over a column that has a given timestamp"""

    def __init__(self, text):
        super().__init__(None, {}, True, self.function)
        self.text = text

    def value(self, e, sc):
        return self.text if e[0] == "col" else SQL.Eval.value(self, e, sc)

    def function(self, n, a):
        if n == "to_char" and len(a) == 2:
            return tochar(*a)
        if n == "replace" and len(a) == 3:
            return a[0].replace(a[1], a[2])
        if n in ("rtrim", "ltrim", "btrim") and len(a) == 2:
            return {"rtrim": a[0].rstrip, "ltrim": a[0].lstrip, "btrim": a[0].strip}[n](a[1])
        raise SQL.Unknown("function " + n)


class Result:
    def __init__(self, n, status, cols=(), rows=(), tuples=""):
        self.n, self.status, self.cols, self.rows, self.tuples = n, status, list(cols), list(rows), tuples


class Rel:
    """a regclass"""

    def __init__(self, oid, t):
        self.oid, self.t = oid, t

    def __str__(self):
        return self.t


def qid(*n):
    return ".".join('"%s"' % x.replace('"', '""') for x in n)


class CatEval(SQL.Eval):
    """evaluates queries over the system catalogue"""
    COLS = {
        "pg_namespace": ["oid", "nspname"], "pg_class": ["oid", "relname", "relnamespace", "relkind"],
        "pg_attribute": ["attrelid", "attname", "atttypid", "atttypmod", "attnum", "attnotnull", "attisdropped", "attidentity"],
        "pg_index": ["indexrelid", "indrelid", "indkey", "indisprimary", "indisunique", "indisvalid"],
        "pg_attrdef": ["oid", "adrelid", "adnum", "adbin"],
        "pg_constraint": ["conname", "conrelid", "contype", "conkey"],
    }

    def __init__(self, en):
        super().__init__(self.cat, {}, True, self.function)
        self.en = en
        self.rels = {}
        self.names = {}
        n = 1000
        for i, (s, x) in enumerate(en.dbs.items()):
            for t in x.tables:
                n += 1
                self.rels[n] = (i, s, t)
                self.names[qid(s, t.name)] = n

    def cat(self, n):
        c = n[-1].lower()
        if c not in self.COLS or len(n) > 1 and n[-2].lower() != "pg_catalog":
            raise SQL.Unknown("table " + c)
        out = []
        if c == "pg_namespace":
            out = [[i, s] for i, s in enumerate(self.en.dbs)]
        for o, (i, s, t) in self.rels.items():
            ix = [[k for k, x in enumerate(t.cols) if x[3]]]
            if c == "pg_class":
                out.append([o, t.name, i, "r"])
            elif c == "pg_attribute":
                out += [[o, x, 26, -1, -k - 1, True, False, ""] for k, x in enumerate(("tableoid", "ctid"))]
                for k, x in enumerate(t.cols):
                    out.append([o, x[0], x[1], k, k + 1 + (k > 0), bool(x[2]), False, ""])
                    if k == 0:
                        out.append([o, "........pg.dropped.2........", 0, -1, 2, False, True, ""])
            elif c == "pg_index":
                num = lambda l: [k + 1 + (k > 0) for k in l]
                if ix[0]:
                    out.append([o * 10, o, num(ix[0]), True, True, True])
                for j, l in enumerate(getattr(t, "indexes", ())):
                    out.append([o * 10 + j + 1, o, num(l), False, j % 2 == 0, True])
            elif c == "pg_constraint":
                if ix[0]:
                    out.append([t.name + "_pkey", o, "p", [k + 1 + (k > 0) for k in ix[0]]])
            elif c == "pg_attrdef":
                for k, x in enumerate(t.cols):
                    if x[0] in getattr(t, "serial", ()):
                        out.append([o * 100 + k, o, k + 1 + (k > 0), ("nextval", self.seq(s, t, x[0]))])
                    elif x[0] in getattr(t, "defaults", ()):
                        out.append([o * 100 + k, o, k + 1 + (k > 0), ("const", "5")])
        return self.COLS[c], out

    def seq(self, s, t, c):
        return qid(s, "%s_%s_seq" % (t.name, c))

    def function(self, n, a):
        if n == "format_type":
            return a[0] if isinstance(a[0], str) else "-" if a[0] == 0 else "oid"
        if n == "pg_get_expr":
            return None if a[0] is None else "nextval('%s'::regclass)" % a[0][1].replace("'", "''") if a[0][0] == "nextval" else a[0][1]
        if n in ("quote_literal", "quote_nullable", "quote_ident"):
            if a[0] is None:
                return "NULL" if n == "quote_nullable" else None
            x = str(a[0])
            if n == "quote_ident":
                return qid(x)
            return ("E'%s'" if "\\" in x else "'%s'") % x.replace("\\", "\\\\").replace("'", "''")
        if n == "pg_get_serial_sequence":
            if a[0] is None or a[1] is None:
                return None
            o = self.names.get(str(a[0]))
            if o is None:
                raise SqlError("relation does not exist: %s" % (a[0],))
            i, s, t = self.rels[o]
            return self.seq(s, t, a[1]) if a[1] in getattr(t, "serial", ()) else None
        return UNSET

    def value(self, e, sc):
        if e[0] == "cast":
            v = self.value(e[1], sc)
            ty = str(e[2]).lower()
            if v is None:
                return None
            if "regclass" in ty:
                if isinstance(v, int):
                    i, s, t = self.rels[v]
                    return Rel(v, qid(s, t.name))
                return v if isinstance(v, Rel) else Rel(self.names.get(v), str(v))
            if "text" in ty or "varchar" in ty or "name" in ty:
                return str(v)
            if "oid" in ty and isinstance(v, Rel):
                return v.oid
            return v
        if e[0] in ("=", "!=") and e[2][0] in ("any", "all"):
            a, l = self.value(e[1], sc), self.value(e[2][1], sc)
            if a is None or l is None:
                return None
            if not isinstance(l, list):
                raise SQL.Unknown("ANY")
            return a in l if e[0] == "=" and e[2][0] == "any" else all(x == a for x in l) if e[0] == "=" else any(x != a for x in l) if e[2][0] == "any" else a not in l
        v = super().value(e, sc)
        return v

    def same(self, a, b):
        if isinstance(a, Rel) or isinstance(b, Rel):
            k = lambda x: x.oid if isinstance(x, Rel) else self.names.get(x, x)
            return k(a) == k(b)
        return super().same(a, b)


class Pg(Lite):
    def __init__(self, p, files=None, dbs=None):
        Lite.__init__(self, p, files, dbs)
        self.results = []
        self.lost = set()
        self.repid = 0
        self.rowinfo = {}
        self.autoinc = True

    # -- connections
    def x_PQconnectdb(self, info):
        n = len(self.conns)
        db = Db(n, self.path(info))
        db.attached = self.dbs
        db.aborted = False
        db.ok = not self.w.fault("PQconnectdb")
        self.conns.append(db)
        self.acquire("connection", n)
        self.events.append(("open", db.path, 0))
        return Op(("db", n))

    def x_PQstatus(self, h):
        if h is None:
            return K(1, 32)
        return K(0 if self.conn(h, "PQstatus").ok else 1, 32)

    def x_PQerrorMessage(self, h):
        return self.mkstr("error")

    def x_PQfinish(self, h):
        if h is None:
            return
        db = self.conn(h, "PQfinish")
        self.release_("connection", db.n, "PQfinish")
        if db.begin:
            self.events.append(("rollback", db.n))
            db.log, db.begin = [], False

    def result(self, *a):
        r = Result(len(self.results), *a)
        self.results.append(r)
        self.acquire("result set", r.n)
        return Op(("res", r.n))

    def res_(self, h, what):
        if h is None:
            return None
        self.use("result set", h.t[1], what)
        return self.results[h.t[1]]

    def x_PQclear(self, h):
        if h is not None:
            self.release_("result set", h.t[1], "PQclear")

    def x_PQresultStatus(self, h):
        r = self.res_(h, "PQresultStatus")
        return K(FATAL if r is None else r.status, 32)

    def x_PQresultErrorMessage(self, h):
        self.res_(h, "PQresultErrorMessage")
        return self.mkstr("error")

    def x_PQresultErrorField(self, h, f):
        self.res_(h, "PQresultErrorField")
        return self.mkstr("42000")

    def x_PQntuples(self, h):
        r = self.res_(h, "PQntuples")
        return K(0 if r is None else len(r.rows), 32)

    def x_PQnfields(self, h):
        r = self.res_(h, "PQnfields")
        return K(0 if r is None else len(r.cols), 32)

    def x_PQcmdTuples(self, h):
        r = self.res_(h, "PQcmdTuples")
        return self.mkstr("" if r is None else r.tuples)

    def cellat(self, h, i, j, what):
        r = self.res_(h, what)
        i, j = self.w.sconst(i), self.w.sconst(j)
        if r is None or not 0 <= i < len(r.rows) or not 0 <= j < len(r.rows[i]):
            return None
        return r.rows[i][j]

    def x_PQgetisnull(self, h, i, j):
        return K(int(self.cellat(h, i, j, "PQgetisnull") is None), 32)

    def celltext(self, v):
        if v is None:
            return ""
        if isinstance(v, bool):
            return "t" if v else "f"
        return v.text() if isinstance(v, Rep) else str(v)

    def x_PQgetvalue(self, h, i, j):
        v = self.cellat(h, i, j, "PQgetvalue")
        t = self.celltext(v)
        return self.mkstr(t, t)

    def x_PQgetlength(self, h, i, j):
        return K(len(self.celltext(self.cellat(h, i, j, "PQgetlength")).encode()), 32)

    # -- numbers
    def x_atol(self, p):
        return self.toint(p, 64)

    x_atoll = x_atol

    def x_atoi(self, p):
        return self.toint(p, 32)

    def toint(self, p, w):
        t = text(self.cchars(p)).strip()
        s = ""
        for i, c in enumerate(t):
            if c.isdigit() or i == 0 and c in "+-":
                s += c
            else:
                break
        try:
            return K(int(s), w)
        except ValueError:
            return K(0, w)

    def x_strtoll(self, p, end, base):
        if end is not None:
            raise AnalysisError("strtoll with an end pointer")
        return self.toint(p, 64)

    x_strtol = x_strtoll

    def x_atof(self, p):
        z = text(self.cchars(p))
        if LOCALE["point"] != ".":
            z = re.match(r"\s*([-+]?(?:\d+(?:\D\d*)?(?:[eE][-+]?\d+)?|nan|inf(?:inity)?)?)".replace("\\D", re.escape(LOCALE["point"])), z, re.I).group(1).replace(LOCALE["point"], ".")
        try:
            f = float(z)
        except ValueError:
            f = 0.0
        return K(struct.unpack("<Q", struct.pack("<d", f))[0], 64)

    def x_strtod(self, p, end):
        if end is not None:
            raise AnalysisError("strtod with an end pointer")
        return self.x_atof(p)

    # -- commands
    def x_PQexec(self, h, z):
        w = self.w
        if h is None:
            return None
        db = self.conn(h, "PQexec")
        d = self.cchars(z)
        first = text(d).strip()[:8].upper()
        if not db.ok:
            return None
        if not first.startswith("ROLLBACK"):
            if w.fault("PQexec"):
                self.events.append(("failed", first))
                if db.begin:
                    db.aborted = True
                return self.result(FATAL)
            if w.fault("connection"):
                db.ok = False
                db.log, db.begin, db.aborted = [], False, False
                self.events.append(("connection lost",))
                return None if w.decide(("empty result", w.count("empty result"))) else self.result(FATAL)
        t = SQL.Text(d)
        try:
            st, ps = SQL.parse(t, True)
        except SqlError as x:
            self.texts.append((t, None, str(x)))
            self.events.append(("bad sql", t.plain(), str(x)))
            if db.begin:
                db.aborted = True
            return self.result(FATAL)
        self.texts.append((t, st, ps))
        last = self.result(EMPTY) if not st else None
        for s, span in st:
            if last is not None:
                self.release_("result set", last.t[1], "result")
            last = self.command(db, s, t, span)
            if self.results[last.t[1]].status == FATAL:
                if db.begin:
                    db.aborted = True
                break
        return last

    def x_PQexecParams(self, *a):
        raise AnalysisError("PQexecParams")

    def err(self, t, msg):
        self.events.append(("bad sql", t.plain(), msg))
        return self.result(FATAL)

    def undoing(self, first):
        return True

    def command(self, db, st, t, span):
        k = st[0]
        if db.aborted and k not in ("rollback", "commit", "rollbackto"):
            self.events.append(("refused", st))
            return self.result(FATAL)
        if k == "begin":
            if not db.begin:
                db.begin = True
            self.events.append(("begin", db.n))
            return self.result(COMMAND_OK)
        if k == "commit":
            if db.aborted:
                db.log, db.begin, db.aborted = [], False, False
                self.events.append(("rollback", db.n))
            elif db.begin:
                db.begin = False
                self.persist(db)
                self.events.append(("commit", db.n))
            return self.result(COMMAND_OK)
        if k == "rollback":
            db.log, db.begin, db.aborted = [], False, False
            self.events.append(("rollback", db.n))
            return self.result(COMMAND_OK)
        if k in ("savepoint", "release", "rollbackto"):
            if not db.begin:
                return self.result(FATAL)
            rc = self.transaction(db, st)
            return self.result(COMMAND_OK if rc == OK else FATAL)
        if k == "select":
            return self.pgselect(db, st[1], t)
        if k in ("insert", "update", "delete"):
            err = self.pgcheck(db, st)
            if err:
                return self.err(t, err)
            sn, tab = self.resolve(db, st[1])
            n = self.w.count(("dml", k))
            eff = 1 if k == "insert" and not skips(st[4]) or self.nodml or not self.w.fault("no row") else 0
            self.write(db, (k, sn, tab.name, st, {}, eff, []))
            return self.result(COMMAND_OK, (), (), str(eff))
        if k in ("drop", "create"):
            self.write(db, ("ddl", st, t))
            return self.result(COMMAND_OK)
        if k == "set":
            return self.result(COMMAND_OK)
        raise AnalysisError("SQL command " + k)

    def resolve(self, db, n):
        if len(n) == 2:
            s = self.dbs.get(n[0])
            t = s.table(n[1]) if s else None
            return (n[0], t) if t and t.name == n[1] else None
        return None

    def pgcheck(self, db, st):
        r = self.resolve(db, st[1])
        if r is None:
            return "no such table " + ".".join(st[1])
        names = [c[0] for c in r[1].cols]
        k = st[0]
        cols = (st[2] or []) if k == "insert" else [c for c, _ in st[2]] if k == "update" else []
        for c in cols:
            if c not in names:
                return "no such column " + c
        if k == "insert" and isinstance(st[3], list):
            for r2 in st[3]:
                if len(r2) != len(st[2] or names):
                    return "wrong number of values"
        for x in SQL.walk(st[3:] if k == "update" else st[2:] if k == "delete" else ()):
            if isinstance(x, tuple) and x[0] == "col" and x[1][-1] not in names:
                return "no such column " + x[1][-1]
        return None

    CAT = {
        "pg_namespace": ["oid", "nspname"], "pg_tables": ["schemaname", "tablename"],
        "geometry_columns": ["f_table_catalog", "f_table_schema", "f_table_name", "f_geometry_column", "coord_dimension", "srid", "type"],
        "spatial_ref_sys": ["srid", "auth_name", "auth_srid", "srtext", "proj4text"],
    }

    def catfind(self, n):
        c = n[-1].lower()
        if c == "pg_namespace":
            return self.CAT[c], [[i, s] for i, s in enumerate(self.dbs)]
        if c == "pg_tables":
            return self.CAT[c], [[s, t.name] for s, x in self.dbs.items() for t in x.tables]
        if c == "geometry_columns":
            return self.CAT[c], [["db", s, g[0], g[1], 4 if g[2].endswith("ZM") else 3 if g[2][-1] in "ZM" else 2, g[3], g[2].replace("ZM", "").replace("Z", "")]
                                 for s, x in self.dbs.items() for g in x.geom]   # as PostGIS defines the view
        if c == "spatial_ref_sys":
            rows = []
            for x in self.dbs.values():
                for g in x.srs:
                    if list(g) not in [r[:4] for r in rows]:
                        rows.append(list(g) + [""])
            return self.CAT[c], rows
        raise SQL.Unknown("table " + c)

    def pgselect(self, db, sel, t):
        tabs = [x[1] for x in SQL.walk(sel) if isinstance(x, tuple) and x[0] == "table" and len(x) == 3 and isinstance(x[1], tuple)]
        names = {x[-1].lower() for x in tabs}
        calls = {x[1] for x in SQL.walk(sel) if isinstance(x, tuple) and x[0] == "call"}
        if "pg_attribute" in names:
            return self.attributes(db, sel)
        if "pg_get_serial_sequence" in calls:
            for x in SQL.walk(sel):
                if isinstance(x, tuple) and x[0] == "call" and x[1] == "pg_get_serial_sequence" and len(x[2]) == 2 and x[2][0][0] == x[2][1][0] == "str":
                    try:
                        ps = SQL.Parser(SQL.Text(list(S(x[2][0][1]).d)), True)
                        r = self.resolve(db, ps.qname())
                    except SqlError:
                        r = None
                    if r is None or x[2][1][1] not in [c[0] for c in r[1].cols]:
                        return self.err(t, "no column %s of a table %s" % (x[2][1][1], x[2][0][1]))
            return self.result(TUPLES_OK, ["s"], [["\"base's\".\"seq'%d\"" % len(self.results)]])
        if "setval" in calls:
            self.write(db, ("setval", sel))
            return self.result(TUPLES_OK, ["setval"], [[1]])
        if any(isinstance(x, tuple) and x[0] == "col" and x[1][-1] == "last_value" for x in SQL.walk(sel["items"])):
            return self.result(TUPLES_OK, ["last_value"], [[2000000 if self.w.decide(("sequence ahead", self.w.count("sequence"))) else 1]])
        if names and all(x in self.CAT for x in names):
            ev = SQL.Eval(self.catfind, {}, True)
            c, rows = ev.select(sel)
            return self.result(TUPLES_OK, c, rows)
        if not tabs and not sel["from"]:
            raise SQL.Unknown("query without a table")
        for x in tabs:
            if self.resolve(db, x) is None:
                return self.err(t, "no such table " + ".".join(x))
        try:
            cols = self.pgcols(db, sel)
        except SqlError as x:
            return self.err(t, str(x))
        q = self.w.count("query")
        self.events.append(("query", q, ("select", sel), cols))
        rows = []
        while self.more(q, len(rows)):
            rows.append(self.datarow(q, len(rows), cols))
        return self.result(TUPLES_OK, cols, rows)

    def attributes(self, db, sel):
        """a query over the catalogue of tables, columns, indexes and defaults"""
        c, rows = CatEval(self).select(sel)
        return self.result(TUPLES_OK, c, rows)

    def pgcols(self, db, sel):
        """origin of the result columns: (conversion, ("col", schema, table, column), type, key, not null, srid)"""
        if "compound" in sel:
            raise SQL.Unknown("compound query")
        src = []
        for how, tr, on in sel["from"]:
            if tr[0] != "table":
                raise SQL.Unknown("origin of the columns")
            r = self.resolve(db, tr[1])
            if r is None:
                raise SqlError("no table")
            src.append((tr[2], tr[1], r[0], r[1]))
        out = []

        def add(conv, d, t, c):
            out.append((conv, ("col", d, t.name, c[0]), c[1], bool(c[3]), bool(c[2])))
        for it in sel["items"]:
            if it[0] == "*":
                for alias, name, d, t in src:
                    if len(it) > 1 and not SQL.Eval.matches(it[1], alias, name):
                        continue
                    for c in t.cols:
                        add(None, d, t, c)
                continue
            e = it[1]
            conv = None
            if e[0] == "call" and e[1] in ("st_asbinary", "to_char") and e[2] and e[2][0][0] == "col":
                conv = (e[1],) + tuple(x[1] for x in e[2][1:])
                e = e[2][0]
            cs = {tuple(x[1]) for x in SQL.walk(e) if isinstance(x, tuple) and x[0] == "col" and len(x) > 1 and isinstance(x[1], (tuple, list))}
            if e[0] != "col" and conv is None and len(cs) == 1:
                conv = ("expr", e)          # of one column
                e = ("col", cs.pop())
            if e[0] != "col":
                raise SQL.Unknown("origin of a column")
            q = e[1]
            hit = [(d, t, c) for alias, name, d, t in src for c in t.cols if c[0] == q[-1] and (len(q) == 1 or SQL.Eval.matches(q[:-1], alias, name))]
            if len(hit) > 1:
                raise SqlError("ambiguous column " + q[-1])
            if not hit:
                raise SqlError("no column " + q[-1])
            add(conv, *hit[0])
        return out

    special = fixture = None        # given values of columns

    def newrep(self, type, col):
        self.repid += 1
        if self.special and col[-1] in self.special:
            return self.fixture(type, self.repid, col, *self.special[col[-1]])
        if kindof(type) == "bool":
            n = 1
        else:
            n = self.repid
        return Rep(type, n, col)

    def datarow(self, q, r, cols):
        w = self.w
        first = {}
        row = []
        for conv, col, ty, pk, nn in cols:
            act = self.active is None or col[-1] == self.active
            k = (col[2], col[3])
            if k in first:
                o = first[k]
                if pk or not act:
                    v = o
                elif not w.decide(("same", q, r, k)):
                    v = o
                elif o is not None and not nn and not w.decide(("not null now", q, r, k)):
                    v = None
                else:
                    v = self.newrep(ty, col)
                    if o is not None and kindof(ty) == "bool":
                        v.n = 1 - o.n
            else:
                v = None if act and not pk and not nn and w.decide(("null", q, r, k)) else self.newrep(ty, col)
                first[k] = v
            row.append(v)
            self.rowinfo.setdefault((q, r), []).append((col, v))
        out = []
        for (conv, col, ty, pk, nn), v in zip(cols, row):
            out.append(self.shown(conv, ty, v))
        self.events.append(("row", q, r))
        return out

    def shown(self, conv, ty, v):
        """the text PostgreSQL returns"""
        if v is None:
            return None
        k = kindof(ty)
        if k == "geom" and conv is None:
            return "01" + v.raw().hex()        # hexadecimal EWKB
        if ty.startswith("timestamp"):
            text = v.text().replace("T", " ").replace("Z", "")
            if conv is not None and conv[0] == "to_char" and len(conv) == 2:
                text = tochar(text, conv[1])
            elif conv is not None and conv[0] == "expr":
                text = One(text).value(conv[1], [])
            elif conv is not None:
                raise SQL.Unknown("value of an expression")
            return v if text == v.text() else text
        if conv is not None and conv[0] == "expr":
            raise SQL.Unknown("value of an expression")
        return v
