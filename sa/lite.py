"""Abstract SQLite: connections, statements, transactions and a catalogue, behind the C functions.

A query over the catalogue (sqlite_master, table_info, the GeoPackage tables) is evaluated on the tables
of the scenario; a query over user data yields an undetermined number of rows of opaque values that know
the database, table, row and column they come from.  Any call may fail.
"""
from .envs import *
from . import sql as SQL
from .sql import SqlError

OK, ERROR, ROW, DONE, BUSY, CONSTRAINT = 0, 1, 100, 101, 5, 19
TYPES = {"int": 1, "real": 2, "text": 3, "blob": 4, "null": 5}


CHANGING = ("journal_mode", "user_version", "application_id", "schema_version", "auto_vacuum", "encoding", "default_cache_size", "page_size")


def pkindex(t):
    """whether SQLite makes an index for the primary key"""
    k = [c for c in t.cols if c[3]]
    return bool(k) and (len(k) > 1 or k[0][1].upper() != "INTEGER" or "without rowid" in t.sql.lower())


class Table:
    def __init__(self, name, cols, sql=None, pkorder=None, gen=()):
        """cols: (name, type, notnull, pk), gen: (position, name) of generated columns, which table_info does not list"""
        self.name = name
        self.gen = gen
        self.cols = cols
        self.sql = sql or 'CREATE TABLE "%s" ()' % name
        self.pkorder = pkorder

    @property
    def pk(self):
        return tuple(bool(c[3]) for c in self.cols)

    def star(self, row=None):
        """the names of all columns (for which a star stands), or the values of a row"""
        l = [c[0] for c in self.cols] if row is None else list(row)
        for i, n in self.gen:
            l.insert(i, n if row is None else "generated")
        return l


class Schema:
    def __init__(self, tables=(), triggers=(), geom=(), srs=(), views=(), fks=()):
        self.tables = list(tables)
        self.triggers = list(triggers)      # (name, table, sql)
        self.geom = list(geom)              # rows of gpkg_geometry_columns
        self.srs = list(srs)                # rows of gpkg_spatial_ref_sys
        self.views = list(views)
        self.fks = list(fks)                # (from table, from column, to table, to column)

    def table(self, n):
        for t in self.tables:
            if t.name.lower() == n.lower():
                return t
        return None


META = {
    "sqlite_master": ["type", "name", "tbl_name", "rootpage", "sql"],
    "sqlite_schema": ["type", "name", "tbl_name", "rootpage", "sql"],
    "gpkg_geometry_columns": ["table_name", "column_name", "geometry_type_name", "srs_id", "z", "m"],
    "gpkg_spatial_ref_sys": ["srs_name", "srs_id", "organization", "organization_coordsys_id", "definition", "description"],
}
GEOMCOLS = Table("gpkg_geometry_columns", [("table_name", "TEXT", 1, 1), ("column_name", "TEXT", 1, 2), ("geometry_type_name", "TEXT", 1, 0), ("srs_id", "INTEGER", 1, 0), ("z", "TINYINT", 1, 0), ("m", "TINYINT", 1, 0)])
SRS = Table("gpkg_spatial_ref_sys", [("srs_name", "TEXT", 1, 0), ("srs_id", "INTEGER", 1, 1), ("organization", "TEXT", 1, 0), ("organization_coordsys_id", "INTEGER", 1, 0), ("definition", "TEXT", 1, 0), ("description", "TEXT", 0, 0)])


CONTENTS = Table("gpkg_contents", [("table_name", "TEXT", 1, 1), ("data_type", "TEXT", 1, 0), ("identifier", "TEXT", 0, 0), ("description", "TEXT", 0, 0), ("last_change", "DATETIME", 1, 0), ("min_x", "DOUBLE", 0, 0),
                                   ("min_y", "DOUBLE", 0, 0), ("max_x", "DOUBLE", 0, 0), ("max_y", "DOUBLE", 0, 0), ("srs_id", "INTEGER", 0, 0)])


class Cell:
    """a catalogue value"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Db:
    def __init__(self, n, path):
        self.n = n
        self.path = path
        self.attached = {}
        self.sp = []            # open savepoints: (name, length of the log)
        self.begin = False
        self.log = []           # changes of the open transaction
        self.durable = []       # permanent changes
        self.changes = 0
        self.mutex = 0
        self.commits = 0        # how often changes were made permanent
        self.auto = []          # changes made outside a transaction

    @property
    def intx(self):
        return self.begin or bool(self.sp)


class Stmt:
    def __init__(self, n, db, st, text, nparam):
        self.n, self.db, self.st, self.text = n, db, st, text
        self.params = {}
        self.pos = None
        self.rows = None
        self.done = False
        self.nparam = nparam
        self.span = None


def skips(how):
    """does the conflict clause of an insert make it skip rows?"""
    return bool(how) and (str(how).upper() == "IGNORE" or str(how).upper().startswith("ON CONFLICT"))


class Lite(Env):
    maxrows = 2

    def __init__(self, p, files=None, dbs=None):
        Env.__init__(self, p, files)
        self.dbs = dbs or {}        # path -> Schema
        self.conns = []
        self.stmts = {}
        self.texts = []             # every SQL text (Text) with its statements
        self.active = None          # (table, column) whose values have undetermined types, None: all
        self.keep = []
        self.nodml = False

    def attach(self, w):
        Env.attach(self, w)
        x = w.ext
        x["Buffer::ctor"] = lambda it, this, a, e: Obj("Buffer", {"$text": None})
        for n in ("printf", "c_buf", "v_buf", "~Buffer", "free", "isEmpty"):
            x["Buffer::" + n] = getattr(self, "b_" + n.strip("~"))
        self.bufdefault(w)

    def bufdefault(self, w):
        pass

    def b_printf(self, it, this, a, e):
        o = obj(this)
        a = [rv(x) for x in a]
        o.f["$text"] = (o.f.get("$text") or []) + self.fmt(a[0], a[1:])

    def b_c_buf(self, it, this, a, e):
        t = obj(this).f.get("$text")
        return None if t is None else self.mkstr(t)

    b_v_buf = b_c_buf

    def b_free(self, it, this, a, e):
        obj(this).f["$text"] = None

    b_Buffer = b_free

    def b_isEmpty(self, it, this, a, e):
        return K(int(obj(this).f.get("$text") is None), 1)

    # -- helpers
    def conn(self, op, what):
        if not isinstance(op, Op) or op.t[0] != "db":
            raise AnalysisError("not a connection")
        self.use("connection", op.t[1], what)
        return self.conns[op.t[1]]

    def stmt(self, op, what):
        if op is None:
            return None
        if not isinstance(op, Op) or op.t[0] != "stmt":
            raise AnalysisError("not a statement")
        self.use("statement", op.t[1], what)
        return self.stmts[op.t[1]]

    def cchars(self, p):
        return self.w.cstr(p)

    def mkstr(self, s, tag=None):
        if isinstance(s, str):
            d = S(s, tag).d
        else:
            d = list(s)
        p = Ptr(d + [K(0, 8)], 0)
        self.keep.append(p.c)
        return p

    # -- connections
    def x_sqlite3_open_v2(self, name, pp, flags, vfs):
        w = self.w
        path = self.path(name)
        n = len(self.conns)
        db = Db(n, path)
        fl = w.const(flags)
        db.flags = fl
        self.conns.append(db)
        self.acquire("connection", n)
        self.events.append(("open", path, fl))
        pp.at(0).put(Op(("db", n)))
        if w.fault("sqlite3_open"):
            return K(14, 32)
        db.attached["main"] = self.dbs.get(path) or Schema()
        return K(0, 32)

    def x_sqlite3_open(self, name, pp):
        return self.x_sqlite3_open_v2(name, pp, K(6, 32), None)

    def x_sqlite3_close(self, h):
        if h is None:
            return K(0, 32)
        db = self.conn(h, "sqlite3_close")
        live = [s for s in self.stmts.values() if s.db is db and self.res.get(("statement", s.n))]
        if live:
            self.misuse.append("a connection is closed while statements are open")
            return K(BUSY, 32)
        self.release_("connection", db.n, "sqlite3_close")
        if db.intx:
            self.events.append(("rollback", db.n))
            db.log, db.sp, db.begin = [], [], False
        return K(0, 32)

    x_sqlite3_close_v2 = x_sqlite3_close

    def x_sqlite3_errmsg(self, h):
        return self.mkstr("sql error")

    def x_sqlite3_errstr(self, h):
        return self.mkstr("sql error")

    def x_sqlite3_errcode(self, h):
        return K(1, 32)

    x_sqlite3_extended_errcode = x_sqlite3_errcode

    def x_sqlite3_enable_load_extension(self, h, on):
        return K(1 if self.w.fault("load extension") else 0, 32)

    def x_sqlite3_gpkg_auto_init(self, h, a, b):
        return K(1 if self.w.fault("gpkg init") else 0, 32)

    def x_sqlite3_get_autocommit(self, h):
        return K(int(not self.conn(h, "sqlite3_get_autocommit").intx), 32)

    def x_sqlite3_db_mutex(self, h):
        return Op(("mutex", self.conn(h, "sqlite3_db_mutex").n))

    def x_sqlite3_mutex_enter(self, m):
        self.conns[m.t[1]].mutex += 1

    def x_sqlite3_mutex_leave(self, m):
        d = self.conns[m.t[1]]
        d.mutex -= 1
        if d.mutex < 0:
            self.misuse.append("the database mutex is released without being held")

    def x_sqlite3_changes(self, h):
        v = self.conn(h, "sqlite3_changes").changes
        return K(v, 32) if isinstance(v, int) else v

    def x_sqlite3_total_changes(self, h):
        return Sc(("total_changes", self.w.count("total_changes")), 32)

    def x_sqlite3_busy_timeout(self, h, n):
        return K(0, 32)

    # -- texts
    def fmt(self, f, args):
        w = self.w
        d = self.cchars(f)
        out = []
        i = 0
        args = list(args)

        def nxt():
            if not args:
                w.errors.append((0, "format string with too few arguments"))
                raise OutOfBounds()
            return args.pop(0)

        def chars(a):
            if a is None:
                return None
            if isinstance(a, Str):
                return a.d
            return self.cchars(a)

        def dbl(cs, q):
            o = []
            for c in cs:
                o.append(c)
                if not isinstance(c, Chunk) and w.const(c) == ord(q):
                    o.append(c)
            return o
        while i < len(d):
            c = d[i]
            if isinstance(c, Chunk) or w.const(c) != 37:
                out.append(c)
                i += 1
                continue
            i += 1
            spec = ""
            while i < len(d):
                ch = chr(w.const(d[i]))
                spec += ch
                i += 1
                if ch.isalpha() and ch not in "lhjz" or ch == "%":
                    break
            k = spec[-1] if spec else ""
            if k == "%":
                out.append(K(37, 8))
            elif k in "sz":
                a = nxt()
                cs = chars(a)
                if cs is not None:
                    pr = spec[:-1]
                    if pr:
                        raise AnalysisError("format %" + spec)
                    out += cs
            elif k == "w":
                out += self._wq(nxt(), chars, dbl, '"')
            elif k == "q":
                out += self._wq(nxt(), chars, dbl, "'")
            elif k == "Q":
                a = nxt()
                out += S("NULL").d if a is None else S("'").d + dbl(chars(a), "'") + S("'").d
            elif k in "diu":
                a = nxt()
                if isinstance(a, BV) and a.const() is not None:
                    v = w.sconst(a) if k != "u" else a.const()
                    out += S(str(v)).d
                else:
                    out.append(Chunk(("dec", w.term(a))))
            elif k in "feg":
                a = nxt()
                out.append(Chunk(("float", a.t if isinstance(a, Sc) else a.const())))
            elif k == "c" and isinstance(args[:1] and args[0], BV) and args[0].const() is not None:
                out.append(K(nxt().const() & 255, 8))
            elif k and k.isalpha() and k in "cxXoEGpn":
                raise AnalysisError("format %" + spec)
            else:
                break           # SQLite ends the text at a specification that it does not know
        return out

    def _wq(self, a, chars, dbl, q):
        if a is None:
            return S("(NULL)").d
        return dbl(chars(a), q)

    def x_sqlite3_vmprintf(self, f, ap):
        if isinstance(ap, Ptr):
            ap = ap.at(0).get()
        return self.newstr(self.fmt(f, ap))

    def x_sqlite3_mprintf(self, f, *a):
        return self.newstr(self.fmt(f, a))

    def x_sqlite3_vsnprintf(self, n, buf, f, ap):
        if isinstance(ap, Ptr):
            ap = ap.at(0).get()
        return self.x_sqlite3_snprintf(n, buf, f, *ap)

    def x_sqlite3_snprintf(self, n, buf, f, *a):
        d = self.fmt(f, a)
        m = self.w.const(n)
        if any(isinstance(c, Chunk) for c in d):
            raise AnalysisError("snprintf of an unknown text")
        for i, c in enumerate(d[:m - 1] + [K(0, 8)]):
            buf.at(i).put(c)
        return buf

    def newstr(self, d):
        p = self.mkstr(d)
        self.acquire("text", id(p.c))
        return p

    def x_sqlite3_free(self, p):
        if p is not None:
            self.release_("text", id(p.c), "sqlite3_free")

    def x_sqlite3_stricmp(self, a, b):
        if a is None or b is None:
            return K(int(not (a is None and b is None)), 32)
        x, y = text(self.cchars(a)).lower(), text(self.cchars(b)).lower()
        return K(0 if x == y else 1, 32)

    # -- statements
    def parse(self, d, db):
        t = SQL.Text(d)
        try:
            st, ps = SQL.parse(t)
        except SqlError as x:
            self.texts.append((t, None, str(x)))
            return None, None, t
        self.texts.append((t, st, ps))
        return st, ps, t

    def x_sqlite3_prepare_v2(self, h, z, n, pp, tail):
        db = self.conn(h, "sqlite3_prepare")
        d = self.cchars(z)
        if not (isinstance(n, BV) and self.w.sconst(n) < 0):
            m = self.w.const(n)
            if m < len(d):
                d = d[:m]
        pp.at(0).put(None)
        if self.w.fault("sqlite3_prepare"):
            return K(ERROR, 32)
        st, ps, t = self.parse(d, db)
        if st is None:
            self.events.append(("bad sql", t.plain(), self.texts[-1][2]))
            return K(ERROR, 32)
        if not st:
            return K(0, 32)
        err = self.bindcheck(db, st[0][0])
        if err:
            self.events.append(("bad sql", t.plain(), err))
            return K(ERROR, 32)
        k = len(self.stmts)
        s = Stmt(k, db, st[0][0], t, ps.nparam)
        s.span = st[0][1]
        s.extra = len(st) - 1
        self.stmts[k] = s
        self.acquire("statement", k)
        pp.at(0).put(Op(("stmt", k)))
        return K(0, 32)

    def x_sqlite3_prepare_v3(self, h, z, n, fl, pp, tail):
        return self.x_sqlite3_prepare_v2(h, z, n, pp, tail)

    x_sqlite3_prepare = x_sqlite3_prepare_v2

    def bindcheck(self, db, st):
        """does the statement refer to existing objects?"""
        k = st[0]
        tabs = []
        if k == "select":
            for x in SQL.walk(st):
                if isinstance(x, tuple) and x[0] == "table" and len(x) == 3 and isinstance(x[1], tuple):
                    tabs.append(x[1])
        elif k in ("insert", "update", "delete"):
            tabs.append(st[1])
        for n in tabs:
            if n[-1].lower() in META or n[-1].startswith("pragma_"):
                if len(n) > 1 and n[0] not in db.attached:
                    return "no database " + n[0]
                if not n[-1].lower().startswith("gpkg_"):
                    continue
            if self.resolve(db, n) is None:
                return "no such table " + ".".join(n)
        if k in ("insert", "update"):
            t = self.resolve(db, st[1])[1]
            names = [c[0].lower() for c in t.cols]
            cols = (st[2] or []) if k == "insert" else [c for c, _ in st[2]]
            for c in cols:
                if c.lower() not in names:      # or a generated one
                    return "no such column " + c
            if k == "insert" and isinstance(st[3], list):
                for r in st[3]:
                    if len(r) != len(st[2] or names):
                        return "wrong number of values"
        if k in ("update", "delete"):
            t = self.resolve(db, st[1])[1]
            names = [c.lower() for c in t.star()]
            for x in SQL.walk(st):
                if isinstance(x, tuple) and x[0] == "col" and x[1][-1].lower() not in names and x[2] != "qid":
                    return "no such column " + x[1][-1]
        return None

    def resolve(self, db, n):
        """(database, Table) of a possibly qualified name"""
        if len(n) == 2:
            s = db.attached.get(n[0])
            t = s.table(n[1]) if s else None
            return (n[0], t) if t else None
        for d in ("main",) + tuple(x for x in db.attached if x != "main"):
            t = db.attached[d].table(n[0])
            if t:
                return (d, t)
        return None

    def x_sqlite3_exec(self, h, z, cb, arg, err):
        db = self.conn(h, "sqlite3_exec")
        d = self.cchars(z)
        if cb is not None:
            raise AnalysisError("sqlite3_exec with a callback")
        first = text(d).strip()[:8].upper()
        if not (self.undoing(first) or not self.w.fault("sqlite3_exec")):
            return K(ERROR, 32)
        st, ps, t = self.parse(d, db)
        if st is None:
            self.events.append(("bad sql", t.plain(), self.texts[-1][2]))
            return K(ERROR, 32)
        for s, span in st:
            rc = self.run(db, s, t, span, {})
            if rc not in (OK, DONE, ROW):
                return K(rc, 32)
        return K(0, 32)

    def undoing(self, first):
        return first.startswith("ROLLBACK")

    def transaction(self, db, st):
        k = st[0]
        if k == "savepoint":
            db.sp.append((st[1], len(db.log)))
        elif k in ("release", "rollbackto"):
            for i in reversed(range(len(db.sp))):
                if db.sp[i][0] == st[1]:
                    break
            else:
                return ERROR
            if k == "rollbackto":
                del db.log[db.sp[i][1]:]
                del db.sp[i + 1:]
            else:
                del db.sp[i:]
                if not db.intx:
                    self.persist(db)
        elif k == "begin":
            if db.intx:
                return ERROR
            db.begin = True
        elif k == "commit":
            if not db.intx:
                return ERROR
            db.begin, db.sp = False, []
            self.persist(db)
        elif k == "rollback":
            if not db.intx:
                return ERROR
            db.begin, db.sp, db.log = False, [], []
        self.events.append((k, db.n) + tuple(st[1:]))
        return OK

    def persist(self, db):
        if db.log:
            db.commits += 1
        db.durable += db.log
        db.log = []

    def write(self, db, w):
        self.events.append(("write", db.n, w))
        if db.intx:
            db.log.append(w)
        else:
            db.durable.append(w)
            db.auto.append(w)

    def state(self, db):
        return db.durable + db.log

    def triggers(self, db):
        """the triggers that exist now: name -> sql"""
        t = {x[0]: x[2] for x in db.attached["main"].triggers}
        for w in self.state(db):
            if w[0] == "droptrigger":
                t.pop(w[1], None)
            elif w[0] == "createtrigger":
                t[w[1]] = w[2]
        return t

    def run(self, db, st, t, span, params):
        """executes everything but SELECT; result code"""
        k = st[0]
        if k in ("savepoint", "release", "rollbackto", "begin", "commit", "rollback"):
            return self.transaction(db, st)
        if k == "attach":
            if st[1][0] == "chunk":
                path = st[1][1].t
            else:
                path = st[1][1]
            db.attached[st[2]] = self.dbs.get(path) or Schema()
            self.events.append(("attach", path, st[2]))
            return OK
        if k == "drop" and st[1] == "TRIGGER":
            if st[2][-1] not in self.triggers(db) and not st[3]:
                return ERROR
            self.write(db, ("droptrigger", st[2][-1]))
            return DONE
        if k == "create" and st[1] == "TRIGGER":
            if st[2][-1] in self.triggers(db):
                return ERROR
            self.write(db, ("createtrigger", st[2][-1], "".join(c for c, _ in t[span[0]:span[1]])))
            return DONE
        if k in ("insert", "update", "delete"):
            r = self.resolve(db, st[1])
            if r is None:
                return ERROR
            n = self.w.count(("dml", k))
            trig = sorted(self.triggers(db))
            if k == "insert":
                eff = 0 if skips(st[4]) and not self.nodml and self.w.fault("no row") else 1
            else:
                eff = 1 if self.nodml or not self.w.fault("no row") else 0
            db.changes = eff
            self.write(db, (k, r[0], r[1].name, st, dict(params), eff, trig))
            return DONE
        if k in ("drop", "create"):
            self.write(db, ("ddl", st, t))
            return DONE
        if k == "pragma":
            self.changing(db, st)
            return DONE
        if k == "detach":
            db.attached.pop(st[1], None)
            return OK
        raise AnalysisError("SQL statement " + k)

    def metafind(self, db):
        def find(n):
            name = n[-1].lower()
            d = n[0] if len(n) > 1 else None
            if name in ("sqlite_master", "sqlite_schema"):
                s = db.attached.get(d or "main")
                if s is None:
                    raise SqlError("no database")
                rows = [["table", x.name, x.name, 2, x.sql] for x in s.tables] + [["view", x, x, 0, "CREATE VIEW"] for x in s.views]
                tr = self.triggers(db) if s is db.attached["main"] else {x[0]: x[2] for x in s.triggers}
                tb = {x[0]: x[1] for x in s.triggers}
                return META[name], rows + [["trigger", x, tb.get(x), 0, q] for x, q in tr.items()]
            if name in ("gpkg_geometry_columns", "gpkg_spatial_ref_sys"):
                for dn in ([d] if d else list(db.attached)):
                    s = db.attached.get(dn)
                    if s is not None and s.table(name):
                        return META[name], [list(x) for x in (s.geom if name == "gpkg_geometry_columns" else s.srs)] + self.added(db, name)
                raise SqlError("no table " + name)
            raise SQL.Unknown("table " + name)
        return find

    def added(self, db, name):
        """rows of constants that this connection has inserted into a GeoPackage table"""
        def const(x):
            if x[0] == "neg":
                return -const(x[1])
            if x[0] == "num":
                return float(x[1]) if "." in str(x[1]) else int(x[1])
            return {"str": x[1]}[x[0]] if x[0] != "null" else None
        rows = []
        for w in self.state(db):
            if w[0] == "insert" and w[2] == name and isinstance(w[3][3], list):
                names = [c.lower() for c in w[3][2]] if w[3][2] else META[name]
                for r in w[3][3]:
                    try:
                        v = dict(zip(names, [const(x) for x in r]))
                    except (KeyError, TypeError, ValueError):
                        continue
                    rows.append([v.get(c) for c in META[name]])
        return rows

    def tableinfo(self, s, t):
        x = s.table(t)
        npk = 0
        rows = []
        for i, c in enumerate(x.cols if x else ()):
            rows.append([i, c[0], c[1], c[2], None, c[3]])
        return ["cid", "name", "type", "notnull", "dflt_value", "pk"], rows

    def fklist(self, s, t):
        return ["id", "seq", "table", "from", "to", "on_update", "on_delete", "match"], [[i, 0, f[2], f[1], f[3], "NO ACTION", "NO ACTION", "NONE"] for i, f in enumerate(s.fks) if f[0].lower() == str(t).lower()]

    def pragma(self, db, n, v):
        d = n[0] if len(n) > 1 else None
        s = db.attached.get(d or "main")
        if s is None:
            return None
        name = n[-1].lower()
        if name in ("table_info", "table_xinfo"):
            cols, rows = self.tableinfo(s, v)
            if name == "table_xinfo":
                x = s.table(v)
                rows = [r + [0] for r in rows]
                for i, n in x.gen if x else ():
                    rows.insert(i, [i, n, "", 0, None, 0, 2])
                rows = [[i] + r[1:] for i, r in enumerate(rows)]
                cols = cols + ["hidden"]
            return cols, rows
        if name == "foreign_key_list":
            return self.fklist(s, v)
        if name == "index_list":
            x = s.table(str(v))
            return ["seq", "name", "unique", "origin", "partial"], [[0, "sqlite_autoindex_%s_1" % x.name, 1, "pk", 0]] if x and pkindex(x) else []
        if name == "index_xinfo":
            rows = []
            for x in s.tables:
                if pkindex(x) and "sqlite_autoindex_%s_1" % x.name == str(v):
                    ks = sorted((c[3], i) for i, c in enumerate(x.cols) if c[3])
                    rows = [[j, i, x.cols[i][0], 0, "BINARY", 1] for j, (_, i) in enumerate(ks)]
                    if "without rowid" in x.sql.lower():
                        rows += [[len(ks) + j, i, c[0], 0, "BINARY", 0] for j, (i, c) in enumerate((i, c) for i, c in enumerate(x.cols) if not c[3])]
                    else:
                        rows.append([len(ks), -1, None, 0, "BINARY", 0])
            return ["seqno", "cid", "name", "desc", "coll", "key"], rows
        return [], []

    def changing(self, db, st):
        """a PRAGMA that changes the file of the database"""
        if st[2] is not None and st[1][-1].lower() in CHANGING or st[1][-1].lower() in ("wal_checkpoint", "incremental_vacuum", "optimize"):
            d = st[1][0] if len(st[1]) > 1 else "main"
            self.write(db, ("pragma", d, st[1][-1].lower()))

    def query(self, s):
        """rows of a query: concrete cells, or None for user data"""
        st, db = s.st, s.db
        if st[0] == "pragma":
            self.changing(db, st)
            r = self.pragma(db, st[1], st[2])
            return r[0], [[Cell(v) for v in x] for x in r[1]]
        sel = st[1]
        for x in SQL.walk(sel):
            if isinstance(x, tuple) and x[0] == "call" and x[1] == "initspatialmetadata":
                m = db.attached["main"]
                if not m.table("gpkg_contents"):
                    m = db.attached["main"] = Schema(m.tables + [GEOMCOLS, SRS, CONTENTS], m.triggers, m.geom, m.srs, m.views, m.fks)
                self.write(db, ("ddl", st, s.text))
                return ["r"], [[Cell(1)]]

        def tablefn(n, a):
            f = n[-1].lower()
            if f.startswith("pragma_"):
                r = self.pragma(db, (n[0], f[7:]) if len(n) > 1 else (f[7:],), a[0] if a else None)
                if r:
                    return r
            raise SQL.Unknown("table function")
        tabs = [x for x in SQL.walk(sel) if isinstance(x, tuple) and x[0] == "table" and len(x) == 3 and isinstance(x[1], tuple)]
        datq = any(x[1][-1].lower() not in META for x in tabs) or any(isinstance(x, tuple) and x[0] == "exists" for x in SQL.walk(sel)) \
            or "compound" in sel or len(sel["from"]) > 1 or (tabs and tabs[0][1][-1].lower().startswith("gpkg_") and sel["where"] is None)
        if not datq:
            ev = SQL.Eval(self.metafind(db), s.params, tablefn=tablefn)
            c, rows = ev.select(sel)
            return c, [[Cell(v) for v in r] for r in rows]
        return self.datacols(db, sel), None

    def datacols(self, db, sel):
        """the origin of every result column of a query over user data"""
        if "compound" in sel:
            return self.datacols(db, sel["l"])
        src = []
        for how, tr, on in sel["from"]:
            if tr[0] != "table":
                raise SQL.Unknown("origin of the columns")
            r = self.resolve(db, tr[1])
            if r is None:
                raise SqlError("no table")
            src.append((tr[2], tr[1], r[0], r[1]))
        out = []
        for it in sel["items"]:
            if it[0] == "*":
                for alias, name, d, t in src:
                    if len(it) > 1 and not SQL.Eval.matches(it[1], alias, name):
                        continue
                    out += [("col", d, t.name, c) for c in t.star()]
            elif it[1][0] == "col":
                q = it[1][1]
                hit = [("col", d, t.name, c) for alias, name, d, t in src for c in t.star()
                       if c.lower() == q[-1].lower() and (len(q) == 1 or SQL.Eval.matches(q[:-1], alias, name))]
                out.append(hit[0] if len(hit) == 1 else ("expr", repr(it[1])))
            else:
                out.append(("expr", repr(it[1])))
        return out

    few = False         # at most one query, or every query, returns rows
    withrows = None

    def more(self, key, pos):
        """does the query return another row?"""
        if pos >= self.maxrows:
            return False
        if self.few:
            if self.few == "all":
                self.withrows = True
            if self.withrows is None and self.w.decide(("every query returns rows",)):
                self.withrows = True
            if self.withrows is True:
                return pos < 1
            if self.withrows not in (None, False, key):
                return False
            if self.w.decide(("last row", key, pos)):
                self.withrows = self.withrows or False
                return False
            self.withrows = key
            return True
        return not self.w.decide(("last row", key, pos))

    def x_sqlite3_step(self, h):
        s = self.stmt(h, "sqlite3_step")
        if s is None:
            return K(21, 32)
        if s.st[0] in ("select", "pragma"):
            if s.rows is None and s.pos is None:
                try:
                    s.cols, s.rows = self.query(s)
                except SqlError as x:
                    self.events.append(("bad sql", s.text.plain(), str(x)))
                    return K(ERROR, 32)
                s.pos = -1
                s.key = self.w.count("query")
                self.events.append(("query", s.key, s.st, s.cols))
            if self.w.fault("sqlite3_step"):
                s.failed = True
                s.pos = None
                return K(ERROR, 32)
            s.pos += 1
            if s.rows is None:
                more = self.more(s.key, s.pos)
            else:
                more = s.pos < len(s.rows)
            if more:
                if s.rows is None:
                    self.events.append(("row", s.key, s.pos))
                return K(ROW, 32)
            s.pos = s.rows = None
            return K(DONE, 32)
        first = s.st[0]
        if s.done:
            self.events.append(("restep", s.n, s.st))
        if first != "rollbackto" and first != "rollback" and self.w.fault("sqlite3_step"):
            self.events.append(("failed", s.st))
            return K(CONSTRAINT if first in ("insert", "update", "delete") else ERROR, 32)
        if s.st[0] in ("insert", "update", "delete"):
            self.events.append(("exec", s.n))
        rc = self.run(s.db, s.st, s.text, s.span, s.params)
        s.done = True
        return K(DONE if rc == OK else rc, 32)

    def x_sqlite3_reset(self, h):
        s = self.stmt(h, "sqlite3_reset")
        if s is not None:
            s.pos = s.rows = None
            s.done = False
        return K(0, 32)

    def x_sqlite3_finalize(self, h):
        if h is None:
            return K(0, 32)
        s = self.stmt(h, "sqlite3_finalize") if self.res.get(("statement", h.t[1])) else self.stmts[h.t[1]]
        self.release_("statement", s.n, "sqlite3_finalize")
        return K(0, 32)

    def x_sqlite3_clear_bindings(self, h):
        self.stmt(h, "sqlite3_clear_bindings").params = {}
        return K(0, 32)

    def x_sqlite3_expanded_sql(self, h):
        return self.newstr(S("sql").d)

    def x_sqlite3_sql(self, h):
        return self.mkstr("sql")

    def x_sqlite3_column_count(self, h):
        s = self.stmt(h, "sqlite3_column_count")
        if s.st[0] not in ("select", "pragma"):
            return K(0, 32)
        c = getattr(s, "cols", None)
        if c is None:
            c = self.query(s)[0]
        return K(len(c), 32)

    # -- parameters
    def bind(self, h, i, v, what):
        s = self.stmt(h, what)
        if s is None:
            return K(21, 32)
        if self.w.fault("sqlite3_bind"):
            return K(ERROR, 32)
        n = self.w.sconst(i)
        if n < 1 or n > s.nparam:
            return K(25, 32)
        s.params[n] = v
        return K(0, 32)

    def num(self, v):
        return v.t if isinstance(v, Sc) else self.w.sconst(v)

    def x_sqlite3_bind_int64(self, h, i, v):
        return self.bind(h, i, ("int", self.num(v)), "sqlite3_bind_int64")

    def x_sqlite3_bind_int(self, h, i, v):
        return self.bind(h, i, ("int", self.num(v)), "sqlite3_bind_int")

    def x_sqlite3_bind_double(self, h, i, v):
        return self.bind(h, i, ("real", v.t if isinstance(v, Sc) else ("dbl", v.const())), "sqlite3_bind_double")

    def x_sqlite3_bind_null(self, h, i):
        return self.bind(h, i, ("null",), "sqlite3_bind_null")

    def bytesof(self, p, n):
        if p is None:
            return None
        w = self.w
        if isinstance(p, Ptr):
            d = p.c if p.ref is None else None
            if d is None:
                raise AnalysisError("bound text")
            cs = d[p.k:-1] if isinstance(d, list) and d and isinstance(d[-1], BV) and d[-1].const() == 0 else self.cchars(p)
        else:
            cs = [Chunk(p.t)]
        if isinstance(n, BV) and n.const() is not None:
            m = w.sconst(n)
            if m < 0:
                cs = self.cchars(p)
                if any(isinstance(c, Chunk) for c in cs):
                    return ("upto nul", content(cs))
                return content(cs)
            if any(isinstance(c, Chunk) for c in cs):
                return ("cut", content(cs), m)
            if m > len(cs):
                return ("beyond", content(cs), m)
            return content(cs[:m])
        t = n.t
        while isinstance(t, tuple) and t[0] in ("trunc", "sext", "zext"):
            t = t[1]
        if len(cs) == 1 and isinstance(cs[0], Chunk):
            c = cs[0]
            own = c.n
            while isinstance(own, tuple) and own and own[0] in ("trunc", "sext", "zext"):
                own = own[1]
            if own == t or own is None and t == ("size", self.w.skey(cs)):
                return content(cs)
        if t == ("size", self.w.skey(cs)):
            return content(cs)
        return ("cut", content(cs), t)

    def x_sqlite3_bind_text(self, h, i, p, n, d):
        return self.bind(h, i, ("null",) if p is None else ("text", self.bytesof(p, n)), "sqlite3_bind_text")

    def x_sqlite3_bind_blob(self, h, i, p, n, d):
        return self.bind(h, i, ("null",) if p is None else ("blob", self.bytesof(p, n)), "sqlite3_bind_blob")

    def x_sqlite3_bind_text64(self, h, i, p, n, d, enc=None):
        return self.x_sqlite3_bind_text(h, i, p, n, d)

    def x_sqlite3_bind_blob64(self, h, i, p, n, d):
        return self.x_sqlite3_bind_blob(h, i, p, n, d)

    def x_sqlite3_bind_zeroblob(self, h, i, n):
        return self.bind(h, i, ("blob", ("zeros", self.num(n))), "sqlite3_bind_zeroblob")

    # -- results
    def cell(self, h, i, what):
        s = self.stmt(h, what)
        i = self.w.sconst(i)
        if s is None or s.pos is None:
            self.misuse.append("%s without a row" % what)
            return Cell(None)
        if s.rows is not None:
            r = s.rows[s.pos]
            return r[i] if 0 <= i < len(r) else Cell(None)
        if not 0 <= i < len(s.cols):
            return Cell(None)
        return ("val", s.cols[i], s.key, s.pos)

    def kind(self, v):
        """type of an opaque value"""
        if isinstance(v, Cell):
            return "null" if v.v is None else "int" if isinstance(v.v, int) else "real" if isinstance(v.v, float) else "text"
        c = v[1]
        if self.active is not None and c[-1] != self.active:
            return "int"
        w = self.w
        for k in self.kinds[:-1]:
            if not w.decide(("not", k, v)):
                return k
        return self.kinds[-1]

    kinds = ("int", "text", "real", "null", "blob")     # types of the values of the active column

    def x_sqlite3_column_type(self, h, i):
        return K(TYPES[self.kind(self.cell(h, i, "sqlite3_column_type"))], 32)

    def getint(self, c, w):
        if isinstance(c, Cell):
            v = c.v
            if isinstance(v, str):
                v = int(v) if v.lstrip("-").isdigit() else 0
            return K(int(v or 0), w)
        if self.kind(c) != "int":
            return Sc(("asint", c), w)
        return Sc(("int", c), 64) if w == 64 else Sc(("trunc", ("int", c), 32), 32)

    def x_sqlite3_column_int(self, h, i):
        return self.getint(self.cell(h, i, "sqlite3_column_int"), 32)

    def x_sqlite3_column_int64(self, h, i):
        return self.getint(self.cell(h, i, "sqlite3_column_int64"), 64)

    def getreal(self, c):
        if isinstance(c, Cell):
            return Sc(("const", c.v), 64)
        return Sc(("real" if self.kind(c) == "real" else "asreal", c), 64)

    def x_sqlite3_column_double(self, h, i):
        return self.getreal(self.cell(h, i, "sqlite3_column_double"))

    def gettext(self, c):
        if isinstance(c, Cell):
            if c.v is None:
                return None
            return self.mkstr(str(c.v), str(c.v))
        k = self.kind(c)
        if k == "null":
            return None
        return Op(("data", c)) if k in ("text", "blob") else Op(("astext", c))

    def x_sqlite3_column_text(self, h, i):
        return self.gettext(self.cell(h, i, "sqlite3_column_text"))

    x_sqlite3_column_blob = x_sqlite3_column_text

    def getlen(self, c):
        if isinstance(c, Cell):
            return K(0 if c.v is None else len(str(c.v).encode()), 32)
        k = self.kind(c)
        if k == "null":
            return K(0, 32)
        return Sc(("len", c) if k in ("text", "blob") else ("aslen", c), 32)

    def x_sqlite3_column_bytes(self, h, i):
        return self.getlen(self.cell(h, i, "sqlite3_column_bytes"))

    def x_sqlite3_column_value(self, h, i):
        return Op(("value", self.cell(h, i, "sqlite3_column_value"), None))

    def x_sqlite3_column_name(self, h, i):
        s = self.stmt(h, "sqlite3_column_name")
        c = getattr(s, "cols", None) or self.query(s)[0]
        x = c[self.w.const(i)]
        n = x if isinstance(x, str) else x[-1]
        return self.mkstr(n, n)

    def x_sqlite3_value_dup(self, v):
        if v is None:
            return None
        n = self.w.count("value_dup")
        self.acquire("copied value", n)
        return Op(("value", v.t[1], n))

    def x_sqlite3_value_free(self, v):
        if v is None:
            return
        if v.t[2] is None:
            self.misuse.append("sqlite3_value_free of a value that is not a copy")
        else:
            self.release_("copied value", v.t[2], "sqlite3_value_free")

    def value(self, v, what):
        if v is None:
            raise OutOfBounds()
        if v.t[2] is not None:
            self.use("copied value", v.t[2], what)
        return v.t[1]

    def x_sqlite3_value_type(self, v):
        return K(TYPES[self.kind(self.value(v, "sqlite3_value_type"))], 32)

    def x_sqlite3_value_int64(self, v):
        return self.getint(self.value(v, "sqlite3_value_int64"), 64)

    def x_sqlite3_value_int(self, v):
        return self.getint(self.value(v, "sqlite3_value_int"), 32)

    def x_sqlite3_value_double(self, v):
        return self.getreal(self.value(v, "sqlite3_value_double"))

    def x_sqlite3_value_text(self, v):
        return self.gettext(self.value(v, "sqlite3_value_text"))

    x_sqlite3_value_blob = x_sqlite3_value_text

    def x_sqlite3_value_bytes(self, v):
        return self.getlen(self.value(v, "sqlite3_value_bytes"))

    def eq(self, x, y):
        """equality of values of columns that are not under examination"""
        c = self.cellsof(x), self.cellsof(y)
        if self.active is not None and c[0] and c[1] and all(z[1][-1] != self.active for z in c):
            return True
        return None

    @staticmethod
    def cellsof(x):
        if isinstance(x, tuple) and len(x) == 2 and x[0] in ("int", "real", "len", "data") and isinstance(x[1], tuple) and x[1][0] == "val":
            return x[1]
        return None

    def memcmp(self, a, b, n):
        w = self.w
        x = a.t[1] if isinstance(a, Op) and a.t[0] == "data" else None
        y = b.t[1] if isinstance(b, Op) and b.t[0] == "data" else None
        if x is None or y is None:
            return None
        t = n.t if isinstance(n, Sc) else self.w.const(n)
        while isinstance(t, tuple) and t[0] in ("sext", "zext", "trunc"):
            t = t[1]
        full = isinstance(t, tuple) and t[0] == "len" and t[1] in (x, y)
        k = ("memeq",) + tuple(sorted((x, y), key=repr)) + (() if full else (t,))
        return K(1 - w.decide(k) if False else (0 if w.decide(k) == 0 else 1), 32)

    # what the environment has answered about two values
    def facts_equal(self, a, b):
        """True / False / None (not established) for the contents of two values"""
        cell = self.w.cell
        if isinstance(a, tuple) and isinstance(b, tuple):
            ka, kb = self.known_kind(a), self.known_kind(b)
            if ka is None or kb is None:
                return None
            if ka != kb:
                return False
            if ka == "null":
                return True
            if self.active is not None and a[1][-1] != self.active:
                return True

            def ask(x, y):
                return cell.get((("eq",) + tuple(sorted((x, y), key=repr)), 0))
            if ka in ("int", "real"):
                r = ask((ka, a), (kb, b))
                if r is None:
                    r2 = self.by_order((ka, a), (kb, b))
                    return r2
                return bool(r)
            ln = None
            for f in (lambda x: x, lambda x: ("sext", x), lambda x: ("zext", x)):
                r = ask(f(("len", a)), f(("len", b)))
                if r is not None:
                    ln = bool(r)
            m = cell.get((("memeq",) + tuple(sorted((a, b), key=repr)), 0))
            st = None
            for k, v in cell.items():
                if k[0][0] == "streq" and {repr(x) for x in k[0][1:]} == {repr(((("data", z), n),)) for z, n in ((a, ("len", a)), (b, ("len", b)))} or k[0][0] == "streq" and self.streqof(k[0], a, b):
                    st = bool(v)
            if st is not None:
                return st
            ea, eb = self.empty(a), self.empty(b)
            if ea is not None and eb is not None and (ea or eb):
                return ea and eb
            if ln is False:
                return False
            if m is not None:
                return (m == 0) if ln else (None if m == 0 else False)
            return None
        return None

    def empty(self, v):
        """is the content known to be empty (True), known not to be (False)"""
        r = None
        for k, x in self.w.cell.items():
            k = k[0]
            if k[0] == "streq" and () in k[1:] and any(len(y) == 1 and y[0][0] == ("data", v) for y in k[1:]):
                return bool(x)
            if k[0] in ("lt", "eq", "le"):
                def strip(n):
                    while isinstance(n, tuple) and n and n[0] in ("sext", "zext"):
                        n = n[1]
                    return n
                y = tuple(strip(n) for n in k[1:])
                if y == (0, ("len", v)) and k[0] == "lt" or y == (1, ("len", v)) and k[0] == "le":
                    r = not x
                elif y == (("len", v), 1) and k[0] == "lt" or y == (("len", v), 0) and k[0] == "le":
                    r = bool(x)
                elif k[0] == "eq" and set(map(repr, y)) == {repr(0), repr(("len", v))}:
                    r = bool(x)
        return r

    @staticmethod
    def streqof(k, a, b):
        def strip(n):
            while isinstance(n, tuple) and n and n[0] in ("sext", "zext"):
                n = n[1]
            return n
        try:
            s = {(x[0][0], strip(x[0][1])) for x in k[1:] if len(x) == 1}
        except Exception:
            return False
        return s == {(("data", a), ("len", a)), (("data", b), ("len", b))}

    def by_order(self, x, y):
        return None

    def known_kind(self, v):
        c = v[1]
        if self.active is not None and c[-1] != self.active:
            return "int"
        for k in self.kinds[:-1]:
            b = self.w.cell.get((("not", k, v), 0))
            if b is None:
                return None
            if not b:
                return k
        return self.kinds[-1]


def driver(it, cls):
    o = it.default_of_class(cls)
    if not isinstance(o, Obj):
        raise AnalysisError("class " + cls)
    return Ref({0: o}, 0)


def method(p, cls, name):
    l = [f for f in p.byname.get("%s::%s" % (cls, name), []) if "body" in f]
    if not l:
        raise AnalysisError("no %s::%s" % (cls, name))
    return l[0]


def params(it, f, d):
    """map of connection parameters"""
    t = f["params"][0]["t"]
    t = it.ty(t).get("to", t)
    m = it.default(t)
    if not isinstance(m, Map):
        m = Map("map", t)
    for k in sorted(d):
        m.items.append(Obj("std::pair", {"first": S(k), "second": S(d[k], d[k]) if isinstance(d[k], str) else Str([Chunk(d[k])])}))
    return m


def session(p, it, cls, conn, f, opener="open", extra=()):
    """a driver object is opened, used by f(driver) and destroyed"""
    r = driver(it, cls)
    try:
        o = method(p, cls, opener)
        it.callfn(o, [Ref({0: params(it, o, conn)}, 0)] + list(extra), r)
        it.env.events.append(("opened",))
        v = f(r)
    except Thrown:
        it.destroy(r)
        it.endshared()
        raise
    it.destroy(r)
    it.endshared()
    return v
