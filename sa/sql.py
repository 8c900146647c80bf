"""The SQL subset of the project: tokens that remember where their characters come from, a parser, and
an evaluator over small tables (three-valued logic)."""
from .engine import AnalysisError
from .world import Chunk
from .bits import BV


class SqlError(Exception):
    """the text is not a statement the database would accept"""


class Tok:
    __slots__ = ("k", "v", "tags", "i", "j")

    def __init__(self, k, v, tags, i, j):
        self.k, self.v, self.tags, self.i, self.j = k, v, tags, i, j

    def __repr__(self):
        return "%s:%r" % (self.k, self.v)


MARK = 0xE100


class Text(list):
    """characters of an SQL text: (character, tag); unknown pieces are private characters"""

    def __init__(self, d):
        list.__init__(self)
        self.chunks = []
        for c in d:
            if isinstance(c, Chunk):
                self.append((chr(MARK + len(self.chunks)), None))
                self.chunks.append(c)
            else:
                v = c.v if hasattr(c, "v") and type(c).__name__ == "CBV" else c.const() if isinstance(c, BV) else None
                if v is None:
                    raise AnalysisError("SQL text with unknown characters")
                self.append((chr(v), getattr(c, "tag", None)))

    def chunk(self, ch):
        i = ord(ch) - MARK
        return self.chunks[i] if 0 <= i < len(self.chunks) else None

    def plain(self):
        return "".join("<...>" if ord(c) >= MARK else c for c, _ in self)


def merge(s, text):
    """token contents: a str, or a tuple of texts and unknown pieces"""
    if not any(ord(c) >= MARK for c in s):
        if any(ord(c) >= 0x80 for c in s):
            try:
                return s.encode("latin-1").decode("utf-8")
            except UnicodeError:
                pass
        return s
    out = []
    for c in s:
        ch = text.chunk(c)
        if ch is not None:
            out.append(ch)
        elif out and isinstance(out[-1], str):
            out[-1] += c
        else:
            out.append(c)
    return tuple(out)


OPS = ("<=>", "!=", "<>", "<=", ">=", "==", "||", "::", "->", "<<", ">>")


def tokens(text, pg=False):
    t = text if isinstance(text, Text) else Text(text)
    out = []
    i, n = 0, len(t)

    def tagset(a, b):
        return frozenset(g for _, g in t[a:b] if g is not None)
    while i < n:
        c = t[i][0]
        if c.isspace():
            i += 1
            continue
        if c == "-" and i + 1 < n and t[i + 1][0] == "-":
            j = i
            while j < n and t[j][0] != "\n":
                j += 1
            out.append(Tok("comment", "".join(x for x, _ in t[i:j]), tagset(i, j), i, j))
            i = j
            continue
        if c == "/" and i + 1 < n and t[i + 1][0] == "*":
            j = i + 2
            while j + 1 < n and not (t[j][0] == "*" and t[j + 1][0] == "/"):
                j += 1
            j = min(j + 2, n)
            out.append(Tok("comment", "".join(x for x, _ in t[i:j]), tagset(i, j), i, j))
            i = j
            continue
        esc = pg and c in "eE" and i + 1 < n and t[i + 1][0] == "'"
        if c in "'\"`" and not (pg and c == "`") or esc:
            q = "'" if esc else c
            j = i + (2 if esc else 1)
            s = ""
            while True:
                if j >= n:
                    raise SqlError("unterminated quote")
                x = t[j][0]
                if x == q:
                    if j + 1 < n and t[j + 1][0] == q:
                        s += q
                        j += 2
                        continue
                    break
                if esc and x == "\\" and j + 1 < n:
                    y = t[j + 1][0]
                    s += {"n": "\n", "t": "\t", "r": "\r", "b": "\b", "f": "\f"}.get(y, y)
                    j += 2
                    continue
                s += x
                j += 1
            out.append(Tok("str" if q == "'" else "qid", merge(s, t), tagset(i, j + 1), i, j + 1))
            i = j + 1
            continue
        if c == "[" and not pg:
            j = i + 1
            while j < n and t[j][0] != "]":
                j += 1
            if j >= n:
                raise SqlError("unterminated quote")
            out.append(Tok("qid", merge("".join(x for x, _ in t[i + 1:j]), t), tagset(i, j + 1), i, j + 1))
            i = j + 1
            continue
        if c.isdigit() or c == "." and i + 1 < n and t[i + 1][0].isdigit():
            j = i
            while j < n and (t[j][0].isalnum() or t[j][0] == "." or t[j][0] in "+-" and t[j - 1][0] in "eE"):
                j += 1
            s = "".join(x for x, _ in t[i:j])
            try:
                v = int(s)
            except ValueError:
                try:
                    v = float(s)
                except ValueError:
                    raise SqlError("number " + s)
            out.append(Tok("num", v, tagset(i, j), i, j))
            i = j
            continue
        if c.isalpha() or c == "_" or 0x80 <= ord(c) < MARK:
            j = i
            while j < n and (t[j][0].isalnum() or t[j][0] in "_$" or 0x80 <= ord(t[j][0]) < MARK):
                j += 1
            out.append(Tok("id", "".join(x for x, _ in t[i:j]), tagset(i, j), i, j))
            i = j
            continue
        if c == "?" or c == "$" and i + 1 < n and t[i + 1][0].isdigit():
            j = i + 1
            s = ""
            while j < n and (t[j][0].isdigit() or ord(t[j][0]) >= MARK):
                s += t[j][0]
                j += 1
            if any(ord(x) >= MARK for x in s):
                raise AnalysisError("parameter with an unknown number")
            out.append(Tok("param", int(s) if s else None, tagset(i, j), i, j))
            i = j
            continue
        if ord(c) >= MARK:
            out.append(Tok("chunk", t.chunk(c), frozenset(), i, i + 1))
            i += 1
            continue
        for o in OPS:
            if "".join(x for x, _ in t[i:i + len(o)]) == o:
                out.append(Tok("op", o, tagset(i, i + len(o)), i, i + len(o)))
                i += len(o)
                break
        else:
            if c not in "()+-*/%,.;=<>!&|~:^@#[]":
                raise SqlError("character %r" % c)
            out.append(Tok("op", c, tagset(i, i + 1), i, i + 1))
            i += 1
    return out


KEYWORDS = {"SELECT", "FROM", "WHERE", "AND", "OR", "NOT", "NULL", "IS", "IN", "LIKE", "EXISTS", "CASE", "WHEN", "THEN", "ELSE", "END", "ORDER", "BY", "LIMIT",
            "GROUP", "HAVING", "JOIN", "LEFT", "RIGHT", "INNER", "OUTER", "CROSS", "ON", "AS", "DISTINCT", "UNION", "EXCEPT", "INTERSECT", "INSERT", "INTO", "VALUES",
            "UPDATE", "SET", "DELETE", "BETWEEN", "ISNULL", "NOTNULL", "GLOB", "ALL", "ANY", "OFFSET", "COLLATE", "USING", "NATURAL", "DESC", "ASC", "TABLE", "CREATE", "DROP", "INDEX", "DEFAULT"}


class Parser:
    def __init__(self, text, pg=False):
        self.text = text if isinstance(text, Text) else Text(text)
        self.pg = pg
        self.all = tokens(self.text, pg)
        self.t = [x for x in self.all if x.k != "comment"]
        self.i = 0
        self.nparam = 0

    # -- helpers
    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else Tok("end", None, frozenset(), 0, 0)

    def kw(self, *ws, k=0):
        x = self.peek(k)
        return x.k == "id" and x.v.upper() in ws

    def take(self, *ws):
        if self.kw(*ws):
            self.i += 1
            return self.t[self.i - 1].v.upper()
        return None

    def op(self, *os):
        x = self.peek()
        if x.k == "op" and x.v in os:
            self.i += 1
            return x.v
        return None

    def need(self, o):
        if not self.op(o):
            raise SqlError("expected %s near %r" % (o, self.peek().v))

    def needkw(self, w):
        if not self.take(w):
            raise SqlError("expected %s near %r" % (w, self.peek().v))

    def name(self, strict=False):
        x = self.peek()
        if x.k == "qid" or x.k == "str" and not self.pg and not strict or x.k == "id" and x.v.upper() not in KEYWORDS:
            self.i += 1
            return x.v.lower() if self.pg and x.k == "id" else x.v
        raise SqlError("expected a name near %r" % (x.v,))

    def qname(self):
        n = [self.name()]
        while self.op("."):
            n.append(self.name())
        return tuple(n)

    # -- statements
    def statements(self):
        out = []
        while self.peek().k != "end":
            if self.op(";"):
                continue
            start = self.peek().i
            s = self.statement()
            if self.peek().k != "end" and not (self.peek().k == "op" and self.peek().v == ";"):
                raise SqlError("unexpected %r" % (self.peek().v,))
            end = self.peek().i if self.peek().k != "end" else len(self.text)
            out.append((s, (start, end)))
        return out

    def statement(self):
        if self.kw("SELECT", "VALUES") or self.peek().v == "(":
            return ("select", self.select())
        w = self.take("INSERT", "UPDATE", "DELETE", "REPLACE", "SAVEPOINT", "RELEASE", "ROLLBACK", "BEGIN", "START", "COMMIT", "END", "PRAGMA", "DROP", "CREATE", "ATTACH", "DETACH", "ALTER", "ABORT")
        if w in ("INSERT", "REPLACE"):
            how = "REPLACE" if w == "REPLACE" else None
            if self.take("OR"):
                how = self.t[self.i].v.upper()
                self.i += 1
            self.needkw("INTO")
            t = self.qname()
            cols = None
            if self.op("("):
                cols = [self.name()]
                while self.op(","):
                    cols.append(self.name())
                self.need(")")
            if self.take("DEFAULT"):
                self.needkw("VALUES")
                return ("insert", t, cols, [], how)
            if self.kw("SELECT"):
                return ("insert", t, cols, ("select", self.select()), how)
            self.needkw("VALUES")
            rows = []
            while True:
                self.need("(")
                r = [self.expr()]
                while self.op(","):
                    r.append(self.expr())
                self.need(")")
                rows.append(r)
                if not self.op(","):
                    break
            if self.take("ON"):
                how = "ON " + " ".join(str(x.v) for x in self.t[self.i:self.i + 3])
                while self.peek().k != "end" and self.peek().v != ";":
                    self.i += 1
            return ("insert", t, cols, rows, how)
        if w == "UPDATE":
            how = None
            if self.take("OR"):
                how = self.t[self.i].v.upper()
                self.i += 1
            t = self.qname()
            alias = self.alias()
            self.needkw("SET")
            sets = []
            while True:
                c = self.name()
                self.need("=")
                sets.append((c, self.expr()))
                if not self.op(","):
                    break
            e = self.expr() if self.take("WHERE") else None
            return ("update", t, sets, e, how, alias)
        if w == "DELETE":
            self.needkw("FROM")
            t = self.qname()
            alias = self.alias()
            e = self.expr() if self.take("WHERE") else None
            return ("delete", t, e, alias)
        if w == "SAVEPOINT":
            return ("savepoint", self.name())
        if w == "RELEASE":
            self.take("SAVEPOINT")
            return ("release", self.name())
        if w in ("ROLLBACK", "ABORT"):
            self.take("TRANSACTION", "WORK")
            if self.take("TO"):
                self.take("SAVEPOINT")
                return ("rollbackto", self.name())
            return ("rollback",)
        if w in ("BEGIN", "START"):
            while self.peek().k == "id":
                self.i += 1
            return ("begin",)
        if w in ("COMMIT", "END"):
            self.take("TRANSACTION", "WORK")
            return ("commit",)
        if w == "PRAGMA":
            n = self.qname()
            v = None
            if self.op("="):
                v = self.pragval()
            elif self.op("("):
                v = self.pragval()
                self.need(")")
            return ("pragma", n, v)
        if w == "DROP":
            k = self.t[self.i].v.upper() if self.peek().k == "id" else None
            self.i += 1
            ifx = False
            if self.take("IF"):
                self.needkw("EXISTS")
                ifx = True
            n = self.qname()
            cas = bool(self.take("CASCADE", "RESTRICT"))
            return ("drop", k, n, ifx, cas)
        if w == "CREATE":
            k = self.t[self.i].v.upper() if self.peek().k == "id" else None
            if k in ("TEMP", "TEMPORARY", "UNIQUE", "VIRTUAL", "OR"):
                self.i = len(self.t)
                return ("create", k, None)
            self.i += 1
            if k == "TRIGGER":
                if self.take("IF"):
                    self.i += 2
                n = self.qname()
                self.i = len(self.t)
                return ("create", k, n)
            if k == "SCHEMA":
                if self.take("IF"):
                    self.i += 2
                return ("create", k, self.qname())
            if k == "TABLE":
                ifx = False
                if self.take("IF"):
                    self.i += 2
                    ifx = True
                n = self.qname()
                self.need("(")
                cols, pk = [], None
                while True:
                    if self.take("PRIMARY"):
                        self.needkw_("KEY")
                        self.need("(")
                        pk = [self.name()]
                        while self.op(","):
                            pk.append(self.name())
                        self.need(")")
                    else:
                        c = self.name(strict=True)
                        ty = []
                        con = []
                        dep = 0
                        while not (dep == 0 and self.peek().k == "op" and self.peek().v in ",)"):
                            x = self.peek()
                            if x.k == "end":
                                raise SqlError("unterminated table definition")
                            if x.k == "op" and x.v == "(":
                                dep += 1
                            if x.k == "op" and x.v == ")":
                                dep -= 1
                            if dep == 0 and x.k == "id" and x.v.upper() in ("NOT", "NULL", "PRIMARY", "KEY", "AUTOINCREMENT", "UNIQUE", "DEFAULT") or con and dep == 0 and x.v != ")":
                                con.append(x.v.upper() if isinstance(x.v, str) else x.v)
                            else:
                                ty.append(x)
                            self.i += 1
                        cols.append((c, (ty[0].i, ty[-1].j) if ty else None, tuple(con)))
                    if not self.op(","):
                        break
                self.need(")")
                return ("create", k, n, cols, pk, ifx)
            if k in ("INDEX", "VIEW", "FUNCTION", "EXTENSION"):
                self.i = len(self.t)
                return ("create", k, None)
        if w == "ATTACH":
            self.take("DATABASE")
            e = self.expr()
            self.needkw("AS")
            return ("attach", e, self.name())
        if w == "DETACH":
            self.take("DATABASE")
            return ("detach", self.name())
        raise SqlError("statement %r" % (self.peek().v,))

    def needkw_(self, w):
        if not (self.peek().k == "id" and self.peek().v.upper() == w):
            raise SqlError("expected " + w)
        self.i += 1

    def pragval(self):
        x = self.peek()
        if x.k in ("id", "qid", "str", "num"):
            self.i += 1
            return x.v
        if self.op("-", "+"):
            return self.pragval()
        raise SqlError("value of a pragma")

    def alias(self):
        if self.take("AS"):
            return self.name()
        x = self.peek()
        if x.k == "qid" or x.k == "id" and x.v.upper() not in KEYWORDS:
            return self.name()
        return None

    def select(self):
        l = self.selcore()
        while True:
            w = self.take("UNION", "EXCEPT", "INTERSECT")
            if not w:
                break
            if self.take("ALL"):
                w += " ALL"
            r = self.selcore()
            l = {"compound": w, "l": l, "r": r}
        order = []
        if self.take("ORDER"):
            self.needkw("BY")
            while True:
                e = self.expr()
                d = self.take("ASC", "DESC")
                order.append((e, d))
                if not self.op(","):
                    break
        lim = None
        if self.take("LIMIT"):
            lim = self.expr()
            if self.take("OFFSET") or self.op(","):
                lim = (lim, self.expr())
        l = dict(l, order=order, limit=lim)
        return l

    def selcore(self):
        if self.op("("):
            s = self.select()
            self.need(")")
            return s
        self.needkw("SELECT")
        dist = bool(self.take("DISTINCT"))
        self.take("ALL")
        items = []
        if not self.kw("FROM"):
            while True:
                if self.op("*"):
                    items.append(("*",))
                elif self.peek().k in ("id", "qid") and self.star():
                    q = [self.name()]
                    while self.op("."):
                        if self.op("*"):
                            break
                        q.append(self.name())
                    items.append(("*", tuple(q)))
                else:
                    e = self.expr()
                    items.append(("e", e, self.alias()))
                if not self.op(","):
                    break
        frm = []
        if self.take("FROM"):
            frm.append(("first", self.tableref(), None))
            while True:
                if self.op(","):
                    frm.append(("cross", self.tableref(), None))
                    continue
                nat = bool(self.take("NATURAL"))
                k = self.take("LEFT", "INNER", "CROSS", "RIGHT")
                if k in ("LEFT", "RIGHT"):
                    self.take("OUTER")
                if k or nat or self.kw("JOIN"):
                    self.needkw("JOIN")
                    tr = self.tableref()
                    on = None
                    if self.take("ON"):
                        on = self.expr()
                    elif self.take("USING"):
                        raise AnalysisError("SQL: USING")
                    frm.append((("natural" if nat else (k or "INNER").lower()), tr, on))
                    continue
                break
        where = self.expr() if self.take("WHERE") else None
        if self.take("GROUP"):
            self.needkw("BY")
            g = [self.expr()]
            while self.op(","):
                g.append(self.expr())
            h = self.expr() if self.take("HAVING") else None
            return {"items": items, "from": frm, "where": where, "distinct": dist, "group": (g, h)}
        return {"items": items, "from": frm, "where": where, "distinct": dist, "group": None}

    def star(self):
        k = 1
        while self.peek(k).v == "." and self.peek(k).k == "op":
            if self.peek(k + 1).k == "op" and self.peek(k + 1).v == "*":
                return True
            k += 2
        return False

    def tableref(self):
        if self.op("("):
            s = self.select()
            self.need(")")
            return ("sub", s, self.alias())
        n = self.qname()
        if self.op("("):
            a = []
            if not self.op(")"):
                a.append(self.expr())
                while self.op(","):
                    a.append(self.expr())
                self.need(")")
            return ("fn", n, a, self.alias())
        return ("table", n, self.alias())

    # -- expressions
    def expr(self):
        l = self.eand()
        while self.take("OR"):
            l = ("or", l, self.eand())
        return l

    def eand(self):
        l = self.enot()
        while self.take("AND"):
            l = ("and", l, self.enot())
        return l

    def enot(self):
        if self.kw("NOT") and not self.kw("EXISTS", k=1):
            self.i += 1
            return ("not", self.enot())
        return self.ecmp()

    def ecmp(self):
        l = self.erel()
        while True:
            o = self.op("=", "==", "!=", "<>", "<=>")
            if o:
                r = self.erel()
                l = ("=", l, r) if o in ("=", "==") else ("isnt" if False else "!=", l, r) if o != "<=>" else ("is", l, r)
                continue
            if self.take("IS"):
                neg = bool(self.take("NOT"))
                if self.take("DISTINCT"):
                    self.needkw("FROM")
                    neg = not neg
                    r = self.erel()
                elif self.pg:
                    x = self.take("NULL", "TRUE", "FALSE", "UNKNOWN")
                    if not x:
                        raise SqlError("IS takes NULL, TRUE or FALSE here")
                    r = {"NULL": ("null",), "UNKNOWN": ("null",), "TRUE": ("bool", True), "FALSE": ("bool", False)}[x]
                else:
                    r = self.erel()
                l = ("isnot" if neg else "is", l, r)
                continue
            if self.take("ISNULL"):
                l = ("is", l, ("null",))
                continue
            if self.take("NOTNULL"):
                l = ("isnot", l, ("null",))
                continue
            neg = False
            if self.kw("NOT") and self.kw("IN", "LIKE", "BETWEEN", "NULL", "GLOB", "ILIKE", k=1):
                self.i += 1
                neg = True
            if self.take("NULL"):
                l = ("isnot", l, ("null",))
                continue
            w = self.take("IN", "LIKE", "BETWEEN", "GLOB", "ILIKE")
            if w == "IN":
                self.need("(")
                if self.kw("SELECT"):
                    r = ("in", l, ("select", self.select()))
                else:
                    a = []
                    if not (self.peek().v == ")"):
                        a.append(self.expr())
                        while self.op(","):
                            a.append(self.expr())
                    r = ("in", l, a)
                self.need(")")
                l = ("not", r) if neg else r
                continue
            if w in ("LIKE", "GLOB", "ILIKE"):
                r = (w.lower(), l, self.erel())
                if self.take("ESCAPE"):
                    r = r + (self.erel(),)
                l = ("not", r) if neg else r
                continue
            if w == "BETWEEN":
                a = self.erel()
                self.needkw("AND")
                b = self.erel()
                r = ("and", ("<=", a, l), ("<=", l, b))
                l = ("not", r) if neg else r
                continue
            return l

    def erel(self):
        l = self.eadd()
        while True:
            o = self.op("<", "<=", ">", ">=")
            if not o:
                return l
            r = self.eadd()
            l = (o, l, r)

    def eadd(self):
        l = self.emul()
        while True:
            o = self.op("+", "-", "||")
            if not o:
                return l
            l = (o, l, self.emul())

    def emul(self):
        l = self.eunary()
        while True:
            o = self.op("*", "/", "%")
            if not o:
                return l
            l = (o, l, self.eunary())

    def eunary(self):
        if self.op("-"):
            return ("neg", self.eunary())
        if self.op("+"):
            return self.eunary()
        e = self.eprim()
        while True:
            if self.op("::"):
                e = ("cast", e, self.typename())
            elif self.take("COLLATE"):
                e = ("collate", e, self.name())
            else:
                return e

    def typename(self):
        n = [self.name()]
        while self.peek().k == "id" and self.peek().v.upper() in ("PRECISION", "WITHOUT", "WITH", "TIME", "ZONE", "VARYING"):
            n.append(self.t[self.i].v)
            self.i += 1
        if self.op("("):
            while not self.op(")"):
                self.i += 1
        while self.peek().v == "[" and self.peek(1).v == "]":
            self.i += 2
        return " ".join(n).lower()

    def eprim(self):
        x = self.peek()
        if x.k == "num":
            self.i += 1
            return ("num", x.v)
        if x.k == "str":
            self.i += 1
            return ("str", x.v, x)
        if x.k == "chunk":
            self.i += 1
            return ("chunk", x.v)
        if x.k == "param":
            self.i += 1
            if x.v is None:
                self.nparam += 1
                return ("param", self.nparam)
            self.nparam = max(self.nparam, x.v)
            return ("param", x.v)
        if self.op("("):
            if self.kw("SELECT"):
                s = self.select()
                self.need(")")
                return ("scalar", s)
            e = self.expr()
            if self.op(","):
                l = [e, self.expr()]
                while self.op(","):
                    l.append(self.expr())
                self.need(")")
                return ("row", l)
            self.need(")")
            return e
        if self.take("NULL"):
            return ("null",)
        if self.kw("TRUE", "FALSE"):
            return ("bool", self.take("TRUE", "FALSE") == "TRUE")
        if self.kw("NOT") and self.kw("EXISTS", k=1):
            self.i += 1
            return ("not", self.eprim())
        if self.take("EXISTS"):
            self.need("(")
            s = self.select()
            self.need(")")
            return ("exists", s)
        if self.take("CASE"):
            opnd = None if self.kw("WHEN") else self.expr()
            ws = []
            while self.take("WHEN"):
                c = self.expr()
                self.needkw("THEN")
                ws.append((c, self.expr()))
            el = self.expr() if self.take("ELSE") else ("null",)
            self.needkw("END")
            return ("case", opnd, ws, el)
        if self.take("CAST"):
            self.need("(")
            e = self.expr()
            self.needkw("AS")
            ty = self.typename()
            self.need(")")
            return ("cast", e, ty)
        if self.kw("ANY", "ALL") and self.peek(1).v == "(":
            w = self.take("ANY", "ALL")
            self.need("(")
            e = self.expr()
            self.need(")")
            return (w.lower(), e)
        if x.k in ("id", "qid"):
            if x.k == "id" and self.peek(1).v == "(" and self.peek(1).k == "op":
                n = x.v.lower()
                self.i += 2
                a = []
                if self.op("*"):
                    a = [("*",)]
                elif not (self.peek().v == ")" and self.peek().k == "op"):
                    self.take("DISTINCT")
                    a.append(self.expr())
                    while self.op(","):
                        a.append(self.expr())
                self.need(")")
                return ("call", n, a)
            if x.k == "id" and x.v.upper() in KEYWORDS:
                raise SqlError("unexpected %s" % x.v)
            n = self.qname()
            if self.peek().v == "(" and self.peek().k == "op":
                self.i += 1
                a = []
                if not self.op(")"):
                    a.append(self.expr())
                    while self.op(","):
                        a.append(self.expr())
                    self.need(")")
                return ("call", n[-1].lower(), a)
            return ("col", n, x.k)
        raise SqlError("unexpected %r" % (x.v,))


def parse(d, pg=False):
    """list of (statement, (start, end)) and the parser"""
    p = Parser(d, pg)
    return p.statements(), p


# ---- evaluation over small tables ---------------------------------------------------------------

class Unknown(AnalysisError):
    pass


UNSET = object()


class Eval:
    """find(qualified name) -> (column names, rows); a row is a list of Python values, None is NULL"""

    def __init__(self, find, params=None, pg=False, fn=None, tablefn=None):
        self.find = find
        self.params = params or {}
        self.pg = pg
        self.fn = fn
        self.tablefn = tablefn

    def scope(self, sel, outer):
        out = []
        for how, tr, on in sel["from"]:
            if tr[0] == "table":
                cols, rows = self.find(tr[1])
                out.append((how, tr[2], tr[1], cols, rows, on))
            elif tr[0] == "sub":
                c, r = self.select(tr[1], outer)
                out.append((how, tr[2], (), c, r, on))
            else:
                if self.tablefn is None:
                    raise Unknown("table function " + str(tr[1]))
                c, r = self.tablefn(tr[1], [self.value(a, outer) for a in tr[2]])
                out.append((how, tr[3], tr[1], c, r, on))
        return out

    def rows(self, sel, outer):
        """scopes of the rows that satisfy FROM and WHERE"""
        src = self.scope(sel, outer)

        def rec(i, sc):
            if i == len(src):
                w = sel["where"]
                if w is None or self.truth(self.value(w, [sc] + outer)) is True:
                    yield list(sc)
                return
            how, alias, name, cols, rows, on = src[i]
            hit = False
            for r in rows:
                s2 = sc + [(alias, name, cols, r)]
                if on is not None and self.truth(self.value(on, [s2] + outer)) is not True:
                    continue
                if how == "natural":
                    raise Unknown("natural join")
                hit = True
                yield from rec(i + 1, s2)
            if how == "left" and not hit:
                yield from rec(i + 1, sc + [(alias, name, cols, [None] * len(cols))])
            if how == "right":
                raise Unknown("right join")
        yield from rec(0, [])

    def select(self, sel, outer=()):
        outer = list(outer)
        if "compound" in sel:
            c1, r1 = self.select(dict(sel["l"], order=[], limit=None), outer)
            c2, r2 = self.select(dict(sel["r"], order=[], limit=None), outer)
            w = sel["compound"]
            u = []

            def has(l, x):
                return any(len(a) == len(x) and all(self.same(p, q) for p, q in zip(a, x)) for a in l)
            if w == "UNION ALL":
                return c1, r1 + r2
            for x in r1 + (r2 if w == "UNION" else []):
                if has(u, x):
                    continue
                if w == "EXCEPT" and has(r2, x) or w == "INTERSECT" and not has(r2, x):
                    continue
                u.append(x)
            return c1, u
        if sel.get("group"):
            raise Unknown("GROUP BY")
        names, out = [], []
        agg = any(i[0] == "e" and i[1][0] == "call" and i[1][1] in ("count", "max", "min", "sum") and len(i[1][2]) == 1 for i in sel["items"])
        if agg:
            rs = list(self.rows(sel, outer))
            row = []
            for it in sel["items"]:
                n, a = it[1][1], it[1][2]
                vals = [1] * len(rs) if a == [("*",)] else [v for v in (self.value(a[0], [s] + outer) for s in rs) if v is not None]
                row.append(len(vals) if n == "count" else max(vals, default=None) if n == "max" else min(vals, default=None) if n == "min" else sum(vals) if vals else None)
                names.append(n)
            return names, [row]
        order = sel.get("order") or []
        keyed = []
        for sc in self.rows(sel, outer):
            row, nm = [], []
            for it in sel["items"]:
                if it[0] == "*":
                    for alias, name, cols, r in sc:
                        if len(it) > 1 and not self.matches(it[1], alias, name):
                            continue
                        row += r
                        nm += cols
                else:
                    row.append(self.value(it[1], [sc] + outer))
                    nm.append(it[2] or (it[1][1][-1] if it[1][0] == "col" else None))
            names = nm
            if order:
                k = []
                for e, d in order:
                    if e[0] == "num":
                        v = row[e[1] - 1]
                    else:
                        try:
                            v = self.value(e, [sc] + outer)
                        except Unknown:
                            v = row[nm.index(e[1][-1])]
                    k.append((v is not None, v, d))
                keyed.append((k, row))
            else:
                out.append(row)
        if order:
            for i in reversed(range(len(order))):
                keyed.sort(key=lambda kr: (kr[0][i][0], repr(type(kr[0][i][1])), kr[0][i][1] if kr[0][i][1] is not None else 0), reverse=order[i][1] == "DESC")
            out = [r for _, r in keyed]
        if sel["distinct"]:
            u = []
            for r in out:
                if not any(all(self.same(p, q) for p, q in zip(r, x)) for x in u):
                    u.append(r)
            out = u
        if sel.get("limit") is not None:
            l = sel["limit"]
            if isinstance(l, tuple) and not isinstance(l[0], str):
                raise Unknown("LIMIT")
            out = out[:self.value(l, outer)]
        if not out and not names:
            for it in sel["items"]:
                names.append(it[2] if it[0] == "e" else None)
        return names, out

    @staticmethod
    def matches(q, alias, name):
        if alias is not None:
            return len(q) == 1 and q[0].lower() == alias.lower()
        ql, nl = [x.lower() for x in q], [x.lower() for x in name]
        return len(nl) >= len(ql) and nl[-len(ql):] == ql

    def lookup(self, n, scopes, kind):
        c = n[-1]
        for sc in scopes:
            hits = []
            for alias, name, cols, r in sc:
                if len(n) > 1 and not self.matches(n[:-1], alias, name):
                    continue
                for i, x in enumerate(cols):
                    if x is not None and (x == c or x.lower() == c.lower()):
                        hits.append(r[i])
                        break
            if len(hits) > 1:
                raise SqlError("ambiguous column " + c)
            if hits:
                return hits[0]
        if kind == "qid" and len(n) == 1 and not self.pg:
            return c
        raise SqlError("no column " + ".".join(n))

    def same(self, a, b):
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        return type(a) == type(b) and a == b or isinstance(a, (int, float)) and isinstance(b, (int, float)) and a == b

    def truth(self, v):
        if v is None or isinstance(v, bool):
            return v
        if isinstance(v, (int, float)):
            return v != 0
        if isinstance(v, str):
            try:
                return float(v) != 0
            except ValueError:
                return False
        raise Unknown("truth of %r" % (v,))

    def collated(self, e, a, b):
        """the values as an explicit collation compares them"""
        for x in (e[1], e[2]):
            if x[0] == "collate":
                c = str(x[2] if not isinstance(x[2], tuple) else x[2][-1]).lower()
                f = {"nocase": str.lower, "rtrim": lambda v: v.rstrip(" ")}.get(c)
                if f is not None:
                    return tuple(f(v) if isinstance(v, str) else v for v in (a, b))
        return a, b

    def value(self, e, sc):
        k = e[0]
        V = self.value
        if k in ("num", "str", "bool"):
            return e[1]
        if k == "null":
            return None
        if k == "col":
            return self.lookup(e[1], sc, e[2])
        if k == "param":
            if e[1] not in self.params:
                return None
            return self.params[e[1]]
        if k == "and":
            a, b = self.truth(V(e[1], sc)), self.truth(V(e[2], sc))
            return False if a is False or b is False else None if a is None or b is None else True
        if k == "or":
            a, b = self.truth(V(e[1], sc)), self.truth(V(e[2], sc))
            return True if a is True or b is True else None if a is None or b is None else False
        if k == "not":
            a = self.truth(V(e[1], sc))
            return None if a is None else not a
        if k in ("=", "!=") and e[1][0] == "row":
            if e[2][0] != "row" or len(e[1][1]) != len(e[2][1]):
                raise Unknown("row comparison")
            r = True
            for x, y in zip(e[1][1], e[2][1]):
                c = V(("=", x, y), sc)
                r = False if c is False or r is False else None if c is None or r is None else True
            return r if k == "=" else None if r is None else not r
        if k in ("=", "!="):
            if e[2][0] in ("any", "all"):
                raise Unknown("ANY")
            a, b = self.collated(e, V(e[1], sc), V(e[2], sc))
            if a is None or b is None:
                return None
            return self.same(a, b) == (k == "=")
        if k in ("is", "isnot"):
            a, b = self.collated(e, V(e[1], sc), V(e[2], sc))
            if e[2][0] == "bool":
                a = self.truth(a)
            r = (a is None and b is None) or (a is not None and b is not None and self.same(a, b))
            return r == (k == "is")
        if k in ("<", "<=", ">", ">="):
            a, b = V(e[1], sc), V(e[2], sc)
            if a is None or b is None:
                return None
            if type(a) != type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
                a, b = isinstance(a, str), isinstance(b, str)
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[k]
        if k == "exists":
            s = e[1]
            if "compound" in s:
                return bool(self.select(s, sc)[1])
            for _ in self.rows(s, list(sc)):
                return True
            return False
        if k == "scalar":
            r = self.select(e[1], sc)[1]
            return r[0][0] if r else None
        if k == "in":
            a = V(e[1], sc)
            if isinstance(e[2], tuple):
                vals = [r[0] for r in self.select(e[2][1], sc)[1]]
            else:
                vals = [V(x, sc) for x in e[2]]
            if not vals:
                return False
            if a is None:
                return None
            if any(v is not None and self.same(a, v) for v in vals):
                return True
            return None if any(v is None for v in vals) else False
        if k == "case":
            if e[1] is not None:
                o = V(e[1], sc)
                for c, r in e[2]:
                    v = V(c, sc)
                    if o is not None and v is not None and self.same(o, v):
                        return V(r, sc)
            else:
                for c, r in e[2]:
                    if self.truth(V(c, sc)) is True:
                        return V(r, sc)
            return V(e[3], sc)
        if k in ("like", "ilike", "glob"):
            a, b = V(e[1], sc), V(e[2], sc)
            if a is None or b is None:
                return None
            import re
            x = ""
            if k == "glob":
                for c in str(b):
                    x += ".*" if c == "*" else "." if c == "?" else re.escape(c)
            else:
                esc = e[3][1] if len(e) > 3 else None
                i = 0
                b = str(b)
                while i < len(b):
                    c = b[i]
                    if esc and c == esc and i + 1 < len(b):
                        x += re.escape(b[i + 1])
                        i += 2
                        continue
                    x += ".*" if c == "%" else "." if c == "_" else re.escape(c)
                    i += 1
            fl = re.S | (re.I if k == "ilike" or k == "like" and not self.pg else 0)
            return re.fullmatch(x, str(a), fl) is not None
        if k == "neg":
            a = V(e[1], sc)
            return None if a is None else -a
        if k in ("+", "-", "*", "/", "%"):
            a, b = V(e[1], sc), V(e[2], sc)
            if a is None or b is None:
                return None
            if not isinstance(a, (int, float)) or not isinstance(b, (int, float)):
                raise Unknown("arithmetic")
            if k in "/%" and b == 0:
                return None
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: int(a / b) if isinstance(a, int) and isinstance(b, int) else a / b, "%": lambda: a % b}[k]()
        if k == "||":
            a, b = V(e[1], sc), V(e[2], sc)
            return None if a is None or b is None else str(a) + str(b)
        if k == "collate":
            return V(e[1], sc)
        if k == "cast":
            return V(e[1], sc)
        if k == "call":
            n = e[1]
            if n in ("coalesce", "ifnull"):
                for x in e[2]:
                    v = V(x, sc)
                    if v is not None:
                        return v
                return None
            if n == "nullif":
                a, b = V(e[2][0], sc), V(e[2][1], sc)
                return None if a is not None and b is not None and self.same(a, b) else a
            if n in ("lower", "upper") and len(e[2]) == 1:
                v = V(e[2][0], sc)
                return None if v is None else str(v).lower() if n == "lower" else str(v).upper()
            if n == "length":
                v = V(e[2][0], sc)
                return None if v is None else len(str(v))
            if n == "iif":
                return V(e[2][1] if self.truth(V(e[2][0], sc)) is True else e[2][2], sc)
            if n in ("substr", "substring"):
                v = V(e[2][0], sc)
                if v is None:
                    return None
                a = [V(x, sc) for x in e[2][1:]]
                return str(v)[a[0] - 1:] if len(a) == 1 else str(v)[a[0] - 1:a[0] - 1 + a[1]]
            if n in ("trim", "rtrim", "ltrim", "btrim", "hex", "quote") and len(e[2]) == 1:
                v = V(e[2][0], sc)
                if isinstance(v, str):
                    return {"trim": v.strip(" "), "btrim": v.strip(" "), "rtrim": v.rstrip(" "), "ltrim": v.lstrip(" "), "hex": v.encode().hex(), "quote": "'%s'" % v}[n]
            if n == "round" and len(e[2]) == 1:
                v = V(e[2][0], sc)
                if isinstance(v, (int, float)):
                    return float(round(v))
            if n == "abs" and len(e[2]) == 1:
                v = V(e[2][0], sc)
                if v is None or isinstance(v, (int, float)):
                    return None if v is None else abs(v)
            if self.fn is not None:
                r = self.fn(n, [V(x, sc) for x in e[2]])
                if r is not UNSET:
                    return r
            raise Unknown("function " + n)
        raise Unknown("expression " + k)


def walk(e):
    """all expression and select nodes below"""
    if isinstance(e, dict):
        yield e
        for v in e.values():
            yield from walk(v)
    elif isinstance(e, (tuple, list)):
        if isinstance(e, tuple) and e and isinstance(e[0], str):
            yield e
        for v in e:
            if isinstance(v, (tuple, list, dict)):
                yield from walk(v)


def literals(e):
    return {x[1] for x in walk(e) if isinstance(x, tuple) and x[0] in ("num", "str") and len(x) > 1 and isinstance(x[1], (int, float, str))}
