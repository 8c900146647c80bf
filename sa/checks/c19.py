"""C19: abstract interpretation of applying a changeset; evaluation of the executed statements.

The WHERE clause, assignments and values of every executed statement are evaluated symbolically over all
rows whose columns hold the entry's old value, its new value, another value or NULL.
"""
from ..scen import *
from .. import sql as SQL
from ..pgval import PgEval, cell

LEVEL = "other"


class Other:
    """a value that differs from all values of the changeset"""

    def __repr__(self):
        return "another value"


def domain(kind, t, i, e):
    out = [None]
    for side in (e.old, e.new):
        if side and side[i][0] not in ("undef", "null"):
            v = side[i]
            c = conc(v) if kind == "sqlite" else cell(t.cols[i][1], v)
            if c not in out:
                out.append(c)
    out.append("another \x02 value" if kind == "sqlite" else cell(t.cols[i][1], other(t.cols[i][1])))
    if kind == "postgres" and t.cols[i][1] == "boolean":
        out = [None, cell("boolean", ("int", 0)), cell("boolean", ("int", 1))]
    return out


def other(type):
    k = kindof(type)
    return {"int": ("int", 77), "real": ("real", ("dbl", struct.unpack("<Q", struct.pack("<d", 77.5))[0])), "text": ("text", "another"),
            "geom": ("blob", b"GP\0\1" + struct.pack("<i", 4326) + b"another"), "blob": ("blob", b"another"), "bool": ("int", 0)}[k]


def stand(kind, t, i, v):
    if v[0] == "null":
        return None
    return conc(v) if kind == "sqlite" else cell(t.cols[i][1], v)


def evaluator(kind, t, w):
    find = lambda n: (_ for _ in ()).throw(SQL.Unknown("a subquery"))
    if kind == "sqlite":
        return SQL.Eval(find, {k: conc(v) for k, v in w[4].items()})
    return PgEval(find, {}, pg=True)


def assigned(kind, ev, t, i, got):
    """the value column i gets when `got` is assigned"""
    return got if kind == "sqlite" else ev.coerce(t.cols[i][1], got)


def show(row):
    return "(%s)" % ", ".join("NULL" if x is None else repr(x)[:24] for x in row)


def statement(ctx, kind, t, e, w, m, what):
    wh = where(m)
    names = [c[0] for c in t.cols]
    ev = evaluator(kind, t, w)
    st = w[3]
    if w[0] == "insert":
        cols = st[2] or names
        bad = st[4] and not str(st[4]).upper() in ("ABORT", "FAIL", "ROLLBACK")
        ctx.check(not bad, "insert only", wh, "%s: the statement for an insert may replace or skip rows (%s)" % (kind, st[4]), path=[what])
        ctx.check(isinstance(st[3], list) and len(st[3]) == 1, "insert", wh, "%s: the statement for an insert does not insert one row" % kind, path=[what])
        if not (isinstance(st[3], list) and len(st[3]) == 1):
            return
        vals = st[3][0]
        seen = {}
        for c, x in zip(cols, vals):
            seen.setdefault(c.lower(), []).append(x)
        for i, n in enumerate(names):
            l = seen.get(n.lower(), [])
            if len(l) != 1:
                ctx.check(False, "insert", wh, "%s: the statement for an insert sets column no. %d %s" % (kind, i + 1, "twice" if l else "not at all"), path=[what, repr(e)])
                continue
            got = assigned(kind, ev, t, i, ev.value(l[0], []))
            want = stand(kind, t, i, e.new[i])
            ctx.check(got is None and want is None or got is not None and want is not None and ev.same(got, want), "insert", wh,
                      "%s: the statement for an insert sets column no. %d to another value" % (kind, i + 1), path=[what, repr(e), "value %r" % (got,)], what="%s column %d" % (what, i + 1))
        return
    alias = st[5] if w[0] == "update" else st[3]
    cond = st[3] if w[0] == "update" else st[2]
    sets = {}
    if w[0] == "update":
        for c, x in st[2]:
            sets.setdefault(c.lower(), []).append(x)
        ctx.check(all(len(l) == 1 for l in sets.values()) and set(sets) <= {n.lower() for n in names}, "assigns", wh, "%s: the statement for an update assigns a column twice" % kind, path=[what])
        ctx.check(not st[4], "update only", wh, "%s: the statement for an update may replace or skip rows (%s)" % (kind, st[4]), path=[what])
    n = 0
    for row in itertools.product(*[domain(kind, t, i, e) for i in range(len(names))]):
        sc = [[(alias, st[1], names, list(row))]]
        hit = True if cond is None else ev.truth(ev.value(cond, sc)) is True
        want = True
        for i in range(len(names)):
            o = e.old[i]
            if o[0] == "undef":
                continue
            s = stand(kind, t, i, o)
            if not (row[i] is None and s is None or row[i] is not None and s is not None and ev.same(row[i], s)):
                want = False
        n += 1
        if hit and not want:
            ctx.check(False, "only that row", wh, "%s: the statement for an %s also matches a row that has other values" % (kind, w[0]), path=[what, repr(e), "row " + show(row)])
            return
        if want and not hit:
            ctx.check(False, "that row", wh, "%s: the statement for an %s does not match the row that has the old values" % (kind, w[0]), path=[what, repr(e), "row " + show(row)])
            return
        if hit and w[0] == "update":
            for i, c in enumerate(names):
                x = sets.get(c.lower())
                got = assigned(kind, ev, t, i, ev.value(x[0], sc)) if x else row[i]
                exp = row[i] if e.new[i][0] == "undef" else stand(kind, t, i, e.new[i])
                if not (got is None and exp is None or got is not None and exp is not None and ev.same(got, exp)):
                    ctx.check(False, "assigns", wh, "%s: the statement for an update sets column no. %d to another value" % (kind, i + 1), path=[what, repr(e), "row " + show(row), "value %r" % (got,)])
                    return
    ctx.ok("only that row", "%s: %d rows" % (what, n))
    ctx.ok("that row", what)
    if w[0] == "update":
        ctx.ok("assigns", what)
    ctx.count("rows", n)


def judge(ctx, kind, name, es, m, it, r):
    if r[0] != "ok":
        return
    from .c02 import belongs
    what = name
    ws = dml([x for db in it.env.conns for x in db.durable])
    tabs = {t.name: t for t in ((T1, T2, T3, T4) if kind == "sqlite" else (P1, P2, P3, P4))}
    es = [e for e in es if applied(kind, e)]
    inorder = [(x[2], x[0]) for x in ws] == [(e.table, e.op) for e in es]
    for j, e in enumerate(es):
        for x in [ws[j]] if inorder else ws:
            if x[2] == e.table and x[0] == e.op and (inorder or belongs(x, e)):
                try:
                    statement(ctx, kind, tabs[e.table], e, x, m, "%s, %s" % (what, e.op))
                    ctx.count("statements")
                except SQL.Unknown as u:
                    ctx.incomplete.append("%s: %s" % (what, u))
                except SQL.SqlError as u:
                    ctx.check(False, "valid", where(m), "%s: the database rejects the statement for an %s (%s)" % (kind, e.op, u), path=[what, repr(e)])


def nokey(kind):
    """updates that lack the old value of a key column, after one that has it"""
    A, B = (T1, T2) if kind == "sqlite" else (P1, P2)
    out = []
    for t in (A, B):
        for i, c in enumerate(t.cols):
            if c[3]:
                x = entry(t, "update", "k")
                x.old = list(x.old)
                x.old[i] = U
                out.append(("%s, no key %d" % (kind, i), kind, [entry(t, "update", "j"), x]))
    return out


def run(ctx):
    ctx.rule("only that row", "the WHERE clause of an update or delete holds for no row whose key or recorded old values differ from the entry's")
    ctx.rule("that row", "it holds for the row with exactly these values, NULL matching NULL")
    ctx.rule("assigns", "an update assigns the new value to each column that has one and leaves the others as they are")
    ctx.rule("insert", "an insert sets every column of one row to the entry's value")
    ctx.rule("insert only", "an insert neither replaces nor skips rows")
    ctx.rule("update only", "an update neither replaces nor skips rows")
    ctx.rule("valid", "the database accepts the statement")
    apply_all(ctx, judge, 0)
    ctx.rule("without a key", "an update that lacks the old value of a key column is refused, or its statement matches no row")

    def one(c, item):
        name, kind, es = item
        done, why, m = applying(c.p, kind, es, Cfg(faults=0, nodml=True))
        for it, r in outcomes(c, done, why, name):
            t = [t for t in ((T1, T2) if kind == "sqlite" else (P1, P2)) if t.name == es[0].table][0]
            ws = dml([x for x in (e[2] for e in it.env.events if e[0] == "write")])
            if len(ws) < 2:
                c.check(r[0] == "throw", "without a key", where(m), "%s: an update without a key is dropped" % kind, path=[name])
                continue
            w = ws[1]
            ev = evaluator(kind, t, w)
            names = [x[0] for x in t.cols]
            for row in itertools.product(*[domain(kind, t, i, es[1]) + [stand(kind, t, i, v) for v in (es[0].old[i], es[0].new[i]) if v[0] not in ("undef", "null")] for i in range(len(names))]):
                if any(x is None for x, k in zip(row, es[1].pk) if k):
                    continue
                try:
                    if w[3][3] is None or ev.truth(ev.value(w[3][3], [[(w[3][5], w[3][1], names, list(row))]])) is True:
                        c.check(False, "without a key", where(m), "%s: an update that lacks a key value changes a row all the same" % kind, path=[name, repr(es[1]), "row " + show(row)])
                        break
                except SQL.Unknown as u:
                    c.incomplete.append("%s: %s" % (name, u))
                    break
            else:
                c.ok("without a key", name)
    ctx.par(one, nokey("sqlite") + nokey("postgres"))
    ctx.need("statements", ctx.counts.get("statements"))
