"""C14: abstract interpretation with texts that remember where their characters come from.

Every operation of both drivers is interpreted with names and text values full of special characters.  Each
SQL text that reaches the database library is split into the database's tokens: characters that come
from a name or value may only occur in a quoted token, which must decode to exactly that name or value.
"""
from ..scen import *
from .. import sql as SQL
from ..envs import mkval

LEVEL = "other"
NAMES = ["%s%q\"%w", "a''b", "\"\"", "tab\tnew\nline", "b\\'s\\\\", "`[x]`", "\u00fcn\u00ef\u20ac", "1 2", "end'", "\"start", "drop table x; --", "/*c*/", "$1 ?2 :a @b", "group", "a.b",
         "null", "%%w", " lead trail ", "'", "x') OR ('1'='1", "E'\\", "\\", "#{}|~^!", "MiXed", "'||'", "\"||\"", "--", "%", "_", "$$", "%d", "\x7f\x01"]


def tables(kind):
    t = (lambda x: x) if kind == "sqlite" else (lambda x: {"INTEGER": "integer", "TEXT": "text", "REAL": "double precision", "BLOB": "bytea"}[x])
    out = []
    for i in range(0, len(NAMES), 4):
        a, b, c, d = (NAMES[(i + k) % len(NAMES)] for k in range(4))
        e = NAMES[(i + 7) % len(NAMES)]
        out.append(Table(a, [(b, t("INTEGER"), 1, 1), (c, t("TEXT"), 0, 0), (e, t("BLOB"), 0, 0)] if i % 8 else [(d, t("BLOB"), 0, 0), (c, t("TEXT"), 1, 1), (b, t("INTEGER"), 1, 2)]))
        if kind == "postgres" and out[-1].cols[0][3]:
            out[-1].serial = {out[-1].cols[0][0]}
        if i + 1 < len(NAMES):
            out.append(Table(b, [(d, t("INTEGER"), 1, 1), (a, t("TEXT"), 0, 0)]))
    return out


def hostile(kind):
    ts = tables(kind)
    if kind == "sqlite":
        g = [Table("geo'\"%s", [("fid", "INTEGER", 1, 1), ("g'\"%q", "POINT", 0, 0)]), GEOMCOLS, SRS]
        trs = [trig(n, ts[i % len(ts)].name) for i, n in enumerate(NAMES)] + FEW
        return Schema(ts + g, trs, [("geo'\"%s", "g'\"%q", "POINT", 4326, 0, 0)], [("n", 4326, "EPSG", 4326, "WK'T", "")])
    g = Table("geo'\"%s", [("fid", "integer", 1, 1), ("g'\"%q", "geometry(Point,4326)", 0, 0)])
    return Schema(ts + [g], geom=[(g.name, "g'\"%q", "POINT", 4326)], srs=[(4326, "EPSG", 4326, "WK'T")])


def known(env):
    """all names and values of the scenario"""
    out = set(env.dbs)
    for s in env.dbs.values():
        for t in s.tables:
            out.add(t.name)
            out |= {c[0] for c in t.cols}
        out |= {t[0] for t in s.triggers}
    out |= set(NAMES) | {"EP'SG", "WK'T\"%s", "g\"e'om"}
    return {x for x in out if not x.replace("_", "").isalnum()}


def describe(tag, names):
    return repr(tag)


def look(ctx, kind, label, m, it):
    names = known(it.env)
    raw = lambda s: s
    cols = {c[0].lower() for s in it.env.dbs.values() for t in s.tables for c in t.cols} | {c for l in META.values() for c in l} | {"name", "type", "sql", "fid", "cid", "pk", "notnull"}
    for db in it.env.conns:
        for s in getattr(db, "attached", {}).values():
            for t in s.tables:
                cols |= {c[0].lower() for c in t.cols}
    for x in it.env.events:
        if x[0] == "bad sql":
            ctx.check(False, "structure", where(m), "%s: the database rejects a command of %s: %s" % (kind, label, str(x[2])[:80]), key="bad|%s|%s|%s" % (kind, label, str(x[2])[:40]), path=[x[1][:200]])
    for t, st, ps in it.env.texts:
        if st is None:
            continue
        for tok in ps.all:
            tags = {g for g in tok.tags if g in names or isinstance(g, str) and g.startswith("t'")}
            for g in tags:
                text = "".join(c for c, _ in t)[:160]
                if tok.k not in ("qid", "str"):
                    # the text of a trigger or table definition is a command of its own
                    ctx.check(False, "quoted", where(m), "%s: %s puts a name or value into a command without quotes (%r)" % (kind, label, tok.v), key="q|%s|%s" % (kind, label), path=[text, "from " + repr(g)])
                    continue
                v = tok.v
                good = v == g or tok.k == "str" and (isinstance(v, str) and (g in v or inner(v, g)))
                ctx.check(good, "exact", where(m), "%s: %s quotes a name or value wrongly (%s instead of %s)" % (kind, label, str(v)[:40], repr(g)[:40]), key="x|%s|%s|%s" % (kind, label, g), path=[text], what="%s %s: %r" % (kind, label, g))
        for s, _ in st:
            tabs = [n[1] for n in SQL.walk(s) if isinstance(n, tuple) and n[0] == "table" and len(n) == 3 and isinstance(n[1], tuple)] + ([s[1]] if s[0] in DML else [])
            if tabs and all(any(x.name == n[-1] and x not in (GEOMCOLS, SRS, CONTENTS) for d in it.env.dbs.values() for x in d.tables) for n in tabs):
                for n in SQL.walk(s):
                    if isinstance(n, tuple) and n[0] == "str" and n[1] in names:
                        ctx.check(False, "identifier", where(m), "%s: %s quotes the name of a column or table like a value (%r)" % (kind, label, n[1]), key="id|%s|%s" % (kind, label), path=["".join(c for c, _ in t)[:160]])
        if kind == "sqlite":
            for n in SQL.walk([s for s, _ in st]):
                if isinstance(n, tuple) and n[0] == "col" and len(n) > 2 and n[2] == "qid" and len(n[1]) == 1 and n[1][0].lower() not in cols:
                    ctx.check(False, "literal", where(m), "sqlite: %s quotes a value like an identifier (%r)" % (label, n[1][0]), key="lit|%s" % label, path=["".join(c for c, _ in t)[:160]])
    ctx.count("SQL texts", len(it.env.texts))


def inner(v, g):
    """a string that contains an identifier which is quoted itself"""
    try:
        return any(k.k == "qid" and k.v == g for k in SQL.tokens(SQL.Text([x for x in S(v).d]), True))
    except SQL.SqlError:
        return False


def run(ctx):
    ctx.rule("quoted", "characters of names and text values occur in quoted tokens only")
    ctx.rule("exact", "the token decodes to exactly the name or value")
    ctx.rule("literal", "a value is not quoted like an identifier, which SQLite would take for a column of that name")
    ctx.rule("identifier", "the name of a column or table is not quoted like a value")
    ctx.rule("structure", "the database accepts every command, whatever the names are")
    items = []
    for kind in ("sqlite", "postgres"):
        for o in ops(ctx.p, kind):
            if not o.name.startswith(("create,", "applyChangeset,")) and o.name not in ("open", "create"):
                items.append((kind + ", " + o.name, kind, o, None))
        for t in tables(kind):
            for op in ("insert", "update", "delete"):
                items.append(("%s, apply %s" % (kind, op), kind, None, [entry(t, op, "h")]))

    def one(c, item):
        label, kind, o, es = item
        s = hostile(kind)
        if o is not None and o.name.startswith("createTables"):
            s = Schema()
        if o is not None:
            c.cover(o.method["n"])
            full = o.name.startswith(("createChangeset", "dumpData"))
            for mr in (0, 1) if full else (0,):
                done, why = run_op(c.p, kind, o, Cfg(faults=0, base=s, mod=s, active="", maxrows=mr, few=True, maxruns=4, limit=90) if mr else Cfg(faults=0, base=s, mod=s, active="", maxrows=0, limit=90))
                if why == "too many paths" or mr:
                    why = None
                for it, r in outcomes(c, done, why, label):
                    look(c, kind, o.name, o.method, it)
            return
        done, why, m = applying(c.p, kind, es, Cfg(faults=0, nodml=True, base=s))
        c.cover(m["n"])
        for it, r in outcomes(c, done, why, label):
            look(c, kind, "applyChangeset", m, it)
            c.check(r[0] == "ok", "structure", where(m), "%s: an entry of a table with special characters in its names or values is not applied (%s)" % (kind, label), path=[repr(es[0]), str(r)[:200]] + story(it))
    ctx.par(one, items)
    ctx.need("SQL texts", ctx.counts.get("SQL texts"))
