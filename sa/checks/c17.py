"""C17: where the values of the entries of a comparison come from.

createChangeset() and dumpData() are interpreted against abstract databases; every value carries the
database, table, column, query and row it was read from, and which values are equal is undetermined.
"""
from ..compare import *

LEVEL = "other"
ABSENT = ("undef",)


def sqval(env, c):
    """what the changeset must carry for a value of the database"""
    k = env.known_kind(c)
    if k is None:
        return None
    return {"null": ("null",), "int": ("int", ("int", c)), "real": ("real", ("real", c)), "text": ("text", c), "blob": ("blob", c)}[k]


KNOWN = ("eq", "memeq", "streq", "not", "fault", "last row", "every query returns rows", "lt")


def related(it, a, b):
    """the code compared the two values in a way that is not understood"""
    for k in it.cell:
        l = []
        cellsin(k, l)
        if a in l and b in l and k[0][0] not in KNOWN:
            return True
    return False


def rowdata(kind, it, t, w, d):
    """[value or None, ...] and [identity, ...] of the columns of a row of the database d"""
    if kind == "sqlite":
        return [("val", ("col", d, t.name, c[0]), w[0], w[1]) for c in t.cols]
    out = []
    info = it.env.rowinfo.get(w, [])
    for c in t.cols:
        h = [v for col, v in info if col == ("col", d, t.name, c[0])]
        out.append(h[0] if h else Ellipsis)
    return out


def valueof(kind, it, x, t, i):
    if kind == "sqlite":
        return sqval(it.env, x)
    if x is Ellipsis:
        return None
    return ("null",) if x is None else x.value(4326)


def equal(kind, it, a, b):
    if kind == "sqlite":
        r = it.env.facts_equal(a, b)
        if r is None:
            cell = it.cell
            m = cell.get((("memeq",) + tuple(sorted((a, b), key=repr)), 0))
            if m:
                return False
        return r
    if a is Ellipsis or b is Ellipsis:
        return None
    return a is b


def name(x):
    if x == ABSENT:
        return "no value"
    l = []
    cellsin(x, l)
    if l:
        c = l[0]
        return "the %s of column %s of the %s database%s" % (x[0], c[1][3], {"main": "modified", "aux": "base"}.get(c[1][1], c[1][1]), "" if x in (("text", c), ("blob", c), ("int", ("int", c)), ("real", ("real", c))) else ", converted")
    return repr(x)[:60]


def run(ctx):
    ctx.rule("insert", "an insert entry carries the value of every column of the modified row")
    ctx.rule("delete", "a delete entry carries the value of every column of the base row")
    ctx.rule("update", "an update entry carries base and modified value of changed columns, the base value of unchanged key columns, and nothing else")
    ctx.rule("dump", "a dumped row carries the value of every column")
    ctx.rule("each row", "every selected row becomes one entry")
    ctx.rule("succeeds", "comparing values of all types succeeds")
    items = []
    for kind in ("sqlite", "postgres"):
        for n in ("createChangeset", "dumpData"):
            ctx.need("%s::%s" % (CLS[kind], n), method(ctx.p, CLS[kind], n))
        ts = tables(kind)
        for j, t in enumerate(ts):
            for c in t.cols:
                full = kind == "sqlite" and not c[3] and (j == 0 or ctx.thorough)
                items.append(("%s, %s, %s" % (kind, t.name, c[0]), kind, t, c[0], None if full else ("int", "null") if not c[3] else ("int",), 1, "createChangeset", None))
        for j in (0, 2, 4):
            t = ts[j]
            oth = [c[0] for c in t.cols if not c[3]]
            items.append(("%s, %s, several rows" % (kind, t.name), kind, t, oth[0] if oth else "", ("int", "null"), 2, "createChangeset", None))
        for j in (0, 2, 5, len(ts) - 1):
            t = ts[j]
            oth = [c[0] for c in t.cols if not c[3]]
            for two in (False, True):
                items.append(("%s, dump of %s" % (kind, t.name), kind, t, oth[0] if oth else "", None, 1, "dumpData", two))
                items.append(("%s, dump of several rows of %s" % (kind, t.name), kind, t, oth[0] if oth else "", ("int", "null"), 2, "dumpData", two))

    def one(c, item):
        label, kind, t, active, kinds, rows, op, two = item
        args = None if op == "createChangeset" else lambda: [writer("out"), K(int(two), 8)]
        done, why, m = comparisons(c.p, kind, [t], active, rows, True, op, args, True, kinds)
        wh = where(m)
        n = 0
        for it, r in outcomes(c, done, why, label):
            c.functions |= it.covered
            ix = pgindex(it, kind) if kind == "postgres" else None
            path = [str(x)[:250] for x in it.env.out.get("out", [])]
            if not c.check(r[0] == "ok", "succeeds", wh, "%s: comparing fails (%s)" % (label, " ".join(map(str, r))[:80]), key="succeeds|" + kind, path=path, what=label):
                continue
            role_ = {}
            seen = {}
            for e in entries(it):
                if e[0] is None or e[0][1] != t.name:
                    continue
                n += 1
                judge(c, kind, it, t, e, ix, wh, label, path, op, seen, two)
            for w, k in seen.items():
                c.check(k == 1, "each row", wh, "%s: a row becomes %d entries" % (label, k), key="twice|" + kind, path=path, what=label)
            if kind == "postgres":
                for x in it.env.events:
                    if x[0] == "row" and (x[1], x[2]) not in seen:
                        info = it.env.rowinfo.get((x[1], x[2]), [])
                        vals = {}
                        for col, v in info:
                            vals.setdefault(col[3], []).append(v)
                        same = all(len(l) == 2 and l[0] is l[1] for l in vals.values())
                        c.check(same, "each row", wh, "%s: a selected row becomes no entry" % label, key="none|" + kind, path=path)
            else:
                qs = {x[1]: x[3] for x in it.env.events if x[0] == "query"}
                for x in it.env.events:
                    if x[0] == "row" and (x[1], x[2]) not in seen:
                        cols = [y for y in qs.get(x[1], []) if isinstance(y, tuple) and y[0] == "col"]
                        if not cols or any(y[2] != t.name for y in cols):
                            continue
                        d = sorted({y[1] for y in cols})
                        same = len(d) == 2 and all(equal(kind, it, *[("val", ("col", z, t.name, y[0]), x[1], x[2]) for z in d]) for y in t.cols)
                        c.check(same, "each row", wh, "%s: a selected row becomes no entry" % label, key="none|" + kind, path=path)
        c.count("entries", n)
        c.need("entries of " + label, n)

    def judge(c, kind, it, t, e, ix, wh, label, path, op, seen, two):
        hdr, k, old, new = e
        rows = set()
        for i, v in [(i, v) for l in ((old if k != "insert" else []), (new if k != "delete" else [])) for i, v in enumerate(l)]:
            if kind == "sqlite":
                l = []
                cellsin(v, l)
                rows |= {(x[2], x[3]) for x in l}
            elif v in ix and i < len(t.cols) and kindtext(t.cols[i][1]) != "bool":
                rows.add(ix[v])
        rule = "dump" if op == "dumpData" else k if k in ("insert", "delete", "update") else "update"
        if not c.check(len(rows) == 1, rule, wh, "%s: the values of an entry of kind %s come from %d rows" % (label, k, len(rows)), key="rows|%s|%s" % (kind, k), path=path):
            return
        w = rows.pop()
        seen[w] = seen.get(w, 0) + 1
        db = {}
        for d in (("main", "aux") if kind == "sqlite" else (BASE, MOD)):
            r = role(kind, it, d)
            if r:
                db[r] = d
        if not c.check(len(old) == len(t.cols) or k == "insert", rule, wh, "%s: an entry of kind %s has %d old values" % (label, k, len(old)), key="n|" + k, path=path) or \
                not c.check(len(new) == len(t.cols) or k == "delete", rule, wh, "%s: an entry of kind %s has %d new values" % (label, k, len(new)), key="n|" + k, path=path):
            return
        base = rowdata(kind, it, t, w, db.get("base"))
        mod = rowdata(kind, it, t, w, db.get("modified"))
        for i, col in enumerate(t.cols):
            what = "%s, %s, column %s" % (label, k, col[0])
            if k in ("insert", "delete"):
                src = (mod if two else base) if op == "dumpData" else mod if k == "insert" else base
                want = valueof(kind, it, src[i], t, i)
                got = (new if k == "insert" else old)[i]
                bad(c, rule, kind, wh, what, got, want, col, path)
                continue
            a, b = valueof(kind, it, base[i], t, i), valueof(kind, it, mod[i], t, i)
            eq = equal(kind, it, base[i], mod[i])
            if eq is None:
                if kind == "sqlite" and related(it, base[i], mod[i]):
                    c.incomplete.append("%s: how the values are compared" % what)
                    continue
                if kind == "postgres":
                    c.check(False, rule, wh, "%s: the value is not selected" % what, key="sel|" + kind, path=path)
                    continue
                c.check(False, rule, wh, "%s: whether the column changed is not established" % what, key="cmp|%s" % kind, path=path)
                continue
            if col[3] and not eq:
                continue        # the query joins the rows on equal keys
            bad(c, rule, kind, wh, what + ", old side", old[i], (a if col[3] else ABSENT) if eq else a, col, path)
            bad(c, rule, kind, wh, what + ", new side", new[i], ABSENT if eq else b, col, path)

    def bad(c, rule, kind, wh, what, got, want, col, path):
        if want is None:
            c.check(got == ABSENT or kind != "sqlite", rule, wh, "%s: %s although its type was not determined" % (what, name(got)), key="type|" + kind, path=path)
            return
        c.check(got == want, rule, wh, "%s: %s instead of %s" % (what, name(got), name(want)), key="%s|%s" % (rule, kind), path=path, what=what)
    ctx.par(one, items)
    ctx.need("entries", ctx.counts.get("entries"))
