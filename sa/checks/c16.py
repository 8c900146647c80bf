"""C16: the queries with which databases are compared, evaluated over all small databases.

createChangeset() is interpreted against abstract databases.  Each query whose rows became entries of a
kind is evaluated symbolically for every pair of small tables; the rows it selects must be those the
comparison has to find.
"""
from ..compare import *

LEVEL = "other"
VALUES = {"int": (1, 2), "real": (1.5, 1.5 + 2.0 ** -40), "text": ("ab", "aB", "ab "), "blob": ("\x00ab", "\x00aB"), "bool": (True, False), "geom": (Geom(b"\1g1", 4326), Geom(b"\1g2", 4326))}


def box(kind, type, v):
    return v if kind == "sqlite" or v is None else PgV(type, bytes(v, "latin-1") if type == "bytea" and isinstance(v, str) else v)


def databases(kind, t, lits):
    """pairs of (base rows, modified rows)"""
    pks = [i for i, c in enumerate(t.cols) if c[3]]
    oth = [i for i, c in enumerate(t.cols) if not c[3]]
    dom = []
    for i, c in enumerate(t.cols):
        k = kindof(c[1])
        d = list(VALUES[k])
        for x in lits:
            if k == "text" and isinstance(x, str) or k in ("int", "real") and isinstance(x, (int, float)) and not isinstance(x, bool):
                if x not in d:
                    d.append(x)
        if i in oth:
            d = [None] + d
        dom.append([box(kind, c[1], x) for x in d])

    def row(key, vals):
        r = [None] * len(t.cols)
        for i, x in zip(pks, key):
            r[i] = x
        for i, x in zip(oth, vals):
            r[i] = x
        return r
    keys = list(itertools.product(*[dom[i][:2] for i in pks]))[:4]
    # SQLite allows NULL in primary keys, unless the key is the row's number
    if kind == "sqlite" and not (len(pks) == 1 and t.cols[pks[0]][1].upper() == "INTEGER"):
        k = len(keys)
        keys += [(None,) + keys[0][1:], (None,) * len(pks)] if len(pks) > 1 else [(None,)]
        firsts = [keys[0]] + keys[k:]
    else:
        firsts = keys[:1]
    if len(oth) <= 1:
        states = [x for x in itertools.product(*[dom[i] for i in oth])]
    else:
        base = [dom[i][1] for i in oth]
        states = [tuple(base)]
        for j, i in enumerate(oth):
            for x in dom[i]:
                s = tuple(base[:j] + [x] + base[j + 1:])
                if s not in states:
                    states.append(s)
        states.append(tuple(None for _ in oth))
        states.append(tuple(dom[i][2] for i in oth))
    z = states[min(1, len(states) - 1)]
    for k0 in firsts:
        rest = [x for x in keys if x != k0 or None in x]
        for a in [None] + states:
            for b in [None] + states:
                for other in rest or [None]:
                    for c, d in ((0, 0), (0, 1), (1, 0), (1, 1), (2, 1)):
                        if other is None and c + d:
                            continue
                        B = ([row(k0, a)] if a is not None else []) + ([row(other, states[0] if c == 2 else z)] if c else [])
                        M = ([row(k0, b)] if b is not None else []) + ([row(other, z)] if d else [])
                        if any(l.count(x) > 1 for l in (B, M) for x in l):
                            continue        # two rows of one content without a key
                        yield B, M
                        if len(B) == 2 and len(M) == 2 and a is not None and b is not None:
                            yield B[::-1], M


class Ev(PgEval):
    def function(self, n, args):
        if n in ("st_asbinary", "to_char", "st_asewkb", "encode", "replace", "rtrim", "btrim"):
            return args[0]
        return PgEval.function(self, n, args)


def evaluator(kind, find):
    return SQL.Eval(find) if kind == "sqlite" else Ev(find, {}, pg=True)


def expected(op, t, B, M):
    pks = [i for i, c in enumerate(t.cols) if c[3]]
    # rows with NULL in the key have no key: only all their columns together identify them
    key = lambda r: tuple(r) if any(r[i] is None for i in pks) else tuple(r[i] for i in pks)
    kb, km = {key(r): r for r in B}, {key(r): r for r in M}
    pk = lambda r: tuple(r[i] for i in pks)
    if op == "insert":
        return [pk(km[k]) for k in km if k not in kb]
    if op == "delete":
        return [pk(kb[k]) for k in kb if k not in km]
    return [k for k in kb if k in km and kb[k] != km[k]]


def queries(ctx, kind, t, good):
    """op -> {query text: (select, columns, roles)}; whether every row became an entry"""
    out, silent = {}, set()
    for it, r in good:
        ix = pgindex(it, kind) if kind == "postgres" else None
        q = {x[1]: x for x in it.env.events if x[0] == "query"}
        rows = set()
        used = {}
        for e in entries(it):
            w = rowof(kind, it, e, ix, t)
            if w is not None:
                used.setdefault(w, []).append(e[1])
        for x in it.env.events:
            if x[0] == "row":
                n = x[1]
                if kind == "postgres":
                    rows.add((n, x[2]))
        if kind == "sqlite":
            rows = {(c[2], c[3]) for c in cellrows(it)}
        for (n, pos), ops_ in used.items():
            if n not in q:
                continue
            sel, cols = q[n][2][1], q[n][3]
            for o in ops_:
                out.setdefault(o, {}).setdefault(repr(sel), (sel, cols, it))
        for n, pos in rows - set(used):
            if n in q:
                silent.add(repr(q[n][2][1]))
    return out, silent


def cellrows(it):
    """rows of which a value was looked at"""
    out = []
    for k in it.cell:
        cellsin(k, out)
    return out


def run(ctx):
    ctx.rule("all", "the queries for a kind of change select every row that changed in this way")
    ctx.rule("only", "they select no other row, and none twice")
    ctx.rule("dump", "dumping a database selects every row of every table once")
    ctx.rule("valid", "the database accepts the query")
    items = []
    for kind in ("sqlite", "postgres"):
        for n in ("createChangeset", "dumpData"):
            ctx.need("%s::%s" % (CLS[kind], n), method(ctx.p, CLS[kind], n))
        for t in tables(kind):
            items.append(("%s, table %s" % (kind, t.name), kind, t))

    def one(c, item):
        label, kind, t = item
        oth = [x[0] for x in t.cols if not x[3]]
        done, why, m = comparisons(c.p, kind, [t], oth[0] if oth else "", kinds=("int", "null"))
        good = outcomes(c, done, why, label)
        c.functions |= {f for it, r in good for f in it.covered}
        for it, r in good:
            bad = [x for x in it.env.events if x[0] == "bad sql"]
            c.check(not bad, "valid", where(m), "%s: the database rejects a query: %s" % (label, bad[0][-1] if bad else ""), key="valid|" + kind, path=[str(x)[:300] for x in bad], what=label)
        qs, silent = queries(c, kind, t, good)
        for op in DML:
            l = list(qs.get(op, {}).values())
            if not l and (op != "update" or oth):
                if c.incomplete:
                    continue
                c.check(False, "all", where(m), "%s: no query selects rows for entries of the kind %s" % (label, op), key="all|%s|%s" % (kind, op))
                continue
            try:
                judge(c, kind, t, op, l, silent, m, label)
            except SQL.Unknown as u:
                c.incomplete.append("%s: %s" % (label, u))
            except SQL.SqlError as u:
                c.check(False, "valid", where(m), "%s: the database rejects the query for entries of the kind %s (%s)" % (label, op, u), key="valid|%s|%s" % (kind, op), path=[repr(l[0][0])[:300]])
        for two in (False, True):
            done, why, m = comparisons(c.p, kind, [t], "", name="dumpData", args=lambda: [writer("out"), K(int(two), 8)], two=True)
            good = outcomes(c, done, why, label)
            qs, silent = queries(c, kind, t, good)
            for op, l in qs.items():
                try:
                    dump(c, kind, t, list(l.values()), two, silent, m, label)
                except SQL.Unknown as u:
                    c.incomplete.append("%s: %s" % (label, u))

    def keysof(kind, t, sel, cols, it, op):
        """positions of the key columns in the result, and their database"""
        o = [x if kind == "sqlite" else x[1] for x in cols]
        pos = []
        for c in t.cols:
            if c[3]:
                h = [i for i, x in enumerate(o) if isinstance(x, tuple) and x[0] == "col" and x[2] == t.name and x[3] == c[0]]
                if not h:
                    raise SQL.Unknown("the key is not among the columns")
                pos.append(h[0])
        return pos

    def finder(kind, t, it, B, M):
        names = t.star()

        def find(n):
            if len(n) != 2:
                if kind == "sqlite" and n[0] == t.name:
                    n = ("main",) + tuple(n)
                else:
                    raise SQL.Unknown("table %s" % ".".join(n))
            r = role(kind, it, n[0])
            if r is None or n[1] != t.name:
                raise SQL.Unknown("table %s" % ".".join(n))
            return names, [t.star(x) for x in (B if r == "base" else M)]
        return find

    def judge(c, kind, t, op, l, silent, m, label):
        lits = set()
        for sel, cols, it in l:
            lits |= SQL.literals(sel)
            lim = [x for x in SQL.walk(sel) if isinstance(x, dict) and x.get("limit") is not None]
            c.check(not lim, "all", where(m), "%s: the query for entries of the kind %s returns a limited number of rows" % (label, op), key="limit|" + op)
        pos = [keysof(kind, t, sel, cols, it, op) for sel, cols, it in l]
        n = 0
        for B, M in databases(kind, t, lits):
            want = expected(op, t, B, M)
            got = []
            for (sel, cols, it), ks in zip(l, pos):
                rows = evaluator(kind, finder(kind, t, it, B, M)).select(sel)[1]
                got += [tuple(r[i] for i in ks) for r in rows]
            n += 1
            path = ["base %s" % B, "modified %s" % M, "selected %s" % got, "expected %s" % want]
            for k in want:
                if got.count(k) < want.count(k):
                    c.check(False, "all", where(m), "%s: a row is not found as %s" % (label, {"insert": "inserted", "delete": "deleted", "update": "updated"}[op]), key="all|%s|%s" % (kind, op), path=path)
                    return
            for k in got:
                if k not in want or got.count(k) > want.count(k):
                    if any(repr(x[0]) in silent for x in l):
                        c.incomplete.append("%s: rows of the query for %s are filtered afterwards" % (label, op))
                        return
                    c.check(False, "only", where(m), "%s: a row is %s as %s" % (label, "found twice" if k in want else "found", {"insert": "inserted", "delete": "deleted", "update": "updated"}[op]), key="only|%s|%s" % (kind, op), path=path)
                    return
        c.count("databases", n)
        c.ok("all", "%s, %s: %d databases" % (label, op, n))
        c.ok("only", "%s, %s: %d databases" % (label, op, n))

    def dump(c, kind, t, l, two, silent, m, label):
        for B, M in databases(kind, t, set().union(*[SQL.literals(x[0]) for x in l])):
            want = [tuple(r[i] for i, x in enumerate(t.cols) if x[3]) for r in (M if two else B)]
            got = []
            for sel, cols, it in l:
                ks = keysof(kind, t, sel, cols, it, "insert")
                got += [tuple(r[i] for i in ks) for r in evaluator(kind, finder(kind, t, it, B, M)).select(sel)[1]]
            path = ["base %s" % B, "modified %s" % M, "selected %s" % got, "expected %s" % want]
            if sorted(map(repr, got)) != sorted(map(repr, want)):
                c.check(False, "dump", where(m), "%s: dumping does not select every row of the table once" % label, key="dump|" + kind, path=path)
                return
        c.ok("dump", label)
    ctx.rule("tables", "every table with a key is compared and dumped, except those that triggers or SQLite itself maintain")

    def everytable(c, item):
        label, kind, name, two = item
        names = ["alpha", "Beta", "my rtree_x", "xgpkg_ogr_contents", "sqlitesequence", "R\"tre'e", "gpkg_contents", "gpkg_geometry_columns", "gpkg_spatial_ref_sys", "gpkg_extensions",
                 "gpkg_tile_matrix", "create virtual", "\u00e4\u00f6", "zz_layer_rtree_", "gpkg", "sqlite seq"]
        kept = ["gpkg_ogr_contents", "rtree_alpha_geom_node", "rtree_alpha_geom_rowid", "sqlite_sequence"]
        if kind == "sqlite":    # names that begin like the excluded ones, up to every length
            names += [p[:k] + "Zq" for p in ("gpkg_ogr_contents", "rtree_", "sqlite_sequence") for k in range(3, len(p))] + ["sqlite_sequence2", "xsqlite_sequence", "rtreeZq", "gpkg_ogr_contentZq"]
        ty = ("INTEGER", "TEXT") if kind == "sqlite" else ("integer", "text")
        ts = [Table(n, [("id", ty[0], 1, 1), ("v", ty[1], 0, 0)]) for n in names + (kept if kind == "sqlite" else [])] + [Table("nokey", [("id", ty[0], 0, 0)])]
        for t in ts:
            t.serial = set()
        args = None if name == "createChangeset" else lambda: [writer("out"), K(int(two), 8)]
        done, why, m = comparisons(c.p, kind, ts, "", 1, "all", name, args, True)
        full = [(it, r) for it, r in outcomes(c, done, why, label) if r[0] == "ok" and it.env.withrows is True]
        c.need("a run of %s" % label, full)
        for it, r in full:
            seen = {}
            for e in entries(it):
                seen.setdefault(e[0][1] if e[0] else None, set()).add(e[1])
            for n in names:
                want = set(DML) if name == "createChangeset" else {"insert"}
                got = seen.get(n, set())
                if name == "createChangeset" and got and got != want and got | {"update"} == want:
                    got = want      # an update without a difference need not be written
                c.check(got == want, "tables", where(m), "%s: no entries of the kind %s are written for the table %s" % (label, "/".join(sorted(want - got)), n), key="tables|%s|%s" % (kind, n), what="%s: %s" % (label, n))
            for n in kept:
                c.check(n not in seen, "tables", where(m), "%s: entries are written for the table %s, which is maintained by triggers or by SQLite" % (label, n), key="kept|" + n, what=n)
            break
    ctx.par(everytable, [("%s %s" % (k, n), k, n, two) for k in ("sqlite", "postgres") for n, two in (("createChangeset", True), ("dumpData", False), ("dumpData", True))])
    ctx.rule("dump", "dumping selects every row of the table once")
    ctx.par(one, items)
    ctx.need("databases", ctx.counts.get("databases"))
