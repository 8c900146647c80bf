"""C06: abstract interpretation of everything that writes changesets.

createChangeset and dumpData of both drivers run against abstract databases in which every query returns
no, one or two rows; inverting and rebasing run over scenarios of changesets.  The sequence of headers and
entries the writer receives is compared with the rule.
"""
from ..scen import *
from ..envs import decode
from .. import rebasing as RB

LEVEL = "other"


def judge(ctx, events, tables, where, what, path, done=True):
    """tables: name -> key flags of the tables that may be described"""
    cur = None
    seen = []
    for x in events:
        if x[0] == "header":
            cur = x
            seen.append(x[1])
            t = tables.get(x[1])
            if not ctx.check(t is not None, "header", where, "%s: a header of %r is written, which is not a table of the input" % (what, x[1]), key="header|unknown", path=path):
                return
            ctx.check(tuple(x[2]) == tuple(t), "header", where, "%s: the header of %r describes the key columns %s instead of %s" % (what, x[1], list(map(int, x[2])), list(map(int, t))),
                      key="header|columns", path=path, what=what)
        elif x[0] == "entry":
            op, old, new = x[1:]
            if not ctx.check(cur is not None, "under header", where, "%s: an entry is written before the first header" % what, key="under|none", path=path):
                return
            n = len(tables[cur[1]])
            if not ctx.check(op in DML, "values", where, "%s: an entry of the kind %s is written" % (what, op), key="values|kind", path=path):
                return
            ok = (op == "insert" or len(old) == n) and (op == "delete" or len(new) == n)
            ctx.check(ok, "values", where, "%s: an entry of kind %s with %d old and %d new values for %d columns" % (what, op, len(old), len(new), n), key="values|%s" % op, path=path, what=what)
            if ok and op != "update":
                vs = new if op == "insert" else old
                ctx.check(all(v != ("undef",) for v in vs), "values", where, "%s: an entry of kind %s lacks the value of a column" % (what, op), key="values|absent", path=path)
            if ok and op == "update":
                ctx.check(all(o != ("undef",) for o, k in zip(old, tables[cur[1]]) if k), "values", where, "%s: an update lacks the old value of a key column" % what, key="values|key", path=path)


def tablesof(val, out):
    """the tables whose columns a value was read from"""
    if isinstance(val, tuple):
        if len(val) == 4 and val[0] == "col":
            out.add((val[2], val[3]))
            return
        for x in val:
            tablesof(x, out)


def origin(ctx, events, where, what, path):
    """the values of an entry come from the table of its header"""
    cur = None
    for x in events:
        if x[0] == "header":
            cur = x[1]
        elif x[0] == "entry" and cur is not None:
            for v in used(x):
                s = set()
                tablesof(v, s)
                ctx.check(all(t == cur for t, c in s), "own table", where, "%s: an entry of the table %r is written under the header of %r" % (what, [t for t, c in s][0] if s else "", cur),
                          key="own table", path=path, what=what)


def used(x):
    """the values of an entry that are written"""
    return (list(x[2]) if x[1] != "insert" else []) + (list(x[3]) if x[1] != "delete" else [])


def producers(kind):
    if kind == "sqlite":
        A = Table("a'\"x", [("v", "TEXT", 0, 0), ("id", "INTEGER", 1, 1), ("w", "TEXT", 0, 0)])
        B = Table("b b", [("k", "INTEGER", 1, 1), ("l", "INTEGER", 1, 2)])
        G = Table("c", [("id", "INTEGER", 1, 1), ("d", "INTEGER", 0, 0), ("e", "INTEGER", 0, 0), ("f", "INTEGER", 0, 0)])
        X = Table("a none", [("x", "INTEGER", 0, 0), ("y", "TEXT", 0, 0)])
    else:
        A = Table("a'\"x", [("v", "text", 0, 0), ("id", "integer", 1, 1), ("w", "text", 0, 0)])
        B = Table("b b", [("k", "integer", 1, 1), ("l", "integer", 1, 2)])
        G = Table("c", [("id", "integer", 1, 1), ("d", "integer", 0, 0), ("e", "integer", 0, 0), ("f", "integer", 0, 0)])
        X = Table("a none", [("x", "integer", 0, 0), ("y", "text", 0, 0)])
    out = []
    for l, rows in (([A, B], 1), ([X, A, X, G], 1), ([G], 2), ([A], 2), ([B, X], 2)):
        for t in l:
            if kind == "postgres":
                t.serial = set()
        out.append((l, rows))
    return out


def run(ctx):
    p = ctx.p
    ctx.rule("header", "a header describes a table of the input with the key flag of every column, in order")
    ctx.rule("under header", "no entry precedes the first header")
    ctx.rule("own table", "every entry follows the header of the table its values come from")
    ctx.rule("values", "inserts carry a new, deletes an old value for every column, updates both sides and the old values of the key")
    items = []
    for kind in ("sqlite", "postgres"):
        for name, two in (("createChangeset", True), ("dumpData", False), ("dumpData", True)):
            m = method(p, CLS[kind], name)
            ctx.need(CLS[kind] + "::" + name, m)
            for j, (tabs, rows) in enumerate(producers(kind)):
                items.append(("%s %s" % (kind, name), kind, name, two, tabs, rows, m))

    def produce(c, item):
        label, kind, name, two, tabs, rows, m = item
        uniq = []
        for t in tabs:
            if t.name not in [x.name for x in uniq]:
                uniq.append(t)
        sch = Schema(uniq) if kind == "sqlite" else Schema(uniq)
        cfg = Cfg(faults=0, active="", maxrows=rows, base=sch, mod=sch, maxruns=6000, limit=120)
        args = [writer("out")] + ([K(int(two), 8)] if name == "dumpData" else [])
        done, why = operation(p, kind, lambda it, d: it.callfn(m, args, d), cfg, None, two)
        flags = {t.name: t.pk for t in uniq}
        n = 0
        for it, r in outcomes(c, done, why, label):
            c.functions |= it.covered
            ev = it.env.out.get("out", [])
            path = ["tables: " + ", ".join(t.name for t in uniq)] + [str(x)[:160] for x in ev]
            judge(c, ev, flags, where(m), label, path)
            if kind == "sqlite":
                origin(c, ev, where(m), label, path)
            else:
                pg(c, it, ev, flags, where(m), label, path)
            n += len([x for x in ev if x[0] == "entry"])
            c.check(all(flags.get(x[1]) is None or any(flags[x[1]]) for x in ev if x[0] == "header"), "header", where(m), "%s: a table without a key is written" % label, key="nokey", path=path)
        c.count("entries", n)
        c.need("entries of %s" % label, n)

    def pg(c, it, ev, flags, wh, label, path):
        """which table the rows of the results belong to"""
        reps = {}
        for (q, r), l in it.env.rowinfo.items():
            for col, v in l:
                if v is not None:
                    reps[v.n] = col
        cur = None
        for x in ev:
            if x[0] == "header":
                cur = x[1]
            elif x[0] == "entry" and cur is not None:
                for v in used(x):
                    for n in numbers(v, it):
                        if n in reps:
                            c.check(reps[n][2] == cur, "own table", wh, "%s: an entry of the table %r is written under the header of %r" % (label, reps[n][2], cur), key="own table", path=path, what=label)

    ctx.par(produce, items)

    # inverting
    inv = fn(p, "invertChangeset")
    ctx.need("invertChangeset", inv)
    tabs = {"a": (True, False, False), "b": (False, True), "c": (True, True, False), "d": (True, False, False)}

    def ent(t, op, tag):
        pk = tabs[t]
        a = [("int", ((t, tag), i, "old")) for i in range(len(pk))]
        b = [("int", ((t, tag), i, "new")) for i in range(len(pk))]
        if op == "insert":
            return E(t, pk, op, new=b)
        if op == "delete":
            return E(t, pk, op, old=a)
        return E(t, pk, op, a, [U if k else x for k, x in zip(pk, b)])
    seqs = [s for n in (1, 2, 3) for s in itertools.product(tabs, repeat=n)]
    scen = [[ent(t, o, j) for j, (t, o) in enumerate(zip(s, ops))] for s in seqs for ops in (("insert", "update", "delete"), ("update", "insert", "update"), ("delete", "delete", "insert"))]

    def tags(c, ev, wh, label, path):
        cur = None
        for x in ev:
            if x[0] == "header":
                cur = x[1]
            elif x[0] == "entry":
                for v in used(x):
                    if len(v) > 1 and isinstance(v[1], tuple) and isinstance(v[1][0], (tuple, str)):
                        t = v[1][0][0] if isinstance(v[1][0], tuple) else v[1][0]
                        c.check(t == cur, "own table", wh, "%s: an entry of the table %r is written under the header of %r" % (label, t, cur), key="own table", path=path, what=label)

    def invert(c, l):
        for entries in l:
            def body(it):
                it.callfn(inv, [reader("in"), writer("out")])
            done, why = explore(p, lambda: Env(p, {"in": entries}), body, 60)
            for it, r in done:
                if r[0] == "error":
                    c.incomplete.append(r[1])
                elif not it.nfaults:
                    ev = it.env.out.get("out", [])
                    path = [repr(e) for e in entries] + [str(x)[:160] for x in ev]
                    judge(c, ev, tabs, where(inv), "inverting", path)
                    tags(c, ev, where(inv), "inverting", path)
                    c.count("runs")
    ctx.par(invert, [scen[i::8] for i in range(8)])

    # rebasing
    rs = [s for s in RB.scenarios(ctx.thorough) if s[0] in ("several tables", "another table", "contents table", "two rows", "inserts first") or s[0].startswith("their")]
    ctx.need("GEODIFF_createRebasedChangesetEx", fn(p, "GEODIFF_createRebasedChangesetEx"))

    def reb(c, l):
        for what, theirs, own in l:
            done, why, f = RB.rebased(p, theirs, own)
            for it, r in done:
                if r[0] == "error":
                    c.incomplete.append("rebasing: %s" % r[1])
                    continue
                ev = it.env.out.get(RB.OUT)
                if isinstance(ev, list):
                    path = ["their %r" % e for e in theirs] + ["own %r" % e for e in own] + [str(x)[:160] for x in ev]
                    flags = {e.table: e.pk for e in own}
                    judge(c, ev, flags, where(f), "rebasing", path)
                    tags(c, ev, where(f), "rebasing", path)
                    c.count("runs")
    ctx.par(reb, [rs[i::16] for i in range(16)])
    ctx.need("runs", ctx.counts.get("runs"))


def numbers(v, it):
    """the abstract PostgreSQL values a changeset value was made of"""
    out = []
    for x in (v[1:] if isinstance(v, tuple) else ()):
        if isinstance(x, int):
            out.append(abs(x))
        elif isinstance(x, str):
            out += [int(y) for y in __import__("re").findall(r"\d+", x)][:1]
    return out
