"""C07: abstract interpretation of inverting a changeset.

invertChangeset() is interpreted for sequences of entries over several tables; the contents of all
values are opaque.  What the writer receives is compared with the inverse of each entry.
"""
import itertools
from ..envs import *

LEVEL = "other"


def inverse(e):
    if e.op == "insert":
        return E(e.table, e.pk, "delete", old=list(e.new))
    if e.op == "delete":
        return E(e.table, e.pk, "insert", new=list(e.old))
    old, new = [], []
    for pk, o, n in zip(e.pk, e.old, e.new):
        if pk and n == U:
            old.append(o)
            new.append(U)
        else:
            old.append(n)
            new.append(o)
    return E(e.table, e.pk, "update", old=old, new=new)


def val(kind, name):
    return (kind,) if kind in ("null", "undef") else (kind, name)


def run(ctx):
    p = ctx.p
    ctx.rule("inverse", "every entry is written exactly once, in order, as its inverse, under the header of its own table")
    ctx.rule("failure", "a failure while reading or writing, or an unknown operation, makes inverting fail")
    f = fn(p, "invertChangeset")
    ctx.need("invertChangeset", f)
    where = "%s (%s:%d)" % (f["n"], f["file"].split("/")[-1], f["l"])
    scen = []
    # single entries: every kind of column in every position
    colkinds = ["pk same", "pk changed", "same", "changed", "to null", "from null"]

    def update(table, kinds, tag, types=("int", "text")):
        old, new, pk = [], [], []
        for i, k in enumerate(kinds):
            t0 = types[i % len(types)]
            a, b = (t0, ("%s old" % tag, i)), (t0, ("%s new" % tag, i))
            pk.append(k.startswith("pk"))
            if k in ("pk same",):
                old.append(a)
                new.append(U)
            elif k == "same":
                old.append(U)
                new.append(U)
            elif k == "to null":
                old.append(a)
                new.append(N)
            elif k == "from null":
                old.append(N)
                new.append(b)
            else:
                old.append(a)
                new.append(b)
        return E(table, pk, "update", old, new)

    def row(table, pk, op, tag):
        v = [(("int", "text", "real", "blob", "null")[i % 5],) + ((("%s" % tag, i),) if i % 5 != 4 else ()) for i in range(len(pk))]
        return E(table, pk, op, **{"new" if op == "insert" else "old": v})
    n = 4 if ctx.thorough else 3
    for k in range(1, n + 1):
        for kinds in itertools.product(colkinds, repeat=k):
            scen.append([update("alpha", kinds, "u")])
    for pk in itertools.product((False, True), repeat=5):
        for op in ("insert", "delete"):
            scen.append([row("alpha", pk, op, op)])
    # sequences: the table changes, changes back, changes its definition
    A = ("alpha", (True, False, False), ("pk same", "same", "changed"))
    B = ("beta", (False, True), ("changed", "pk same"))
    A2 = ("alpha", (False, True, False), ("changed", "pk same", "same"))
    A3 = ("alpha", (True, False, False, True), ("pk same", "same", "changed", "pk same"))

    C = ("gamma", (True, False, False), ("pk same", "changed", "same"))
    D = ("gammb", (True, False), ("pk same", "changed"))

    def ent(t, op, tag):
        return update(t[0], t[2], tag) if op == "update" else row(t[0], t[1], op, tag)
    for k in (2, 3):
        tabs = itertools.product((A, B, A2, A3, C, D), repeat=k) if k == 2 else itertools.product((A, B, A2, C), repeat=k)
        for ts in tabs:
            for ops in itertools.product(("insert", "delete", "update"), repeat=k):
                if k == 3 and not ctx.thorough and len(set(ops)) > 1 and ops not in (("insert", "update", "delete"), ("update", "delete", "update"), ("delete", "insert", "update")):
                    continue
                scen.append([ent(t, o, "e%d" % i) for i, (t, o) in enumerate(zip(ts, ops))])
    scen.append([])

    chunks = [scen[i::16] for i in range(16)]

    def work(c, l):
        for entries in l:
            one(c, entries)

    def one(c, entries):
        def body(it):
            it.callfn(f, [reader("in"), writer("out")])
        done, why = explore(p, lambda: Env(p, {"in": entries}), body, 60)
        if why:
            c.incomplete.append(why)
        for it, r in done:
            c.count("runs")
            c.functions |= it.covered
            if r[0] == "error":
                c.incomplete.append(r[1])
                continue
            if it.nfaults:
                c.check(r[0] == "throw", "failure", where, "a failed read or write is not reported (entries: %s)" % (entries,), key="failure", what="one failing step")
                continue
            if r[0] != "ok":
                c.viol("inverse", where, "inverting %s fails (%s)" % (entries, " ".join(map(str, r[:2]))), key="inverse")
                continue
            out, msg = decode(it.env.out.get("out", []))
            if msg is None:
                want = [inverse(e) for e in entries]
                for i, w in enumerate(want):
                    if i >= len(out):
                        msg = "no inverse of %s" % (entries[i],)
                    elif out[i].key() != w.key():
                        msg = "the inverse of %s is %s" % (entries[i], out[i])
                    if msg:
                        break
                if msg is None and len(out) > len(want):
                    msg = "an additional entry %s" % (out[len(want)],)
            c.check(msg is None, "inverse", where, msg, key="inverse", what="%d entries" % len(entries))
    ctx.par(work, chunks)
    for op in (0, 10, 17, 24):
        def body(it):
            it.callfn(f, [reader("in"), writer("out")])
        done, why = explore(p, lambda: Env(p, {"in": [E("alpha", (True, False), op, [("int", "a"), ("int", "b")], [("int", "c"), ("int", "d")])]}), body, 60)
        for it, r in done:
            if r[0] == "error":
                ctx.incomplete.append(r[1])
            else:
                ctx.check(r[0] == "throw", "failure", where, "an entry of the unknown kind %d is not an error" % op, key="unknown", what="unknown operation %d" % op)
