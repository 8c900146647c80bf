"""C02: abstract interpretation of applying a changeset: on success every entry took effect once.

Values of the entries are distinct, so each executed statement identifies the entry it is for.
"""
from ..scen import *
from .. import sql as SQL

LEVEL = "other"


def values_of(w):
    """concrete values a statement carries, bound or literal"""
    out = [conc(v) for k, v in w[4].items()]
    for x in SQL.walk(w[3]):
        if isinstance(x, tuple) and x[0] in ("num", "str") and len(x) > 1:
            out.append(x[1])
            if x[0] == "str" and str(x[1]).startswith("\\x"):
                try:
                    b = bytes.fromhex(str(x[1])[2:])
                    out += [b, b"GP\0\1" + struct.pack("<i", 4326) + b]
                except ValueError:
                    pass
            if x[0] == "str":
                try:
                    out.append(real(float(x[1])))
                except ValueError:
                    pass
        if isinstance(x, tuple) and x[0] == "neg" and x[1][0] == "num":
            out.append(-x[1][1])
    return out


def real(f):
    return conc(("real", ("dbl", struct.unpack("<Q", struct.pack("<d", f))[0])))


def belongs(w, e):
    """is the statement for this entry?  (it carries the entry's key)"""
    vs = values_of(w)
    side = e.new if e.op == "insert" else e.old
    keys = [v for v, pk in zip(side, e.pk) if pk]
    return all(any(type(conc(k)) is type(v) and conc(k) == v for v in vs) for k in keys)


def judge(ctx, kind, name, es, m, it, r):
    w = where(m)
    what = "%s (%s)" % (name, fault_text(it))
    if r[0] != "ok":
        if r[0] in ("undef", "oob"):
            ctx.incomplete.append("%s: %s" % (what, r[0]))
        else:
            ctx.ok("executed once", what)
        return
    ctx.check(not any(x[0] == "failed" for x in it.env.events), "failure", w, "%s: applying succeeds although a statement failed" % kind, path=[what] + story(it))
    ws = dml([x for db in it.env.conns for x in db.durable])
    left = list(ws)
    for i, e in enumerate(es):
        if not applied(kind, e):
            continue
        mine = [x for x in left if x[2] == e.table and belongs(x, e)]
        own = [x for x in mine if x[0] == e.op]
        left = [x for x in left if x not in mine]
        ctx.check(len(mine) >= 1, "executed once", w, "%s: applying succeeds although no statement was executed for an entry (%s)" % (kind, e.op), path=[what, repr(e)] + story(it), what="%s: %r" % (what, e))
        ctx.check(len(mine) <= 1, "executed once", w, "%s: several statements are executed for one entry (%s)" % (kind, e.op), path=[what, repr(e)] + story(it))
        ctx.check(len(own) == len(mine), "own kind", w, "%s: an entry (%s) is applied by a statement of another kind" % (kind, e.op), path=[what, repr(e)] + story(it))
        ctx.check(all(x[5] for x in mine), "effect", w, "%s: applying succeeds although a statement (%s) affected no row" % (kind, e.op), path=[what, repr(e)] + story(it))
        if kind == "postgres":
            ctx.check(all(x[1] == BASE for x in mine), "own table", w, "postgres: a change is made in another schema", path=[what, repr(e)])
        else:
            ctx.check(all(x[1] == "main" for x in mine), "own table", w, "sqlite: a change is made in another database", path=[what, repr(e)])
    ctx.check(not left, "nothing else", w, "%s: a statement is executed that belongs to no entry of its table" % kind, path=[what] + [str(x[:3]) for x in left] + story(it))


def run(ctx):
    ctx.rule("executed once", "on success exactly one statement was executed for every entry, in the entry's table")
    ctx.rule("own kind", "the statement is of the entry's kind")
    ctx.rule("own table", "the statement addresses the entry's table in the database that was opened")
    ctx.rule("effect", "the statement affected a row")
    ctx.rule("failure", "no statement failed")
    ctx.rule("nothing else", "no other statement was executed")
    apply_all(ctx, judge, 2 if ctx.thorough else 1)
    ctx.need("behaviours", ctx.counts.get("behaviours"))
