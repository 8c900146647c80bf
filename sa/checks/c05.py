"""C05: the changeset writer and reader interpreted over named bits against the documented format.

Tables and entries of every operation and every combination of value types are written; the bytes must be the
documented ones bit for bit.  The documented bytes are read; the entry, flags, table and every bit of every
value must be the encoded ones, and exactly the record's bytes must be consumed.
"""
from ..bits import *
from ..engine import AnalysisError
from .. import codec
from ..codec import OPS, where

LEVEL = "other"
ASSUMPTIONS = ["the host is little endian (the byte order functions are modelled by their definition)",
               "entries of 1 to 3 columns, column counts and text lengths around the boundaries of the length encoding (0 to 16384)"]

T = (0, 1, 2, 3, 4, 5)


def rows():
    """pairs of old and new rows covering each type in each position and side"""
    r = []
    for a in T:
        for b in T:
            r.append(([codec.symvalue(a, "o0"), codec.symvalue(b, "o1")], [codec.symvalue(b, "n0"), codec.symvalue(a, "n1")]))
    for a in T:
        r.append(([codec.symvalue(a, "o0")], [codec.symvalue((a * 5 + 1) % 6, "n0")]))
        r.append(([codec.symvalue((a + i) % 6, "o%d" % i) for i in range(3)], [codec.symvalue((a + 2 * i) % 6, "n%d" % i) for i in range(3)]))
    for t in (3, 4):
        for n in (0, 1, 127, 128, 300, 16383, 16384):
            r.append(([codec.symvalue(t, "o0", n), codec.symvalue(5, "o1")], [codec.symvalue(5, "n0"), codec.symvalue(t, "n1", n if n < 1000 else 2)]))
    return r


def runcells(ctx, rule, f, what, body, **kw):
    try:
        done, cov = cells(ctx.p, body, ext=codec.ext(), **kw)
    except AnalysisError as x:
        ctx.incomplete.append("%s: %s" % (what, x))
        return
    ctx.cover(*cov)
    for cell, r in done:
        ctx.count("input cells")
        m = {"ok": None, "undef": "uses memory that was never written", "oob": "accesses memory outside of the data", "throw": "fails with an exception"}[r[0]]
        if r[0] == "ok":
            m = r[1]
        if m:
            ctx.viol(rule, where(f), "%s: %s" % (what, m), key="%s|%s" % (rule, f["n"]))
        else:
            ctx.ok(rule, what)


def diff(it, got, ref):
    if len(got) != len(ref):
        return "%d bytes instead of %d (%s... / %s...)" % (len(got), len(ref), got[:6], ref[:6])
    for i, (a, b) in enumerate(zip(got, ref)):
        if it.nb(a) != it.nb(b):
            return "byte %d is %r instead of %r" % (i, it.nb(a), it.nb(b))
    return None


def pks(n, tag="pk"):
    return [sym("%s%d" % (tag, i), 1) if i < 4 else K(i & 1, 1) for i in range(n)]


def one(ctx, job):
    kind, arg = job
    p = ctx.p
    begin = codec.fn(p, "ChangesetWriter::beginTable")
    we = codec.fn(p, "ChangesetWriter::writeEntry")
    ne = codec.fn(p, "ChangesetReader::nextEntry")
    if kind == "header":
        for n in ((1, 2, 3, 127, 128, 129, 300, 2000) if ctx.thorough else (1, 2, 127, 128, 300)):
            for name in (b"t", "tabul\u00e9 \"x'".encode(), b""):
                def w(it):
                    o = codec.writer(it)
                    it.callfn(begin, [Ref({0: codec.table_obj(it, name, pks(n))}, 0)], o)
                    return diff(it, it.out, codec.header(name, [it.nb(x) for x in pks(n)]))
                runcells(ctx, "header written", begin, "header of %d columns" % n, w)
                if not name:
                    continue

                def r(it):
                    e = ([codec.symvalue(1, "v")] + [(5, None)] * (n - 1))
                    data = codec.header(name, pks(n)) + codec.entry("OpInsert", [], e)
                    rd = codec.reader(it, data)
                    ent = Ref({0: it.default("ChangesetEntry")}, 0)
                    if not codec.next_entry(it, p, rd, ent):
                        return "the entry after the header is not read"
                    t, op, old, new = codec.read_entry(it, ent)
                    if t is None:
                        return "the entry has no table"
                    if bytes(it.const(x) for x in t[0]) != name:
                        return "the name %r is read as %r" % (name, t[0])
                    if len(t[1]) != n or [it.nb(x) for x in t[1]] != [it.nb(x) for x in pks(n)]:
                        return "the primary key flags of %d columns are read as %r" % (n, t[1][:6])
                    if not codec.same(it, new, e):
                        return "the values are read as %r" % (new[:3],)
                    if codec.next_entry(it, p, rd, ent):
                        return "another entry is read at the end"
                runcells(ctx, "header read", ne, "header of %d columns" % n, r)
        return
    if kind == "order":
        # several tables and entries in one changeset, and reading the same file again
        def r(it):
            A, B = codec.header(b"a", [K(1, 1)]), codec.header(b"bb", [K(0, 1), K(1, 1)])
            v = [codec.symvalue(1, "v%d" % i) for i in range(8)]
            recs = [("a", "OpInsert", [], [v[0]]), ("a", "OpDelete", [v[1]], []), ("bb", "OpUpdate", [v[2], v[3]], [v[4], v[5]]), ("a", "OpInsert", [], [v[6]])]
            data = A + codec.entry(*recs[0][1:]) + codec.entry(*recs[1][1:]) + B + codec.entry(*recs[2][1:]) + A + codec.entry(*recs[3][1:])
            rd = codec.reader(it, data)
            ent = Ref({0: it.default("ChangesetEntry")}, 0)
            rew = codec.fn(p, "ChangesetReader::rewind")
            for rnd in range(2):
                for k, rc in enumerate(recs):
                    if not codec.next_entry(it, p, rd, ent):
                        return "entry %d of %d is not read" % (k + 1, len(recs))
                    t, op, old, new = codec.read_entry(it, ent)
                    if t is None or bytes(it.const(x) for x in t[0]) != rc[0].encode():
                        return "entry %d is read as one of table %s instead of %s" % (k + 1, t and t[0], rc[0])
                    if op != OPS[rc[1]] or (old is not None and not codec.same(it, old, rc[2])) or (new is not None and not codec.same(it, new, rc[3])):
                        return "entry %d is read as operation %d, old %r, new %r" % (k + 1, op, old, new)
                if codec.next_entry(it, p, rd, ent):
                    return "another entry is read at the end"
                if rew is None:
                    return None
                it.callfn(rew, [], rd)
        runcells(ctx, "entry read", ne, "several tables and entries, read twice", r)

        def w(it):
            o = codec.writer(it)
            ref = []
            for name, n in ((b"a", 1), (b"bb", 2), (b"a", 1)):
                it.callfn(begin, [Ref({0: codec.table_obj(it, name, pks(n))}, 0)], o)
                ref += codec.header(name, pks(n))
                for op in OPS:
                    old = [codec.symvalue(1, "o%s%d%d" % (op, n, i)) for i in range(n)] if op in codec.OLD else []
                    new = [codec.symvalue(3, "n%s%d%d" % (op, n, i)) for i in range(n)] if op in codec.NEW else []
                    it.callfn(we, [Ref({0: codec.entry_obj(it, op, old, new)}, 0)], o)
                    ref += codec.entry(op, old, new)
            return diff(it, it.out, ref)
        runcells(ctx, "entry written", we, "several tables and entries", w)
        return
    op, (old, new) = arg
    n = len(old)
    types = "%s old types %s new types %s" % (op, [v[0] for v in old], [v[0] for v in new])

    def w(it):
        o = codec.writer(it)
        it.callfn(begin, [Ref({0: codec.table_obj(it, b"t", [K(1, 1)] * n)}, 0)], o)
        start = len(it.out)
        it.callfn(we, [Ref({0: codec.entry_obj(it, op, old, new)}, 0)], o)
        return diff(it, it.out[start:], codec.entry(op, old, new))
    runcells(ctx, "entry written", we, types, w)

    def r(it):
        # another entry of the same table before, so that values read earlier would show
        first = codec.entry("OpUpdate", [codec.symvalue(3, "p%d" % i) for i in range(n)], [codec.symvalue(1, "q%d" % i) for i in range(n)])
        data = codec.header(b"t", [K(1, 1)] * n) + first + codec.entry(op, old, new, sym("indirect", 8))
        rd = codec.reader(it, data)
        ent = Ref({0: it.default("ChangesetEntry")}, 0)
        if not codec.next_entry(it, p, rd, ent) or not codec.next_entry(it, p, rd, ent):
            return "the entry is not read"
        t, o, a, b = codec.read_entry(it, ent)
        if o != OPS[op]:
            return "operation %d is read" % o
        if op in codec.OLD and not codec.same(it, a, old):
            return "the old values are read as %r" % (a,)
        if op in codec.NEW and not codec.same(it, b, new):
            return "the new values are read as %r" % (b,)
        if codec.next_entry(it, p, rd, ent):
            return "another entry is read at the end"
    runcells(ctx, "entry read", ne, types, r)


def run(ctx):
    ctx.rule("header written", "0x54, number of columns, one flag byte per column, name, zero byte")
    ctx.rule("entry written", "operation, indirect flag 0, old record for delete and update, new record for insert and update, each value by its type")
    ctx.rule("header read", "column count, flags and name are the encoded ones")
    ctx.rule("entry read", "operation and every bit of every value are the encoded ones, exactly the record is consumed")
    for n in ("ChangesetWriter::beginTable", "ChangesetWriter::writeEntry", "ChangesetReader::nextEntry"):
        ctx.need(n, codec.fn(ctx.p, n))
    jobs = [("header", None), ("order", None)] + [("entry", (op, r)) for op in OPS for r in rows()]
    ctx.par(one, jobs)
