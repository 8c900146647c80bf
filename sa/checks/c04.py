"""C04: the reader interpreted over files with undetermined bytes, against the documented grammar.

Files are a fixed start (nothing, a table header, the start of an entry, a value) followed by bytes whose bits
are all undetermined; the input space is partitioned by the reader's and the grammar's decisions, so every file
of the shape is covered.  The reader must reach the end exactly for the files that are sequences of complete,
known records, with the entries the grammar gives, and fail with an error for all others.  Every proper prefix
of changesets covering all records must be rejected unless it ends between records.
"""
from ..bits import *
from ..engine import AnalysisError
from .. import codec
from ..codec import OPS, where

LEVEL = "other"
ASSUMPTIONS = ["files of the stated shapes: up to 7 (thorough: 9) undetermined bytes after each of the fixed starts"]


def readall(it, p, data):
    """('end', entries) or raises Thrown"""
    rd = codec.reader(it, list(data))
    ent = Ref({0: it.default("ChangesetEntry")}, 0)
    out = []
    while codec.next_entry(it, p, rd, ent):
        out.append(codec.read_entry(it, ent))
        if len(out) > len(data) + 1:
            return "endless", out
    return "end", out


def compare(it, p, data):
    """(kind, message): kind None, 'accept', 'reject', 'value'"""
    try:
        ref = ("end", codec.parse(it, data))
    except codec.Bad as x:
        ref = ("bad", str(x))
    try:
        got = readall(it, p, data)
    except Thrown as x:
        if x.cls == "assert":
            return "assert", "an assertion fails"
        got = ("bad", x.cls)
    if got[0] == "endless":
        return "endless", "reading does not end"
    if ref[0] == "bad" and got[0] == "end":
        return "accepted", "accepted although malformed (%s)" % ref[1]
    if ref[0] == "end" and got[0] == "bad":
        return "rejected", "rejected although well formed"
    if ref[0] == "bad":
        return None, None
    if len(ref[1]) != len(got[1]):
        return "entries", "%d entries are read instead of %d" % (len(got[1]), len(ref[1]))
    for a, b in zip(ref[1], got[1]):
        (name, pk), op, old, new = a
        t, gop, gold, gnew = b
        if gop != op or not codec.same(it, gold, old) or not codec.same(it, gnew, new):
            return "entries", "an entry is read as operation %d old %r new %r instead of %d %r %r" % (gop, gold, gnew, op, old, new)
    return None, None


def starts():
    H1 = codec.header(b"t", [K(1, 1)])
    H2 = codec.header(b"t", [K(1, 1), K(0, 1)])
    ins = codec.entry("OpInsert", [], [(5, None)])
    r = [("an empty start", []), ("a table header", H1)]
    r.append(("a header and an entry", H1 + ins))
    r.append(("two headers", H2 + H1))
    for op in OPS:
        r.append(("the start of an entry of kind %d" % OPS[op], H1 + [K(OPS[op], 8), K(0, 8)]))
        for t in (1, 2, 3, 4, 5, 0):
            v = codec.value(codec.symvalue(t, "f", 1))
            r.append(("an entry of kind %d with a first value of type %d" % (OPS[op], t), H2 + [K(OPS[op], 8), K(0, 8)] + v))
    for t in (3, 4):
        r.append(("the type of a text or blob (%d)" % t, H1 + [K(18, 8), K(0, 8), K(t, 8)]))
        r.append(("a long length (%d)" % t, H1 + [K(18, 8), K(0, 8), K(t, 8), K(0x8f, 8), K(0xff, 8)]))
        r.append(("the largest length (%d)" % t, H1 + [K(18, 8), K(0, 8), K(t, 8), K(0x87, 8), K(0xff, 8)]))
    for t in (1, 2):
        r.append(("the type of a number (%d)" % t, H1 + [K(18, 8), K(0, 8), K(t, 8)] + [sym("f%d" % i, 8) for i in range(4)]))
    r.append(("the start of a header", [K(0x54, 8)]))
    r.append(("a header without its name", [K(0x54, 8), K(2, 8), K(1, 8), K(0, 8)]))
    r.append(("a header with a large column count", [K(0x54, 8), K(0x84, 8), K(0x80, 8)]))
    return r


def whole():
    """complete changesets covering every record"""
    H2 = codec.header(b"ab", [K(1, 1), K(0, 1)])
    r = []
    for op in OPS:
        for a in range(6):
            for b in range(6):
                old = [codec.symvalue(a, "o0", 2), codec.symvalue(b, "o1", 2)] if op in codec.OLD else []
                new = [codec.symvalue(b, "n0", 2), codec.symvalue(a, "n1", 2)] if op in codec.NEW else []
                r.append(("%s %d %d" % (op, a, b), H2 + codec.entry(op, old, new)))
    return r


def report(ctx, f, what, done, cov, oob):
    ctx.cover(*cov)
    for cell, r in done:
        ctx.count("input cells")
        k, m = None, None
        if r[0] == "ok":
            k, m = r[1]
        elif r[0] == "undef":
            k, m = "undef", "the result depends on memory that was never written"
        elif r[0] == "oob":
            k, m = "oob", "memory outside the data is accessed"
        elif r[0] == "throw":
            k, m = "throw", r[1]
        if k == "oob" and not oob:
            m = "reading goes on beyond the end of the data instead of failing"
        want = (k in ("oob", "undef")) if oob else k is not None
        if want:
            c = ", ".join("%s bit %d = %d" % (n, b, v) for (n, b), v in sorted(cell.items())[:24])
            ctx.viol(("bounds" if oob else "grammar"), where(f), "%s: %s (%s)" % (what, m, c or "any content"), key="%s|%s" % ("bounds" if oob else "grammar", k))
        else:
            ctx.ok("bounds" if oob else "grammar", what)


def one(ctx, job):
    explore(ctx, job, False)


def explore(ctx, job, oob):
    kind, what, data, n = job
    p = ctx.p
    f = codec.fn(p, "ChangesetReader::nextEntry")
    try:
        if kind == "free":
            bs = list(data) + [sym("b%d" % i, 8) for i in range(n)]
            done, cov = cells(p, lambda it: compare(it, p, bs), maxcells=200000 if ctx.thorough else 12000, ext=codec.ext(), limit=400 if ctx.thorough else 60, partial=True)
            if done.why:
                ctx.incomplete.append("%s followed by %d bytes: %s" % (what, n, done.why))
            report(ctx, f, "%s followed by %d bytes" % (what, n), done, cov, oob)
        else:
            for k in range(len(data) + 1):
                done, cov = cells(p, lambda it: compare(it, p, data[:k]), maxcells=1000, ext=codec.ext(), limit=5, partial=True)
                report(ctx, f, "the first %d of %d bytes of %s" % (k, len(data), what), done, cov, oob)
    except AnalysisError as x:
        ctx.incomplete.append("%s: %s" % (what, x))


def jobs(ctx):
    m = 5 if ctx.thorough else 3
    r = []
    for what, data in starts():
        for n in range(0, m + 1):
            r.append(("free", what, data, n))
    for n in ((6, 7, 8) if ctx.thorough else (4,)):
        r.append(("free", "an empty start", [], n))
    r += [("prefix", what, data, 0) for what, data in whole()]
    r.sort(key=lambda j: -j[3])
    return r


def run(ctx):
    ctx.rule("grammar", "the end is reached exactly by sequences of complete known records, with the entries the format gives; everything else is an error")
    ctx.need("reader", codec.fn(ctx.p, "ChangesetReader::nextEntry"))
    ctx.par(one, jobs(ctx))
