"""C31: bit-level abstract interpretation of the varint, hexadecimal and base64 codecs.

Every input of a shape is covered by a partition of the input bits; for each cell the result must be the
reference layout, bit for bit (the bits of the input are named, so a wrong shift, mask or table entry shows
as a wrong bit).  The reference layouts are written from the format documentation (docs/changeset-format.md,
RFC 4648, base 16 and base 64), not from the code.
"""
from ..bits import *
from ..engine import AnalysisError

LEVEL = "other"
ASSUMPTIONS = ["the byte-string codecs are decided for every content of strings up to the stated length; longer strings repeat the same groups"]

B64 = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def fn(p, name):
    l = [f for f in p.byname.get(name, []) if "body" in f]
    return l[0] if l else None


def where(f):
    return "%s:%d" % (f["file"].split("/")[-1], f["l"])


def report(ctx, rule, f, what, done, want):
    """want(cell, result) -> None or a message"""
    for cell, r in done:
        ctx.count("input cells")
        m = None
        if r[0] == "undef":
            m = "the result depends on memory that is never written"
        elif r[0] == "oob":
            m = "accesses memory outside the array"
        elif r[0] == "throw":
            m = "fails (%s)" % r[1]
        else:
            m = want(cell, r[1])
        c = ", ".join("%s bit %d = %d" % (n, b, v) for (n, b), v in sorted(cell.items())[:12])
        if m:
            ctx.viol(rule, where(f), "%s: %s%s" % (what, m, " for inputs with " + c if c else ""), key="%s|%s" % (rule, f["n"]))
        else:
            ctx.ok(rule, what)


def low(cell, v):
    """apply a cell to a vector"""
    def b(x):
        if x in (0, 1):
            return x
        y = cell.get((x[0], x[1]))
        return x if y is None else (1 - y if x[2] else y)
    return BV([b(x) for x in v.b])


def varint_ref(v):
    """bytes of the documented encoding of a 32-bit value whose highest set bit is known (or value 0)"""
    n = 1
    for i, x in enumerate(v.b):
        if x == 1:
            n = i // 7 + 1
        elif x != 0:
            n = max(n, i // 7 + 1)
    g = [BV(tuple(v.b[7 * i:7 * i + 7]) + (0,) * (7 - len(v.b[7 * i:7 * i + 7]))) for i in range(n)]
    return [BV(x.b + (1 if i else 0,)) for i, x in reversed(list(enumerate(g)))]


def partition(v):
    """a number of encoded bytes must be determined in every cell: highest bit known"""
    for x in reversed(v.b):
        if x == 1:
            return True
        if x != 0:
            return False
    return True


def writer(it):
    r = []

    def write(i, this, args, e):
        a = [x.get() if isinstance(x, Ref) else x for x in args]
        i.out += [i.nb(b) for b in i.bytes_of(a[0], i.sconst(a[1]))]
        return this
    it.ext = dict(it.ext)
    for n in ("std::basic_ostream::write", "std::basic_ofstream::write"):
        it.ext[n] = write

    def put(i, this, args, e):
        a = args[0].get() if isinstance(args[0], Ref) else args[0]
        i.out.append(i.nb(a))
        return this
    it.ext["std::basic_ostream::put"] = put
    return it


def wvarint(ctx, p):
    f = fn(p, "ChangesetWriter::writeVarint")
    if f is None:
        ctx.notes.append("no ChangesetWriter::writeVarint")
        return
    ctx.cover(f["n"])
    w = Interp(p, {}).tinfo(f["params"][0]["t"])[0]

    def body(it):
        writer(it)
        it.callfn(f, [resized(it, w)], Ref({0: Obj("ChangesetWriter", {"mFile": Obj("file")})}, 0))
        v = it.nb(BV(sym("n", 31).b + (0,)))
        if not partition(v):
            raise Need(next(x for x in reversed(v.b) if x not in (0, 1)))
        return list(it.out)

    def resized(it, w):
        # lengths are below 2^31: larger numbers cannot be expressed by the interface (int)
        return BV(sym("n", 31).b + (0,) * (w - 31))
    done, cov = cells(p, body)
    ctx.cover(*cov)

    def want(cell, r):
        v = low(cell, BV(sym("n", 31).b + (0,)))
        ref = varint_ref(v)
        if len(ref) != len(r):
            return "%d bytes are written instead of %d" % (len(r), len(ref))
        for i, (a, b) in enumerate(zip(ref, r)):
            if a != low(cell, b):
                return "byte %d is %r instead of %r" % (i, low(cell, b), a)
    report(ctx, "varint encoding", f, "writing a number below 2^31", done, want)


def reader_obj(data, n=None):
    buf = Obj("Buffer", {"data": Str(data)})
    h = {0: buf}
    return Obj("ChangesetReader", {"mOffset": K(0, 32), "mBuffer": Ptr(None, 0, ref=Ref(h, 0)),
                                   "mCurrentTable": Obj("ChangesetTable", {"name": Str([]), "primaryKeys": Str([], "vec")})})


def reader_ext():
    def cbuf(i, this, args, e):
        o = this.get() if isinstance(this, Ref) else this.at(0).get()
        return Ptr(o.f["data"].d, 0)

    def size(i, this, args, e):
        o = this.get() if isinstance(this, Ref) else this.at(0).get()
        return K(len(o.f["data"].d), i.tinfo(e["t"])[0])

    def err(i, this, args, e):
        raise Thrown("GeoDiffException")
    return {"Buffer::c_buf": cbuf, "Buffer::size": size, "ChangesetReader::throwReaderError": err}


def rvarint(ctx, p):
    f = fn(p, "ChangesetReader::readVarint")
    if f is None:
        ctx.notes.append("no ChangesetReader::readVarint")
        return
    ctx.cover(f["n"])
    tail = 3
    for n in range(1, 6):
        # n bytes: continuation bits set except in the last one; at most 32 bits of value
        v = sym("n", 32)
        if n == 5:
            bits = v.b
        else:
            bits = v.b[:7 * n]
        enc = varint_ref(BV(bits + (0,) * (32 - len(bits)))) if n > 1 else [BV(bits + (0,))]
        enc = ([BV((0,) * 7 + (1,))] * (n - len(enc))) + enc if len(enc) < n else enc
        for trail in (0, tail, 12):
            def body(it):
                o = reader_obj(list(enc) + [sym("t%d" % i, 8) for i in range(trail)])
                r = it.callfn(f, [], Ref({0: o}, 0))
                return it.nb(r), it.const(o.f["mOffset"])
            done, cov = cells(p, body, ext=reader_ext())
            ctx.cover(*cov)

            def want(cell, r):
                v = low(cell, BV(bits + (0,) * (32 - len(bits))))
                g = r[0].b[:32]
                if low(cell, BV(g)) != v:
                    return "%r is decoded instead of %r" % (low(cell, BV(g)), v)
                if r[1] != n:
                    return "%d bytes are consumed instead of %d" % (r[1], n)
            report(ctx, "varint decoding", f, "reading a number of %d bytes followed by %d bytes" % (n, trail), done, want)


def hexdigit(v):
    c = v.const()
    return K(b"0123456789ABCDEF"[c], 8)


def hexes(ctx, p):
    f = fn(p, "bin2hex")
    if f is not None:
        ctx.cover(f["n"])
        for n in ((0, 1, 2) if ctx.thorough else (0, 1)):
            def body(it):
                s = [sym("c%d" % i, 8) for i in range(n)]
                r = it.callfn(f, [Ref({0: Str(s)}, 0)])
                for x in s:
                    it.const(x)
                return [it.nb(x) for x in r.d]
            done, cov = cells(p, body, maxcells=140000)
            ctx.cover(*cov)

            def want(cell, r):
                if len(r) != 2 * n:
                    return "%d characters for %d bytes" % (len(r), n)
                for i in range(n):
                    c = low(cell, sym("c%d" % i, 8)).const()
                    got = bytes(x.const() & 0xff if x.const() is not None else 0 for x in r[2 * i:2 * i + 2]).decode("latin1").upper()
                    if got != "%02X" % c:
                        return "byte %d becomes %r instead of '%02X'" % (c, got, c)
            report(ctx, "hexadecimal encoding", f, "encoding %d bytes" % n, done, want)
        # position independence: one symbolic byte among constant ones
        for n, k in ((2, 0), (2, 1), (3, 1), (5, 4)):
            def body(it):
                s = [K(0x5a + i, 8) for i in range(n)]
                s[k] = sym("c", 8)
                r = it.callfn(f, [Ref({0: Str(s)}, 0)])
                it.const(sym("c", 8))
                return [it.nb(x) for x in r.d]
            done, cov = cells(p, body)

            def want(cell, r):
                bs = [0x5a + i for i in range(n)]
                bs[k] = low(cell, sym("c", 8)).const()
                ref = "".join("%02X" % b for b in bs)
                got = "".join(chr(x.const() & 0xff) for x in r).upper()
                if got != ref:
                    return "%r instead of %r" % (got, ref)
            report(ctx, "hexadecimal encoding", f, "byte %d of %d" % (k, n), done, want)
    g = fn(p, "hex2bin")
    if g is not None:
        ctx.cover(g["n"])
        for n in (0, 1, 3):
            for lower in (0, 1):
                for k in range(max(n, 1)):
                    def body(it):
                        s = []
                        for i in range(n):
                            v = it.const(sym("c", 8)) if i == k else 0xa7 - i
                            h = "%02x" % v if lower else "%02X" % v
                            s += [K(ord(x), 8) for x in h]
                        r = it.callfn(g, [Ref({0: Str(s)}, 0)])
                        return [it.nb(x) for x in r.d]
                    done, cov = cells(p, body)
                    ctx.cover(*cov)

                    def want(cell, r):
                        ref = [0xa7 - i for i in range(n)]
                        if n:
                            ref[k] = low(cell, sym("c", 8)).const()
                        got = [x.const() for x in r]
                        if got != ref:
                            return "the digits of %r are decoded as %r" % (ref, got)
                    report(ctx, "hexadecimal decoding", g, "decoding %d bytes in %s case, byte %d" % (n, "lower" if lower else "upper", k), done, want)


def b64(ctx, p):
    f = fn(p, "base64_encode")
    if f is None:
        ctx.notes.append("no base64_encode")
        return
    ctx.cover(f["n"])

    for n in range(0, 13 if ctx.thorough else 8):
        # the alphabet is indexed with undetermined bits: one group of 6 bits is split at a time, the others are fixed
        for k in range((n * 8 + 5) // 6 or 1):
            names = [("c", j) for j in range(n * 8)]

            def inp(it):
                bits = []
                for j in range(n * 8):
                    if k * 6 <= j < k * 6 + 6:
                        bits.append(("c", j, False))
                    else:
                        bits.append((j * 7 + n) // 3 & 1)
                return bits   # most significant first

            def body(it):
                bits = inp(it)
                s = [BV(tuple(reversed(bits[8 * i:8 * i + 8]))) for i in range(n)]
                mem = list(s)
                r = it.callfn(f, [Ptr(mem, 0), K(n, 32)])
                for j in range(n * 8):
                    if k * 6 <= j < k * 6 + 6:
                        it.const(BV([("c", j, False)]))
                return [it.nb(x) for x in r.d], [it.const(x) for x in s]
            done, cov = cells(p, body)
            ctx.cover(*cov)

            def want(cell, r):
                import base64
                ref = base64.b64encode(bytes(r[1]))
                got = bytes(x.const() or 0 for x in r[0])
                if got != ref:
                    return "%r is encoded as %r instead of %r" % (bytes(r[1]), got, ref)
            report(ctx, "base64 encoding", f, "group %d of %d bytes" % (k, n), done, want)


def guard(ctx, f, p):
    try:
        f(ctx, p)
    except AnalysisError as x:
        ctx.incomplete.append("%s: %s" % (f.__name__, x))


def one(ctx, f):
    guard(ctx, globals()[f], ctx.p)


def run(ctx):
    ctx.rule("varint encoding", "the written bytes are the 7-bit groups of the number, most significant first, bit 7 set in all but the last")
    ctx.rule("varint decoding", "the number read is the one encoded and exactly its bytes are consumed")
    ctx.rule("hexadecimal encoding", "two digits per byte, high nibble first")
    ctx.rule("hexadecimal decoding", "two digits of either case give the byte they stand for")
    ctx.rule("base64 encoding", "RFC 4648 alphabet, grouping and padding")
    ctx.par(one, ["wvarint", "rvarint", "hexes", "b64"])
