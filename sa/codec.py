"""The documented changeset format (docs/changeset-format.md) as a reference for the reader and the writer,
and drivers that interpret both over named bits (sa/bits.py)."""
from .bits import *
from .engine import AnalysisError

OPS = {"OpInsert": 18, "OpUpdate": 23, "OpDelete": 9}
OLD = ("OpUpdate", "OpDelete")
NEW = ("OpUpdate", "OpInsert")


# ---- reference encoding --------------------------------------------------------------------------

def varint(n):
    g = [n & 0x7f]
    n >>= 7
    while n:
        g.append(n & 0x7f | 0x80)
        n >>= 7
    return [K(x, 8) for x in reversed(g)]


def be64(v):
    return [BV(v.b[8 * i:8 * i + 8]) for i in reversed(range(8))]


def header(name, pks):
    """name: bytes, pks: 1-bit vectors"""
    return [K(0x54, 8)] + varint(len(pks)) + [BV(p.b + (0,) * 7) for p in pks] + [K(c, 8) for c in name] + [K(0, 8)]


def value(v):
    t, c = v
    r = [K(t, 8)]
    if t in (1, 2):
        r += be64(c)
    elif t in (3, 4):
        r += varint(len(c)) + list(c)
    return r


def entry(op, old, new, indirect=None):
    r = [K(OPS[op], 8), indirect or K(0, 8)]
    if op in OLD:
        for v in old:
            r += value(v)
    if op in NEW:
        for v in new:
            r += value(v)
    return r


def symvalue(t, tag, n=3):
    """(type, content) with named bits"""
    if t in (1, 2):
        return (t, sym(tag, 64))
    if t in (3, 4):
        return (t, [sym("%s_%d" % (tag, i), 8) for i in range(n)])
    return (t, None)


class Bad(Exception):
    """the bytes are not a changeset"""


def parse(it, bs):
    """the documented meaning of the bytes: list of (table, entry); raises Bad"""
    o = [0]

    def byte():
        if o[0] >= len(bs):
            raise Bad("ends inside a record")
        o[0] += 1
        return it.nb(bs[o[0] - 1])

    def vint(limit):
        """a length or count; anything beyond limit is malformed"""
        v = BV(())
        for i in range(9):
            b = byte()
            v = BV((b.b + v.b) if i == 8 else b.b[:7] + v.b)
            if i == 8 or not it.truth(BV(b.b[7:])):
                break
        w = max(len(v.b), 40)
        v = BV(v.b + (0,) * (w - len(v.b)))
        if it.cmp(">", v, K(limit, w), False):
            raise Bad("length beyond the end")
        return it.const(v)

    def isone(b, vals):
        for c in vals:
            if it.cmp("==", b, K(c, 8), False):
                return c
        return None
    table = None
    out = []
    while o[0] < len(bs):
        t = isone(byte(), (0x54, 18, 23, 9))
        if t == 0x54:
            n = vint(len(bs))
            if n < 1:
                raise Bad("number of columns")
            pk = [byte() for i in range(n)]
            name = []
            while True:
                b = byte()
                if not it.truth(b):
                    break
                name.append(b)
            table = (name, pk)
        elif t in (18, 23, 9):
            if table is None:
                raise Bad("entry before the first header")
            byte()
            rows = []
            for k in ((1, 1) if t == 23 else (1,)):
                row = []
                for _ in table[1]:
                    vt = isone(byte(), (0, 1, 2, 3, 4, 5))
                    if vt in (1, 2):
                        row.append((vt, BV(sum((b.b for b in reversed([byte() for _ in range(8)])), ()))))
                    elif vt in (3, 4):
                        n = vint(len(bs))
                        if n > len(bs) - o[0]:
                            raise Bad("length beyond the end")
                        row.append((vt, [byte() for _ in range(n)]))
                    elif vt in (0, 5):
                        row.append((vt, None))
                    else:
                        raise Bad("value type")
                rows.append(row)
            out.append((table, t, rows[0] if t != 18 else None, rows[-1] if t != 9 else None))
        else:
            raise Bad("record type")
    return out


# ---- the project's classes -----------------------------------------------------------------------

def fn(p, name, nparams=None):
    l = [f for f in p.byname.get(name, []) if "body" in f and (nparams is None or len(f["params"]) == nparams)]
    return l[0] if l else None


def where(f):
    return "%s:%d" % (f["file"].split("/")[-1], f["l"])


def ext():
    def cbuf(i, this, args, e):
        o = this.get() if isinstance(this, Ref) else this.at(0).get()
        return Ptr(o.f["data"].d, 0)

    def size(i, this, args, e):
        o = this.get() if isinstance(this, Ref) else this.at(0).get()
        return K(len(o.f["data"].d), i.tinfo(e["t"])[0])

    def isempty(i, this, args, e):
        o = this.get() if isinstance(this, Ref) else this.at(0).get()
        return K(int(not o.f["data"].d), 1)

    def oss(i, this, args, e):
        return this if this is not None else (args[0] if args else None)

    def write(i, this, args, e):
        a = [x.get() if isinstance(x, Ref) else x for x in args]
        i.out += [i.nb(b) for b in i.bytes_of(a[0], i.sconst(a[1]))]
        return this

    def put(i, this, args, e):
        a = args[0].get() if isinstance(args[0], Ref) else args[0]
        i.out.append(i.nb(a))
        return this

    def elem(i):
        return i.default("Value")
    return {"Buffer::c_buf": cbuf, "Buffer::v_buf": cbuf, "Buffer::size": size, "Buffer::isEmpty": isempty, "std::basic_ostream::operator<<": oss, "std::operator<<": oss,
            "std::basic_ostringstream::ctor": lambda i, t, a, e: Obj("std::basic_ostringstream"),
            "std::basic_ostringstream::str": lambda i, t, a, e: Str([]), "std::to_string": lambda i, t, a, e: Str([]),
            "std::basic_ostream::write": write, "std::basic_ofstream::write": write, "std::basic_ostream::put": put, "elem": elem}


def mkobj(it, cls):
    return it.default(cls)


def reader(it, data):
    o = it.default("ChangesetReader")
    if not isinstance(o, Obj):
        raise AnalysisError("class ChangesetReader")
    buf = Ptr(None, 0, ref=Ref({0: Obj("Buffer", {"data": Str(data)})}, 0))
    for f in it.p.recbycls["ChangesetReader"]["fields"]:
        d = it.ty(f["t"])
        if d.get("cls") in ("std::unique_ptr", "std::shared_ptr") and "Buffer" in f["t"]:
            o.f[f["n"]] = buf
        elif d.get("cls") == "Buffer":
            o.f[f["n"]] = buf.at(0).get()
    if not any(v is buf for v in o.f.values()) and not any(isinstance(v, Obj) and v.cls == "Buffer" for v in o.f.values()):
        raise AnalysisError("the reader's buffer")
    return Ref({0: o}, 0)


def next_entry(it, p, r, ent):
    f = fn(p, "ChangesetReader::nextEntry")
    if f is None:
        raise AnalysisError("no ChangesetReader::nextEntry")
    return it.truth(it.callfn(f, [ent], r))


def get_value(it, v):
    """(type, content) of a Value object"""
    p = it.p
    r = Ref({0: v}, 0)
    t = it.const(it.callfn(fn(p, "Value::type"), [], r))
    if t == 1:
        return (t, it.nb(it.callfn(fn(p, "Value::getInt"), [], r)))
    if t == 2:
        return (t, it.nb(it.callfn(fn(p, "Value::getDouble"), [], r)))
    if t in (3, 4):
        s = it.callfn(fn(p, "Value::getString"), [], r)
        s = s.get() if isinstance(s, Ref) else s
        return (t, [it.nb(x) for x in s.d])
    return (t, None)


def set_value(it, v, tc):
    p = it.p
    r = Ref({0: v}, 0)
    t, c = tc
    if t == 1:
        it.callfn(fn(p, "Value::setInt"), [c], r)
    elif t == 2:
        it.callfn(fn(p, "Value::setDouble"), [c], r)
    elif t in (3, 4):
        f = fn(p, "Value::setString", 3)
        it.callfn(f, [K(t, 32), Ptr(list(c), 0), K(len(c), it.tinfo(f["params"][2]["t"])[0])], r)
    elif t == 5:
        it.callfn(fn(p, "Value::setNull"), [], r)
    else:
        it.callfn(fn(p, "Value::setUndefined"), [], r)
    return v


def read_entry(it, ent):
    """decoded entry object -> (table, op, old, new)"""
    o = ent.get()
    op = it.const(o.f["op"])
    t = o.f["table"]
    tb = t.at(0).get() if isinstance(t, Ptr) else None
    table = None
    if tb is not None:
        table = ([it.nb(x) for x in tb.f["name"].d], [it.nb(x) for x in tb.f["primaryKeys"].d])
    old = [get_value(it, v) for v in o.f["oldValues"].d] if op != 18 else None
    new = [get_value(it, v) for v in o.f["newValues"].d] if op != 9 else None
    return table, op, old, new


def writer(it):
    o = it.default("ChangesetWriter")
    if not isinstance(o, Obj):
        raise AnalysisError("class ChangesetWriter")
    return Ref({0: o}, 0)


def table_obj(it, name, pks):
    t = it.default("ChangesetTable")
    t.f["name"] = Str([K(c, 8) for c in name])
    t.f["primaryKeys"] = Str(list(pks), "vec")
    return t


def entry_obj(it, op, old, new):
    e = it.default("ChangesetEntry")
    e.f["op"] = K(OPS[op], 32)
    e.f["oldValues"] = Str([set_value(it, it.default("Value"), v) for v in old], "vec")
    e.f["newValues"] = Str([set_value(it, it.default("Value"), v) for v in new], "vec")
    return e


def same(it, a, b):
    """equality of decoded structures, bit for bit"""
    if isinstance(a, BV) and isinstance(b, BV):
        return it.nb(a) == it.nb(b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(it, x, y) for x, y in zip(a, b))
    return a == b
