"""C18: type-preserving conversion between database values and changeset values.

Reading: comparing and dumping abstract databases; SQLite values are opaque, PostgreSQL values are the
texts the server returns for representatives of each column type (its limits and special values).
Writing: applying entries; SQLite values are opaque, PostgreSQL literals are parsed and converted to the
type of their column.
"""
from ..compare import *
from .c17 import sqval, name
from . import c19

LEVEL = "other"


def dbl(x):
    return struct.unpack("<Q", struct.pack("<d", x))[0]


class Fix(Rep):
    """a given value of a PostgreSQL column"""
    __slots__ = ("t", "v", "b")

    def __init__(self, type, n, col, t, v, b):
        Rep.__init__(self, type, n, col)
        self.t, self.v, self.b = t, v, b

    def text(self):
        return self.t

    def raw(self):
        return self.b

    def value(self, srid=0):
        return ("blob", b"GP\0\1" + struct.pack("<i", srid) + self.b) if self.v is None else self.v


ALL = bytes(range(256))
POINT = bytes.fromhex("0101000000000000000000f03f00000000000000c0")
INTS = [-2 ** 63, 2 ** 63 - 1, 2 ** 31, -2 ** 31 - 1, 2 ** 32, 2 ** 53 + 1, 0, -1]
REALS = [0.1, 1e300, -2.5e-308, 5e-324, float("inf"), float("-inf"), float("nan"), 123456789012345.67, -0.0, 4294967296.0]
TEXTS = ["", "a'b\"c\\d", "\u0159\u20ac\U0001f600 \u7f16", "NULL", "\\x41", "x" * 300, "line\nbreak\ttab\r", "E'", "  5 ", "%s%d$1"]
BYTES = [b"", ALL, b"\0", b"\0\0\xff", b"'\\x\"", b"\x41" * 300]
TYPES = {
    "integer": [(str(x), ("int", x), None) for x in (2147483647, -2147483648, 0, -1, 1)],
    "double precision": [({"inf": "Infinity", "-inf": "-Infinity", "nan": "NaN", "-0.0": "-0"}.get(repr(x), repr(x)), ("real", ("dbl", dbl(x))), None) for x in REALS],
    "real": [(x, ("real", ("dbl", dbl(float(x)))), None) for x in ("0.1", "3.4028235e+38", "1e-45", "16777216")],
    "boolean": [("t", ("int", 1), None), ("f", ("int", 0), None)],
    "bytea": [("\\x" + x.hex(), ("blob", x), x) for x in BYTES],
    "geometry(Geometry,4326)": [("\\x" + x.hex(), None, x) for x in (POINT, POINT + ALL, b"\0" + ALL)],
    "timestamp without time zone": [(x, ("text", x), None) for x in ("2020-07-13T16:17:54Z", "0001-01-01T00:00:00Z", "9999-12-31T23:59:59Z", "2020-07-13T16:17:54.123457Z", "2020-07-13T16:17:00.000001Z")],
}
for x in ("text", "char", "varchar", "citext"):
    TYPES[x] = [(y, ("text", y), None) for y in TEXTS]
# types the driver does not list: an error, or the right value
OTHERS = {
    "bigint": [(str(x), ("int", x), None) for x in INTS],
    "smallint": [("-32768", ("int", -32768), None)],
    "numeric(10,2)": [("12.25", ("real", ("dbl", dbl(12.25))), None)],
    "character varying(10)": [("a'b", ("text", "a'b"), None)],
    "date": [("2020-07-13", ("text", "2020-07-13"), None)],
    "uuid": [("7f0c8a3e-0000-1111-2222-333344445555", ("text", "7f0c8a3e-0000-1111-2222-333344445555"), None)],
    "json": [("{\"a\": 1}", ("text", "{\"a\": 1}"), None)],
    "integer[]": [("{1,2}", ("text", "{1,2}"), None)],
    "bit varying": [("101", ("text", "101"), None)],
    "inet": [("10.0.0.1", ("text", "10.0.0.1"), None)],
}


def raw(x):
    return x.encode() if isinstance(x, str) else x


def envelopes():
    """geometries in GeoPackage encoding, with every kind of envelope and both byte orders"""
    out = []
    for env, n in ((0, 0), (1, 32), (2, 48), (3, 48), (4, 64)):
        for order in (1, 0):
            for more in (0, 0x10):
                out.append(b"GP\0" + bytes([order | env << 1 | more]) + struct.pack("<i" if order else ">i", 4326) + bytes((7 * i + env) & 255 for i in range(n)) + POINT)
    return out


def badgeoms():
    """GeoPackage headers that are not valid, or cut short"""
    out = [b"", b"G", b"GP\0", b"GP\0\1\0\0\0"]
    for env, n in ((1, 32), (2, 48), (3, 48), (4, 64)):
        out.append(b"GP\0" + bytes([1 | env << 1]) + struct.pack("<i", 4326) + b"\1" * (n - 1))
    out += [b"GP\0" + bytes([1 | env << 1]) + struct.pack("<i", 4326) + b"\1" * 80 for env in (5, 6, 7)]
    return out


def run(ctx, keep=None):
    ctx.rule("read", "a value read from the database becomes a value of the same type and content")
    ctx.rule("unknown", "a value of an unknown kind is an error")
    ctx.rule("succeeds", "values of all supported types are read and written")
    for n, x in (("insert", "an insert sets every column to the entry's value"), ("assigns", "an update assigns the entry's new values"), ("that row", "an update or delete finds the row with the entry's old values"),
                 ("only that row", "and no other"), ("valid", "the database accepts the literal"), ("insert only", "an insert neither replaces nor skips rows"), ("update only", "an update neither replaces nor skips rows")):
        ctx.rule(n, x)
    items = []
    t = Table("t", [("id", "INTEGER", 1, 1), ("v", "", 0, 0)])
    for op, two in (("createChangeset", None), ("dumpData", True), ("dumpData", False)):
        for act in ("v", "id"):
            items.append(("read", "sqlite, %s, column %s" % (op, act), "sqlite", t, act, op, two, None, None))
    for ty, l in list(TYPES.items()) + list(OTHERS.items()):
        for pk in ((0, 1) if ty in ("text", "integer", "double precision", "bytea") else (0,)):
            t = Table("t", [("id", "integer", 1, 1 if not pk else 0), ("v", ty, pk, pk)])
            t.serial = set()
            for x in l if not pk else l[:2]:
                for op, two in (("createChangeset", None),) + ((("dumpData", True),) if x is l[0] or ctx.thorough else ()):
                    items.append(("read", "postgres, %s, a value of type %s%s" % (op, ty, " in the key" if pk else ""), "postgres", t, "v", op, two, x, ty in OTHERS))
    for op in DML:
        for kd in ("int", "real", "text", "blob", "null"):
            items.append(("write", "sqlite, %s, %s" % (op, kd), "sqlite", op, kd, None, None))
    cols = [("bigint", [("int", x) for x in INTS]), ("integer", [("int", 2147483647), ("int", -2147483648)]), ("double precision", [("real", ("dbl", dbl(x))) for x in REALS]),
            ("text", [("text", x) for x in TEXTS]), ("bytea", [("blob", x) for x in BYTES]), ("boolean", [("int", 0), ("int", 1)]),
            ("geometry(Geometry,4326)", [("blob", x) for x in envelopes()]), ("timestamp without time zone", [("text", "2020-07-13T16:17:54Z"), ("text", "2020-07-13T16:17:54.25Z")]),
            ("citext", [("text", "it's \\")])]
    for ty, l in cols:
        for x in l:
            for op in DML if x in l[:2] or ctx.thorough else ("insert", "update"):
                items.append(("write", "postgres, %s, %s" % (op, ty), "postgres", op, x, ty, None))
    for x in badgeoms():
        items.append(("write", "postgres, insert, invalid geometry", "postgres", "insert", ("blob", x), "geometry(Geometry,4326)", True))
    for kind in ("sqlite", "postgres"):
        items.append(("write", kind + ", insert without a value", kind, "insert", ("undef",), None, True))

    def one(c, item):
        (reading if item[0] == "read" else writing)(c, *item[1:])

    def reading(c, label, kind, t, act, op, two, fix, other):
        args = None if op == "createChangeset" else lambda: [writer("out"), K(int(two), 8)]
        done, why, m = comparisons(c.p, kind, [t], act, 1, True, op, args, True, None, special={"v": fix} if fix else None, fixture=Fix)
        wh = where(m)
        n = 0
        for it, r in outcomes(c, done, why, label):
            c.functions |= it.covered
            es = [e for e in entries(it) if e[0] is not None and e[0][1] == t.name]
            looked = kind == "postgres" and any(v is not None and col[3] == "v" for l in it.env.rowinfo.values() for col, v in l)
            if r[0] != "ok":
                ok = bool(other) and looked and r[0] == "throw"
                c.check(ok, "unknown" if other else "succeeds", wh, "%s: reading fails (%s)" % (label, " ".join(map(str, r))[:80]), key="succeeds|" + label, what=label, path=[repr(fix)[:200]])
                n += ok
                continue
            for hdr, k, old, new in es:
                for side in ((old if k != "insert" else []), (new if k != "delete" else [])):
                    for i, v in enumerate(side):
                        if v == ("undef",):
                            continue
                        n += 1
                        if kind == "sqlite":
                            l = []
                            cellsin(v, l)
                            if not l and v == ("null",):
                                l = [x for x in nulls(it, t.cols[i][0])]
                            if not l:
                                c.check(v == ("null",), "read", wh, "%s: %s is not a value of the database" % (label, name(v)), key="read|" + label)
                                continue
                            want = sqval(it.env, l[0])
                            c.check(want is None or v == want, "read", wh, "%s: %s instead of %s" % (label, name(v), name(want or ())), key="read|" + label, what=label)
                            c.check(want is not None, "read", wh, "%s: a value becomes %s although its type was not determined" % (label, name(v)), key="kind|" + label)
                        elif t.cols[i][0] == "v":
                            want = Fix(t.cols[1][1], 1, None, *fix).value(4326 if t.cols[1][1].startswith("geom") else 0)
                            ok = v == want or v[0] == want[0] == "blob" and raw(v[1]) == raw(want[1]) or v == ("null",) and not t.cols[1][3]
                            c.check(ok, "unknown" if other else "read", wh, "%s: %s becomes %s" % (label, repr(fix[0])[:60], repr(v)[:80]), key="read|" + label, what=label)
            c.ok("read", label)
        c.count("values read", n)
        c.need("values read, " + label, n)

    def nulls(it, col):
        return [k[0][1] for k, v in it.cell.items() if isinstance(k[0], tuple) and len(k[0]) > 1 and isinstance(k[0][1], tuple) and k[0][1][:1] == ("val",) and k[0][1][1][-1] == col and it.env.known_kind(k[0][1]) == "null"]

    def writing(c, label, kind, op, v, ty, bad):
        if kind == "sqlite":
            t = Table("t", [("id", "INTEGER", 1, 1), ("v", "", 0, 0)])
            val = lambda side: ("null",) if v == "null" else v if v == ("undef",) else (v, ("opaque", v, side))
        else:
            t = Table("t", [("id", "integer", 1, 1), ("v", ty or "text", 0, 0)])
            t.serial = set()
            val = lambda side: v
        key = ("int", ("opaque", "key")) if kind == "sqlite" else ("int", 5)
        two = ("int", 7) if v == ("null",) or v == "null" else ("null",)
        for shape in (("both", "old null", "new null") if op == "update" else ("both",)):
            old = [key, ("null",) if shape == "old null" else val("old")]
            new = [U if op == "update" else key, ("null",) if shape == "new null" else val("new")]
            e = E(t.name, t.pk, op, old if op != "insert" else None, new if op != "delete" else None)
            cfg = Cfg(faults=0, nodml=True, tables=[t], base=dbschema(kind, [t]))
            done, why, m = applying(c.p, kind, [e], cfg)
            wh = where(m)
            n = 0
            for it, r in outcomes(c, done, why, label):
                c.functions |= it.covered
                if bad:
                    c.check(r[0] == "throw", "unknown", wh, "%s: it is written all the same" % label, key="unknown|" + label, what=label, path=[repr(v), repr(r)])
                    n += 1
                    continue
                c.check(not any(x[0] == "bad sql" for x in it.env.events), "valid", wh, "%s: the database rejects the statement" % label, key="valid|" + label, path=[repr(v)[:200]])
                if not c.check(r[0] == "ok" or any(x[0] == "bad sql" for x in it.env.events), "succeeds", wh, "%s: writing fails (%s)" % (label, " ".join(map(str, r))[:80]), key="succeeds|" + label, what=label, path=[repr(v)[:200]]):
                    n += 1
                    continue
                for w in dml([x[2] for x in it.env.events if x[0] == "write"]):
                    try:
                        c19.statement(c, kind, t, e, w, m, label)
                        n += 1
                    except SQL.Unknown as u:
                        c.incomplete.append("%s: %s" % (label, u))
                    except SQL.SqlError as u:
                        n += 1
                        c.check(False, "valid", wh, "%s: the database rejects the statement (%s)" % (label, u), key="valid|" + label, path=[repr(v)[:200]])
            c.count("statements", n)
            c.need("statements, " + label, n)
    ctx.par(one, [x for x in items if keep is None or keep(x)])
