"""PostgreSQL values in evaluated expressions: cells of typed columns and how literals are converted to them."""
import struct
from . import sql as SQL
UNSET = SQL.UNSET


class Geom:
    def __init__(self, wkb, srid):
        self.wkb, self.srid = wkb, srid

    def __eq__(self, o):
        return isinstance(o, Geom) and self.wkb == o.wkb and self.srid == o.srid

    def __hash__(self):
        return hash(self.wkb)

    def __repr__(self):
        return "geometry %s (SRID %s)" % (self.wkb.hex(), self.srid)


class PgV:
    """the content of a column"""

    def __init__(self, type, v):
        self.type, self.v = type, v

    def __eq__(self, o):
        return isinstance(o, PgV) and base(self.type) == base(o.type) and (self.v == o.v or self.v != self.v and o.v != o.v)     # NaN equals NaN

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return "%r" % (self.v,)


def base(type):
    t = type.lower()
    return ("bool" if t.startswith("bool") else "int" if "int" in t or "serial" in t else "real" if t in ("double precision", "real") or t.startswith(("numeric", "decimal")) else
            "bytea" if t == "bytea" else "geom" if t.startswith("geometry") else "text")


def hexbytes(s):
    if not s.startswith("\\x"):
        if "\\" in s:
            raise SQL.Unknown("escape format of bytea")
        return s.encode("utf-8", "surrogateescape")
    try:
        return bytes.fromhex(s[2:])
    except ValueError:
        raise SQL.SqlError("invalid hexadecimal data")


HEADER = {0: 0, 1: 32, 2: 48, 3: 48, 4: 64}


def wkb_of(b):
    """the WKB in a GeoPackage geometry, and its SRID; None if it is none"""
    if len(b) < 8 or b[:2] != b"GP":
        return None
    n = 8 + HEADER.get(b[3] >> 1 & 7, 1 << 30)
    if len(b) < n:
        return None
    return b[n:], struct.unpack("<i" if b[3] & 1 else ">i", b[4:8])[0]


def cell(type, v, srid=None):
    """the content of a column of this type that stands for a changeset's value"""
    k = base(type)
    if v[0] == "null":
        return None
    x = v[1]
    if v[0] == "real":
        x = struct.unpack("<d", struct.pack("<Q", x[1]))[0]
    if k == "bool":
        return PgV(type, bool(x))
    if k == "geom":
        w = wkb_of(x)
        if w is None:
            raise SQL.SqlError("not a geometry")
        return PgV(type, Geom(*w))
    return PgV(type, x)


class PgEval(SQL.Eval):
    def __init__(self, *a, **k):
        k.setdefault("fn", self.function)
        super().__init__(*a, **k)

    def function(self, n, args):
        if n in ("st_geomfromwkb", "st_geomfromewkb"):
            if any(a is None for a in args):
                return None
            b = args[0].v if isinstance(args[0], PgV) else hexbytes(args[0])
            return Geom(b, args[1] if len(args) > 1 else 0)
        return UNSET

    def coerce(self, type, x):
        """what a column of this type holds after x is assigned to it"""
        if x is None:
            return None
        if isinstance(x, PgV):
            if base(x.type) == base(type):
                return x
            x = x.v
        k = base(type)
        if isinstance(x, Geom):
            if k != "geom":
                raise SQL.SqlError("a geometry in a column of type " + type)
            return PgV(type, x)
        if isinstance(x, bool):
            if k != "bool":
                raise SQL.SqlError("a boolean in a column of type " + type)
            return PgV(type, x)
        if isinstance(x, str):
            try:
                if k == "int":
                    return PgV(type, int(x))
                if k == "real":
                    return PgV(type, float(x))
            except ValueError:
                raise SQL.SqlError("%r for type %s" % (x, type))
            if k == "bool":
                l = x.strip().lower()
                if l in ("t", "true", "y", "yes", "on", "1"):
                    return PgV(type, True)
                if l in ("f", "false", "n", "no", "off", "0"):
                    return PgV(type, False)
                raise SQL.SqlError("%r for type %s" % (x, type))
            if k == "bytea":
                return PgV(type, hexbytes(x))
            if k == "geom":
                raise SQL.Unknown("text for a geometry")
            return PgV(type, x)
        if k in ("int", "real"):
            return PgV(type, x if k == "int" and isinstance(x, int) else round(x) if k == "int" else float(x))
        raise SQL.SqlError("a number in a column of type " + type)

    def same(self, a, b):
        if isinstance(a, PgV) or isinstance(b, PgV):
            if not isinstance(a, PgV):
                a, b = b, a
            if not isinstance(b, PgV):
                if isinstance(b, (int, float)) and not isinstance(b, bool) and base(a.type) in ("int", "real"):
                    return a.v == b
                b = self.coerce(a.type, b)
            if base(a.type) in ("int", "real") and base(b.type) in ("int", "real"):
                return a.v == b.v or a.v != a.v and b.v != b.v
            if base(a.type) != base(b.type):
                raise SQL.SqlError("no operator for %s and %s" % (a.type, b.type))
            return a.v == b.v or a.v != a.v and b.v != b.v
        return super().same(a, b)

    def truth(self, v):
        if isinstance(v, PgV):
            v = v.v
        if isinstance(v, (int, float)) and not isinstance(v, bool) or isinstance(v, str):
            raise SQL.SqlError("argument of WHERE must be boolean")
        return super().truth(v)
