"""Bit-level abstract interpretation of small codecs over the resolved AST.

Integers are vectors of bits, each 0, 1 or a named input bit (possibly negated); memory is a set of
arrays with constant indices.  Where an operation or a branch depends on an undetermined bit, the
input space is partitioned on that bit and the function is interpreted again for each cell, so the
cells cover every input of the given shape and each result is exact for its cell.
"""
import time
from .engine import AnalysisError

LIMIT = 400000


class Need(Exception):
    def __init__(self, lit):
        self.lit = lit


class Undef(Exception):
    """the result depends on memory that was never written"""


class OutOfBounds(Exception):
    pass


class Thrown(Exception):
    def __init__(self, cls):
        self.cls = cls


class _Brk(Exception):
    pass


class _Cont(Exception):
    pass


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


UNDEF = object()


def neglit(b):
    if b in (0, 1):
        return 1 - b
    return (b[0], b[1], not b[2])


class BV:
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = tuple(b)

    def __eq__(self, o):
        return isinstance(o, BV) and self.b == o.b

    def __hash__(self):
        return hash(self.b)

    def __len__(self):
        return len(self.b)

    def const(self):
        v = 0
        for i, x in enumerate(self.b):
            if x == 1:
                v |= 1 << i
            elif x != 0:
                return None
        return v

    def __repr__(self):
        c = self.const()
        if c is not None:
            return "%d" % c
        return "<" + " ".join("01"[x] if x in (0, 1) else ("!" if x[2] else "") + "%s.%d" % x[:2] for x in reversed(self.b)) + ">"


class CBV(BV):
    """a vector whose bits are all known; the tag records where a character comes from"""
    __slots__ = ("v", "tag")

    def __init__(self, v, w, tag=None):
        self.v = v & ((1 << w) - 1)
        self.b = tuple([(v >> i) & 1 for i in range(w)])
        self.tag = tag

    def const(self):
        return self.v


_K = {}
HOOK = {}      # class -> copy function, set by interpreters that run copy constructors


def K(v, w):
    r = _K.get((v, w))
    if r is None:
        r = CBV(v, w)
        if len(_K) < 20000:
            _K[(v, w)] = r
    return r


def sym(name, w):
    return BV([(name, i, False) for i in range(w)])


class Str:
    """std::string / std::vector / array contents"""
    __slots__ = ("d", "kind")

    def __init__(self, d, kind="str"):
        self.d = list(d)
        self.kind = kind

    def copy(self):
        return Str([cp(x) for x in self.d], self.kind)

    def __repr__(self):
        cs = [x.const() if isinstance(x, BV) else None for x in self.d]
        if all(c is not None and 32 <= c < 127 for c in cs):
            return '"' + "".join(map(chr, cs)) + '"'
        return repr(self.d)


class Obj:
    __slots__ = ("cls", "f")

    def __init__(self, cls, f=None):
        self.cls = cls
        self.f = dict(f or {})

    def copy(self):
        h = HOOK.get(self.cls)
        if h is not None:
            return h(self)
        return Obj(self.cls, {k: cp(v) for k, v in self.f.items()})

    def __repr__(self):
        return "%s%r" % (self.cls, self.f)


def cp(x):
    return x.copy() if isinstance(x, (Str, Obj)) else x


class Ref:
    """an lvalue: element k of container c (dict or list)"""
    __slots__ = ("c", "k", "w", "obj")

    def __init__(self, c, k, w=None, obj=None):
        self.c = c
        self.k = k
        self.w = w
        self.obj = obj

    def get(self):
        try:
            if isinstance(self.c, list) and not 0 <= self.k < len(self.c):
                raise OutOfBounds()
            v = self.c[self.k]
        except (KeyError, IndexError):
            raise OutOfBounds()
        if v is UNDEF:
            raise Undef()
        return v

    def put(self, v):
        if isinstance(self.c, list) and not 0 <= self.k < len(self.c):
            raise OutOfBounds()
        self.c[self.k] = v


class URef(Ref):
    """member of a union: writing one forgets the others"""

    def put(self, v):
        self.c.clear()
        self.c[self.k] = v

    def get(self):
        if self.k not in self.c:
            raise Undef()
        return Ref.get(self)


class Ptr:
    """pointer: (list, index) into an array, or to a single lvalue"""
    __slots__ = ("c", "k", "ref", "obj")

    def __init__(self, c, k, ref=None, obj=None):
        self.c = c
        self.k = k
        self.ref = ref
        self.obj = obj

    def at(self, i):
        if self.ref is not None:
            if i:
                raise AnalysisError("pointer arithmetic on a scalar")
            return self.ref
        return Ref(self.c, self.k + i, obj=self.obj)

    def add(self, n):
        if self.ref is not None:
            raise AnalysisError("pointer arithmetic on a scalar")
        return Ptr(self.c, self.k + n, obj=self.obj)


class View(list):
    pass


class Interp:
    def __init__(self, prog, cell, ext=None):
        self.p = prog
        self.cell = cell
        self.ext = ext or {}
        self.steps = 0
        self.depth = 0
        self.out = []
        self.covered = set()
        self.globals = {}
        self.heap = []
        self.errors = []

    # ---- bits ----
    def lit(self, x):
        if x in (0, 1):
            return x
        v = self.cell.get((x[0], x[1]))
        if v is None:
            return x
        return 1 - v if x[2] else v

    def nb(self, v):
        if type(v) is CBV:
            return v
        if not isinstance(v, BV):
            if v is UNDEF:
                raise Undef()
            raise AnalysisError("not an integer: %r" % (v,))
        return BV([self.lit(x) for x in v.b])

    def const(self, v):
        v = self.nb(v)
        if type(v) is CBV:
            return v.v
        for x in v.b:
            if x not in (0, 1):
                raise Need(x)
        return v.const()

    def sconst(self, v):
        c = self.const(v)
        w = len(v.b)
        return c - (1 << w) if c >> (w - 1) else c

    def ty(self, t):
        return self.p.types.get(t, {})

    def tinfo(self, t):
        d = self.ty(t)
        k = d.get("k")
        if k == "bool":
            return 1, False
        if k in ("int", "enum"):
            return d.get("bits", 32), bool(d.get("signed"))
        if k == "float":
            return d.get("bits", 64), False
        return None, None

    def resize(self, v, w, signed):
        v = self.nb(v)
        if type(v) is CBV:
            n = len(v.b)
            if w == n:
                return v
            return K(v.v - (1 << n) if signed and w > n and v.b and v.b[-1] else v.v & ((1 << w) - 1), w)
        if w <= len(v.b):
            return BV(v.b[:w])
        ext = v.b[-1] if signed and v.b else 0
        return BV(v.b + (ext,) * (w - len(v.b)))

    def addc(self, a, b, c=0):
        r = []
        for x, y in zip(a.b, b.b):
            kn = [z for z in (x, y, c) if z in (0, 1)]
            un = [z for z in (x, y, c) if z not in (0, 1)]
            if not un:
                s = x + y + c
                r.append(s & 1)
                c = s >> 1
            elif len(un) == 1:
                k = sum(kn)
                if k == 0:
                    r.append(un[0])
                    c = 0
                elif k == 1:
                    r.append(neglit(un[0]))
                    c = un[0]
                else:
                    r.append(un[0])
                    c = 1
            else:
                raise Need(un[0])
        return BV(r)

    def bitop(self, op, x, y):
        if op == "&":
            if x == 0 or y == 0:
                return 0
            if x == 1:
                return y
            if y == 1 or x == y:
                return x
            if x == neglit(y):
                return 0
        elif op == "|":
            if x == 1 or y == 1:
                return 1
            if x == 0:
                return y
            if y == 0 or x == y:
                return x
            if x == neglit(y):
                return 1
        elif op == "^":
            if x in (0, 1) and y in (0, 1):
                return x ^ y
            if x == 0:
                return y
            if y == 0:
                return x
            if x == 1:
                return neglit(y)
            if y == 1:
                return neglit(x)
            if x == y:
                return 0
            if x == neglit(y):
                return 1
        raise Need(x if x not in (0, 1) else y)

    def cmp(self, op, a, b, signed):
        a, b = self.nb(a), self.nb(b)
        if type(a) is CBV and type(b) is CBV and len(a.b) == len(b.b):
            x, y = a.v, b.v
            if signed and a.b:
                x = x - (1 << len(a.b)) if a.b[-1] else x
                y = y - (1 << len(b.b)) if b.b[-1] else y
            return {"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
        if op in ("==", "!="):
            und = None
            for x, y in zip(a.b, b.b):
                if x == y:
                    continue
                if x == neglit(y):
                    return op == "!="
                und = und or (x if x not in (0, 1) else y)
            if und is None:
                return op == "=="
            raise Need(und)
        n = len(a.b)
        for i in reversed(range(n)):
            x, y = a.b[i], b.b[i]
            if x == y:
                continue
            if x in (0, 1) and y in (0, 1):
                lt = x < y
                if signed and i == n - 1:
                    lt = not lt
                return {"<": lt, "<=": lt, ">": not lt, ">=": not lt}[op]
            # undetermined here: ranges of what is below may still decide
            raise Need(x if x not in (0, 1) else y)
        return op in ("<=", ">=")

    def truth(self, v):
        if v is None:
            return False
        if isinstance(v, (Ptr, Obj, Str, Ref)):
            return True
        v = self.nb(v)
        if 1 in v.b:
            return True
        for x in v.b:
            if x != 0:
                raise Need(x)
        return False

    def binop(self, op, a, b, t, ta):
        w, sg = self.tinfo(ta)
        if op in ("==", "!=", "<", "<=", ">", ">="):
            if isinstance(a, Ptr) or isinstance(b, Ptr) or a is None or b is None:
                if op in ("==", "!="):
                    same = (a is None) == (b is None) and (a is None or (a.c is b.c and a.k == b.k and a.ref is b.ref))
                    return K(int(same == (op == "==")), 1)
                if a.c is b.c:
                    return K(int(eval("%d %s %d" % (a.k, op, b.k))), 1)
                raise AnalysisError("pointer comparison")
            return K(int(self.cmp(op, a, b, sg)), 1)
        if isinstance(a, Ptr):
            if op == "-" and isinstance(b, Ptr) and a.c is b.c:
                return K(a.k - b.k, 64)
            n = self.sconst(b)
            return a.add(n if op == "+" else -n)
        if isinstance(b, Ptr):
            return b.add(self.sconst(a))
        if self.ty(ta).get("k") == "float":
            raise AnalysisError("floating point arithmetic")
        a = self.nb(a)
        b = self.nb(b)
        w = len(a.b)
        if type(a) is CBV and type(b) is CBV and op in ("+", "-", "*", "&", "|", "^"):
            return K({"+": a.v + b.v, "-": a.v - b.v, "*": a.v * b.v, "&": a.v & b.v, "|": a.v | b.v, "^": a.v ^ b.v}[op] & ((1 << w) - 1), w)
        if op in ("&", "|", "^"):
            return BV([self.bitop(op, x, y) for x, y in zip(a.b, b.b)])
        if op in ("<<", ">>"):
            n = self.const(b)
            if n >= w:
                raise AnalysisError("shift by more than the width")
            if op == "<<":
                return BV((0,) * n + a.b[:w - n])
            return BV(a.b[n:] + ((a.b[-1] if sg else 0),) * n)
        if op == "+":
            return self.addc(a, b)
        if op == "-":
            return self.addc(a, BV([neglit(x) for x in b.b]), 1)
        if op == "*":
            if b.const() is None:
                a, b = b, a
            c = self.const(b)
            r = K(0, w)
            for i in range(w):
                if (c >> i) & 1:
                    r = self.addc(r, BV((0,) * i + a.b[:w - i]))
            return r
        if op in ("/", "%"):
            c = self.const(b)
            if c == 0:
                raise AnalysisError("division by zero")
            if c & (c - 1) == 0 and (not sg or self.lit(a.b[-1]) == 0):
                n = c.bit_length() - 1
                return BV(a.b[n:] + (0,) * n) if op == "/" else BV(a.b[:n] + (0,) * (w - n))
            x, y = (self.sconst(a), self.sconst(b)) if sg else (self.const(a), c)
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return K(q if op == "/" else x - q * y, w)
        raise AnalysisError("operator " + op)

    # ---- expressions ----
    def ev(self, e):
        self.steps += 1
        if self.steps > LIMIT:
            raise AnalysisError("budget exceeded")
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            raise AnalysisError("expression %s at line %s" % (e["k"], e.get("l")))
        return m(e)

    def rv(self, e):
        v = self.ev(e)
        if isinstance(v, Ref):
            v = v.get()
        return v

    def e_int(self, e):
        w, _ = self.tinfo(e["t"])
        return K(e["v"], w or 32)

    def e_str(self, e):
        v = e["v"]
        raw = [ord(c) & 0xff for c in v] if all(ord(c) < 256 for c in v) else list(v.encode())
        return Ptr([K(c, 8) for c in raw] + [K(0, 8)], 0)

    def e_null(self, e):
        return None

    def e_zero(self, e):
        return self.zero(e["t"])

    def zero(self, t):
        d = self.ty(t)
        if d.get("k") == "ptr":
            return None
        if d.get("k") == "arr":
            return Str([self.zero(d["to"]) for _ in range(d["n"])], "arr")
        if d.get("k") == "rec":
            return self.default(t)
        w, _ = self.tinfo(t)
        if w is None:
            raise AnalysisError("zero value of " + t)
        return K(0, w)

    def e_this(self, e):
        return self.fr["this"]

    def e_var(self, e):
        if e.get("g"):
            g = e["gn"]
            if g not in self.globals:
                self.globals[g] = self.globalinit(g)
            return Ref(self.globals, g)
        v = self.fr["ref"].get(e["id"])
        if v is not None:
            return v
        return Ref(self.fr["v"], e["id"])

    def globalinit(self, g):
        gl = self.p.globals.get(g)
        if gl is None:
            raise AnalysisError("global " + str(g))
        c = {}
        self.initref(Ref(c, 0), gl["t"], gl.get("init"))
        return c[0]

    def e_mem(self, e):
        b = self.ev(e["b"])
        if isinstance(b, Ref):
            b = b.get()
        if isinstance(b, Ptr):
            b = b.at(0).get()
        if not isinstance(b, Obj):
            raise AnalysisError("member of %r" % (b,))
        v = b.f.get(e["f"], UNDEF)
        if isinstance(v, Ref):
            return v
        if b.cls.endswith("::"):
            return URef(b.f, e["f"])
        return Ref(b.f, e["f"])

    def e_idx(self, e):
        b = self.rv(e["b"])
        i = self.sconst(self.rv(e["i"]))
        if not isinstance(b, Ptr):
            raise AnalysisError("index of %r" % (b,))
        return b.at(i)

    def e_decay(self, e):
        v = self.ev(e["e"])
        if isinstance(v, Ref):
            v = v.get()
        if isinstance(v, Ptr):
            return v
        return Ptr(v.d, 0, obj=v)

    def e_ld(self, e):
        v = self.ev(e["e"])
        if isinstance(v, Ref):
            v = v.get()
        if v is UNDEF:
            raise Undef()
        return v

    def e_full(self, e):
        return self.ev(e["e"])

    e_bt = e_full
    e_stdil = e_full

    def e_temp(self, e):
        c = {}
        r = Ref(c, 0)
        self.initref(r, e["t"], e["e"])
        return r

    def e_cast(self, e):
        v = self.ev(e["e"])
        ck = e["ck"]
        if ck in ("NoOp", "LValueToRValue", "BitCast", "DerivedToBase", "UncheckedDerivedToBase", "LValueBitCast"):
            return v
        if ck == "ToVoid":
            return None
        if isinstance(v, Ref):
            v = v.get()
        if ck in ("IntegralToBoolean", "PointerToBoolean"):
            if isinstance(v, BV) and len(v.b) == 1:
                return v
            return K(int(self.truth(v)), 1)
        if ck == "IntegralCast":
            w, _ = self.tinfo(e["t"])
            _, sg = self.tinfo(e["ft"])
            return self.resize(v, w, sg)
        if ck == "FloatingCast":
            v = self.nb(v)
            if self.ty(e["t"]).get("bits", 64) < self.ty(e["ft"]).get("bits", 64):
                return BV((0,) * 29 + v.b[29:])      # the low bits of the mantissa are lost
            return v
        raise AnalysisError("cast " + ck)

    def e_un(self, e):
        op = e["op"]
        if op == "&":
            r = self.ev(e["e"])
            if isinstance(r, Ref):
                if isinstance(r.c, list):
                    return Ptr(r.c, r.k, obj=r.obj)
                return Ptr(None, 0, ref=r)
            return r
        if op == "*":
            v = self.rv(e["e"])
            if not isinstance(v, Ptr):
                raise AnalysisError("dereference of %r" % (v,))
            return v.at(0)
        if op in ("pre++", "pre--", "post++", "post--"):
            r = self.ev(e["e"])
            v = r.get()
            d = 1 if "++" in op else -1
            if isinstance(v, Ptr):
                n = v.add(d)
            else:
                v = self.nb(v)
                n = self.addc(v, K(d, len(v.b)))
            r.put(n)
            return r if e.get("gl") else (v if op.startswith("post") else n)
        v = self.rv(e["e"])
        if op == "!":
            return K(int(not self.truth(v)), 1)
        v = self.nb(v)
        if op == "~":
            return BV([neglit(x) for x in v.b])
        if op == "-":
            return self.addc(K(0, len(v.b)), BV([neglit(x) for x in v.b]), 1)
        if op == "+":
            return v
        raise AnalysisError("operator " + op)

    def e_bin(self, e):
        op = e["op"]
        if op == "&&":
            return K(int(self.truth(self.rv(e["a"])) and self.truth(self.rv(e["b"]))), 1)
        if op == "||":
            return K(int(self.truth(self.rv(e["a"])) or self.truth(self.rv(e["b"]))), 1)
        if op == ",":
            self.ev(e["a"])
            return self.ev(e["b"])
        return self.binop(op, self.rv(e["a"]), self.rv(e["b"]), e["t"], e["a"]["t"])

    def e_assign(self, e):
        op = e["op"]
        v = self.rv(e["b"])
        r = self.ev(e["a"])
        if op != "=":
            old = r.get()
            if isinstance(old, Ptr):
                n = self.sconst(v)
                v = old.add(n if op == "+=" else -n)
            else:
                w, sg = self.tinfo(e["a"]["t"])
                ct = e.get("ct") or e["b"]["t"]
                cw = max(w, len(v.b), 32)
                ops = op[:-1]
                if ops in ("<<", ">>"):
                    x = self.binop(ops, self.resize(old, max(w, 32), sg), v, None, e["a"]["t"] if w >= 32 else "int")
                else:
                    x = self.binop(ops, self.resize(old, cw, sg), self.resize(v, cw, self.tinfo(e["b"]["t"])[1]), None,
                                   e["a"]["t"] if w >= len(v.b) else e["b"]["t"])
                v = self.resize(x, w, False)
        r.put(cp(v))
        return r if e.get("gl") else v

    def e_cond(self, e):
        return self.ev(e["a"] if self.truth(self.rv(e["c"])) else e["b"])

    def e_throw(self, e):
        if "e" in e:
            raise Thrown(self.ty(e["tt"]).get("cls") or e["tt"])
        raise AnalysisError("rethrow")

    def e_ilist(self, e):
        d = self.ty(e["t"])
        vs = [cp(self.rv(a)) for a in e["a"]]
        if d.get("k") == "arr":
            vs += [self.zero(d["to"]) for _ in range(d["n"] - len(vs))]
            return Str(vs, "arr")
        if d.get("k") == "rec" and d.get("rec") in self.p.records:
            return Obj(d["cls"], {f["n"]: v for f, v in zip(self.p.records[d["rec"]]["fields"], vs)})
        if len(vs) == 1:
            return vs[0]
        if not vs:
            return self.zero(e["t"])
        return Str(vs, "vec")

    def e_ctor(self, e):
        c = {}
        r = Ref(c, 0)
        self.construct(r, e)
        return c[0]

    def e_new(self, e):
        c = {}
        r = Ref(c, 0)
        if e.get("arr"):
            raise AnalysisError("new[]")
        self.initref(r, e["at"], e.get("init"))
        self.heap.append((c, e.get("l")))
        return Ptr(None, 0, ref=r)

    def e_delete(self, e):
        v = self.rv(e["e"])
        if v is None:
            return None
        if v.ref is None or not any(c is v.ref.c for c, _ in self.heap):
            self.errors.append((e.get("l"), "something that was not allocated is deleted"))
        elif v.ref.k not in v.ref.c:
            self.errors.append((e.get("l"), "deleted twice"))
        else:
            v.ref.c.pop(v.ref.k)
        return None

    def live(self):
        return [(c, l) for c, l in self.heap if 0 in c]

    def destroy(self, v, t):
        """run the destructor of a project class"""
        d = self.ty(t)
        fn = next((f for f in self.p.functions.values() if f.get("dtor") and f["n"].startswith(d.get("cls", "?") + "::~")), None)
        if fn is not None and "body" in fn:
            self.callfn(fn, [], Ref({0: v}, 0))

    # ---- objects ----
    def default(self, t):
        d = self.ty(t)
        k = d.get("k")
        if k == "arr":
            return Str([self.default(d["to"]) for _ in range(d["n"])], "arr")
        if k == "rec":
            c = d.get("cls", "")
            if c == "std::basic_string":
                return Str([])
            if c == "std::vector":
                return Str([], "vec")
            if c in ("std::unique_ptr", "std::shared_ptr"):
                return None
            r = self.p.records.get(d.get("rec"))
            if r is not None:
                o = Obj(c)
                for f in r["fields"]:
                    if f.get("init"):
                        self.initref(Ref(o.f, f["n"]), f["t"], f["init"])
                    else:
                        o.f[f["n"]] = self.default(f["t"])
                return o
            return Obj(c)
        return UNDEF

    def initref(self, r, t, e):
        if e is None:
            r.put(self.default(t))
            return
        while e["k"] in ("full", "bt"):
            e = e["e"]
        if e["k"] == "ctor" and self.ty(t).get("k") == "rec":
            self.construct(r, e)
            return
        r.put(cp(self.rv(e)))

    def construct(self, r, e):
        n = e["n"]
        cls = self.ty(e["t"]).get("cls", "")
        h = self.ext.get(cls + "::ctor")
        if h is not None:
            r.put(h(self, None, [self.ev(a) for a in e["a"]], e))
            return
        if cls in ("std::basic_string", "std::vector"):
            r.put(self.seqctor(cls, e))
            return
        if e.get("ck") in ("copy", "move") and not e.get("user"):
            r.put(cp(self.rv(e["a"][0])))
            return
        if cls in ("std::unique_ptr",):
            r.put(self.rv(e["a"][0]) if e["a"] else None)
            return
        fn = self.p.functions.get(e["f"])
        r.put(self.default(e["t"]))
        if fn is None or ("body" not in fn and "inits" not in fn):
            if e["a"]:
                raise AnalysisError("constructor " + n)
            return
        self.callfn(fn, [self.ev(a) for a in e["a"]], r)

    def seqctor(self, cls, e):
        kind = "str" if cls.endswith("string") else "vec"
        ns = [a for a in e["a"] if self.ty(a["t"]).get("cls") != "std::allocator"]
        a = [self.rv(x) for x in ns]
        if not a:
            return Str([], kind)
        if isinstance(a[0], Str):
            if len(a) == 1:
                return Str([cp(x) for x in a[0].d], kind)
            i = self.const(a[1])
            j = self.const(a[2]) if len(a) > 2 else len(a[0].d)
            if i > len(a[0].d):
                raise Thrown("std::out_of_range")
            return Str(a[0].d[i:i + j], kind)
        if isinstance(a[0], Ptr):
            if len(a) == 1:
                return Str(self.cstr(a[0]), kind)
            if isinstance(a[1], Ptr):
                return Str(a[0].c[a[0].k:a[1].k], kind)
            n = self.const(a[1])
            return Str([a[0].at(i).get() for i in range(n)], kind)
        n = self.const(a[0])
        if n > 100000:
            raise AnalysisError("huge container")
        el = self.ty(e["t"])
        fill = a[1] if len(a) > 1 else K(0, 8)
        return Str([cp(fill) for _ in range(n)], kind)

    def cstr(self, p):
        r = []
        i = 0
        while True:
            v = p.at(i).get()
            if not self.truth(v):
                return r
            r.append(self.nb(v))
            i += 1

    # ---- calls ----
    def e_call(self, e):
        name = e["n"]
        this = None
        if e.get("this"):
            this = self.ev(e["this"])
            if e.get("arrow"):
                if isinstance(this, Ref):
                    this = this.get()
                if isinstance(this, Ptr):
                    this = this.at(0)
        h = self.ext.get(name)
        if h is not None:
            return h(self, this, [self.ev(a) for a in e["a"]], e)
        short = name.split("::")[-1]
        if name.startswith("std::basic_string::") or name.startswith("std::vector::"):
            return self.seq(short, this, e)
        if name.startswith("std::") or name.startswith("__gnu"):
            m = getattr(self, "std_" + short.replace("operator", "op").replace("+", "plus").replace("==", "eq").replace("!=", "ne").replace("->", "arrow").replace("*", "star").replace(" ", "_").replace("<<", "put"), None)
            if m is not None:
                return m(this, e)
            raise AnalysisError("call of " + name)
        m = getattr(self, "c_" + name, None)
        if m is not None:
            return m(e)
        fn = self.p.functions.get(e["f"])
        if fn is None:
            l = [f for f in self.p.byname.get(name, []) if f["f"].split("@")[0] == e["f"].split("@")[0]]
            fn = l[0] if len(l) == 1 else None
        if fn is None or "body" not in fn or (name.endswith("::operator=") and fn.get("implicit")):
            if name.endswith("::operator=") and len(e["a"]) == 1:
                this.put(cp(self.rv(e["a"][0])))
                return this
            raise AnalysisError("call of " + name)
        return self.callfn(fn, [self.ev(a) for a in e["a"]], this)

    def callfn(self, fn, args, this=None):
        self.depth += 1
        if self.depth > 60:
            raise AnalysisError("too deep")
        self.covered.add(fn["n"])
        old = getattr(self, "fr", None)
        fr = {"v": {}, "ref": {}, "this": None, "fn": fn}
        if this is not None:
            fr["this"] = this if isinstance(this, Ptr) else Ptr(None, 0, ref=this)
        for p, a in zip(fn["params"], args):
            if p.get("ref"):
                if not isinstance(a, Ref):
                    a = Ref({0: a}, 0)
                fr["ref"][p["id"]] = a
            else:
                fr["v"][p["id"]] = cp(a.get() if isinstance(a, Ref) else a)
        self.fr = fr
        try:
            o = fr["this"].at(0).get() if this is not None and fn.get("ctor") else None
            for i in fn.get("inits", ()):
                if "f" in i and o is not None:
                    if i.get("e") is not None or i.get("init") is not None:
                        t = next((f["t"] for f in self.p.recbycls[fn["n"].rsplit("::", 1)[0]]["fields"] if f["n"] == i["f"]), None)
                        x = i.get("e") if i.get("e") is not None else i["init"]
                        if t is None:
                            raise AnalysisError("member initializer")
                        if self.ty(t).get("k") == "ref":
                            o.f[i["f"]] = self.ev(x)
                        else:
                            self.initref(Ref(o.f, i["f"]), t, x)
                else:
                    raise AnalysisError("base initializer")
            if "body" in fn:
                self.exec(fn["body"])
            if fn.get("ret", "void") != "void" and not fn.get("ctor") and not fn.get("dtor"):
                raise Undef()      # the end of a function that must return a value
            return None
        except _Ret as r:
            return r.v
        finally:
            self.fr = old
            self.depth -= 1

    def seq(self, m, this, e):
        a = e["a"]
        if isinstance(this, Ref):
            s = this.get()
        elif isinstance(this, Ptr):
            s = this.at(0).get()
        else:
            s = this
        if not isinstance(s, Str):
            raise AnalysisError("container method on %r" % (s,))
        if m in ("size", "length"):
            return K(len(s.d), 64)
        if m == "empty":
            return K(int(not s.d), 1)
        if m in ("c_str", "data"):
            return Ptr(s.d + [K(0, 8)] if s.kind == "str" else s.d, 0)
        if m in ("operator[]", "at"):
            i = self.const(self.rv(a[0]))
            if i >= len(s.d):
                if m == "at":
                    raise Thrown("std::out_of_range")
                if i == len(s.d) and s.kind == "str":
                    return Ref([K(0, 8)], 0)
                raise OutOfBounds()
            return Ref(s.d, i, obj=s)
        if m in ("front", "back"):
            if not s.d:
                raise OutOfBounds()
            return Ref(s.d, 0 if m == "front" else len(s.d) - 1)
        if m in ("push_back", "emplace_back"):
            s.d.append(cp(self.rv(a[0])))
            return None
        if m == "pop_back":
            if not s.d:
                raise OutOfBounds()
            s.d.pop()
            return None
        if m in ("operator+=", "append"):
            v = self.rv(a[0])
            if isinstance(v, Str):
                s.d += v.d
            elif isinstance(v, Ptr):
                s.d += self.cstr(v) if len(a) == 1 else [v.at(i).get() for i in range(self.const(self.rv(a[1])))]
            elif len(a) == 2:
                s.d += [self.nb(self.rv(a[1]))] * self.const(v)
            else:
                s.d.append(self.nb(v))
            return this
        if m in ("operator=", "assign"):
            v = self.rv(a[0])
            if isinstance(v, Str):
                s.d[:] = [cp(x) for x in v.d]
            elif isinstance(v, Ptr):
                s.d[:] = self.cstr(v) if len(a) == 1 else [v.at(i).get() for i in range(self.const(self.rv(a[1])))]
            else:
                s.d[:] = [self.nb(v)]
            return this
        if m == "clear":
            s.d.clear()
            return None
        if m in ("reserve", "shrink_to_fit"):
            return None
        if m == "resize":
            n = self.const(self.rv(a[0]))
            if n > 100000:
                raise AnalysisError("huge container")
            if len(a) > 1:
                fill = self.rv(a[1])
            elif s.kind == "str":
                fill = K(0, 8)
            else:
                d = self.ty(e["this"]["t"])
                et = d.get("ta", [None])[0] if d.get("ta") else None
                fill = None
            while len(s.d) > n:
                s.d.pop()
            while len(s.d) < n:
                s.d.append(cp(fill) if fill is not None else self.elemdefault(e))
            return None
        if m in ("begin", "cbegin"):
            return Ptr(s.d, 0, obj=s)
        if m in ("end", "cend"):
            return Ptr(s.d, len(s.d), obj=s)
        if m == "find" and s.kind == "str":
            v = self.rv(a[0])
            st = self.const(self.rv(a[1])) if len(a) > 1 else 0
            pat = v.d if isinstance(v, Str) else self.cstr(v) if isinstance(v, Ptr) else [v]
            for i in range(st, len(s.d) - len(pat) + 1):
                if all(self.cmp("==", x, y, False) for x, y in zip(s.d[i:], pat)):
                    return K(i, 64)
            return K(-1, 64)
        if m == "substr":
            i = self.const(self.rv(a[0])) if a else 0
            j = self.const(self.rv(a[1])) if len(a) > 1 else len(s.d)
            if i > len(s.d):
                raise Thrown("std::out_of_range")
            return Str(s.d[i:i + j])
        if m == "insert" and s.kind == "str":
            i = self.const(self.rv(a[0]))
            v = self.rv(a[1])
            if len(a) == 2:
                s.d[i:i] = v.d if isinstance(v, Str) else self.cstr(v)
                return this
        if m == "replace" and s.kind == "str" and len(a) == 3:
            i, n = self.const(self.rv(a[0])), self.const(self.rv(a[1]))
            v = self.rv(a[2])
            s.d[i:i + n] = v.d if isinstance(v, Str) else self.cstr(v)
            return this
        raise AnalysisError("container method " + m)

    def elemdefault(self, e):
        h = self.ext.get("elem")
        if h is not None:
            return h(self)
        raise AnalysisError("element default")

    def std_opplus(self, this, e):
        out = []
        for x in e["a"]:
            v = self.rv(x)
            if isinstance(v, Str):
                out += v.d
            elif isinstance(v, Ptr):
                out += self.cstr(v)
            else:
                out.append(self.nb(v))
        return Str(out)

    def std_opeq(self, this, e):
        vs = []
        for x in e["a"]:
            v = self.rv(x)
            vs.append(v.d if isinstance(v, Str) else self.cstr(v) if isinstance(v, Ptr) and v.obj is None else v)
        a, b = vs
        if isinstance(a, list) and isinstance(b, list):
            if len(a) != len(b):
                return K(0, 1)
            return K(int(all(self.cmp("==", x, y, False) for x, y in zip(a, b))), 1)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return K(int(a.c is b.c and a.k == b.k), 1)
        raise AnalysisError("comparison")

    def std_opne(self, this, e):
        return K(1 - self.const(self.std_opeq(this, e)), 1)

    def std_move(self, this, e):
        return self.ev(e["a"][0])

    std_forward = std_move

    def std_get(self, this, e):
        return this.get() if isinstance(this, Ref) else this

    std_oparrow = std_get

    def std_opstar(self, this, e):
        v = this.get() if isinstance(this, Ref) else this
        return v.at(0)

    # C functions
    def bytes_of(self, p, n):
        """n bytes behind a pointer, little endian for scalars"""
        if isinstance(p, Ptr) and p.ref is not None:
            v = p.ref.get()
            if isinstance(v, BV):
                if n * 8 > len(v.b):
                    raise OutOfBounds()
                return [BV(v.b[i * 8:i * 8 + 8]) for i in range(n)]
            raise AnalysisError("bytes of %r" % (v,))
        if p is None:
            raise OutOfBounds()
        return [p.at(i).get() for i in range(n)]

    def put_bytes(self, p, bs, width):
        if p.ref is not None:
            if width is None:
                v = p.ref.c.get(p.ref.k, UNDEF)
                width = len(v.b) if isinstance(v, BV) else len(bs) * 8
            if width < len(bs) * 8:
                raise OutOfBounds()
            if width > len(bs) * 8:
                old = p.ref.get()
                p.ref.put(BV(sum((b.b for b in bs), ()) + old.b[len(bs) * 8:]))
                return
            p.ref.put(BV(sum((b.b for b in bs), ())))
            return
        for i, b in enumerate(bs):
            p.at(i).put(b)

    def pointee(self, e):
        while e["k"] in ("cast", "full", "bt", "ld") and e.get("k") != "ld":
            e = e["e"]
        if e["k"] == "un" and e["op"] == "&":
            return self.tinfo(e["e"]["t"])[0]
        return None

    def c_memcpy(self, e):
        d, s = self.rv(e["a"][0]), self.rv(e["a"][1])
        n = self.sconst(self.rv(e["a"][2]))
        if n < 0:
            raise OutOfBounds()
        if n:
            self.put_bytes(d, self.bytes_of(s, n), self.pointee(e["a"][0]))
        return d

    c_memmove = c_memcpy

    def c_memset(self, e):
        d, v, n = [self.rv(a) for a in e["a"]]
        n = self.const(n)
        self.put_bytes(d, [BV(self.nb(v).b[:8])] * n, self.pointee(e["a"][0]))
        return d

    def c_strlen(self, e):
        return K(len(self.cstr(self.rv(e["a"][0]))), 64)

    def bswap(self, e):
        v = self.nb(self.rv(e["a"][0]))
        n = len(v.b) // 8
        return BV(sum((v.b[i * 8:i * 8 + 8] for i in reversed(range(n))), ()))

    c___bswap_64 = c___builtin_bswap64 = c___bswap_32 = c___builtin_bswap32 = c___bswap_16 = bswap

    def c___uint64_identity(self, e):
        return self.rv(e["a"][0])

    c___uint32_identity = c___uint64_identity

    def c_isalnum(self, e):
        c = self.const(self.rv(e["a"][0]))
        return K(int(chr(c).isalnum() and c < 128), 32)

    def c_isdigit(self, e):
        c = self.const(self.rv(e["a"][0]))
        return K(int(48 <= c <= 57), 32)

    def c___assert_fail(self, e):
        raise Thrown("assert")

    # ---- statements ----
    def exec(self, n):
        if n is None:
            return
        self.steps += 1
        if self.steps > LIMIT:
            raise AnalysisError("budget exceeded")
        m = getattr(self, "s_" + n["k"], None)
        if m is None:
            raise AnalysisError("statement " + n["k"])
        m(n)

    def s_nop(self, n):
        pass

    def s_expr(self, n):
        self.ev(n["e"])

    def s_decl(self, n):
        for v in n["vars"]:
            if v.get("static"):
                g = v.get("gn") or (self.fr["fn"]["f"], v["id"])
                if g not in self.globals:
                    self.globals[g] = UNDEF
                    self.initref(Ref(self.globals, g), v["t"], v.get("init"))
                self.fr["ref"][v["id"]] = Ref(self.globals, g)
                continue
            if v.get("ref"):
                r = self.ev(v["init"])
                if not isinstance(r, Ref):
                    r = Ref({0: r}, 0)
                self.fr["ref"][v["id"]] = r
            else:
                self.initref(Ref(self.fr["v"], v["id"]), v["t"], v.get("init"))

    def s_block(self, n):
        for x in n["s"]:
            self.exec(x)

    def s_if(self, n):
        if n.get("init"):
            self.exec(n["init"])
        if n.get("cv"):
            self.exec(n["cv"])
        if self.truth(self.rv(n["c"])):
            self.exec(n["t"])
        elif n.get("e"):
            self.exec(n["e"])

    def s_break(self, n):
        raise _Brk()

    def s_continue(self, n):
        raise _Cont()

    def s_return(self, n):
        if "e" not in n:
            raise _Ret(None)
        v = self.ev(n["e"])
        if self.ty(self.fr["fn"]["ret"]).get("k") != "ref" and isinstance(v, Ref):
            v = cp(v.get())
        raise _Ret(v)

    def s_while(self, n):
        while True:
            if n.get("cv"):
                self.exec(n["cv"])
            if not self.truth(self.rv(n["c"])):
                return
            try:
                self.exec(n["b"])
            except _Brk:
                return
            except _Cont:
                pass

    def s_do(self, n):
        while True:
            try:
                self.exec(n["b"])
            except _Brk:
                return
            except _Cont:
                pass
            if not self.truth(self.rv(n["c"])):
                return

    def s_for(self, n):
        if n.get("i"):
            self.exec(n["i"])
        while not n.get("c") or self.truth(self.rv(n["c"])):
            try:
                self.exec(n["b"])
            except _Brk:
                return
            except _Cont:
                pass
            if n.get("n"):
                self.ev(n["n"])

    def s_rfor(self, n):
        c = self.ev(n["r"])
        if isinstance(c, Ref):
            c = c.get()
        i = 0
        while i < len(c.d):
            v = n["v"]
            if v.get("ref"):
                self.fr["ref"][v["id"]] = Ref(c.d, i, obj=c)
            else:
                self.fr["v"][v["id"]] = cp(c.d[i])
            try:
                self.exec(n["b"])
            except _Brk:
                return
            except _Cont:
                pass
            i += 1

    def s_switch(self, n):
        v = self.rv(n["c"])
        stmts = n["b"]["s"] if n["b"]["k"] == "block" else [n["b"]]
        items = []
        for x in stmts:
            labs = []
            while x and x["k"] in ("case", "default"):
                labs.append(x["v"]["v"] if x["k"] == "case" else None)
                x = x["s"]
            items.append((labs, x))
        start = None
        for k, (labs, _) in enumerate(items):
            for lab in labs:
                if lab is not None and start is None and self.cmp("==", v, K(lab, len(v.b)), False):
                    start = k
        if start is None:
            for k, (labs, _) in enumerate(items):
                if None in labs:
                    start = k
        if start is None:
            return
        try:
            for _, x in items[start:]:
                self.exec(x)
        except _Brk:
            pass

    def s_try(self, n):
        try:
            self.exec(n["b"])
        except Thrown:
            raise AnalysisError("try")


class Partial(list):
    """cells examined before the limit was reached"""
    why = None


def cells(prog, body, maxcells=4000, ext=None, limit=None, partial=False):
    """body(interp) -> result, for every cell of the input partition: [(cell, outcome)] where outcome is
    ("ok", result) / ("throw", cls) / ("undef",) / ("oob",)"""
    todo = [{}]
    done = Partial()
    cov = set()
    t0 = time.time()
    while todo:
        c = todo.pop()
        if len(done) + len(todo) > maxcells or (limit and time.time() - t0 > limit):
            if not partial:
                raise AnalysisError("more than %d cells" % maxcells)
            done.why = "more than %d cells" % maxcells if len(done) + len(todo) > maxcells else "time limit"
            break
        it = Interp(prog, c, ext)
        try:
            r = ("ok", body(it))
        except Need as x:
            for v in (1, 0):
                d = dict(c)
                d[(x.lit[0], x.lit[1])] = v
                todo.append(d)
            continue
        except Thrown as x:
            r = ("throw", x.cls)
        except Undef:
            r = ("undef",)
        except OutOfBounds:
            r = ("oob",)
        cov |= it.covered
        done.append((c, r))
    return done, cov
