"""Abstract interpretation of whole operations against an abstract environment.

Extends the bit-level interpreter with the rest of the C++ the project is written in (classes with
destructors, exceptions, containers, smart pointers, variadic functions) and with opaque scalars.
What the environment answers (does this statement fail, is there another row, are these two values
equal) is not fixed: every answer that matters to a branch is an undetermined bit, and all
combinations are examined.  Every character of a text remembers the name it comes from.
"""
import operator, os, struct, time
from . import bits
from .bits import *
from .bits import _Brk, _Cont, _Ret, CBV, HOOK
from .engine import AnalysisError

CMP = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}


# the locale that the application has set
LOCALE = {"point": "."}


class Sc:
    """an opaque scalar: what the environment returned, or a function of it"""
    __slots__ = ("t", "w", "sg")

    def __init__(self, t, w, sg=False):
        self.t = t
        self.w = w
        self.sg = sg

    def __repr__(self):
        return "Sc" + repr(self.t)

    def __eq__(self, o):
        return isinstance(o, Sc) and self.t == o.t and self.w == o.w

    def __hash__(self):
        return hash((self.t, self.w))


class Chunk:
    """a piece of a string with unknown contents and length"""
    __slots__ = ("t", "n")

    def __init__(self, t, n=None):
        self.t = t
        self.n = n      # term of the length, if it is not the whole text

    def __repr__(self):
        return "Chunk%r" % ((self.t, self.n),)

    def __eq__(self, o):
        return isinstance(o, Chunk) and (self.t, self.n) == (o.t, o.n)

    def __hash__(self):
        return hash((self.t, self.n))


class Op:
    """an opaque pointer or handle"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "Op%r" % (self.t,)

    def __eq__(self, o):
        return isinstance(o, Op) and self.t == o.t

    def __hash__(self):
        return hash(self.t)


class Fn:
    def __init__(self, f, n, caps=None):
        self.f = f
        self.n = n
        self.caps = caps


class Own:
    """unique_ptr"""
    __slots__ = ("p",)

    def __init__(self, p=None):
        self.p = p

    def copy(self):
        return Own(self.p)


class Sh:
    """shared_ptr"""
    __slots__ = ("p",)

    def __init__(self, p=None):
        self.p = p


class Map:
    __slots__ = ("items", "kind", "t")

    def __init__(self, kind, t, items=()):
        self.kind = kind
        self.t = t
        self.items = list(items)      # Obj pair for maps, one-element lists for sets

    def copy(self):
        return Map(self.kind, self.t, [cp(x) if isinstance(x, Obj) else list(x) for x in self.items])


class Iter:
    """iterator of a map or set; None is the end"""
    __slots__ = ("m", "x")

    def __init__(self, m, x):
        self.m = m
        self.x = x


class Out:
    """output iterator that adds to a container"""
    __slots__ = ("o", "elem")

    def __init__(self, o, elem):
        self.o = o
        self.elem = elem

    def copy(self):
        return self


class Va(list):
    pass


class Terminate(Exception):
    """an exception leaves a destructor"""


_bcp = bits.cp


def cp(x):
    return x.copy() if isinstance(x, (Str, Obj, Map)) else x


bits.cp = cp

BASES = {"std::out_of_range": "std::logic_error", "std::invalid_argument": "std::logic_error", "std::length_error": "std::logic_error",
         "std::logic_error": "std::exception", "std::runtime_error": "std::exception", "std::bad_alloc": "std::exception",
         "std::range_error": "std::runtime_error"}


def S(text, tag=None):
    """a string whose characters carry a tag"""
    if tag is None:
        return Str([K(c, 8) for c in text.encode()])
    return Str([CBV(c, 8, tag) for c in text.encode()])


def text(x):
    """python text of a string with known characters; unknown chunks become marked characters"""
    d = x.d if isinstance(x, Str) else x
    out = []
    for c in d:
        if isinstance(c, Chunk):
            out.append("\ue000")
        else:
            v = c.const() if isinstance(c, BV) else None
            out.append("\ufffd" if v is None else chr(v))
    return "".join(out)


class W(Interp):
    MAXSTEPS = 1500000

    def __init__(self, prog, cell, env=None, ext=None):
        Interp.__init__(self, prog, cell, dict(ext or {}))
        self.env = env
        self.pending = []
        self.ev_no = {}
        self.statics = {}
        self.trace = []
        self.temps = None
        self.unwinding = 0
        self.shared = []        # what shared pointers were made to own
        self.nfaults = 0
        self.maxfaults = 1
        HOOK.clear()
        for cls, fn in copyctors(prog).items():
            HOOK[cls] = lambda o, fn=fn: self.copyobj(o, fn)
        if env is not None:
            env.attach(self)

    # ---- choices ----
    def decide(self, name, bit=0):
        """value of an undetermined bit; the other value is examined later"""
        v = self.cell.get((name, bit))
        if v is None:
            alt = dict(self.cell)
            alt[(name, bit)] = 1
            self.pending.append(alt)
            self.cell[(name, bit)] = v = 0
        return v

    def settle(self, lit):
        self.decide(lit[0], lit[1])

    def count(self, name):
        n = self.ev_no.get(name, 0)
        self.ev_no[name] = n + 1
        return n

    def fault(self, name, kind="fault"):
        """does this step of the environment fail?  (at most maxfaults do in one run)"""
        n = self.count(name)
        if self.nfaults >= self.maxfaults:
            return False
        if self.decide((kind, name, n)):
            self.nfaults += 1
            return True
        return False

    def _retry(self, f, *a):
        while True:
            try:
                return f(*a)
            except Need as x:
                self.settle(x.lit)

    def const(self, v):
        if type(v) is CBV:
            return v.v
        if isinstance(v, Sc):
            raise AnalysisError("the value of %r is not known" % (v,))
        return self._retry(Interp.const, self, v)

    def term(self, v):
        return v.t if isinstance(v, Sc) else self.const(v)

    def cmp(self, op, a, b, signed):
        if isinstance(a, Chunk) or isinstance(b, Chunk):
            if a == b and op in ("==", "!="):
                return op == "=="
            raise AnalysisError("comparison of unknown texts")
        if isinstance(a, Sc) or isinstance(b, Sc):
            x, y = self.term(a), self.term(b)
            if op in ("==", "!="):
                if x == y:
                    return op == "=="
                for t, v in ((a, y), (b, x)):
                    if isinstance(t, Sc) and isinstance(v, int):
                        r = self.domain(t, v)
                        if r is not None:
                            return r == (op == "==")
                k = ("eq",) + tuple(sorted((x, y), key=repr))
                h = getattr(self.env, "eq", None)
                r = h(*k[1:]) if h else None
                return bool(self.decide(k) if r is None else r) == (op == "==")
            if op in (">", "<="):
                x, y = y, x
            if x == y:
                return op in ("<=", ">=")
            lt = bool(self.decide(("lt", x, y)))
            return lt if op in ("<", ">") else not lt
        return self._retry(Interp.cmp, self, op, a, b, signed)

    def domain(self, sc, v):
        """equality of an opaque scalar of a small domain with a constant"""
        h = getattr(self.env, "domain", None)
        return h(sc, v) if h else None

    def truth(self, v):
        if isinstance(v, (Own, Sh)):
            return v.p is not None
        if isinstance(v, Sc):
            return not self.cmp("==", v, K(0, v.w), False)
        if isinstance(v, (Op, Fn)):
            return True
        return self._retry(Interp.truth, self, v)

    def nb(self, v):
        if isinstance(v, Sc):
            raise AnalysisError("arithmetic on %r" % (v,))
        return Interp.nb(self, v)

    def resize(self, v, w, signed):
        if isinstance(v, Sc):
            if w == v.w:
                return v
            if w > v.w:
                return Sc(("sext" if signed else "zext", v.t), w)
            if isinstance(v.t, tuple) and v.t[0] in ("sext", "zext") and w >= 32:
                return Sc(v.t[1], w)
            return Sc(("trunc", v.t, w), w)
        return Interp.resize(self, v, w, signed)

    def binop(self, op, a, b, t, ta):
        if isinstance(a, (Sh, Own)):
            a = a.p
        if isinstance(b, (Sh, Own)):
            b = b.p
        if op in ("==", "!=", "<", "<=", ">", ">="):
            if isinstance(a, (Sc, Chunk)) or isinstance(b, (Sc, Chunk)):
                return K(int(self.cmp(op, a, b, self.tinfo(ta)[1])), 1)
            if isinstance(a, (Op, Fn)) or isinstance(b, (Op, Fn)):
                if op in ("==", "!="):
                    return K(int((a == b) == (op == "==")), 1)
                raise AnalysisError("pointer comparison")
        elif isinstance(a, Sc) or isinstance(b, Sc):
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                raise AnalysisError("pointer arithmetic")
            w = a.w if isinstance(a, Sc) else b.w
            if op in ("+", "-") and isinstance(b, BV) and self.const(b) == 0:
                return a
            if op == "*" and isinstance(b, BV) and self.const(b) == 1:
                return a
            return Sc((op, self.term(a), self.term(b)), w)
        if self.ty(ta).get("k") == "float":
            if op in CMP and isinstance(a, BV) and isinstance(b, BV):
                x, y = a.const(), b.const()
                if x is not None and y is not None and len(a.b) == len(b.b) in (32, 64):
                    f = ("<f", "<I") if len(a.b) == 32 else ("<d", "<Q")
                    return K(int(CMP[op](struct.unpack(f[0], struct.pack(f[1], x))[0], struct.unpack(f[0], struct.pack(f[1], y))[0])), 1)
            return Sc((op, self.fterm(a), self.fterm(b)), 64)
        return self._retry(Interp.binop, self, op, a, b, t, ta)

    def fterm(self, v):
        if isinstance(v, Sc):
            return v.t
        return ("dbl", v.b)

    def globalinit(self, g):
        n = str(g)
        for x in ("cout", "cerr", "clog"):
            if x in n and n.startswith(("std::", "_ZSt")):
                return Obj("std::ostream", {"n": x})
        return Interp.globalinit(self, g)

    # ---- types ----
    def recof(self, cls):
        return self.p.recbycls.get(cls)

    def targs(self, t):
        return self.ty(t).get("targs") or []

    def isa(self, cls, base):
        seen = set()
        st = [cls]
        while st:
            c = st.pop()
            if c == base:
                return True
            if c in seen:
                continue
            seen.add(c)
            if c in BASES:
                st.append(BASES[c])
            r = self.recof(c)
            if r:
                st += r.get("bases", ())
        return False

    def lineage(self, cls):
        out = [cls]
        r = self.recof(cls)
        while r and r.get("bases"):
            out.append(r["bases"][0])
            r = self.recof(r["bases"][0])
        return out

    def tinfo(self, t):
        w, s = Interp.tinfo(self, t)
        return w, s

    # ---- objects ----
    def default(self, t):
        d = self.ty(t)
        k = d.get("k")
        if k == "rec":
            c = d.get("cls", "")
            if c == "std::unique_ptr":
                return Own()
            if c == "std::shared_ptr":
                return Sh()
            if c in ("std::map", "std::unordered_map", "std::multimap"):
                return Map("map", t)
            if c in ("std::set", "std::unordered_set"):
                return Map("set", t)
            if c in ("std::basic_ostringstream", "std::basic_stringstream"):
                return Obj("std::basic_ostringstream", {"buf": Str([])})
            if c == "std::pair":
                ta = self.targs(t)
                return Obj("std::pair", {"first": self.defzero(ta[0]), "second": self.defzero(ta[1])})
            r = self.p.records.get(d.get("rec"))
            if r is not None and not c.startswith("std::"):
                o = Obj(c)
                for cls in reversed(self.lineage(c)):
                    rr = r if cls == c else self.recof(cls)
                    for f in (rr or {}).get("fields", ()):
                        if f.get("init"):
                            self.initref(Ref(o.f, f["n"]), f["t"], f["init"])
                        else:
                            o.f[f["n"]] = self.default(f["t"])
                return o
            return Interp.default(self, t)
        return Interp.default(self, t)

    def defzero(self, t):
        v = self.default(t)
        if isinstance(v, Obj) and not v.cls.startswith("std::"):
            for f in self.p.byname.get("%s::%s" % (v.cls, v.cls.split("::")[-1]), ()):
                if f.get("ctor") and not f["params"] and not f.get("implicit") and ("body" in f or f.get("inits")):
                    r = Ref({0: v}, 0)
                    self.callfn(f if "body" in f else dict(f, body={"k": "block", "s": []}), [], r)
                    return r.get()
        return self.zero(t) if v is UNDEF else v

    def zero(self, t):
        d = self.ty(t)
        if d.get("k") == "float":
            return K(0, d.get("bits", 64))
        return Interp.zero(self, t)

    def copyobj(self, o, fn):
        r = Ref({0: Obj(o.cls)}, 0)
        r.c[0] = self.default_of_class(o.cls)
        self.callfn(fn, [Ref({0: o}, 0)], r)
        return r.c[0]

    def default_of_class(self, cls):
        for k, v in self.p.types.items():
            if v.get("k") == "rec" and v.get("cls") == cls:
                return self.default(k)
        return Obj(cls)

    def dtor(self, cls):
        c = dtors(self.p)
        for x in self.lineage(cls):
            if x in c:
                return c[x]
        return None

    def destroy(self, v, t=None):
        """run the destructors of a value that goes out of scope"""
        if isinstance(v, Ref):
            v = v.c.get(v.k) if isinstance(v.c, dict) else v.get()
        if isinstance(v, Own):
            p, v.p = v.p, None
            if p is not None:
                self.release(p)
            return
        if isinstance(v, Obj):
            fn = self.dtor(v.cls)
            if fn is not None and "body" in fn:
                self.unwinding += 1
                try:
                    self.callfn(fn, [], Ref({0: v}, 0))
                except Thrown:
                    raise Terminate("an exception leaves %s" % fn["n"])
                finally:
                    self.unwinding -= 1
            if v.cls == "Value":
                return
            for x in reversed(list(v.f.values())):
                if isinstance(x, (Own, Obj, Str, Map)):
                    self.destroy(x)
            h = getattr(self, "d_" + v.cls.split("::")[-1], None)
            if h is not None:
                h(v)
            return
        if isinstance(v, Str) and v.kind != "str":
            for x in v.d:
                if isinstance(x, (Own, Obj, Str, Map)):
                    self.destroy(x)
        elif isinstance(v, Map):
            for x in v.items:
                self.destroy(x if isinstance(x, Obj) else x[0])

    def release(self, p):
        """delete what a pointer points to"""
        if isinstance(p, Ptr) and p.ref is not None:
            v = p.ref.c.get(p.ref.k) if isinstance(p.ref.c, dict) else p.ref.get()
            if p.ref.k not in p.ref.c:
                self.errors.append((0, "deleted twice"))
                return
            self.destroy(v)
            if isinstance(p.ref.c, dict):
                p.ref.c.pop(p.ref.k, None)

    def e_delete(self, e):
        v = self.rv(e["e"])
        if v is None:
            return None
        if isinstance(v, Ptr) and v.ref is not None:
            if v.ref.k not in v.ref.c:
                self.errors.append((e.get("l"), "deleted twice"))
            else:
                x = v.ref.c[v.ref.k]
                self.destroy(x)
                v.ref.c.pop(v.ref.k, None)
            return None
        raise AnalysisError("delete of %r" % (v,))

    def take(self, x):
        """value of an argument that initializes something: copies lvalues, moves the rest"""
        v = self.ev(x)
        if isinstance(v, Ref):
            o = v.get()
            if isinstance(o, Own):
                r = Own(o.p)
                o.p = None
                return r
            return cp(o)
        return v

    def move(self, r):
        """move construction from an lvalue"""
        v = r.get() if isinstance(r, Ref) else r
        if isinstance(v, Own):
            n = Own(v.p)
            v.p = None
            return n
        if isinstance(v, Obj) and v.cls not in HOOK:
            return Obj(v.cls, {k: self.move(Ref(v.f, k)) if isinstance(x, (Own, Obj, Str, Map)) else x for k, x in v.f.items()})
        if isinstance(v, Str) and v.kind != "str":
            n = Str([self.move(Ref(v.d, i)) if isinstance(x, (Own, Obj)) else cp(x) for i, x in enumerate(v.d)], v.kind)
            return n
        return cp(v)

    def initref(self, r, t, e):
        if e is None:
            r.put(self.default(t))
            return
        mark = self.opentemps()
        try:
            self._init(r, t, e)
        finally:
            self.closetemps(mark)

    def _init(self, r, t, e):
        while e["k"] in ("full", "bt"):
            e = e["e"]
        if e["k"] == "ctor" and self.ty(t).get("k") == "rec":
            self.construct(r, e)
            return
        v = self.ev(e)
        if isinstance(v, Ref):
            v = v.get()
            v = cp(v)
        r.put(v)

    # temporaries
    def opentemps(self):
        m = self.temps
        self.temps = []
        return m

    def closetemps(self, m):
        t, self.temps = self.temps, m
        for r in reversed(t or ()):
            if r.k in r.c:
                self.destroy(r.c[r.k])

    def e_full(self, e):
        m = self.opentemps()
        try:
            v = self.ev(e["e"])
        except (Need, AnalysisError):
            raise
        except Exception:
            self.closetemps(m)
            raise
        self.closetemps(m)
        return v

    def e_bt(self, e):
        return self.ev(e["e"])

    e_stdil = e_bt

    def e_temp(self, e):
        c = {}
        r = Ref(c, 0)
        x = e["e"]
        while x["k"] in ("full", "bt"):
            x = x["e"]
        if x["k"] == "ctor" and self.ty(e["t"]).get("k") == "rec":
            self.construct(r, x)
        else:
            v = self.ev(x)
            c[0] = cp(v.get()) if isinstance(v, Ref) else v
        if self.temps is not None and isinstance(c.get(0), (Obj, Own, Map)):
            self.temps.append(r)
        return r

    def construct(self, r, e):
        cls = self.ty(e["t"]).get("cls", "")
        h = self.ext.get(cls + "::ctor")
        if h is not None:
            r.put(h(self, None, [self.ev(a) for a in e["a"]], e))
            return
        a = e["a"]
        if cls in ("std::basic_string", "std::vector"):
            r.put(self.seqctor(cls, e))
            return
        if cls in ("std::unique_ptr", "std::shared_ptr"):
            C = Own if cls.endswith("unique_ptr") else Sh
            if not a:
                r.put(C())
                return
            v = self.ev(a[0])
            if isinstance(v, Ref):
                v = v.get()
            if isinstance(v, Own):
                p, v.p = v.p, None
                if C is Sh and p is not None:
                    self.shared.append(p)
                r.put(C(p))
            elif isinstance(v, Sh):
                r.put(C(v.p))
            else:
                if C is Sh and v is not None:
                    self.shared.append(v)
                r.put(C(v))
            return
        if cls in ("std::map", "std::set", "std::unordered_map", "std::unordered_set", "std::multimap"):
            m = self.default(e["t"])
            a = [x for x in a if not self.ty(x["t"]).get("cls", "").startswith(("std::allocator", "std::less"))]
            if a:
                v = self.rv(a[0])
                if isinstance(v, Map):
                    m = v.copy()
                elif isinstance(v, Str):
                    for x in v.d:
                        self.mapinsert(m, cp(x))
                elif isinstance(v, Ptr) and len(a) > 1:
                    w = self.rv(a[1])
                    for i in range(v.k, w.k):
                        self.mapinsert(m, cp(v.c[i]))
                else:
                    raise AnalysisError("constructor of " + cls)
            r.put(m)
            return
        if cls == "std::pair":
            if len(a) == 2:
                r.put(self.pairfit(e, Obj("std::pair", {"first": self.take(a[0]), "second": self.take(a[1])}), a))
            elif not a:
                r.put(self.default(e["t"]))
            else:
                v = self.rv(a[0])
                o = Obj("std::pair", {"first": cp(v.f["first"]), "second": cp(v.f["second"])})
                if o.f["first"] is not None and isinstance(o.f["first"], Ptr) and self.ty(self.targs(e["t"])[0]).get("cls") == "std::basic_string":
                    o.f["first"] = Str(self.cstr(o.f["first"]))
                r.put(self.pairfit(e, o, a))
            return
        if cls in ("std::basic_ostringstream", "std::basic_stringstream"):
            r.put(self.default(e["t"]))
            return
        if "iterator" in cls:
            v = self.rv(a[0]) if a else None
            r.put(v)
            return
        if self.isa(cls, "std::exception") and cls.startswith("std::"):
            r.put(Obj(cls, {"msg": self.rv(a[0]) if a else Str([])}))
            return
        if e.get("ck") in ("copy", "move") and not e.get("user"):
            src = a[0]
            v = self.ev(src)
            if e["ck"] == "move" and isinstance(v, Ref):
                r.put(self.move(v))
            else:
                r.put(cp(v.get()) if isinstance(v, Ref) else v)
            return
        fn = self.p.functions.get(e["f"])
        r.put(self.default(e["t"]))
        if fn is None or ("body" not in fn and "inits" not in fn):
            if a and e.get("ck") in ("copy", "move"):
                r.put(cp(self.rv(a[0])))
                return
            h = getattr(self, "k_" + cls.replace("::", "_"), None)
            if h is not None:
                r.put(h(e))
                return
            if a:
                raise AnalysisError("constructor " + e["n"])
            return
        if "body" not in fn:
            fn = dict(fn, body={"k": "block", "s": []})
        args = self.args(fn, a)
        try:
            self.callfn(fn, args, r)
        except Thrown:
            # members that were constructed are destroyed, the object's own destructor is not run
            v = r.c.get(r.k) if isinstance(r.c, dict) else r.get()
            if isinstance(v, Obj):
                for x in reversed(list(v.f.values())):
                    if isinstance(x, (Own, Obj, Str, Map)):
                        self.destroy(x)
            r.put(UNDEF)
            raise

    def seqctor(self, cls, e):
        kind = "str" if cls.endswith("string") else "vec"
        a = [x for x in e["a"] if self.ty(x["t"]).get("cls") != "std::allocator"]
        v = [self.rv(x) for x in a]
        if v and isinstance(v[0], Sh):
            raise AnalysisError("container of a pointer")
        if v and isinstance(v[0], Op):
            return Str([Chunk(v[0].t, self.term(v[1]) if len(v) > 1 else None)], kind)
        if v and v[0] is None:
            raise OutOfBounds()
        if v and isinstance(v[0], Ptr) and len(v) == 2 and isinstance(v[1], Sc):
            return self.prefix(v[0], v[1])
        if v and isinstance(v[0], Iter):
            m = v[0].m
            return Str([cp(x) if isinstance(x, Obj) else x[0] for x in m.items], kind)
        if v and isinstance(v[0], BV) and len(v) == 1 and kind == "vec":
            n = self.const(v[0])
            if n > 100000:
                raise AnalysisError("huge container")
            et = self.targs(e["t"])[0]
            return Str([self.defzero(et) for _ in range(n)], kind)
        if v and isinstance(v[0], BV) and kind == "str":
            return Str([v[1]] * self.const(v[0]), kind)
        if v and isinstance(v[0], Str) and len(v) == 1:
            return Str([cp(x) for x in v[0].d], kind)
        fake = dict(e, a=[x for x in a])
        if v and isinstance(v[0], Ptr):
            if len(v) == 1:
                return Str(self.cstr(v[0]), kind)
            if isinstance(v[1], Ptr):
                if v[0].c is not v[1].c:
                    raise OutOfBounds()
                return Str([cp(x) for x in v[0].c[v[0].k:v[1].k]], kind)
            return Str([v[0].at(i).get() for i in range(self.const(v[1]))], kind)
        if not v:
            return Str([], kind)
        return self._seq2(v, kind)

    def _seq2(self, v, kind):
        if isinstance(v[0], Str):
            i = self.const(v[1])
            j = self.const(v[2]) if len(v) > 2 else len(v[0].d)
            if i > len(v[0].d):
                raise Thrown("std::out_of_range")
            return Str(v[0].d[i:i + j], kind)
        n = self.const(v[0])
        if n > 100000:
            raise AnalysisError("huge container")
        return Str([cp(v[1]) for _ in range(n)], kind)

    def prefix(self, p, n):
        """string of the first n bytes behind p, n unknown"""
        h = getattr(self.env, "prefix", None)
        r = h(p, n) if h else None
        if r is None:
            raise AnalysisError("string of unknown length")
        return r

    def cstr(self, p):
        if isinstance(p, Op):
            return [Chunk(p.t)]
        if p is None:
            raise OutOfBounds()
        r = []
        i = 0
        while True:
            v = p.at(i).get()
            if isinstance(v, Chunk):
                r.append(v)
            elif isinstance(v, CBV):
                if v.v == 0:
                    return r
                r.append(v)
            else:
                if not self.truth(v):
                    return r
                r.append(self.nb(v))
            i += 1

    # ---- expressions ----
    def ev(self, e):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise AnalysisError("budget exceeded")
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            raise AnalysisError("expression %s at line %s" % (e["k"], e.get("l")))
        return m(e)

    def e_fn(self, e):
        return Fn(e["f"], e["n"])

    def e_lambda(self, e):
        f = Fn(e["f"], e["n"])
        f.caps = self.fr
        return f

    def e_icall(self, e):
        c = self.rv(e["c"])
        if isinstance(c, Fn):
            return self.callptr(c, [self.ev(a) for a in e["a"]])
        h = getattr(self.env, "icall", None)
        if h and isinstance(c, Op):
            return h(c, [self.rv(a) for a in e["a"]])
        raise AnalysisError("indirect call")

    def callptr(self, c, args):
        h = self.ext.get(c.n)
        if h is not None:
            return h(self, None, args, None)
        f = self.p.functions.get(c.f)
        if f is None or "body" not in f:
            m = getattr(self, "p_" + c.n.split("::")[-1], None)
            if m is not None:
                return m(*[a.get() if isinstance(a, Ref) else a for a in args])
            raise AnalysisError("call through a pointer to " + c.n)
        if c.caps is not None:
            old = self.fr
            r = self.callfn(f, args, None, closure=c.caps)
            self.fr = old
            return r
        return self.callfn(f, args)

    def p_tolower(self, v):
        c = self.const(v)
        return K(c + 32 if 65 <= c <= 90 else c, len(v.b))

    def p_toupper(self, v):
        c = self.const(v)
        return K(c - 32 if 97 <= c <= 122 else c, len(v.b))

    def c_tolower(self, e):
        return self.p_tolower(self.resize(self.rv(e["a"][0]), 32, True))

    def c_toupper(self, e):
        return self.p_toupper(self.resize(self.rv(e["a"][0]), 32, True))

    def c_isalnum(self, e):
        c = self.const(self.rv(e["a"][0]))
        return K(int(c < 128 and chr(c).isalnum()), 32)

    def c_localeconv(self, e):
        cs = lambda s: Ptr([K(b, 8) for b in s.encode()] + [K(0, 8)], 0)
        return Ptr([Obj("lconv", {"decimal_point": cs(LOCALE["point"]), "thousands_sep": cs(""), "grouping": cs("")})], 0)

    def c_rand(self, e):
        return Sc(("rand", self.count("rand")), 32)

    def e_this(self, e):
        return self.fr["this"]

    def e_mem(self, e):
        b = self.ev(e["b"])
        if isinstance(b, Ref):
            b = b.get()
        if isinstance(b, Own):
            b = b.p
        if isinstance(b, Sh):
            b = b.p
        if b is None:
            raise OutOfBounds()
        if isinstance(b, Iter):
            if b.x is None:
                raise OutOfBounds()
            b = b.x
        if isinstance(b, Ptr):
            b = b.at(0).get()
        if isinstance(b, Op):
            h = getattr(self.env, "member", None)
            if h:
                return h(b, e["f"])
        if not isinstance(b, Obj):
            raise AnalysisError("member of %r" % (b,))
        v = b.f.get(e["f"], UNDEF)
        if isinstance(v, Ref):
            return v
        if b.cls.endswith("::"):
            return URef(b.f, e["f"])
        return Ref(b.f, e["f"])

    def e_cast(self, e):
        ck = e["ck"]
        if ck in ("UncheckedDerivedToBase", "DerivedToBase", "ConstructorConversion", "UserDefinedConversion", "Dynamic", "BaseToDerived", "FunctionToPointerDecay", "ArrayToPointerDecay"):
            return self.ev(e["e"])
        if ck in ("BitCast",):
            v = self.ev(e["e"])
            return v
        v = self.ev(e["e"])
        if isinstance(v, Ref) and ck not in ("NoOp", "LValueToRValue", "LValueBitCast"):
            v = v.get()
        if ck == "IntegralToFloating":
            if isinstance(v, BV) and v.const() is not None:
                import struct
                n = self.sconst(v)
                return K(struct.unpack("<Q", struct.pack("<d", float(n)))[0], 64)
            return Sc(("itof", self.term(v)), 64)
        if ck == "FloatingToIntegral":
            w = self.tinfo(e["t"])[0]
            return Sc(("ftoi", self.fterm(v)), w)
        if ck in ("IntegralToPointer", "PointerToIntegral", "NullToPointer"):
            return v if not isinstance(v, BV) else Op(("int", self.const(v)))
        if ck == "ToVoid":
            return None
        if isinstance(v, (Sc, Op, Own, Sh)):
            if ck in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean"):
                return K(int(self.truth(v)), 1)
            if ck == "IntegralCast":
                w, _ = self.tinfo(e["t"])
                _, sg = self.tinfo(e["ft"])
                return self.resize(v, w, sg)
            if ck == "FloatingCast":
                a, b = self.ty(e["t"]).get("bits", 64), self.ty(e["ft"]).get("bits", 64)
                return Sc(("tofloat", v.t), a) if a < b else v if a == b else Sc(v.t, a)
            return v
        return Interp.e_cast(self, dict(e, e={"k": "_v", "v": v}))

    def e__v(self, e):
        return e["v"]

    def e_un(self, e):
        op = e["op"]
        if op == "*":
            v = self.rv(e["e"])
            if isinstance(v, (Own, Sh)):
                v = v.p
            if v is None:
                raise OutOfBounds()
            if isinstance(v, Iter):
                return self.deref(v)
            if isinstance(v, Op):
                h = getattr(self.env, "load", None)
                if h:
                    return Ref({0: h(v)}, 0)
            if not isinstance(v, Ptr):
                if isinstance(v, (Fn, Op)) and e.get("t") and "(" in str(e.get("t")):
                    return v
                raise AnalysisError("dereference of %r" % (v,))
            return v.at(0)
        if op in ("!", "-", "~", "+") and not (op == "!"):
            v = self.rv(e["e"])
            if isinstance(v, Sc):
                return Sc(("un" + op, v.t), v.w)
            if self.ty(e["t"]).get("k") == "float" and op == "-":
                v = self.nb(v)
                return BV(v.b[:-1] + (neglit(v.b[-1]),))
            return Interp.e_un(self, dict(e, e={"k": "_v", "v": v}))
        if op in ("pre++", "pre--", "post++", "post--"):
            r = self.ev(e["e"])
            v = r.get()
            if isinstance(v, Sc):
                n = Sc(("+" if "++" in op else "-", v.t, 1), v.w)
                r.put(n)
                return r if e.get("gl") else (v if op.startswith("post") else n)
            return self._retry(Interp.e_un, self, dict(e, e={"k": "_v", "v": r}))
        return Interp.e_un(self, e)

    def e_assign(self, e):
        if e["op"] == "=":
            v = self.take(e["b"])
            r = self.ev(e["a"])
            r.put(v)
            return r if e.get("gl") else v
        v = self.rv(e["b"])
        r = self.ev(e["a"])
        old = r.get()
        if isinstance(v, Sc) or isinstance(old, Sc):
            n = self.binop(e["op"][:-1], old, v, e["t"], e["a"]["t"])
            r.put(n)
            return r if e.get("gl") else n
        return self._retry(Interp.e_assign, self, dict(e, b={"k": "_v", "v": v, "t": e["b"]["t"]}, a={"k": "_v", "v": r, "t": e["a"]["t"]}))

    def e_throw(self, e):
        if "e" in e:
            t = e.get("tt")
            v = self.ev(e["e"])
            if isinstance(v, Ref):
                v = cp(v.get())
            x = Thrown(self.ty(t).get("cls") or t)
            x.val = v
            raise x
        cur = getattr(self, "caught", None)
        if cur:
            raise cur[-1]
        raise AnalysisError("rethrow")

    def e_ilist(self, e):
        d = self.ty(e["t"])
        c = d.get("cls")
        if d.get("k") == "rec" and c in ("std::map", "std::set", "std::vector", "std::initializer_list") or d.get("k") == "arr":
            vs = [self.take(a) for a in e["a"]]
            if d.get("k") == "arr":
                vs += [self.zero(d["to"]) for _ in range(d["n"] - len(vs))]
                return Str(vs, "arr")
            return Str(vs, "vec")
        return Interp.e_ilist(self, e)

    def e_new(self, e):
        c = {}
        r = Ref(c, 0)
        if e.get("arr"):
            n = e.get("n") or e.get("size")
            raise AnalysisError("new[]")
        try:
            self.initref(r, e["at"], e.get("init"))
        except Thrown:
            c.clear()
            raise
        return Ptr(None, 0, ref=r)

    # ---- calls ----
    def args(self, fn, a):
        out = []
        for i, x in enumerate(a):
            p = fn["params"][i] if i < len(fn["params"]) else None
            if p is not None and p.get("ref"):
                out.append(self.ev(x))
            else:
                out.append(self.take(x))
        return out

    def dispatch(self, fid, name, this):
        """the function a virtual call reaches"""
        o = this.get() if isinstance(this, Ref) else this.at(0).get() if isinstance(this, Ptr) else this
        if not isinstance(o, Obj):
            return None
        cands = {fid} | set(self.p.overriders.get(fid, ()))
        for c in self.lineage(o.cls):
            for f in cands:
                fn = self.p.functions.get(f)
                if fn is not None and fn["n"].rsplit("::", 1)[0] == c:
                    return fn
        return None

    def e_call(self, e):
        name = e["n"]
        this = None
        if e.get("this"):
            this = self.ev(e["this"])
            if e.get("arrow"):
                if isinstance(this, Ref):
                    this = this.get()
                if isinstance(this, (Own, Sh)):
                    this = this.p
                if this is None:
                    raise OutOfBounds()
                if isinstance(this, Ptr):
                    this = this.at(0)
        h = self.ext.get(name)
        if h is not None:
            return h(self, this, [self.ev(a) for a in e["a"]], e)
        short = name.split("::")[-1]
        if name.startswith(("std::", "__gnu", "operator", "boost::")) and e["f"] not in self.p.functions:
            return self.stdcall(name, short, this, e)
        m = getattr(self, "c_" + name, None)
        if m is not None and e["f"] not in self.p.functions:
            return m(e)
        if self.env is not None:
            m = getattr(self.env, "x_" + name, None)
            if m is not None:
                return m(*[self.rvx(a) for a in e["a"]])
        fn = None
        if e.get("virt") and this is not None:
            fn = self.dispatch(e["f"], name, this)
        if fn is None:
            fn = self.p.functions.get(e["f"])
        if fn is None:
            l = [f for f in self.p.byname.get(name, []) if f["f"].split("@")[0] == e["f"].split("@")[0]]
            fn = l[0] if len(l) == 1 else None
        if fn is None or "body" not in fn or (name.endswith("::operator=") and fn.get("implicit")):
            if name.endswith("::operator=") and len(e["a"]) == 1:
                v = self.ev(e["a"][0])
                x = e["a"][0]
                v = self.move(v) if isinstance(v, Ref) and x["k"] in ("temp", "call") and not (x["k"] == "call" and x["n"] != "std::move") else cp(v.get()) if isinstance(v, Ref) else v
                old = this.c.get(this.k) if isinstance(this.c, dict) else this.get()
                if isinstance(old, Obj):
                    old.f = v.f if isinstance(v, Obj) else old.f
                else:
                    this.put(v)
                return this
            raise AnalysisError("call of " + name)
        h = self.ext.get(fn["n"])
        if h is not None:
            return h(self, this, [self.ev(a) for a in e["a"]], e)
        c = this.get() if isinstance(this, Ref) and e.get("this") and name.endswith("operator()") else this
        if isinstance(c, Fn):
            return self.callptr(c, self.args(fn, e["a"]))    # a lambda sees the variables of the function that made it
        return self.callfn(fn, self.args(fn, e["a"]), this)

    def rvx(self, a):
        return self.rv(a)

    def callfn(self, fn, args, this=None, closure=None):
        self.depth += 1
        if self.depth > 80:
            raise AnalysisError("too deep")
        self.covered.add(fn["n"])
        old = getattr(self, "fr", None)
        fr = {"v": {}, "ref": {}, "this": None, "fn": fn, "own": [], "va": None}
        if closure is not None:
            fr["v"] = closure["v"]
            fr["ref"] = closure["ref"]
            fr["this"] = closure["this"]
        if this is not None:
            fr["this"] = this if isinstance(this, Ptr) else Ptr(None, 0, ref=this)
        n = len(fn["params"])
        for p, a in zip(fn["params"], args):
            if p.get("ref"):
                if not isinstance(a, Ref):
                    a = Ref({0: a}, 0)
                fr["ref"][p["id"]] = a
            else:
                v = cp(a.get()) if isinstance(a, Ref) else a
                fr["v"][p["id"]] = v
                if isinstance(v, (Own, Obj)):
                    fr["own"].append(Ref(fr["v"], p["id"]))
        fr["va"] = [a.get() if isinstance(a, Ref) else a for a in args[n:]]
        self.fr = fr
        temps, self.temps = self.temps, None
        try:
            if fn.get("ctor") and this is not None:
                self.runinits(fn, fr)
            if "body" in fn:
                self.exec(fn["body"])
            if fn.get("ret", "void") != "void" and not fn.get("ctor") and not fn.get("dtor") and fn["n"] != "main":
                raise Undef()
            r = None
        except _Ret as x:
            r = x.v
        except Thrown:
            self.fr = fr
            self.unwind(fr, 0)
            self.fr = old
            self.depth -= 1
            self.temps = temps
            raise
        self.fr = fr
        self.unwind(fr, 0)
        self.fr = old
        self.depth -= 1
        self.temps = temps
        return r

    def runinits(self, fn, fr):
        o = fr["this"].at(0).get()
        cls = fn["n"].rsplit("::", 1)[0]
        for i in fn.get("inits", ()):
            x = i.get("e") if i.get("e") is not None else i.get("init")
            if "f" in i:
                if x is not None:
                    t = next((f["t"] for f in self.recof(cls)["fields"] if f["n"] == i["f"]), None)
                    if t is None:
                        raise AnalysisError("member initializer")
                    if self.ty(t).get("k") == "ref":
                        o.f[i["f"]] = self.ev(x)
                    else:
                        self.initref(Ref(o.f, i["f"]), t, x)
            elif x is not None and x["k"] == "ctor":
                b = self.p.functions.get(x["f"])
                if x["n"].startswith("std::"):
                    if x["a"]:
                        o.f["msg"] = self.rv(x["a"][0])
                elif b is not None and ("body" in b or "inits" in b):
                    bb = b if "body" in b else dict(b, body={"k": "block", "s": []})
                    self.callfn(bb, self.args(bb, x["a"]), fr["this"])
            elif x is not None:
                raise AnalysisError("base initializer")

    def unwind(self, fr, mark):
        own = fr["own"]
        while len(own) > mark:
            r = own.pop()
            if (r.k in r.c) if isinstance(r.c, dict) else True:
                v = r.c[r.k]
                if v is not UNDEF:
                    self.destroy(v)

    # ---- the C++ library ----
    def stdcall(self, name, short, this, e):
        o = this.get() if isinstance(this, Ref) else this
        if isinstance(o, Ptr) and not name.startswith(("__gnu", "std::_")) and this is not o and e.get("this") and not isinstance(o.c, list):
            o = o.at(0).get()
        if short in ("operator==", "operator!=") and len(e["a"]) + (this is not None) == 2:
            vs = ([o] if this is not None else []) + [self.rv(x) for x in e["a"]]
            r = self.equal(vs[0], vs[1])
            return K(int(r == (short == "operator==")), 1)
        if short == "operator<" and (len(e["a"]) + (this is not None)) == 2:
            vs = ([o] if this is not None else []) + [self.rv(x) for x in e["a"]]
            return K(int(self.less(vs[0], vs[1])), 1)
        if short == "operator<<":
            return self.put(this, e)
        if short == "operator-" and this is None and len(e["a"]) == 2:
            x, y = self.rv(e["a"][0]), self.rv(e["a"][1])
            if isinstance(x, Ptr) and isinstance(y, Ptr):
                return K(x.k - y.k, 64)
        if short == "operator+" and this is None:
            return self.plus(e)
        if short in ("operator bool", "operator!"):
            if name.startswith(("std::unique_ptr", "std::shared_ptr", "std::__shared_ptr")):
                return K(int((o.p is not None) == (short == "operator bool")), 1)
            if name.startswith("std::_Bit_reference"):
                return o
        if isinstance(o, (Own, Sh)) and (name.startswith(("std::unique_ptr", "std::shared_ptr", "std::__shared_ptr")) or short == "operator="):
            return self.smart(o, short, this, e)
        if short in ("make_shared", "make_unique"):
            return self.makeptr(short, e)
        if short == "move" or short == "forward":
            return self.ev(e["a"][0])
        if isinstance(o, Map):
            return self.mapcall(o, short, this, e)
        if isinstance(o, Iter):
            return self.itercall(o, short, this, e)
        if isinstance(o, Ptr) and (name.startswith("__gnu_cxx::__normal_iterator") or "iterator" in name):
            return self.ptrcall(o, short, this, e)
        if isinstance(o, Str):
            return self.strcall(o, short, this, e)
        if isinstance(o, Obj) and o.cls == "std::basic_ostringstream":
            if short == "str":
                if e["a"]:
                    o.f["buf"] = cp(self.rv(e["a"][0]))
                    return None
                return Str(list(o.f["buf"].d))
            if short in ("operator=",):
                return this
            if short in ("good", "operator bool"):
                return K(1, 1)
            if short in ("bad", "fail", "operator!"):
                return K(0, 1)
            if short in ("precision", "setf", "flags", "imbue"):
                for a in e["a"]:
                    self.rv(a)
                return K(0, 64)
            if short == "write":
                p, n = self.rv(e["a"][0]), self.rv(e["a"][1])
                o.f["buf"].d += [p.at(i).get() for i in range(self.const(n))]
                return this
        if isinstance(o, Obj) and o.cls == "std::pair" and short == "operator=":
            v = self.rv(e["a"][0])
            o.f.update({k: cp(x) for k, x in v.f.items()})
            return this
        if isinstance(o, Obj) and self.isa(o.cls, "std::exception") and short == "what":
            m = o.f.get("msg", Str([]))
            return Ptr(list(m.d) + [K(0, 8)] if isinstance(m, Str) else self.cstr(m) + [K(0, 8)], 0)
        if isinstance(o, Obj) and self.env is not None:
            h = getattr(self.env, "m_" + o.cls.split("::")[-1], None)
            if h is not None:
                return h(o, short, this, [self.rv(a) for a in e["a"]])
        m = getattr(self, "s2_" + short, None)
        if m is not None:
            return m(e)
        if short == "operator=" and len(e["a"]) == 1 and isinstance(this, Ref):
            this.put(cp(self.rv(e["a"][0])))
            return this
        raise AnalysisError("call of " + name)

    def equal(self, a, b):
        if isinstance(a, (Str, Ptr)) and isinstance(b, (Str, Ptr)) and (isinstance(a, Str) or isinstance(b, Str)):
            x = a.d if isinstance(a, Str) else self.cstr(a)
            y = b.d if isinstance(b, Str) else self.cstr(b)
            if (isinstance(a, Str) and a.kind != "str") or (isinstance(b, Str) and b.kind != "str"):
                return len(x) == len(y) and all(self.equal(p, q) for p, q in zip(x, y))
            return self.streq(x, y)
        if isinstance(a, (Own, Sh)) or isinstance(b, (Own, Sh)):
            p = a.p if isinstance(a, (Own, Sh)) else a
            q = b.p if isinstance(b, (Own, Sh)) else b
            if p is None or q is None:
                return p is None and q is None
            return p is q
        if isinstance(a, Iter) or isinstance(b, Iter):
            return a.x is b.x
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return a.c is b.c and a.k == b.k
        if isinstance(a, (BV, Sc)) and isinstance(b, (BV, Sc)):
            return self.cmp("==", a, b, False)
        if isinstance(a, Map) and isinstance(b, Map):
            if len(a.items) != len(b.items):
                return False
            return all(self.equal(x if isinstance(x, Obj) else x[0], y if isinstance(y, Obj) else y[0]) for x, y in zip(a.items, b.items))
        if isinstance(a, Obj) and isinstance(b, Obj):
            if a.cls == "std::pair":
                return self.equal(a.f["first"], b.f["first"]) and self.equal(a.f["second"], b.f["second"])
            l = [f for n in (a.cls + "::operator==", "operator==") for f in self.p.byname.get(n, []) if "body" in f]
            for f in l:
                ps = f["params"]
                if f["n"] == a.cls + "::operator==" and len(ps) == 1:
                    return self.truth(self.callfn(f, [Ref({0: b}, 0)], Ref({0: a}, 0)))
                if f["n"] == "operator==" and len(ps) == 2 and a.cls in ps[0]["t"]:
                    return self.truth(self.callfn(f, [Ref({0: a}, 0), Ref({0: b}, 0)]))
            raise AnalysisError("comparison of " + a.cls)
        if a is None or b is None:
            return a is None and b is None
        raise AnalysisError("comparison of %r and %r" % (type(a), type(b)))

    def streq(self, x, y):
        if any(isinstance(c, Chunk) for c in x) or any(isinstance(c, Chunk) for c in y):
            kx, ky = self.skey(x), self.skey(y)
            if kx == ky:
                return True
            h = getattr(self.env, "streq", None)
            r = h(x, y) if h else None
            if r is not None:
                return r
            return bool(self.decide(("streq",) + tuple(sorted((kx, ky), key=repr))))
        if len(x) != len(y):
            return False
        return all(p is q or self.cmp("==", p, q, False) for p, q in zip(x, y))

    def skey(self, x):
        out = []
        for c in x:
            if isinstance(c, Chunk):
                out.append((c.t, c.n))
            else:
                v = self.const(c)
                if out and isinstance(out[-1], str):
                    out[-1] += chr(v)
                else:
                    out.append(chr(v))
        return tuple(out)

    def less(self, a, b):
        if isinstance(a, Str) and isinstance(b, Str):
            if a.kind == "str":
                ka, kb = self.skey(a.d), self.skey(b.d)
                if all(isinstance(t, str) for t in ka + kb):
                    return "".join(ka) < "".join(kb)
                if ka == kb:
                    return False
                return bool(self.decide(("slt", ka, kb)))
            for p, q in zip(a.d, b.d):
                if self.less(p, q):
                    return True
                if self.less(q, p):
                    return False
            return len(a.d) < len(b.d)
        if isinstance(a, Obj) and a.cls == "std::pair":
            if self.less(a.f["first"], b.f["first"]):
                return True
            if self.less(b.f["first"], a.f["first"]):
                return False
            return self.less(a.f["second"], b.f["second"])
        if isinstance(a, (BV, Sc)) and isinstance(b, (BV, Sc)):
            return self.cmp("<", a, b, True)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.c is b.c:
            return a.k < b.k
        raise AnalysisError("ordering of %r" % type(a))

    def plus(self, e):
        vs = [self.rv(x) for x in e["a"]]
        if isinstance(vs[0], Ptr) and not any(isinstance(v, Str) for v in vs) and isinstance(vs[1], BV) and len(vs[1].b) > 8:
            return vs[0].add(self.sconst(vs[1]))
        out = []
        for v in vs:
            if isinstance(v, Str):
                out += v.d
            elif isinstance(v, (Ptr, Op)) or v is None:
                out += self.cstr(v)
            elif isinstance(v, Sc):
                out.append(v)
            else:
                out.append(self.nb(v))
        return Str(out)

    def put(self, this, e):
        a = ([{"k": "_v", "v": this}] if this is not None else []) + list(e["a"])
        r = self.ev(a[0])
        s = r.get() if isinstance(r, Ref) else r
        t = a[1].get("t", "")
        v = self.rv(a[1])
        if isinstance(s, Obj) and s.cls == "std::basic_ostringstream":
            d = s.f["buf"].d
        else:
            h = getattr(self.env, "stream", None)
            if h is None:
                raise AnalysisError("output stream")
            d = []
        if isinstance(v, Str):
            d += v.d
        elif isinstance(v, (Ptr, Op)):
            d += self.cstr(v)
        elif isinstance(v, Fn):
            if v.n.split("::")[-1] in ("endl",):
                d.append(K(10, 8))
            elif v.n.split("::")[-1] not in ("flush", "hex", "dec", "fixed", "scientific"):
                raise AnalysisError("manipulator " + v.n)
        elif isinstance(v, (BV, Sc)):
            ty = self.ty(t)
            if ty.get("k") == "int" and ty.get("bits") == 8:
                d.append(v)
            else:
                d += self.digits(v, t)
        elif isinstance(v, Obj):
            pass
        else:
            raise AnalysisError("output of %r" % (v,))
        if not (isinstance(s, Obj) and s.cls == "std::basic_ostringstream"):
            self.env.stream(s, d)
        return r

    def digits(self, v, t, how="dec"):
        """the characters of a number"""
        ty = self.ty(t)
        if isinstance(v, BV) and ty.get("k") != "float":
            if v.const() is None:
                return [Chunk((how, ("bits",) + tuple(v.b)))]
            n = self.sconst(v) if ty.get("signed") else self.const(v)
            return S(str(n)).d
        if isinstance(v, BV):
            f = self.dbl(v)
            return [Chunk((how, ("dbl", v.b)))] if f is None else S(("%f" % f).replace(".", LOCALE["point"])).d
        if ty.get("k") == "float" and self.cell.get((("isfinite", v.t), 0)) == 0:
            for x in ("nan", "inf"):
                if not self.decide((x, v.t)):
                    return S(x).d
            return S("-inf").d
        return [Chunk((how, v.t))]

    def smart(self, o, short, this, e):
        a = e["a"]
        if short in ("get",):
            return o.p
        if short in ("operator->", "operator*"):
            if o.p is None:
                raise OutOfBounds()
            return o.p if short == "operator->" else o.p.at(0)
        if short == "release":
            p, o.p = o.p, None
            return p
        if short == "reset":
            n = self.rv(a[0]) if a else None
            p, o.p = o.p, n
            if isinstance(o, Own) and p is not None:
                self.release(p)
            elif isinstance(o, Sh) and n is not None:
                self.shared.append(n)
            return None
        if short == "operator=":
            v = self.rv(a[0])
            if isinstance(o, Own):
                if isinstance(v, Own):
                    n, v.p = v.p, None
                else:
                    n = None
                p, o.p = o.p, n
                if p is not None:
                    self.release(p)
            else:
                n = v.p if isinstance(v, (Sh, Own)) else v
                if isinstance(v, Own):
                    v.p = None
                    self.shared.append(n)
                this.put(Sh(n))
            return this
        if short == "swap":
            v = self.rv(a[0])
            o.p, v.p = v.p, o.p
            return None
        if short in ("use_count",):
            return K(1, 64)
        raise AnalysisError("smart pointer " + short)

    def makeptr(self, short, e):
        ta = self.targs(e["t"])
        c = {}
        r = Ref(c, 0)
        a = e["a"]
        cls = self.ty(ta[0]).get("cls") or ta[0]
        r.put(self.default(ta[0]))
        l = [f for f in self.p.functions.values() if f.get("ctor") and f["n"].startswith(cls + "::") and len(f["params"]) == len(a)
             and ("body" in f or f.get("inits")) and not (len(a) == 1 and f["params"][0].get("ref") and cls in f["params"][0]["t"])]
        if len(l) == 1:
            fn = l[0] if "body" in l[0] else dict(l[0], body={"k": "block", "s": []})
            self.callfn(fn, self.args(fn, a), r)
        elif len(l) > 1 or a:
            raise AnalysisError("make of " + cls)
        p = Ptr(None, 0, ref=r)
        if short == "make_shared":
            self.shared.append(p)
        return Sh(p) if short == "make_shared" else Own(p)

    def endshared(self):
        """every owner is gone: what was shared is destroyed"""
        while self.shared:
            p = self.shared.pop()
            if isinstance(p, Ptr) and p.ref is not None and p.ref.k in p.ref.c:
                self.release(p)

    def pairfit(self, e, o, a):
        """converts the members of a pair to its types"""
        ta = self.targs(e["t"])
        src = [x.get("t") for x in a] if len(a) == 2 else self.targs(a[0].get("t")) if a and a[0].get("t") else None
        for i, n in enumerate(("first", "second")):
            x = o.f[n]
            if ta and len(ta) > i and isinstance(x, (BV, Sc)) and self.ty(ta[i]).get("k") in ("int", "enum", "bool"):
                w = self.tinfo(ta[i])[0]
                sg = self.tinfo(src[i])[1] if src and len(src) > i else True
                if (x.w if isinstance(x, Sc) else len(x.b)) != w:
                    o.f[n] = self.resize(x, w, sg)
        return o

    # maps and sets
    def key(self, x):
        return x.f["first"] if isinstance(x, Obj) and x.cls == "std::pair" else x[0] if isinstance(x, list) else x

    def lookup(self, m, k):
        for x in m.items:
            kk = self.key(x) if m.kind == "map" else x[0]
            if self.equal(kk, k):
                return x
        return None

    def mapinsert(self, m, v, k=None):
        """insert unless the key is there; returns (element, inserted)"""
        k = k if k is not None else (v.f["first"] if m.kind == "map" else v)
        ta = self.targs(m.t)
        if isinstance(k, Ptr) and ta and self.ty(ta[0]).get("cls") == "std::basic_string":
            k = Str(self.cstr(k))
        x = self.lookup(m, k)
        if x is not None:
            return x, False
        n = Obj("std::pair", {"first": k, "second": v.f["second"]}) if m.kind == "map" else [k]
        i = len(m.items)
        while i > 0:
            o = m.items[i - 1]
            if not self.less(k, self.key(o) if m.kind == "map" else o[0]):
                break
            i -= 1
        m.items.insert(i, n)
        return n, True

    def deref(self, it):
        if it.x is None:
            raise OutOfBounds()
        if it.m.kind == "map":
            return Ref({0: it.x}, 0)
        return Ref(it.x, 0)

    def mapcall(self, m, short, this, e):
        a = e["a"]
        if short in ("size",):
            return K(len(m.items), 64)
        if short == "empty":
            return K(int(not m.items), 1)
        if short == "clear":
            m.items.clear()
            return None
        if short in ("begin", "cbegin"):
            return Iter(m, m.items[0] if m.items else None)
        if short in ("end", "cend"):
            return Iter(m, None)
        if short in ("rbegin", "crbegin"):
            return Iter(m, m.items[-1] if m.items else None)
        if short in ("find", "count", "contains"):
            k = self.rv(a[0])
            x = self.lookup(m, k)
            if short == "find":
                return Iter(m, x)
            return K(int(x is not None), 64 if short == "count" else 1)
        if short in ("operator[]", "at"):
            k = self.take(a[0])
            if isinstance(k, Ptr):
                k = Str(self.cstr(k))
            x = self.lookup(m, k)
            if x is None:
                if short == "at":
                    raise Thrown("std::out_of_range")
                ta = self.targs(m.t)
                x, _ = self.mapinsert(m, Obj("std::pair", {"first": k, "second": self.defzero(ta[1])}))
            return Ref(x.f, "second")
        if short in ("insert", "emplace"):
            if len(a) == 2 and short == "emplace" and m.kind == "map":
                x, new = self.mapinsert(m, Obj("std::pair", {"first": self.take(a[0]), "second": self.take(a[1])}))
            elif len(a) == 1:
                v = self.take(a[0])
                if isinstance(v, Str) and v.kind == "vec":
                    for y in v.d:
                        self.mapinsert(m, cp(y))
                    return None
                x, new = self.mapinsert(m, v)
            elif len(a) == 2:
                v, w = self.rv(a[0]), self.rv(a[1])
                if isinstance(v, Ptr):
                    for y in v.c[v.k:w.k]:
                        self.mapinsert(m, cp(y))
                elif isinstance(v, Iter):
                    on = False
                    for y in list(v.m.items):
                        on = on or y is v.x
                        if y is w.x:
                            break
                        if on:
                            self.mapinsert(m, cp(y) if isinstance(y, Obj) else y[0])
                else:
                    raise AnalysisError("map insert")
                return None
            else:
                raise AnalysisError("map insert")
            return Obj("std::pair", {"first": Iter(m, x), "second": K(int(new), 1)})
        if short == "erase":
            k = self.rv(a[0])
            x = k.x if isinstance(k, Iter) else self.lookup(m, k)
            n = len(m.items)
            i = next((j for j, y in enumerate(m.items) if y is x), None)
            if i is not None:
                del m.items[i]
            if isinstance(k, Iter):
                return Iter(m, m.items[i] if i is not None and i < len(m.items) else None)
            return K(n - len(m.items), 64)
        if short == "operator=":
            v = self.rv(a[0])
            m.items = v.copy().items if isinstance(v, Map) else m.items
            return this
        if short == "swap":
            v = self.rv(a[0])
            m.items, v.items = v.items, m.items
            return None
        if short in ("lower_bound", "upper_bound"):
            k = self.rv(a[0])
            for x in m.items:
                kk = self.key(x) if m.kind == "map" else x[0]
                if (short == "lower_bound" and not self.less(kk, k)) or (short == "upper_bound" and self.less(k, kk)):
                    return Iter(m, x)
            return Iter(m, None)
        raise AnalysisError("map method " + short)

    def itercall(self, o, short, this, e):
        if short == "operator*":
            return self.deref(o)
        if short == "operator->":
            r = self.deref(o)
            return Ptr(None, 0, ref=r)
        if short in ("operator++", "operator--"):
            l = o.m.items
            if o.x is None:
                if short == "operator++":
                    raise OutOfBounds()
                n = Iter(o.m, l[-1])
            else:
                i = next(j for j, y in enumerate(l) if y is o.x) + (1 if short == "operator++" else -1)
                n = Iter(o.m, l[i] if 0 <= i < len(l) else None)
            this.put(n)
            return o if e["a"] else this
        if short == "operator=":
            this.put(self.rv(e["a"][0]))
            return this
        raise AnalysisError("iterator " + short)

    def ptrcall(self, o, short, this, e):
        a = e["a"]
        if short == "operator*":
            return o.at(0)
        if short == "operator->":
            return o
        if short in ("operator++", "operator--"):
            this.put(o.add(1 if short == "operator++" else -1))
            return o if a else this
        if short in ("operator+", "operator-") and a:
            v = self.rv(a[0])
            if isinstance(v, Ptr):
                return K(o.k - v.k, 64)
            return o.add(self.sconst(v) * (1 if short == "operator+" else -1))
        if short == "operator+=":
            this.put(o.add(self.sconst(self.rv(a[0]))))
            return this
        if short == "operator=":
            this.put(self.rv(a[0]))
            return this
        if short == "operator[]":
            return o.at(self.sconst(self.rv(a[0])))
        raise AnalysisError("iterator " + short)

    def strcall(self, s, short, this, e):
        a = e["a"]
        if short in ("size", "length"):
            ch = [c for c in s.d if isinstance(c, Chunk)]
            if ch and s.kind == "str":
                if len(s.d) == 1 and ch[0].n is not None:
                    return Sc(ch[0].n, 64) if not isinstance(ch[0].n, int) else K(ch[0].n, 64)
                return Sc(("size", self.skey(s.d)), 64)
            return K(len(s.d), 64)
        if short == "empty":
            if s.d and s.kind == "str" and all(isinstance(c, Chunk) and not (isinstance(c.t, tuple) and c.t[:1] in (("to_string",), ("dec",))) for c in s.d):
                return K(self.decide(("empty", self.skey(s.d))), 1)
            return K(int(not s.d), 1)
        if short in ("push_back", "emplace_back"):
            if short == "emplace_back" and len(a) != 1:
                et = self.targs(self.basetype(e))
                if not a and et:
                    s.d.append(self.defzero(et[0]))
                    return Ref(s.d, len(s.d) - 1)
                raise AnalysisError("emplace_back")
            v = self.take(a[0])
            if isinstance(v, Ptr) and self.elem(e) == "std::basic_string":
                v = Str(self.cstr(v))
            s.d.append(v)
            return Ref(s.d, len(s.d) - 1)
        if short in ("operator+=", "append") and len(a) == 1:
            v = self.rv(a[0])
            if isinstance(v, (Ptr, Op)):
                s.d += self.cstr(v)
            elif isinstance(v, Str):
                s.d += list(v.d)
            else:
                s.d.append(v)
            return this
        if short in ("operator=", "assign") and len(a) == 1:
            v = self.ev(a[0])
            if isinstance(v, Ref):
                v = v.get()
            if isinstance(v, Str):
                s.d = list(cp(v).d) if s.kind != "str" else list(v.d)
            elif isinstance(v, (Ptr, Op)):
                s.d = self.cstr(v)
            else:
                s.d = [v]
            return this
        if short in ("c_str", "data"):
            if s.kind == "str":
                return Ptr(s.d + [K(0, 8)], 0, obj=s)
            return Ptr(s.d, 0, obj=s)
        if short == "resize" and s.kind != "str":
            n = self.const(self.rv(a[0]))
            if n > 100000:
                raise AnalysisError("huge container")
            fill = self.rv(a[1]) if len(a) > 1 else None
            et = self.targs(self.basetype(e))
            del s.d[n:]
            while len(s.d) < n:
                s.d.append(cp(fill) if fill is not None else self.defzero(et[0]))
            return None
        if short in ("find", "rfind", "compare", "substr", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of") and s.kind == "str":
            return self.search(s, short, a)
        if short == "insert":
            p = self.rv(a[0])
            if s.kind != "str" or isinstance(p, Ptr):
                v = self.rv(a[1])
                if len(a) == 3 and isinstance(v, Ptr):
                    w = self.rv(a[2])
                    s.d[p.k:p.k] = [cp(x) for x in v.c[v.k:w.k]]
                elif len(a) == 2:
                    s.d[p.k:p.k] = [cp(v)]
                else:
                    raise AnalysisError("insert")
                return Ptr(s.d, p.k, obj=s)
        if short == "erase":
            p = self.rv(a[0])
            if isinstance(p, Ptr):
                q = self.rv(a[1]) if len(a) > 1 else p.add(1)
                del s.d[p.k:q.k]
                return Ptr(s.d, p.k, obj=s)
            i = self.const(p)
            n = self.const(self.rv(a[1])) if len(a) > 1 else len(s.d)
            del s.d[i:i + n]
            return this
        if short == "swap":
            v = self.rv(a[0])
            s.d, v.d = v.d, s.d
            return None
        if short in ("rbegin", "rend"):
            raise AnalysisError("reverse iterator")
        if short in ("operator[]", "at", "front", "back") and any(isinstance(c, Chunk) for c in s.d):
            raise AnalysisError("character of an unknown text")
        if short == "append" and len(a) == 2:
            v = self.rv(a[0])
            if isinstance(v, Str):
                raise AnalysisError("append")
            if isinstance(v, Op):
                s.d.append(Chunk(v.t, self.term(self.rv(a[1]))))
                return this
        return self._retry(self.seq, short, this, e)

    def basetype(self, e):
        t = e["this"]["t"] if e.get("this") else e["a"][0]["t"]
        d = self.ty(t)
        if d.get("k") in ("ref", "ptr"):
            t = d.get("to", t)
        return t.replace("const ", "") if not self.ty(t).get("targs") else t

    def elem(self, e):
        ta = self.targs(self.basetype(e))
        return self.ty(ta[0]).get("cls") if ta else None

    def search(self, s, short, a):
        v = self.rv(a[0])
        if short == "substr":
            i = self.const(v)
            n = self.const(self.rv(a[1])) if len(a) > 1 else len(s.d)
            if i > len(s.d):
                raise Thrown("std::out_of_range")
            return Str(s.d[i:i + n])
        if short == "compare":
            if len(a) == 1:
                x = v
                y = x.d if isinstance(x, Str) else self.cstr(x)
                if self.streq(s.d, y):
                    return K(0, 32)
                return K(-1 if self.less(s, Str(y)) else 1, 32)
            i, n = self.const(v), self.const(self.rv(a[1]))
            x = self.rv(a[2])
            y = x.d if isinstance(x, Str) else self.cstr(x)
            sub = s.d[i:i + n]
            if self.streq(sub, y):
                return K(0, 32)
            return K(-1 if self.less(Str(sub), Str(y)) else 1, 32)
        if short == "find" and any(isinstance(c, Chunk) for c in s.d):
            h = getattr(self.env, "strfind", None)
            r = h(s, v) if h else None
            if r is None:
                raise AnalysisError("search in an unknown text")
            return r
        if any(isinstance(c, Chunk) for c in s.d):
            pat = v.d if isinstance(v, Str) else self.cstr(v) if isinstance(v, (Ptr, Op)) else [v]
            if short == "rfind" and len(a) == 2 and self.const(self.rv(a[1])) == 0:
                return K(0 if self.startswith(s.d, pat) else -1, 64)
            raise AnalysisError("search in an unknown text")
        pat = v.d if isinstance(v, Str) else self.cstr(v) if isinstance(v, (Ptr, Op)) else [v]
        n = len(s.d)
        if short in ("find_first_of", "find_first_not_of", "find_last_of", "find_last_not_of"):
            rng = range(n) if "first" in short else range(n - 1, -1, -1)
            if len(a) > 1:
                st = self.const(self.rv(a[1]))
                rng = range(st, n) if "first" in short else range(min(st, n - 1), -1, -1)
            for i in rng:
                hit = any(self.cmp("==", s.d[i], p, False) for p in pat)
                if hit != ("not" in short):
                    return K(i, 64)
            return K(-1, 64)
        if short == "find":
            st = self.const(self.rv(a[1])) if len(a) > 1 else 0
            rng = range(st, n - len(pat) + 1)
        else:
            st = self.const(self.rv(a[1])) if len(a) > 1 else n
            rng = range(min(st, n - len(pat)), -1, -1)
        for i in rng:
            if all(self.cmp("==", x, y, False) for x, y in zip(s.d[i:i + len(pat)], pat)):
                return K(i, 64)
        return K(-1, 64)

    def startswith(self, d, pat):
        for i, p in enumerate(pat):
            if i >= len(d):
                return False
            if isinstance(d[i], Chunk):
                return bool(self.decide(("startswith", self.skey(d[i:]), self.skey(pat[i:]))))
            if not self.cmp("==", d[i], p, False):
                return False
        return True

    # free functions
    def s2_to_string(self, e):
        v = self.rv(e["a"][0])
        return Str(self.digits(v, e["a"][0]["t"], "to_string"))

    def s2_endl(self, e):
        return Fn("", "std::endl")

    def s2_find(self, e):
        b, en = self.rv(e["a"][0]), self.rv(e["a"][1])
        x = self.rv(e["a"][2])
        for i in range(b.k, en.k):
            if self.equal(b.c[i], x):
                return Ptr(b.c, i, obj=b.obj)
        return en

    def pred(self, f, *args):
        c = self.rv(f)
        if not isinstance(c, Fn):
            raise AnalysisError("predicate")
        return c, args

    def s2_find_if(self, e):
        b, en = self.rv(e["a"][0]), self.rv(e["a"][1])
        c = self.rv(e["a"][2])
        for i in range(b.k, en.k):
            if self.truth(self.callptr(c, [Ref(b.c, i)])):
                return Ptr(b.c, i, obj=b.obj)
        return en

    def s2_any_of(self, e):
        b, en = self.rv(e["a"][0]), self.rv(e["a"][1])
        c = self.rv(e["a"][2])
        short = e["n"].split("::")[-1]
        n = 0
        for x in self.between(b, en):
            t = self.truth(self.callptr(c, [x]))
            n += t
            if short == "any_of" and t:
                return K(1, 1)
            if short == "all_of" and not t:
                return K(0, 1)
            if short == "none_of" and t:
                return K(0, 1)
        if short == "count_if":
            return K(n, 64)
        return K(int(short != "any_of"), 1)

    s2_all_of = s2_none_of = s2_count_if = s2_any_of

    def between(self, b, en):
        if isinstance(b, Ptr):
            return [Ref(b.c, i) for i in range(b.k, en.k)]
        out = []
        on = False
        for y in list(b.m.items):
            if y is en.x and en.x is not None:
                break
            on = on or y is b.x
            if on:
                out.append(Ref({0: y}, 0) if b.m.kind == "map" else Ref(y, 0))
        return out

    def s2_for_each(self, e):
        c = self.rv(e["a"][2])
        for x in self.between(self.rv(e["a"][0]), self.rv(e["a"][1])):
            self.callptr(c, [x])
        return c

    def s2_back_inserter(self, e):
        o = self.ev(e["a"][0])
        return Out(o.get() if isinstance(o, Ref) else o, self.contents(e["a"][0]["t"]))

    def s2_inserter(self, e):
        o = self.ev(e["a"][0])
        o = o.get() if isinstance(o, Ref) else o
        if isinstance(o, Map) or o.kind == "str":
            return Out(o, self.contents(e["a"][0]["t"]))
        raise AnalysisError("inserter")

    def contents(self, t):
        d = self.ty(t)
        if d.get("k") in ("ref", "ptr"):
            t = d.get("to", t)
        ta = self.targs(t)
        return self.ty(ta[0]).get("cls") if ta else None

    def emit(self, o, v):
        """one more value for an output iterator; the iterator behind it"""
        v = v.get() if isinstance(v, Ref) else v
        if isinstance(o, Out):
            v = cp(v)
            if isinstance(o.o, Map):
                self.mapinsert(o.o, v)
            else:
                if isinstance(v, Ptr) and o.elem == "std::basic_string":
                    v = Str(self.cstr(v))
                o.o.d.append(v)
            return o
        if isinstance(o, Ptr):
            old = o.at(0).get()
            o.at(0).put(self.resize(v, len(old.b), False) if isinstance(old, BV) and isinstance(v, BV) else cp(v))
            return o.add(1)
        raise AnalysisError("output iterator")

    def s2_transform(self, e):
        a = [self.rv(x) for x in e["a"]]
        if len(a) == 5:
            b, en, b2, o, c = a
            if not isinstance(b2, Ptr):
                raise AnalysisError("transform of two ranges")
            for i, x in enumerate(self.between(b, en)):
                o = self.emit(o, self.callptr(c, [x, Ref(b2.c, b2.k + i)]))
            return o
        b, en, o, c = a
        for x in self.between(b, en):
            o = self.emit(o, self.callptr(c, [x]))
        return o

    def s2_copy(self, e):
        b, en, o = [self.rv(x) for x in e["a"]]
        for x in self.between(b, en):
            o = self.emit(o, x)
        return o

    def s2_copy_n(self, e):
        b, n, o = [self.rv(x) for x in e["a"]]
        for i in range(self.const(n)):
            o = self.emit(o, Ref(b.c, b.k + i))
        return o

    def s2_copy_if(self, e):
        b, en, o, c = [self.rv(x) for x in e["a"]]
        for x in self.between(b, en):
            if self.truth(self.callptr(c, [x])):
                o = self.emit(o, x)
        return o

    def s2_remove_copy_if(self, e):
        b, en, o, c = [self.rv(x) for x in e["a"]]
        for x in self.between(b, en):
            if not self.truth(self.callptr(c, [x])):
                o = self.emit(o, x)
        return o

    def s2_accumulate(self, e):
        a = [self.rv(x) for x in e["a"]]
        acc = a[2]
        if isinstance(acc, Ptr) and self.ty(e["t"]).get("cls") == "std::basic_string":
            acc = Str(self.cstr(acc))
        acc = cp(acc)
        for x in self.between(a[0], a[1]):
            if len(a) < 4:
                y = x.get()
                if isinstance(acc, Str) and isinstance(y, Str) and acc.kind == "str":
                    acc = Str(list(acc.d) + list(y.d))
                    continue
                raise AnalysisError("accumulate")
            v = self.callptr(a[3], [Ref({0: acc}, 0), x])
            acc = v.get() if isinstance(v, Ref) else v
        return acc

    def s2_equal(self, e):
        a = [self.rv(x) for x in e["a"]]
        if not all(isinstance(x, Ptr) for x in a[:3]):
            raise AnalysisError("equal")
        n = a[1].k - a[0].k
        if len(a) >= 4 and isinstance(a[3], Ptr):
            if a[3].k - a[2].k != n:
                return K(0, 1)
            c = a[4] if len(a) > 4 else None
        else:
            c = a[3] if len(a) > 3 else None
        for i in range(n):
            x, y = Ref(a[0].c, a[0].k + i), Ref(a[2].c, a[2].k + i)
            if not (self.truth(self.callptr(c, [x, y])) if c is not None else self.equal(x.get(), y.get())):
                return K(0, 1)
        return K(1, 1)

    def s2_fill(self, e):
        b, en, v = [self.rv(x) for x in e["a"]]
        for x in self.between(b, en):
            old = x.get()
            x.put(self.resize(v, len(old.b), False) if isinstance(old, BV) and isinstance(v, BV) else cp(v))
        return None

    def s2_reverse(self, e):
        b, en = [self.rv(x) for x in e["a"]]
        if not isinstance(b, Ptr):
            raise AnalysisError("reverse")
        b.c[b.k:en.k] = b.c[b.k:en.k][::-1]
        return None

    def s2_remove_if(self, e):
        b, en, c = [self.rv(x) for x in e["a"]]
        if not isinstance(b, Ptr):
            raise AnalysisError("remove_if")
        keep = [x.get() for x in self.between(b, en) if not self.truth(self.callptr(c, [x]))]
        b.c[b.k:b.k + len(keep)] = keep
        return Ptr(b.c, b.k + len(keep), obj=b.obj)

    def s2_next(self, e):
        b = self.rv(e["a"][0])
        n = self.sconst(self.rv(e["a"][1])) if len(e["a"]) > 1 else 1
        if e["n"].split("::")[-1] == "prev":
            n = -n
        if not isinstance(b, Ptr):
            raise AnalysisError("next")
        return b.add(n)

    s2_prev = s2_next

    def s2_generate_n(self, e):
        a = [self.rv(x) for x in e["a"]]
        p, n, c = a
        for i in range(self.const(n)):
            v = self.callptr(c, [])
            p.at(i).put(v.get() if isinstance(v, Ref) else v)
        return p

    def s2_distance(self, e):
        b, en = self.rv(e["a"][0]), self.rv(e["a"][1])
        if isinstance(b, Ptr):
            return K(en.k - b.k, 64)
        return K(len(self.between(b, en)), 64)

    def s2_max_element(self, e):
        b, en = self.rv(e["a"][0]), self.rv(e["a"][1])
        l = self.between(b, en)
        if not l:
            return en
        best = 0
        for i in range(1, len(l)):
            if self.less(l[best].get(), l[i].get()):
                best = i
        if isinstance(b, Ptr):
            return b.add(best)
        l2 = [y for y in b.m.items]
        return Iter(b.m, l2[best])

    def s2_sort(self, e):
        import functools
        b, en = self.rv(e["a"][0]), self.rv(e["a"][1])
        c = self.rv(e["a"][2]) if len(e["a"]) > 2 else None
        def lt(x, y):
            if c is not None:
                return self.truth(self.callptr(c, [Ref({0: x}, 0), Ref({0: y}, 0)]))
            return self.less(x, y)
        l = b.c[b.k:en.k]
        out = []
        for x in l:
            i = len(out)
            while i > 0 and lt(x, out[i - 1]):
                i -= 1
            out.insert(i, x)
        b.c[b.k:en.k] = out

    def s2_max(self, e):
        a, b = self.ev(e["a"][0]), self.ev(e["a"][1])
        x = a.get() if isinstance(a, Ref) else a
        y = b.get() if isinstance(b, Ref) else b
        sg = self.tinfo(e["a"][0]["t"])[1]
        if e["n"].endswith("max"):
            return b if self.cmp("<", x, y, sg) else a
        return b if self.cmp("<", y, x, sg) else a

    s2_min = s2_max

    def s2_swap(self, e):
        a, b = self.ev(e["a"][0]), self.ev(e["a"][1])
        x, y = a.get(), b.get()
        a.put(y)
        b.put(x)

    def s2_make_pair(self, e):
        vs = [self.take(x) for x in e["a"]]
        ta = self.targs(e["t"])
        vs = [Str(self.cstr(v)) if isinstance(v, Ptr) and i < len(ta) and self.ty(ta[i]).get("cls") == "std::basic_string" else v for i, v in enumerate(vs)]
        return Obj("std::pair", {"first": vs[0], "second": vs[1]})

    @staticmethod
    def dbl(v):
        import struct
        c = v.const() if isinstance(v, BV) else None
        return None if c is None or len(v.b) != 64 else struct.unpack("<d", struct.pack("<Q", c))[0]

    def s2_isfinite(self, e):
        v = self.rv(e["a"][0])
        f = self.dbl(v)
        if f is not None:
            return K(int(f == f and abs(f) != float("inf")), 1)
        if getattr(self.env, "finite", False):
            return K(1, 1)
        return K(self.decide(("isfinite", self.fterm(v))), 1)

    def s2_isnan(self, e):
        v = self.rv(e["a"][0])
        return K(self.decide(("isnan", self.fterm(v))), 1)

    def s2_begin(self, e):
        return self.strmap(e, "begin")

    def s2_end(self, e):
        return self.strmap(e, "end")

    def strmap(self, e, m):
        r = self.ev(e["a"][0])
        o = r.get()
        if isinstance(o, Map):
            return Iter(o, o.items[0] if o.items and m == "begin" else None)
        return Ptr(o.d, 0 if m == "begin" else len(o.d), obj=o)

    # C
    def c___builtin_va_start(self, e):
        r = self.ev(e["a"][0])
        v = Va(self.fr["va"] or [])
        if isinstance(r, Ptr):
            r.c[:] = [v] if isinstance(r.c, list) else r.c
            if r.ref is not None:
                r.ref.put(v)
        elif isinstance(r, Ref):
            r.put(v)
        return None

    def c___builtin_va_end(self, e):
        return None

    def c_strlen(self, e):
        p = self.rv(e["a"][0])
        if isinstance(p, Op):
            return Sc(("strlen", p.t), 64)
        s = self.cstr(p)
        if any(isinstance(c, Chunk) for c in s):
            return Sc(("strlen", self.skey(s)), 64)
        return K(len(s), 64)

    def c_strcmp(self, e):
        a, b = [self.cstr(self.rv(x)) for x in e["a"][:2]]
        if self.streq(a, b):
            return K(0, 32)
        return K(1, 32)

    def c_memcmp(self, e):
        a, b, n = [self.rv(x) for x in e["a"][:3]]
        if isinstance(a, Op) or isinstance(b, Op) or isinstance(n, Sc):
            if self.env is not None and hasattr(self.env, "memcmp"):
                r = self.env.memcmp(a, b, n)
                if r is not None:
                    return r
            if a == b:
                return K(0, 32)
            return K(0 if self.decide(("memeq",) + tuple(sorted((repr(a), repr(b))))) else 1, 32)
        n = self.const(n)
        return K(0 if all(self.cmp("==", a.at(i).get(), b.at(i).get(), False) for i in range(n)) else 1, 32)

    def c_strncmp(self, e):
        a, b, n = [self.rv(x) for x in e["a"][:3]]
        if isinstance(a, Op) or isinstance(b, Op) or isinstance(n, Sc):
            if a == b:
                return K(0, 32)
            # the bytes behind a zero byte do not count: equal here does not mean equal values
            return K(0 if self.decide(("strneq",) + tuple(sorted((repr(a), repr(b))))) else 1, 32)
        for i in range(self.const(n)):
            x, y = a.at(i).get(), b.at(i).get()
            if not self.cmp("==", x, y, False):
                return K(-1 if self.cmp("<", x, y, False) else 1, 32)
            if self.cmp("==", x, K(0, 8), False):
                break
        return K(0, 32)

    def c___assert_fail(self, e):
        raise AnalysisError("assert")

    # ---- statements ----
    def exec(self, n):
        if n is None:
            return
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise AnalysisError("budget exceeded")
        m = getattr(self, "s_" + n["k"], None)
        if m is None:
            raise AnalysisError("statement " + n["k"])
        m(n)

    def s_expr(self, n):
        m = self.opentemps()
        try:
            v = self.ev(n["e"])
        except Thrown:
            self.closetemps(m)
            raise
        if isinstance(v, (Obj, Own)):
            x = n["e"]
            while x["k"] in ("full", "bt"):
                x = x["e"]
            if not x.get("gl"):
                self.destroy(v)
        self.closetemps(m)

    def s_decl(self, n):
        for v in n["vars"]:
            if v.get("static"):
                g = v.get("gn") or (self.fr["fn"]["f"], v["id"])
                if g not in self.globals:
                    self.globals[g] = UNDEF
                    self.initref(Ref(self.globals, g), v["t"], v.get("init"))
                self.fr["ref"][v["id"]] = Ref(self.globals, g)
                continue
            if v.get("ref"):
                m = self.temps
                self.temps = []
                x = v["init"]
                while x["k"] in ("full", "bt"):
                    x = x["e"]
                try:
                    r = self.ev(x)
                finally:
                    t, self.temps = self.temps, m
                if not isinstance(r, Ref):
                    r = Ref({0: r}, 0)
                    t = (t or []) + [r]
                self.fr["own"] += t or []
                self.fr["ref"][v["id"]] = r
            else:
                r = Ref(self.fr["v"], v["id"])
                self.fr["v"].pop(v["id"], None)
                self.initref(r, v["t"], v.get("init"))
                x = self.fr["v"].get(v["id"])
                if isinstance(x, (Obj, Own, Map)) or isinstance(x, Str) and x.kind != "str":
                    self.fr["own"].append(Ref({0: x}, 0) if False else r)
                    # a later declaration of the same variable (next iteration) is a new object
                    self.fr["own"][-1] = Holder(self.fr["v"], v["id"], x)

    def scoped(self, f, *a):
        fr = self.fr
        mark = len(fr["own"])
        try:
            f(*a)
        except (Thrown, _Brk, _Cont, _Ret):
            self.fr = fr
            self.unwind(fr, mark)
            raise
        self.unwind(fr, mark)

    def _block(self, n):
        for x in n["s"]:
            self.exec(x)

    def s_block(self, n):
        self.scoped(self._block, n)

    def s_if(self, n):
        if n.get("init") or n.get("cv"):
            self.scoped(Interp.s_if, self, n)
        else:
            Interp.s_if(self, n)

    def s_for(self, n):
        self.scoped(Interp.s_for, self, n)

    def s_while(self, n):
        self.scoped(Interp.s_while, self, n)

    def s_return(self, n):
        if "e" not in n:
            raise _Ret(None)
        x = n["e"]
        while x["k"] in ("full", "bt"):
            x = x["e"]
        if x["k"] == "ctor" and x.get("ck") in ("copy", "move") and len(x["a"]) == 1:
            y = x["a"][0]
            while y["k"] in ("full", "bt", "cast"):
                y = y["e"]
            if y["k"] == "var" and not y.get("g") and not y.get("ref") and y["id"] in self.fr["v"]:
                # a local variable is moved out
                v = self.fr["v"][y["id"]]
                if isinstance(v, Own):
                    raise _Ret(self.move(Ref(self.fr["v"], y["id"])))
                if isinstance(v, (Obj, Str, Map)):
                    for h in self.fr["own"]:
                        if isinstance(h, Holder) and h.x is v:
                            self.fr["own"].remove(h)
                            break
                    raise _Ret(v)
        m = self.opentemps()
        try:
            v = self.ev(n["e"])
            if self.ty(self.fr["fn"]["ret"]).get("k") != "ref" and isinstance(v, Ref):
                o = v.get()
                if isinstance(o, Own):
                    v = self.move(v)
                else:
                    v = cp(o)
        except Thrown:
            self.closetemps(m)
            raise
        self.closetemps(m)
        raise _Ret(v)

    def s_rfor(self, n):
        v = n["v"]
        c = self.ev(n["r"])
        if isinstance(c, Ref):
            c = c.get()
        if not isinstance(c, (Str, Map)):
            raise AnalysisError("range for over %r" % (type(c),))
        i = 0
        seq = c.d if isinstance(c, Str) else None
        items = list(c.items) if isinstance(c, Map) else None
        while i < (len(c.d) if seq is not None else len(items)):
            if seq is not None:
                if isinstance(c.d[i], Chunk):
                    raise AnalysisError("loop over an unknown text")
                r = Ref(c.d, i, obj=c)
            else:
                r = Ref({0: items[i]}, 0) if c.kind == "map" else Ref(items[i], 0)
            if v.get("ref"):
                self.fr["ref"][v["id"]] = r
            else:
                self.fr["v"][v["id"]] = cp(r.get())
            try:
                self.exec(n["b"])
            except _Brk:
                return
            except _Cont:
                pass
            i += 1

    def s_switch(self, n):
        v = self.rv(n["c"])
        if isinstance(v, Sc):
            w = v.w
            stmts = n["b"]["s"] if n["b"]["k"] == "block" else [n["b"]]
            for x in stmts:
                while x and x["k"] in ("case", "default"):
                    if x["k"] == "case" and self.cmp("==", v, K(x["v"]["v"], w), False):
                        return self.scoped(Interp.s_switch, self, dict(n, c={"k": "_v", "v": K(x["v"]["v"], w)}))
                    x = x["s"]
            return self.scoped(Interp.s_switch, self, dict(n, c={"k": "_v", "v": K(-987654321, w)}))
        self.scoped(Interp.s_switch, self, n)

    def s_try(self, n):
        fr = self.fr
        depth, temps = self.depth, self.temps
        try:
            self.exec(n["b"])
            return
        except Thrown as x:
            self.fr = fr
            self.depth, self.temps = depth, temps
            for c in n["c"] if "c" in n else n.get("h", n.get("catches", ())):
                ct = c.get("t")
                cls = self.ty(ct).get("cls") or ct if ct else None
                if ct and self.ty(ct).get("k") in ("ref", "ptr"):
                    cls = self.ty(self.ty(ct).get("to", "")).get("cls") or self.ty(ct).get("to")
                if cls is None or self.isa(x.cls, cls.replace("const ", "").strip()):
                    if c.get("v"):
                        val = getattr(x, "val", None)
                        if val is None:
                            val = Obj(x.cls, {"msg": Str([]), "mMsg": Str([])})
                        if c["v"].get("ref"):
                            fr["ref"][c["v"]["id"]] = Ref({0: val}, 0)
                        else:
                            fr["v"][c["v"]["id"]] = val
                    if not hasattr(self, "caught"):
                        self.caught = []
                    self.caught.append(x)
                    try:
                        self.exec(c["b"])
                    finally:
                        self.caught.pop()
                    return
            raise


class Holder:
    """a local object, to be destroyed at the end of its scope"""
    __slots__ = ("c", "k", "x")

    def __init__(self, c, k, x):
        self.c = {0: x}
        self.k = 0
        self.x = x


_ctors = {}
_dtors = {}


def copyctors(p):
    if id(p) not in _ctors:
        d = {}
        for f in p.functions.values():
            if f.get("ctor") and not f.get("implicit") and ("body" in f or f.get("inits")) and len(f["params"]) == 1 and f["params"][0].get("ref"):
                cls = f["n"].rsplit("::", 1)[0]
                t = f["params"][0]["t"].replace("const ", "").rstrip("& ").strip()
                if t == cls and not cls.startswith("std::"):
                    d[cls] = f if "body" in f else dict(f, body={"k": "block", "s": []})
        _ctors[id(p)] = d
    return _ctors[id(p)]


def dtors(p):
    if id(p) not in _dtors:
        _dtors[id(p)] = {f["n"].rsplit("::~", 1)[0]: f for f in p.functions.values() if f.get("dtor") and "body" in f}
    return _dtors[id(p)]


def explore(prog, mk, body, maxruns=2000, limit=None):
    """mk() -> environment; body(interp) -> result, for every combination of the environment's answers.
    Returns (list of (interp, outcome), reason why the exploration is not complete or None)."""
    todo = [{}]
    done = []
    t0 = time.time()
    while todo:
        if len(done) >= maxruns:
            return done, "more than %d combinations" % maxruns
        if limit and time.time() - t0 > limit:
            return done, "time limit"
        it = W(prog, todo.pop(), mk() if mk else None)
        try:
            r = ("ok", body(it))
        except Thrown as x:
            r = ("throw", x.cls, getattr(x, "val", None))
        except Undef:
            r = ("undef",)
        except OutOfBounds:
            r = ("oob",)
        except Terminate as x:
            r = ("terminate", str(x))
        except AnalysisError as x:
            r = ("error", str(x))
        except Exception as x:
            if os.environ.get("SA_RAISE"):
                raise
            r = ("error", "internal: %s: %s" % (type(x).__name__, str(x)[:120]))
        todo += it.pending
        done.append((it, r))
    return done, None
