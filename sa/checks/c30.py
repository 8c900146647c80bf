"""C30: the value class interpreted over symbolic bits and a tracked heap.

Every ordered pair of the six value types is combined with every operation of the class (set, copy, assign,
assign to itself, compare, destroy).  Contents are named input bits, so a narrowed, shared or mixed up content
is a wrong bit; the heap records what is allocated, released, released twice and read after its release.
"""
from ..bits import *
from ..engine import AnalysisError
from .c31 import where

LEVEL = "other"
ASSUMPTIONS = ["texts and blobs are represented by contents of up to 3 bytes with an embedded zero byte",
               "equality of doubles is decided for ordinary numbers, not for NaN"]

TYPES = {"TypeUndefined": 0, "TypeInt": 1, "TypeDouble": 2, "TypeText": 3, "TypeBlob": 4, "TypeNull": 5}


class VM:
    """drives the class in an interpreter"""

    def __init__(self, it, p):
        self.it = it
        self.p = p

    def m(self, name, nparams=None):
        l = [f for f in self.p.byname.get("Value::" + name, []) if "body" in f and not f["f"].startswith("_ZN5ValueUt_")
             and (nparams is None or len(f["params"]) == nparams)]
        if not l:
            raise AnalysisError("no Value::" + name)
        return l[0]

    def new(self):
        r = Ref({0: self.it.default("Value")}, 0)
        c = [f for f in self.p.byname.get("Value::Value", []) if not f["params"] and "body" in f]
        if c:
            self.it.callfn(c[0], [], r)
        return r

    def typearg(self, n):
        return K(TYPES[n], 32)

    def set(self, r, t, tag, flip=None, short=False):
        it = self.it
        c = content(t, tag, flip, short)
        if t == "TypeUndefined":
            it.callfn(self.m("setUndefined"), [], r)
        elif t == "TypeNull":
            it.callfn(self.m("setNull"), [], r)
        elif t == "TypeInt":
            it.callfn(self.m("setInt"), [c], r)
        elif t == "TypeDouble":
            it.callfn(self.m("setDouble"), [c], r)
        else:
            f = self.m("setString", 3)
            w = it.tinfo(f["params"][2]["t"])[0]
            it.callfn(f, [self.typearg(t), Ptr(list(c) + [sym("beyond", 8)], 0), K(len(c), w)], r)
        return c

    def type(self, r):
        v = self.it.callfn(self.m("type"), [], r)
        return self.it.const(v)

    def get(self, r, t):
        it = self.it
        if t == "TypeInt":
            return it.nb(it.callfn(self.m("getInt"), [], r))
        if t == "TypeDouble":
            return it.nb(it.callfn(self.m("getDouble"), [], r))
        if t in ("TypeText", "TypeBlob"):
            v = it.callfn(self.m("getString"), [], r)
            v = v.get() if isinstance(v, Ref) else v
            return [it.nb(x) for x in v.d]
        return None

    def copy(self, r):
        n = Ref({0: self.it.default("Value")}, 0)
        c = [f for f in self.p.byname.get("Value::Value", []) if len(f["params"]) == 1 and "body" in f and "&&" not in f["params"][0]["t"]]
        if not c:
            raise AnalysisError("no copy constructor")
        self.it.callfn(c[0], [r], n)
        return n

    def assign(self, a, b):
        self.it.callfn(self.m("operator="), [b], a)

    def eq(self, a, b, op="operator=="):
        return self.it.truth(self.it.callfn(self.m(op), [b], a))

    def destroy(self, r):
        f = self.m("~Value")
        self.it.callfn(f, [], r)

    def holds(self, r, t, c, what):
        try:
            ty = self.type(r)
            if ty != TYPES[t]:
                return "%s has type %d instead of %d (%s)" % (what, ty, TYPES[t], t)
            g = self.get(r, t)
        except (OutOfBounds, Undef):
            return "the content of %s is read from memory that was released or never written" % what
        if t in ("TypeText", "TypeBlob"):
            c = [self.it.nb(x) for x in c]
        elif c is not None:
            c = self.it.nb(c)
        if g != c:
            return "%s holds %r instead of %r" % (what, g, c)
        return None


def content(t, tag, flip=None, short=False):
    if t == "TypeInt":
        b = list(sym(tag, 64).b)
        if flip is not None:
            b[flip] = neglit(b[flip])
        return BV(b)
    if t == "TypeDouble":
        # an ordinary number: fixed exponent, free sign and mantissa
        b = [(tag, i, False) for i in range(52)] + [(0x3ff >> i) & 1 for i in range(11)] + [(tag, 63, False)]
        if flip is not None:
            b[flip] = neglit(b[flip])
        return BV(b)
    if t in ("TypeText", "TypeBlob"):
        c = [sym(tag + "0", 8), K(0, 8), sym(tag + "2", 8)]
        if flip is not None:
            x = list(c[flip // 8].b)
            x[flip % 8] = neglit(x[flip % 8])
            c[flip // 8] = BV(x)
        return c[:-1] if short else c
    return None


def fdouble(it):
    """== of doubles whose bits are named: equal bits are equal numbers, different bits (no zeros, no NaN here) different ones"""
    old = it.binop

    def binop(op, a, b, t, ta):
        if it.ty(ta).get("k") == "float" and op in ("==", "!="):
            a, b = it.nb(a), it.nb(b)
            if len(a.b) != len(b.b):
                raise AnalysisError("floats of different widths")
            return K(int(it.cmp(op, a, b, False)), 1)
        return old(op, a, b, t, ta)
    it.binop = binop


def scenario(ctx, p, rule, what, body):
    def b(it):
        fdouble(it)
        vm = VM(it, p)
        msg = body(vm, it)
        if msg is None and it.errors:
            msg = it.errors[0][1]
        return msg
    try:
        done, cov = cells(p, b, maxcells=3000)
    except AnalysisError as x:
        ctx.incomplete.append("%s: %s" % (what, x))
        return
    ctx.cover(*cov)
    for cell, r in done:
        m = r[1] if r[0] == "ok" else {"undef": "uses a content that was never set", "oob": "uses memory that was released", "throw": "fails"}[r[0]]
        if m:
            ctx.viol(rule, "changeset.h", "%s: %s" % (what, m), key="%s|%s" % (rule, m[:40].split("<")[0]))
        else:
            ctx.ok(rule, what)


def finish(vm, it, *rs):
    for r in rs:
        vm.destroy(r)
    if it.errors:
        return it.errors[0][1]
    if it.live():
        return "a content is never released (allocated at line %s)" % it.live()[0][1]
    return None


def one(ctx, t):
    p = ctx.p
    ctx.count("value types")
    for u in TYPES:
        def setset(vm, it):
            r = vm.new()
            vm.set(r, t, "a")
            c = vm.set(r, u, "b")
            m = vm.holds(r, u, c, "a value set to %s and then to %s" % (t, u))
            return m or finish(vm, it, r)
        scenario(ctx, p, "set and get", "%s then %s" % (t, u), setset)

        def assign(vm, it):
            r, s = vm.new(), vm.new()
            c1 = vm.set(r, t, "a")
            c2 = vm.set(s, u, "b")
            vm.assign(r, s)
            m = vm.holds(r, u, c2, "the target of an assignment") or vm.holds(s, u, c2, "the source of an assignment")
            if m:
                return m
            c3 = vm.set(s, t, "c")
            m = vm.holds(r, u, c2, "a copy whose original was changed") or vm.holds(s, t, c3, "the original changed after the assignment")
            return m or finish(vm, it, r, s)
        scenario(ctx, p, "copy and assign", "%s assigned to %s" % (u, t), assign)

        def copyset(vm, it):
            r = vm.new()
            c1 = vm.set(r, t, "a")
            s = vm.copy(r)
            m = vm.holds(s, t, c1, "a copy") or vm.holds(r, t, c1, "the original of a copy")
            if m:
                return m
            c2 = vm.set(s, u, "b")
            m = vm.holds(r, t, c1, "the original of a changed copy") or vm.holds(s, u, c2, "the changed copy")
            vm.destroy(r)
            m = m or vm.holds(s, u, c2, "a copy whose original is gone")
            return m or finish(vm, it, s)
        scenario(ctx, p, "copy and assign", "copy of %s then set to %s" % (t, u), copyset)

        if t != u:
            def ne(vm, it):
                r, s = vm.new(), vm.new()
                vm.set(r, t, "a")
                vm.set(s, u, "a")
                if vm.eq(r, s):
                    return "%s equals %s" % (t, u)
                if not vm.eq(r, s, "operator!="):
                    return "%s is not unequal to %s" % (t, u)
                return finish(vm, it, r, s)
            scenario(ctx, p, "equality", "%s and %s" % (t, u), ne)

    def selfassign(vm, it):
        r = vm.new()
        c = vm.set(r, t, "a")
        vm.assign(r, r)
        return vm.holds(r, t, c, "a value assigned to itself") or finish(vm, it, r)
    scenario(ctx, p, "copy and assign", "%s assigned to itself" % t, selfassign)

    def fresh(vm, it):
        r = vm.new()
        return vm.holds(r, "TypeUndefined", None, "a new value") or finish(vm, it, r)
    scenario(ctx, p, "set and get", "new value", fresh)

    flips = {"TypeInt": range(64), "TypeDouble": [63] + list(range(52)), "TypeText": range(24), "TypeBlob": range(24)}.get(t, ())
    for k in [None] + list(flips):
        def eq(vm, it):
            r, s = vm.new(), vm.new()
            vm.set(r, t, "a")
            vm.set(s, t, "a", flip=k)
            if vm.eq(r, s) != (k is None):
                return "two %s values %s" % (t, "with equal contents are not equal" if k is None else "that differ in bit %d are equal" % k)
            if vm.eq(r, s, "operator!=") != (k is not None):
                return "!= of two %s values does not agree with ==" % t
            return finish(vm, it, r, s)
        scenario(ctx, p, "equality", "%s, bit %s" % (t, k), eq)
    if t in ("TypeText", "TypeBlob"):
        def pre(vm, it):
            r, s = vm.new(), vm.new()
            vm.set(r, t, "a")
            vm.set(s, t, "a", short=True)
            if vm.eq(r, s) or vm.eq(s, r):
                return "a %s equals a longer one it starts" % t
            return finish(vm, it, r, s)
        scenario(ctx, p, "equality", t + " prefix", pre)


def run(ctx):
    ctx.rule("set and get", "type and content are the ones last set, the previous content is released exactly once")
    ctx.rule("copy and assign", "copies are equal and independent, including assignment to itself; every content is released exactly once")
    ctx.rule("equality", "equal exactly if types and contents are equal")
    ctx.need("class Value", ctx.p.byname.get("Value::type"))
    ctx.par(one, list(TYPES))
