"""C26: abstract interpretation of the Python module against the C declarations.

Each public method of the module's classes is interpreted over abstract values (parameters, their
encodings, ctypes types, foreign functions with their declared signatures, and the result of a
foreign call partitioned into intervals), following calls inside the module.  At each foreign call
the arguments are compared with the C declaration taken from the type-checked headers.
"""
import ast, os, warnings
warnings.simplefilter("ignore")
from ..frontend import REPO
from ..check import Undecided

LEVEL = "other"
ASSUMPTIONS = ["ctypes semantics as documented (default result type int; str is not converted for c_char_p)"]
CLASSES = [("<0", lambda c: -1), ("0", 0), ("1", 1), ("2", 2), ("3", 3), (">3", 4)]
COUNTS = ("GEODIFF_hasChanges", "GEODIFF_changesCount")


class V:
    def __init__(self, k, *a):
        self.k = k
        self.a = a

    def __repr__(self):
        return "%s%r" % (self.k, self.a)


UNK = V("?")


class St:
    def __init__(self):
        self.sig = {}      # C name -> {argtypes, restype}
        self.attrs = {}    # attributes of self objects
        self.cls = {}      # call id -> class index
        self.calls = ()    # foreign calls made

    def copy(self):
        s = St()
        s.sig = {k: dict(v) for k, v in self.sig.items()}
        s.attrs = dict(self.attrs)
        s.cls = dict(self.cls)
        s.calls = self.calls
        return s


class Interp:
    def __init__(self, ctx, mods):
        self.c = ctx
        self.p = ctx.p
        self.funcs, self.classes, self.consts = {}, {}, {}
        for name, tree in mods:
            for n in tree.body:
                if isinstance(n, ast.FunctionDef):
                    self.funcs[n.name] = (name, n)
                elif isinstance(n, ast.ClassDef):
                    self.classes[n.name] = (name, n, {m.name: m for m in n.body if isinstance(m, ast.FunctionDef)})
                elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    try:
                        self.consts[n.targets[0].id] = V("const", ast.literal_eval(n.value))
                    except Exception:
                        pass
        self.depth = 0
        self.ncall = 0

    # -- expressions: yields (state, value) or ('raise')
    def ev(self, e, env, st):
        m = getattr(self, "x_" + type(e).__name__, None)
        if m is None:
            r = [(st, [])]
            for ch in ast.iter_child_nodes(e):
                if isinstance(ch, ast.expr):
                    r = [(s2, UNK) for s, _ in r for s2, _ in self.ev(ch, env, s)]
            return [(s, UNK) for s, _ in r]
        return m(e, env, st)

    def evs(self, es, env, st):
        r = [(st, [])]
        for e in es:
            if isinstance(e, ast.Starred):
                n = []
                for s, vs in r:
                    for s2, v in self.ev(e.value, env, s):
                        if v.k == "tuple":
                            n.append((s2, vs + list(v.a)))
                        else:
                            n.append((s2, vs + [V("star")]))
                r = n
                continue
            r = [(s2, vs + [v]) for s, vs in r for s2, v in self.ev(e, env, s)]
        return r

    def x_Constant(self, e, env, st):
        return [(st, V("const", e.value))]

    def x_Name(self, e, env, st):
        if e.id in env:
            return [(st, env[e.id])]
        if e.id in self.consts:
            return [(st, self.consts[e.id])]
        if e.id in ("ctypes", "None"):
            return [(st, V("mod", e.id))]
        if e.id in self.funcs:
            return [(st, V("pyfn", e.id))]
        if e.id in self.classes:
            return [(st, V("cls", e.id))]
        return [(st, V("name", e.id))]

    def x_Tuple(self, e, env, st):
        return [(s, V("tuple", *vs)) for s, vs in self.evs(e.elts, env, st)]
    x_List = x_Tuple

    def x_Attribute(self, e, env, st):
        out = []
        for s, b in self.ev(e.value, env, st):
            if b.k == "mod":
                v = V("ctype", e.attr)
            elif b.k == "lib":
                v = V("cfn", e.attr)
            elif b.k == "self":
                key = (b.a[0], e.attr)
                if key in s.attrs:
                    v = s.attrs[key]
                elif e.attr in ("lib",):
                    v = V("lib")
                elif e.attr == "clib":
                    v = V("self", "GeoDiffLib")
                elif b.a[0] in self.classes and e.attr in self.classes[b.a[0]][2]:
                    v = V("meth", b.a[0], e.attr)
                else:
                    v = UNK
            elif b.k in ("arg", "enc"):
                v = V("strmeth", b, e.attr)
            else:
                v = UNK
            out.append((s, v))
        return out

    def x_BinOp(self, e, env, st):
        out = []
        for s, (a, b) in self.evs([e.left, e.right], env, st):
            v = UNK
            if a.k == "tuple" and b.k == "const" and isinstance(b.a[0], int) and isinstance(e.op, ast.Mult):
                v = V("tuple", *(a.a * b.a[0]))
            elif a.k == "const" and b.k == "const" and isinstance(a.a[0], str) and isinstance(b.a[0], str) and isinstance(e.op, ast.Add):
                v = V("const", a.a[0] + b.a[0])
            elif a.k == "tuple" and b.k == "tuple" and isinstance(e.op, ast.Add):
                v = V("tuple", *(a.a + b.a))
            elif a.k == "tuple" and isinstance(e.op, ast.Mult) and b.k == "len":
                v = V("tuple", *(a.a * b.a[0]))
            out.append((s, v))
        return out

    def x_ListComp(self, e, env, st):
        if len(e.generators) == 1 and not e.generators[0].ifs and isinstance(e.generators[0].target, ast.Name):
            out = []
            for s, it in self.ev(e.generators[0].iter, env, st):
                if it.k == "tuple":
                    r = [(s, [])]
                    for x in it.a:
                        env2 = dict(env)
                        env2[e.generators[0].target.id] = x
                        r = [(s3, vs + [v]) for s2, vs in r for s3, v in self.ev(e.elt, env2, s2)]
                    out += [(s2, V("tuple", *vs)) for s2, vs in r]
                else:
                    out.append((s, UNK))
            return out
        return [(st, UNK)]
    x_GeneratorExp = x_ListComp

    def x_UnaryOp(self, e, env, st):
        out = []
        for s, v in self.ev(e.operand, env, st):
            if isinstance(e.op, ast.USub) and v.k == "const" and isinstance(v.a[0], (int, float)):
                v = V("const", -v.a[0])
            elif isinstance(e.op, ast.Not):
                for s2, b in self.truth(s, v):
                    out.append((s2, UNK if b is None else V("const", not b)))
                continue
            else:
                v = UNK
            out.append((s, v))
        return out

    def x_BoolOp(self, e, env, st):
        outs = [(st, None)]
        isand = isinstance(e.op, ast.And)
        done = []
        for x in e.values:
            nxt = []
            for s, _ in outs:
                for s2, v in self.ev(x, env, s):
                    for s3, b in self.truth(s2, v):
                        if b is None:
                            nxt.append((s3, None))
                            done.append((s3.copy(), V("const", not isand) if False else UNK))
                        elif b != isand:
                            done.append((s3, V("const", b)))
                        else:
                            nxt.append((s3, b))
            outs = nxt
        return done + [(s, UNK if b is None else V("const", b)) for s, b in outs]

    def x_IfExp(self, e, env, st):
        out = []
        for s, v in self.ev(e.test, env, st):
            for s2, b in self.truth(s, v):
                if b is not False:
                    out += self.ev(e.body, env, s2.copy())
                if b is not True:
                    out += self.ev(e.orelse, env, s2.copy())
        return out

    def num(self, s, v):
        if v.k == "const" and isinstance(v.a[0], (int, bool)):
            return int(v.a[0])
        if v.k == "cret" and v.a[1] in s.cls:
            return CLASSES[s.cls[v.a[1]]][0]
        return None

    def x_Compare(self, e, env, st):
        out = []
        for s, vs in self.evs([e.left] + e.comparators, env, st):
            r = True
            for op, a, b in zip(e.ops, vs, vs[1:]):
                if isinstance(op, (ast.In, ast.NotIn)):
                    x = self.num(s, a)
                    if x is not None and b.k == "tuple" and all(y.k == "const" for y in b.a):
                        rs = [self.cmp(ast.Eq(), x, int(y.a[0])) for y in b.a if isinstance(y.a[0], int)]
                        t = True if True in rs else (False if all(q is False for q in rs) else None)
                        if isinstance(op, ast.NotIn) and t is not None:
                            t = not t
                    else:
                        t = None
                else:
                    t = self.cmp(op, self.num(s, a), self.num(s, b))
                if t is False:
                    r = False
                    break
                if t is None:
                    r = None
            out.append((s, UNK if r is None else V("const", r)))
        return out

    def rng(self, x):
        if isinstance(x, int):
            return (x, x)
        return {"<0": (-2 ** 31, -1), ">3": (4, 2 ** 31 - 1)}.get(x) or (int(x), int(x))

    def cmp(self, op, a, b):
        if a is None or b is None:
            return None
        (l1, h1), (l2, h2) = self.rng(a), self.rng(b)
        o = type(op).__name__
        if o in ("Eq", "Is"):
            if l1 == h1 == l2 == h2:
                return True
            return False if h1 < l2 or h2 < l1 else None
        if o in ("NotEq", "IsNot"):
            r = self.cmp(ast.Eq(), a, b)
            return None if r is None else not r
        if o == "Lt":
            return True if h1 < l2 else (False if l1 >= h2 else None)
        if o == "LtE":
            return True if h1 <= l2 else (False if l1 > h2 else None)
        if o == "Gt":
            return True if l1 > h2 else (False if h1 <= l2 else None)
        if o == "GtE":
            return True if l1 >= h2 else (False if h1 < l2 else None)
        return None

    def truth(self, s, v):
        if v.k == "const":
            return [(s, bool(v.a[0]))]
        n = self.num(s, v)
        if n is not None:
            r = self.cmp(ast.NotEq(), n, 0)
            return [(s, r)]
        return [(s, None)]

    def x_Call(self, e, env, st):
        out = []
        for s, f in self.ev(e.func, env, st):
            for s2, args in self.evs(e.args, env, s):
                kw = {}
                s3 = s2
                for k in e.keywords:
                    r = self.ev(k.value, env, s3)
                    s3, kw[k.arg] = r[0]
                out += self.call(e, f, args, kw, env, s3)
        return out

    def call(self, e, f, args, kw, env, st):
        if f.k == "strmeth":
            b, m = f.a
            if m == "encode":
                return [(st, V("enc", b))]
            return [(st, UNK)]
        if f.k == "name" and f.a[0] == "getattr" and len(args) >= 2 and args[0].k == "lib" and args[1].k == "const":
            return [(st, V("cfn", args[1].a[0]))]
        if f.k == "name" and f.a[0] == "len" and args and args[0].k == "tuple":
            return [(st, V("len", len(args[0].a)))]
        if f.k == "name" and f.a[0] in ("list", "tuple") and args and args[0].k == "tuple":
            return [(st, args[0])]
        if f.k == "name" and f.a[0] == "bytes" and args and args[0].k in ("arg", "enc"):
            return [(st, V("enc", args[0]))]
        if f.k == "name" and f.a[0] == "bool" and args:
            return [(s, UNK if b is None else V("const", b)) for s, b in self.truth(st, args[0])]
        if f.k == "ctype" and f.a[0] == "CFUNCTYPE":
            return [(st, V("cfunctype", *args))]
        if f.k == "ctype" and f.a[0] == "c_char_p" and args:
            return [(st, args[0])]
        if f.k == "ctype" and f.a[0].startswith("c_") and args:
            return [(st, args[0])]
        if f.k == "cfunctype":
            return [(st, V("cb", f, args[0] if args else UNK, e))]
        if f.k == "pyfn":
            return self.inline(self.funcs[f.a[0]], args, kw, None, st)
        if f.k == "meth":
            c = self.classes[f.a[0]]
            return self.inline((c[0], c[2][f.a[1]]), args, kw, f.a[0], st)
        if f.k == "cfn":
            return self.foreign(e, f.a[0], args, st)
        return [(st, UNK)]

    def inline(self, fn, args, kw, cls, st):
        mod, n = fn
        if self.depth > 8:
            return [(st, UNK)]
        env = {}
        names = [a.arg for a in n.args.args]
        vals = ([V("self", cls)] if cls else []) + list(args)
        for i, nm in enumerate(names):
            if i < len(vals):
                env[nm] = vals[i]
            elif nm in kw:
                env[nm] = kw[nm]
            else:
                d = i - (len(names) - len(n.args.defaults))
                env[nm] = self.ev(n.args.defaults[d], {}, st)[0][1] if 0 <= d < len(n.args.defaults) else UNK
        if n.args.vararg:
            env[n.args.vararg.arg] = V("tuple", *vals[len(names):])
        self.depth += 1
        savemod, self.mod = getattr(self, "mod", None), mod
        try:
            r = self.block(n.body, env, st)
        finally:
            self.depth -= 1
            self.mod = savemod
        out = []
        for s, env2, o in r:
            if o is None:
                out.append((s, V("const", None)))
            elif o[0] == "return":
                out.append((s, o[1]))
            elif o[0] == "raise":
                self.raised.append((s, o[1]))
        return out

    def kindok(self, ct, k):
        """declared C type vs ctypes type"""
        d = self.p.types.get(ct, {})
        if d.get("k") == "ptr" and "char" in ct and "(" not in ct:
            return k in ("c_char_p",)
        if d.get("k") in ("int", "enum"):
            return k in ("c_int", "c_uint", "c_int32") if d.get("k") == "enum" else k in ("c_int", "c_int32")
        return None

    def foreign(self, e, name, args, st):
        c = self.c
        where = "%s:%d" % (self.mod, e.lineno)
        c.count("foreign calls")
        d = [x for x in self.p.decls.values() if x["n"] == name and x.get("externC")]
        if not d:
            c.viol("exists", where, "%s is called but not declared in the C interface" % name, key="exists|" + name)
            return [(st, UNK)]
        c.ok("exists", name)
        d = d[0]
        ps = d["params"]
        if any(a.k == "star" for a in args):
            return [(st, UNK)]
        c.check(len(args) == len(ps), "arity", where, "%s is called with %d arguments, declared with %d" % (name, len(args), len(ps)), key="arity|" + name)
        sig = st.sig.get(name, {})
        at = sig.get("argtypes")
        if at is not None and at.k == "tuple":
            c.check(len(at.a) == len(ps), "argtypes", where, "%s declares %d argtypes, C has %d parameters" % (name, len(at.a), len(ps)), key="argtypes|" + name)
            for i, (a, b) in enumerate(zip(at.a, ps)):
                if a.k == "ctype":
                    ok = self.kindok(b, a.a[0])
                    if "(*)" in b:
                        ok = False
                    if ok is not None:
                        c.check(ok, "argtypes", where, "argument %d of %s is declared as %s, C has %s" % (i + 1, name, a.a[0], b), key="argtypes|%s|%d" % (name, i))
                elif a.k == "cfunctype" and "(*)" in b:
                    want = self.cbsig(b)
                    got = [x.a[0] if x.k == "ctype" else None if (x.k == "const" and x.a[0] is None) or x.k == "mod" else "?" for x in a.a]
                    ok = len(got) == len(want) and all(self.cbok(w, g) for w, g in zip(want, got))
                    c.check(ok, "argtypes", where, "the callback type given to %s is %r, C has %s" % (name, got, b), key="argtypes|%s|%d" % (name, i))
                elif a.k == "cfunctype":
                    c.viol("argtypes", where, "argument %d of %s is declared as a function, C has %s" % (i + 1, name, b), key="argtypes|%s|%d" % (name, i))
        for i, (a, b) in enumerate(zip(args, ps)):
            isstr = "char" in b and "(*)" not in b
            if isstr and a.k in ("arg",):
                c.viol("argument kind", where, "argument %d of %s is text that is not encoded" % (i + 1, name), key="kind|%s|%d" % (name, i))
            elif not isstr and a.k == "enc":
                c.viol("argument kind", where, "argument %d of %s is a byte string, C has %s" % (i + 1, name, b), key="kind|%s|%d" % (name, i))
            elif "(*)" in b:
                c.check(a.k in ("cb", "?", "const"), "argument kind", where, "argument %d of %s is not a C callback object" % (i + 1, name), key="kind|%s|%d" % (name, i))
                if a.k == "cb":
                    kept = any(v is a for v in st.attrs.values())
                    c.check(kept, "callback lifetime", where, "the callback given to %s is not kept alive by the object" % name, key="life|" + name)
            else:
                c.ok("argument kind")
            src = a
            while src.k == "enc":
                src = src.a[0]
            if src.k == "arg" and len(self.entry[1]) == len(ps):
                c.check(src.a[0] == i, "argument order", where, "argument %d of %s is parameter '%s' of %s" % (i + 1, name, src.a[1], self.entry[0]),
                        key="order|%s|%d|%s" % (name, i, self.entry[0]), what="%s <- %s" % (name, self.entry[0]))
            elif isstr and src.k == "const" and len(self.entry[1]) == len(ps):
                c.viol("argument order", where, "argument %d of %s is a constant, not parameter %d of %s" % (i + 1, name, i + 1, self.entry[0]), key="order|%s|%d|%s" % (name, i, self.entry[0]))
        rt = sig.get("restype")
        if "char" in d["ret"]:
            c.check(rt is not None and ((rt.k == "ctype" and rt.a[0] == "c_char_p") or rt.k == "?"), "result type", where, "the result of %s is text but not declared as c_char_p" % name, key="restype|" + name)
        elif d["ret"] == "int":
            c.check(rt is None or rt.k == "?" or (rt.k == "ctype" and rt.a[0] in ("c_int", "c_int32")), "result type", where, "the result of %s is int but declared as %r" % (name, rt), key="restype|" + name)
            self.ncall += 1
            out = []
            for i in range(len(CLASSES)):
                s = st.copy()
                s.cls[self.ncall] = i
                s.calls = s.calls + ((name, self.ncall, where),)
                out.append((s, V("cret", name, self.ncall)))
            return out
        return [(st, V("cval", name))]

    def cbsig(self, t):
        ret, rest = t.split("(*)")
        return [ret.strip()] + [x.strip() for x in rest.strip()[1:-1].split(",")]

    def cbok(self, w, g):
        if g == "?":
            return True
        if w == "void":
            return g is None or g == "None"
        if "char" in w:
            return g == "c_char_p"
        return g in ("c_int", "c_uint", "c_int32")

    # -- statements: [(state, env, outcome)]
    def block(self, body, env, st):
        outs = [(st, env, None)]
        for n in body:
            nxt = []
            for s, en, o in outs:
                if o is not None:
                    nxt.append((s, en, o))
                else:
                    nxt += self.stmt(n, en, s)
            outs = nxt
            if len(outs) > 4000:
                return outs[:4000]
        return outs

    def assign(self, t, v, env, st):
        if isinstance(t, ast.Name):
            env = dict(env)
            env[t.id] = v
        elif isinstance(t, ast.Attribute):
            for s, b in self.ev(t.value, env, st):
                st = s
                if b.k == "cfn":
                    st.sig.setdefault(b.a[0], {})[t.attr] = v
                elif b.k == "self":
                    st.attrs[(b.a[0], t.attr)] = v
                break
        elif isinstance(t, ast.Tuple) and v.k == "tuple" and len(v.a) == len(t.elts):
            for x, y in zip(t.elts, v.a):
                env, st = self.assign(x, y, env, st)
        elif isinstance(t, ast.Tuple):
            for x in t.elts:
                env, st = self.assign(x, UNK, env, st)
        return env, st

    def stmt(self, n, env, st):
        k = type(n).__name__
        if k in ("Assign", "AnnAssign"):
            if n.value is None:
                return [(st, env, None)]
            out = []
            for s, v in self.ev(n.value, env, st):
                s = s.copy()
                en = env
                for t in (n.targets if k == "Assign" else [n.target]):
                    en, s = self.assign(t, v, en, s)
                out.append((s, en, None))
            return out
        if k == "Expr":
            return [(s, env, None) for s, _ in self.ev(n.value, env, st)]
        if k == "Return":
            if n.value is None:
                return [(st, env, ("return", V("const", None)))]
            return [(s, env, ("return", v)) for s, v in self.ev(n.value, env, st)]
        if k == "Raise":
            return [(st, env, ("raise", ast.unparse(n.exc) if n.exc else ""))]
        if k == "If":
            out = []
            for s, v in self.ev(n.test, env, st):
                for s2, b in self.truth(s, v):
                    if b is not False:
                        out += self.block(n.body, env, s2.copy())
                    if b is not True:
                        out += self.block(n.orelse, env, s2.copy())
            return out
        if k == "For":
            out = []
            for s, it in self.ev(n.iter, env, st):
                if it.k == "tuple":
                    r = [(s, env, None)]
                    for x in it.a:
                        nxt = []
                        for s2, en, o in r:
                            if o is not None:
                                nxt.append((s2, en, o))
                            else:
                                en, s2 = self.assign(n.target, x, en, s2)
                                nxt += self.block(n.body, en, s2)
                        r = nxt
                    out += r
                else:
                    out += self.block(n.body, env, s.copy())
                    out.append((s, env, None))
            return out
        if k == "With":
            return self.block(n.body, env, st)
        if k == "Try":
            mark = len(self.raised)
            r = self.block(n.body, env, st)
            sub = self.raised[mark:]
            del self.raised[mark:]
            out = []
            for s, en, o in r + [(s, env, ("raise", x)) for s, x in sub]:
                if o and o[0] == "raise" and n.handlers:
                    for h in n.handlers:
                        for s2, en2, o2 in self.block(h.body, en, s.copy()):
                            out.append((s2, en2, o if o2 and o2[0] == "raise" and not o2[1] else o2))
                else:
                    out.append((s, en, o))
            fin = []
            for s, en, o in out:
                for s2, en2, o2 in self.block(n.finalbody, en, s):
                    fin.append((s2, en2, o2 or o))
            return fin
        return [(st, env, None)]

    def analyse(self, cname, m):
        mod = self.classes[cname][0]
        ps = [a.arg for a in m.args.args][1:]
        self.entry = ("%s.%s" % (cname, m.name), ps)
        self.raised = []
        self.mod = mod
        st = St()
        args = [V("arg", i, n) for i, n in enumerate(ps)]
        r = self.inline((mod, m), args, {}, cname, st)
        c = self.c
        where = "%s:%d" % (mod, m.lineno)
        for outcome, rs in (("return", [(s, v) for s, v in r]), ("raise", self.raised)):
            for s, v in rs:
                if len(s.calls) != 1:
                    continue
                name, cid, cw = s.calls[0]
                i = s.cls[cid]
                cl = CLASSES[i][0]
                err = cl == "<0" if name in COUNTS else cl != "0"
                if err:
                    c.check(outcome == "raise", "error result", cw, "%s returns normally from %s although %s returned %s" % ("%s.%s" % (cname, m.name), mod, name, cl), key="error|%s|%s|%s" % (name, cl, m.name))
                elif name == "GEODIFF_hasChanges" and cl not in ("0", "1"):
                    continue
                else:
                    c.check(outcome == "return", "success result", cw, "%s.%s raises although %s returned %s" % (cname, m.name, name, cl), key="succ|%s|%s|%s" % (name, cl, m.name))
                    if outcome == "return" and name == "GEODIFF_hasChanges" and v.k == "const":
                        c.check(bool(v.a[0]) == (cl == "1"), "success result", cw, "%s.%s returns %r although %s returned %s" % (cname, m.name, v.a[0], name, cl), key="val|%s|%s|%s" % (name, cl, m.name))
                    if outcome == "return" and name == "GEODIFF_changesCount":
                        c.check(v.k in ("cret", "?"), "success result", cw, "%s.%s does not return the count" % (cname, m.name), key="val|%s|%s" % (name, m.name))


def run(ctx):
    for r, t in (("exists", "the function exists in the C interface"), ("arity", "as many arguments as the C declaration"),
                 ("argtypes", "declared argument types match the C declaration"), ("argument kind", "text is passed encoded, callbacks as C callback objects"),
                 ("argument order", "parameters reach the C function in the declared order"), ("result type", "declared result type matches"),
                 ("error result", "a result that signals an error raises"), ("success result", "a successful result is returned"),
                 ("callback lifetime", "a callback stays referenced while C may call it"), ("constants", "constants agree with the header")):
        ctx.rule(r, t)
    mods = []
    pk = REPO + "/pygeodiff"
    if not os.path.isdir(pk):
        raise Undecided("no Python module")
    for f in sorted(os.listdir(pk)):
        if f.endswith(".py"):
            try:
                mods.append(("pygeodiff/" + f, ast.parse(open(pk + "/" + f, encoding="utf-8").read())))
            except SyntaxError as x:
                raise Undecided("%s does not parse: %s" % (f, x))
    it = Interp(ctx, mods)
    for cn, (mod, node, ms) in it.classes.items():
        for mn, m in ms.items():
            if mn.startswith("__") or mn.startswith("_") or any(getattr(d, "id", "") in ("staticmethod", "classmethod") for d in m.decorator_list):
                continue
            ctx.cover("%s.%s" % (cn, mn))
            it.analyse(cn, m)
    ctx.need("foreign calls in the Python module", ctx.counts.get("foreign calls"))
    # constants that have to agree with the C header
    import re
    hdr = open(REPO + "/geodiff/src/geodiff.h", encoding="utf-8").read()
    macros = {m.group(1): int(m.group(2)) for m in re.finditer(r"#define\s+GEODIFF_(\w+)\s+(\d+)", hdr)}
    pairs = {"SUCCESS": "SUCCESS", "ERROR": "ERROR", "CONFLICT": "CONFICTS", "UNSUPPORTED_CHANGE": "UNSUPPORTED_CHANGE"}
    for a, b in pairs.items():
        if a in it.consts and b in macros:
            ctx.check(it.consts[a].a[0] == macros[b], "constants", "pygeodiff", "%s is %r, the header says %d" % (a, it.consts[a].a[0], macros[b]), key="const|" + a, what=a)
    lv = {}
    for e in ctx.p.enums.values():
        if e["n"] == "GEODIFF_LoggerLevel":
            lv = {v["n"]: v["v"] for v in e["vals"]}
    for cn, (mod, node, ms) in it.classes.items():
        for n in node.body:
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in lv:
                try:
                    v = ast.literal_eval(n.value)
                except Exception:
                    continue
                ctx.check(v == lv[n.targets[0].id], "constants", mod, "%s is %r, the header says %d" % (n.targets[0].id, v, lv[n.targets[0].id]), key="const|" + n.targets[0].id, what=n.targets[0].id)
