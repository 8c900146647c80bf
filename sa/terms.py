"""Hash-consed provenance terms and the simplifying constructors over them.

A term names where a value came from: constants, symbols (parameters, results of calls outside
the project) and applications of operators to terms.  Two terms are equal exactly when they are
the same Python object.
"""


class T:
    __slots__ = ("op", "a", "h", "n", "syms_", "subs_")

    def __repr__(self):
        return show(self)


_tab = {}


def mk(op, *a):
    key = (op, a)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.n = len(_tab)
        t.syms_ = None
        t.subs_ = None
        _tab[key] = t
    return t


def C(v):
    if v is True:
        v = 1
    elif v is False:
        v = 0
    # key on the type as well: 1 == 1.0 in Python
    return mk("c", type(v).__name__, v)


def is_c(t):
    return t.op == "c"


def cv(t):
    return t.a[1]


NULL = C(0)
ZERO = C(0)
ONE = C(1)
TRUE = C(1)
FALSE = C(0)
EMPTY = C("")


def S(*name):
    return mk("s", *name)


def loc(root, *path):
    return mk("loc", root, path)


def is_loc(t):
    return t.op == "loc"


def sub(l, elem):
    return mk("loc", l.a[0], l.a[1] + (elem,))


def show(t, d=0):
    if t is None:
        return "None"
    if not isinstance(t, T):
        return str(t)
    if d > 8:
        return "..."
    if t.op == "c":
        return repr(t.a[1])
    if t.op == "s":
        return "$" + ".".join(show(x, d + 1) if isinstance(x, T) else short(x) for x in t.a)
    if t.op == "loc":
        return "&" + short(t.a[0]) + "".join("." + (x if isinstance(x, str) else "[" + show(x[1], d + 1) + "]") for x in t.a[1])
    if t.op == "fld":
        return show(t.a[0], d + 1) + "." + t.a[1]
    if t.op == "at":
        return show(t.a[0], d + 1) + "[" + show(t.a[1], d + 1) + "]"
    if t.op == "rec":
        return "{" + ("" if t.a[0] is None else show(t.a[0], d + 1) + "|") + ", ".join(k + "=" + show(v, d + 1) for k, v in t.a[1]) + "}"
    if t.op == "vec":
        return "[" + ", ".join(show(x, d + 1) for x in t.a) + "]"
    if t.op == "list":
        f = lambda al: "|".join(sorted("+".join(show(y, d + 1) for y in x) for _, x in al))
        return "list(" + f(t.a[1]) + " ; " + f(t.a[2]) + ")"
    return t.op + "(" + ", ".join(show(x, d + 1) if isinstance(x, T) else short(x) for x in t.a) + ")"


def short(x):
    if isinstance(x, tuple):
        return "/".join(short(y) for y in x if y is not None and y != ())
    if isinstance(x, T):
        return show(x)
    return str(x)


def _kids(x):
    if isinstance(x, T):
        yield x
    elif isinstance(x, (tuple, frozenset)):
        for y in x:
            yield from _kids(y)


def subterms(t):
    """all subterms, as a frozenset (memoised)"""
    if t.subs_ is None:
        r = {t}
        for k in _kids(t.a):
            r |= subterms(k)
        t.subs_ = frozenset(r)
    return t.subs_


def leaves(t):
    if t.syms_ is None:
        if t.op == "s":
            t.syms_ = frozenset([t])
        else:
            r = set()
            for k in _kids(t.a):
                r |= leaves(k)
            t.syms_ = frozenset(r)
    return t.syms_


def subst(t, m, memo=None):
    """replace subterms by the mapping m"""
    if memo is None:
        memo = {}

    def go(x):
        if isinstance(x, T):
            if x in m:
                return m[x]
            r = memo.get(x)
            if r is None:
                na = go(x.a)
                r = x if na is x.a else rebuild(x.op, na)
                memo[x] = r
            return r
        if isinstance(x, tuple):
            ys = [go(y) for y in x]
            for y, z in zip(x, ys):
                if y is not z:
                    return tuple(ys)
            return x
        if isinstance(x, frozenset):
            ys = frozenset(go(y) for y in x)
            return x if ys == x else ys
        return x
    return go(t)


def rebuild(op, a):
    if op in ("+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "==", "<"):
        return binop(op, a[0], a[1])
    if op == "not":
        return neg(a[0])
    if op == "concat":
        return concat(*a)
    if op == "at":
        return at(a[0], a[1])
    if op == "size":
        return size(a[0])
    return mk(op, *a)


# ---- records ---------------------------------------------------------------------------------

def rec(base, fields):
    return mk("rec", base, tuple(sorted(fields.items())))


def fget(v, f):
    if v is None:
        return None
    if v.op == "rec":
        for k, x in v.a[1]:
            if k == f:
                return x
        if v.a[0] is None:
            return mk("uninit", f)
        return fget(v.a[0], f)
    if v.op == "ite":
        return ite(v.a[0], fget(v.a[1], f), fget(v.a[2], f))
    return mk("fld", v, f)


def fset(v, f, x):
    if v is not None and v.op == "rec":
        d = dict(v.a[1])
        d[f] = x
        return mk("rec", v.a[0], tuple(sorted(d.items())))
    return mk("rec", v, ((f, x),))


# ---- vectors / maps --------------------------------------------------------------------------

EMPTYVEC = mk("vec")


def distinct(a, b):
    """provably different constants"""
    return is_c(a) and is_c(b) and a is not b


def at(v, i):
    if v.op == "upd":
        if v.a[1] is i:
            return v.a[2]
        if distinct(v.a[1], i) or offset_distinct(v.a[1], i):
            return at(v.a[0], i)
        return mk("at", v, i)
    if v.op == "vec" and is_c(i) and isinstance(cv(i), int):
        k = cv(i)
        if k >= 0 and all(x.op not in ("each", "spread") for x in v.a[:k + 1]) and k < len(v.a):
            return v.a[k]
    if v.op == "filled":
        return v.a[0]
    if v.op == "vec" and len(v.a) == 1 and v.a[0].op == "each":
        return fromalts(v.a[0].a[0], v.a[0].a[1], v.a[0].a[2], i, mk("novalue"))
    if v.op == "upds":
        b = at(v.a[0], i)
        own = all(isinstance(x, tuple) and x[0] is v.a[4] for _, x in v.a[2])
        if own and i.op == "s" and i.a[0] in ("lv", "ri") and i.a[1] == v.a[1]:
            return b        # the element of the iteration in progress has not been visited yet
        if own:
            return fromalts(v.a[1], frozenset((g, x[1]) for g, x in v.a[2]), v.a[3], i, b)
        return mk("at", v, i)
    if v.op == "emptymap":
        return mk("absent", i)
    return mk("at", v, i)


def fromalts(site, alts, exact, i, base):
    """value in iteration i: one of the guarded alternatives, or base"""
    m = {}
    for g, x in alts:
        for y in leaves(x):
            if y.op == "s" and y.a[0] == "bv" and y.a[1] == site:
                m[y] = i
        for t, _ in g:
            for y in leaves(t):
                if y.op == "s" and y.a[0] == "bv" and y.a[1] == site:
                    m[y] = i
    if m:
        alts = frozenset((frozenset((subst(t, m), f) for t, f in g), subst(x, m)) for g, x in alts)
    vs = set(x for _, x in alts)
    if exact and len(vs) == 1:
        return next(iter(vs))
    if not exact:
        if vs == {base}:
            return base
        alts = alts | {(frozenset(), base)}
    return mk("cases", alts)


def upd(v, i, x):
    if v.op == "upd" and v.a[1] is i:
        return upd(v.a[0], i, x)
    if v.op == "vec" and is_c(i) and isinstance(cv(i), int):
        k = cv(i)
        if 0 <= k < len(v.a) and all(y.op not in ("each", "spread") for y in v.a[:k + 1]):
            return mk("vec", *(v.a[:k] + (x,) + v.a[k + 1:]))
    if v.op != "upd" and at(v, i) is x:
        return v
    return mk("upd", v, i, x)


def push(v, x):
    if v.op == "vec":
        return mk("vec", *(v.a + (x,)))
    return mk("vec", mk("spread", v), x)


def size(v):
    if v.op == "upd":
        return size(v.a[0])
    if v.op == "upds":
        return size(v.a[0])
    if v.op == "resized":
        return v.a[1]
    if v.op == "vec":
        if all(x.op not in ("each", "spread") for x in v.a):
            return C(len(v.a))
        if v.a[0].op == "spread" and all(x.op not in ("each", "spread") for x in v.a[1:]):
            return add(size(v.a[0].a[0]), C(len(v.a) - 1))
    if v.op == "filled":
        return v.a[1]
    if v.op == "c" and isinstance(cv(v), str):
        return C(len(cv(v)))
    return mk("size", v)


# ---- strings ---------------------------------------------------------------------------------

def concat(*parts):
    out = []
    for p in parts:
        ps = p.a if p.op == "concat" else (p,)
        for q in ps:
            if q.op == "c":
                v = cv(q)
                if not isinstance(v, str):
                    v = chr(v & 255) if isinstance(v, int) else str(v)
                    q = C(v)
                if v == "":
                    continue
                if out and out[-1].op == "c":
                    out[-1] = C(cv(out[-1]) + v)
                    continue
            out.append(q)
    if not out:
        return EMPTY
    if len(out) == 1:
        return out[0]
    return mk("concat", *out)


def parts(t):
    return t.a if t.op == "concat" else ((t,) if t is not EMPTY else ())


# ---- arithmetic / logic ----------------------------------------------------------------------

def lin(t):
    """linear form: (dict term -> coeff, const)"""
    if t.op == "c" and isinstance(cv(t), int):
        return {}, cv(t)
    if t.op == "+":
        d, k = lin(t.a[0])
        e, m = lin(t.a[1])
        r = dict(d)
        for x, c in e.items():
            r[x] = r.get(x, 0) + c
            if not r[x]:
                del r[x]
        return r, k + m
    if t.op == "-":
        d, k = lin(t.a[0])
        e, m = lin(t.a[1])
        r = dict(d)
        for x, c in e.items():
            r[x] = r.get(x, 0) - c
            if not r[x]:
                del r[x]
        return r, k - m
    if t.op == "*":
        for x, y in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
            if x.op == "c" and isinstance(cv(x), int):
                d, k = lin(y)
                c = cv(x)
                if c == 0:
                    return {}, 0
                return {z: w * c for z, w in d.items()}, k * c
    return {t: 1}, 0


def unlin(d, k):
    t = None
    for x in sorted(d, key=lambda z: z.n):
        c = d[x]
        y = x if c == 1 else mk("*", C(c), x)
        t = y if t is None else mk("+", t, y)
    if t is None:
        return C(k)
    if k:
        t = mk("+", t, C(k))
    return t


def add(a, b):
    return binop("+", a, b)


def offset_distinct(a, b):
    d, k = lin(a)
    e, m = lin(b)
    return d == e and k != m


def binop(op, a, b):
    if op in (">", ">=", "<=", "!="):
        if op == ">":
            return binop("<", b, a)
        if op == ">=":
            return neg(binop("<", a, b))
        if op == "<=":
            return neg(binop("<", b, a))
        return neg(binop("==", a, b))
    ca, cb = a.op == "c", b.op == "c"
    if ca and cb:
        x, y = cv(a), cv(b)
        num = isinstance(x, (int, float)) and isinstance(y, (int, float))
        try:
            if op == "==":
                return C(x == y) if (num or type(x) == type(y)) else FALSE
            if op == "<" and (num or isinstance(x, str) and isinstance(y, str)):
                return C(x < y)
            if num:
                if op == "+":
                    return C(x + y)
                if op == "-":
                    return C(x - y)
                if op == "*":
                    return C(x * y)
                if op == "/" and y:
                    if isinstance(x, int) and isinstance(y, int):
                        q = abs(x) // abs(y)
                        return C(q if (x < 0) == (y < 0) else -q)
                    return C(x / y)
                if op == "%" and y and isinstance(x, int):
                    r = abs(x) % abs(y)
                    return C(-r if x < 0 else r)
                if isinstance(x, int) and isinstance(y, int):
                    if op == "&":
                        return C(x & y)
                    if op == "|":
                        return C(x | y)
                    if op == "^":
                        return C(x ^ y)
                    if op == "<<" and 0 <= y < 64:
                        return C(x << y)
                    if op == ">>" and 0 <= y < 64:
                        return C(x >> y)
        except Exception:
            pass
    if op in ("+", "-", "*"):
        if op == "*" and not (ca or cb):
            if b.n < a.n:
                a, b = b, a
            return mk("*", a, b)
        if (ca and not isinstance(cv(a), int)) or (cb and not isinstance(cv(b), int)):
            return mk(op, a, b)
        d, k = lin(mk(op, a, b))
        return unlin(d, k)
    if op == "==":
        if a is b:
            return TRUE
        if a.op == "cond01" and cb:
            return a.a[0] if cv(b) == 1 else (neg(a.a[0]) if cv(b) == 0 else FALSE)
        if isbool(a) and cb and cv(b) == 0:
            return neg(a)
        if isbool(a) and cb and cv(b) == 1:
            return a
        if isbool(b) and ca:
            return binop("==", b, a)
        if nonnull(a) and b is ZERO or nonnull(b) and a is ZERO:
            return FALSE
        if a.op == "loc" and b.op == "loc":
            ra, rb = a.a[0], b.a[0]
            if ra != rb and ra[0] in ("o", "v", "t", "g") and rb[0] in ("o", "v", "t", "g"):
                return FALSE
        # strings with a constant prefix / non-empty parts
        if a is EMPTY or b is EMPTY:
            o = b if a is EMPTY else a
            if o.op == "concat" and any(p.op == "c" for p in o.a):
                return FALSE
        if not (ca or cb):
            d, k = lin(a)
            e, m = lin(b)
            if d == e and k != m:
                return FALSE
        if cb and a.op == "+":   # x+k == c  ->  x == c-k
            d, k = lin(a)
            if len(d) == 1 and isinstance(cv(b), int):
                (x, c), = d.items()
                if c == 1:
                    return binop("==", x, C(cv(b) - k))
        if ca or (not cb and b.n < a.n):
            a, b = b, a
        return mk("==", a, b)
    if op == "<":
        if a is b:
            return FALSE
        if not (ca and cb):
            try:
                d, k = lin(a)
                e, m = lin(b)
                if d == e:
                    return C(k < m)
                if not (ca and isinstance(cv(a), str)) and not (cb and isinstance(cv(b), str)):
                    # move constants: x+k < c
                    if cb and len(d) == 1 and list(d.values())[0] == 1 and k:
                        return mk("<", list(d)[0], C(m - k))
                    if ca and len(e) == 1 and list(e.values())[0] == 1 and m:
                        return mk("<", C(k - m), list(e)[0])
            except Exception:
                pass
        return mk("<", a, b)
    if op == "&" and (a is ZERO or b is ZERO):
        return ZERO
    if op in ("|", "^") and b is ZERO:
        return a
    if op in ("|", "^") and a is ZERO:
        return b
    if op in ("<<", ">>") and b is ZERO:
        return a
    if op in ("&", "|", "^"):
        if ca:
            a, b = b, a
        if op == "&" and b.op == "c" and a.op == "&" and a.a[1].op == "c":
            return binop("&", a.a[0], C(cv(b) & cv(a.a[1])))
    return mk(op, a, b)


BOOLOPS = {"==", "<", "not", "and", "or", "startsWith", "contains", "has", "isnull"}


def isbool(t):
    return t.op in BOOLOPS


def nonnull(t):
    return t.op in ("loc", "concat", "lambda", "fnptr", "tostr") or (t.op == "c" and isinstance(cv(t), str))


def neg(t):
    if t.op == "c":
        return C(not cv(t))
    if t.op == "not":
        return t.a[0]
    if isbool(t):
        return mk("not", t)
    return mk("==", t, ZERO) if not nonnull(t) else FALSE


def ite(c, a, b):
    if c.op == "c":
        return a if cv(c) else b
    if a is b:
        return a
    return mk("ite", c, a, b)
