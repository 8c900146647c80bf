"""Forward abstract interpreter over the resolved AST.

Domain: a store from abstract locations to provenance terms, a finite set of facts about terms
(constant sets / intervals / truth of predicates) and the finite state of a monitor (typestate).
States with equal contents are merged; loops are iterated to a fixpoint with widening; calls to
project functions are followed; functions outside the project are given by models (models.py).
Exceptions, destructors of locals and of temporaries are part of the flow.
"""
import sys
import time
from .terms import *

sys.setrecursionlimit(20000)

INF = float("inf")


class AnalysisError(Exception):
    """The analysis cannot give an answer (unsupported construct, budget exceeded)."""


STD_EXC = {
    "std::exception": None,
    "GeoDiffException": "std::exception",
    "std::logic_error": "std::exception",
    "std::runtime_error": "std::exception",
    "std::out_of_range": "std::logic_error",
    "std::invalid_argument": "std::logic_error",
    "std::length_error": "std::logic_error",
    "std::range_error": "std::runtime_error",
    "std::bad_alloc": "std::exception",
}


class State:
    __slots__ = ("store", "facts", "cleanup", "mon", "trace")

    def __init__(self):
        self.store = {}
        self.facts = {}
        self.cleanup = ()
        self.mon = {}
        self.trace = None

    def clone(self):
        s = State()
        s.store = dict(self.store)
        s.facts = dict(self.facts)
        s.cleanup = self.cleanup
        s.mon = dict(self.mon)
        s.trace = self.trace
        return s

    def key(self):
        return (frozenset(self.store.items()), frozenset(self.facts.items()), self.cleanup, frozenset(self.mon.items()))

    def note(self, where, msg):
        if self.trace and self.trace[1] == (where, msg):
            return
        self.trace = (self.trace, (where, msg))

    def path(self, n=60):
        r = []
        t = self.trace
        while t and len(r) < n:
            r.append("%s: %s" % t[1])
            t = t[0]
        return r[::-1]


class Frame:
    __slots__ = ("fn", "depth", "site", "refcaps", "mark", "this")

    def __init__(self, fn, depth, site):
        self.fn = fn
        self.depth = depth
        self.site = site
        self.refcaps = set()


class Hooks:
    """Monitor interface; checks override what they need."""

    def pre_call(self, en, st, name, this, args, e):
        return None

    def post_call(self, en, st, name, this, args, ret, e):
        pass

    def on_store(self, en, st, l, v, e):
        pass

    def on_throw(self, en, st, exc, e):
        pass

    def on_terminate(self, en, st, why, e):
        pass

    def on_branch(self, en, st, t, val, e):
        pass

    def on_iter_end(self, en, st, site, idx, e):
        pass

    def on_deref(self, en, st, l, e):
        pass

    def on_dtor(self, en, st, l, tname, e):
        pass


class Engine:
    def __init__(self, prog, models, hooks=None, opaque=None, budget=3000000, soft=48, hard=160, limit=300):
        self.p = prog
        self.models = models
        self.h = hooks or Hooks()
        self.opaque = opaque or (lambda f: False)
        self.frames = []
        self.tc = []
        self.steps = 0
        self.budget = budget
        self.soft = soft
        self.hard = hard
        self.termtype = {}
        self.covered = set()
        self.calls = set()
        self.unmodelled = {}
        self.maxstates = 0
        self.merged = 0
        self.loopdepth = 0
        self.deadline = time.time() + limit
        self.looplimit = 40
        self.loopiters = 60
        self.forced = set()
        self.addrtaken = {}

    # ---- small helpers -----------------------------------------------------------------------
    def ty(self, n):
        return self.p.types.get(n, {})

    def where(self, e):
        f = self.frames[-1].fn if self.frames else None
        return "%s:%s" % (f["file"] if f else "?", e.get("l", 0) if e else 0)

    def site(self, e):
        return self.frames[-1].site + (e.get("x") or e.get("l") or 0,)

    def fresh(self, st, name, e, extra=()):
        """the result of evaluating this site now; earlier results of the same site become 'old'"""
        base = (name, self.site(e)) + tuple(extra)
        s = S(*base)
        self.retire(st, s, S("old", *base))
        return s

    def retire(self, st, s, old):
        hit = False
        for v in st.store.values():
            if s in leaves(v):
                hit = True
                break
        if not hit:
            for v in st.mon.values():
                if s in self.monleaves(v):
                    hit = True
                    break
        if hit:
            m = {s: old}
            memo = {}
            for k in list(st.store):
                v = st.store[k]
                if s in leaves(v):
                    st.store[k] = subst(v, m, memo)
                if k[0] == "x" and s in leaves(k[1]):
                    v2 = st.store.pop(k)
                    st.store[("x", subst(k[1], m, memo))] = v2
            for k in list(st.mon):
                st.mon[k] = self.monsubst(st.mon[k], m, memo)
            st.cleanup = tuple((subst(l, m, memo) if isinstance(l, T) and s in leaves(l) else l, t) for l, t in st.cleanup)
        for r in [k for k in st.store if k[0] == "x" and s in leaves(k[1])]:
            del st.store[r]
        for t in [t for t in st.facts if s in leaves(t)]:
            del st.facts[t]

    def monleaves(self, v):
        if isinstance(v, T):
            return leaves(v)
        if isinstance(v, (tuple, frozenset)):
            r = frozenset()
            for x in v:
                r |= self.monleaves(x)
            return r
        return frozenset()

    def monsubst(self, v, m, memo):
        if isinstance(v, T):
            return subst(v, m, memo)
        if isinstance(v, tuple):
            return tuple(self.monsubst(x, m, memo) for x in v)
        if isinstance(v, frozenset):
            return frozenset(self.monsubst(x, m, memo) for x in v)
        return v

    # ---- store -------------------------------------------------------------------------------
    def rootval(self, st, root):
        v = st.store.get(root)
        if v is not None:
            return v
        k = root[0]
        if k == "x":
            return mk("deref", root[1])
        if k == "g":
            g = self.p.globals.get(root[1])
            if g and g.get("const") and "init" in g:
                v = self.constglobal(g)
                if v is not None:
                    return v
            return S("glob", root[1])
        return mk("uninit", *[x for x in root if not isinstance(x, T)])

    def constglobal(self, g):
        if "_cv" not in g:
            g["_cv"] = None
            i = g["init"]
            try:
                rs = self.ev(i, State())
                if len(rs) == 1 and not leaves(rs[0][1]):
                    g["_cv"] = rs[0][1]
            except Exception:
                pass
        return g["_cv"]

    def load(self, st, l):
        if not is_loc(l):
            # a value that is not addressable (models may return values for const references)
            return l
        v = self.rootval(st, l.a[0])
        for p in l.a[1]:
            if isinstance(p, str):
                v = fget(v, p)
            elif p[0] == "p":
                v = rec(None, {"first": p[1], "second": at(v, p[1])})
            else:
                v = at(v, p[1])
        return v

    def rowof(self, st, h):
        return st.store.get(("row", h), ZERO)

    def save(self, st, l, x, e=None, quiet=False):
        if not is_loc(l):
            return
        if not quiet:
            self.h.on_store(self, st, l, x, e)
        root, path = l.a

        def setp(v, i):
            if i == len(path):
                return x
            p = path[i]
            if isinstance(p, str):
                return fset(v, p, setp(fget(v, p), i + 1))
            return upd(v, p[1], setp(at(v, p[1]), i + 1))
        if path:
            st.store[root] = setp(self.rootval(st, root), 0)
        else:
            st.store[root] = x

    def deref(self, st, p, e=None):
        if is_loc(p):
            return p
        if p.op == "ptr+":     # pointer arithmetic on a modelled pointer
            return mk("loc", ("x", p), ())
        return mk("loc", ("x", p), ())

    # ---- facts -------------------------------------------------------------------------------
    def tyrange(self, t):
        n = self.termtype.get(t)
        if n is None:
            if t.op in ("size", "strlen", "count"):
                return 0, INF
            if isbool(t):
                return 0, 1
            if t.op == "trunc":
                b, s = t.a[0], t.a[1]
                return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)
            if t.op == "&" and is_c(t.a[1]) and isinstance(cv(t.a[1]), int) and cv(t.a[1]) >= 0:
                return 0, cv(t.a[1])
            return -INF, INF
        d = self.ty(n)
        k = d.get("k")
        if k == "bool":
            return 0, 1
        if k in ("int", "enum") and "bits" in d:
            b = d["bits"]
            return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if d.get("signed") else (0, (1 << b) - 1)
        return -INF, INF

    def iv(self, st, t):
        if is_c(t):
            v = cv(t)
            return (v, v) if isinstance(v, (int, float)) else (-INF, INF)
        lo, hi = self.tyrange(t)
        f = st.facts.get(t)
        if f:
            if f[0] == "i":
                lo, hi = max(lo, f[1]), min(hi, f[2])
            elif f[0] == "d":
                c = [x for x in f[1] if isinstance(x, (int, float))]
                if c and len(c) == len(f[1]):
                    lo, hi = max(lo, min(c)), min(hi, max(c))
        if t.op in ("+", "*") or (t.op == "-"):
            d, k = lin(t)
            if not (len(d) == 1 and t in d):
                l2 = h2 = k
                for x, c in d.items():
                    a, b = self.iv(st, x)
                    if c > 0:
                        l2, h2 = l2 + a * c, h2 + b * c
                    else:
                        l2, h2 = l2 + b * c, h2 + a * c
                lo, hi = max(lo, l2), min(hi, h2)
        elif t.op == "ite":
            a, b = self.iv(st, t.a[1])
            c, d = self.iv(st, t.a[2])
            lo, hi = max(lo, min(a, c)), min(hi, max(b, d))
        elif t.op == "/" and is_c(t.a[1]) and isinstance(cv(t.a[1]), int) and cv(t.a[1]) > 0:
            a, b = self.iv(st, t.a[0])
            if a >= 0:
                lo = max(lo, a // cv(t.a[1]) if a != INF else INF)
                hi = min(hi, b // cv(t.a[1]) if b != INF else INF)
        elif t.op == "%" and is_c(t.a[1]) and isinstance(cv(t.a[1]), int) and cv(t.a[1]) > 0:
            a, b = self.iv(st, t.a[0])
            if a >= 0:
                lo, hi = max(lo, 0), min(hi, cv(t.a[1]) - 1)
        elif t.op == ">>" and is_c(t.a[1]):
            a, b = self.iv(st, t.a[0])
            if a >= 0 and b != INF:
                lo, hi = max(lo, a >> cv(t.a[1])), min(hi, b >> cv(t.a[1]))
        return lo, hi

    def dom(self, st, t):
        f = st.facts.get(t)
        if f and f[0] == "d":
            return f[1]
        return None

    def truth(self, st, t):
        """True / False / None"""
        if is_c(t):
            return bool(cv(t))
        if t.op == "not":
            r = self.truth(st, t.a[0])
            return None if r is None else not r
        if t.op == "ite":
            a, b = self.truth(st, t.a[1]), self.truth(st, t.a[2])
            if a is not None and a == b:
                return a
            c = self.truth(st, t.a[0])
            if c is not None:
                return a if c else b
            return None
        if t.op == "and":
            a, b = self.truth(st, t.a[0]), self.truth(st, t.a[1])
            if a is False or b is False:
                return False
            return True if a and b else None
        f = st.facts.get(t)
        if isbool(t) and f:
            if f[0] == "d" and len(f[1]) == 1:
                return bool(next(iter(f[1])))
        if t.op == "==":
            a, b = t.a
            if is_c(b):
                v = cv(b)
                fa = st.facts.get(a)
                if fa:
                    if fa[0] == "d":
                        if v not in fa[1]:
                            return False
                        if len(fa[1]) == 1:
                            return True
                    elif fa[0] == "i":
                        if v in fa[3]:
                            return False
                if isinstance(v, (int, float)):
                    lo, hi = self.iv(st, a)
                    if v < lo or v > hi:
                        return False
                    if lo == hi == v:
                        return True
                r = self.linrel(st, a, b)
                if r is not None and r != 0:
                    return False
            else:
                if isbool(a) and isbool(b):
                    x, y = self.truth(st, a), self.truth(st, b)
                    if x is not None and y is not None:
                        return x == y
                da, db = self.constof(st, a), self.constof(st, b)
                if da is not None and db is not None:
                    return da == db
                l1, h1 = self.iv(st, a)
                l2, h2 = self.iv(st, b)
                if h1 < l2 or h2 < l1:
                    return False
                if self.truth0(st, mk("<", a, b)) or self.truth0(st, mk("<", b, a)):
                    return False
            return None
        if t.op == "<":
            a, b = t.a
            l1, h1 = self.iv(st, a)
            l2, h2 = self.iv(st, b)
            if h1 < l2:
                return True
            if l1 >= h2:
                return False
            if self.truth0(st, mk("<", b, a)):
                return False
            x, y = (a, b) if is_c(b) or (not is_c(a) and a.n < b.n) else (b, a)
            if not is_c(x) and self.truth0(st, mk("==", x, y)):
                return False
            return None
        if isbool(t):
            return None
        if nonnull(t):
            return True
        r = self.truth(st, binop("==", t, ZERO))
        return None if r is None else not r

    def truth0(self, st, t):
        f = st.facts.get(t)
        return bool(f and f[0] == "d" and f[1] == frozenset([1]))

    def linrel(self, st, a, b):
        return None

    def constof(self, st, t):
        if is_c(t):
            return cv(t)
        f = st.facts.get(t)
        if f and f[0] == "d" and len(f[1]) == 1:
            return next(iter(f[1]))
        lo, hi = self.iv(st, t)
        if lo == hi and lo not in (INF, -INF):
            return lo
        return None

    def setdom(self, st, t, vals):
        st.facts[t] = ("d", frozenset(vals))

    def assume(self, st, t, val):
        """refine st by t being val; False if contradictory"""
        r = self.truth(st, t)
        if r is not None:
            return r == val
        if t.op == "not":
            return self.assume(st, t.a[0], not val)
        if t.op == "and":
            if val:
                return self.assume(st, t.a[0], True) and self.assume(st, t.a[1], True)
            return True
        if t.op == "==":
            a, b = t.a
            if is_c(b):
                v = cv(b)
                f = st.facts.get(a)
                if val:
                    if isinstance(v, (int, float)):
                        st.facts[a] = ("d", frozenset([v]))
                        self.propagate_eq(st, a, v)
                    else:
                        st.facts[a] = ("d", frozenset([v]))
                else:
                    if f and f[0] == "d":
                        n = f[1] - {v}
                        if not n:
                            return False
                        st.facts[a] = ("d", n)
                    else:
                        lo, hi, ne = (f[1], f[2], f[3]) if f else (-INF, INF, frozenset())
                        tl, th = self.tyrange(a)
                        if tl == 0 and th == 1:
                            st.facts[a] = ("d", frozenset([1 - v]))
                        else:
                            if v == max(lo, tl):
                                lo = v + 1
                            elif v == min(hi, th):
                                hi = v - 1
                            else:
                                ne = ne | {v}
                            st.facts[a] = ("i", lo, hi, ne)
            else:
                st.facts[t] = ("d", frozenset([1 if val else 0]))
            return True
        if t.op == "<":
            a, b = t.a
            if is_c(b) and isinstance(cv(b), (int, float)):
                self.refine(st, a, -INF if val else cv(b), (cv(b) - 1 if isinstance(cv(b), int) else cv(b)) if val else INF)
                return self.iv(st, a)[0] <= self.iv(st, a)[1]
            if is_c(a) and isinstance(cv(a), (int, float)):
                self.refine(st, b, (cv(a) + 1 if isinstance(cv(a), int) else cv(a)) if val else -INF, INF if val else cv(a))
                return self.iv(st, b)[0] <= self.iv(st, b)[1]
            st.facts[t] = ("d", frozenset([1 if val else 0]))
            return True
        if isbool(t):
            st.facts[t] = ("d", frozenset([1 if val else 0]))
            return True
        if t.op == "ite":
            st.facts[mk("==", t, ZERO)] = ("d", frozenset([0 if val else 1]))
            return True
        return self.assume(st, binop("==", t, ZERO), not val)

    def propagate_eq(self, st, a, v):
        # x - y == 0 and similar linear facts are left to the clients
        pass

    def refine(self, st, t, lo, hi):
        f = st.facts.get(t)
        if f and f[0] == "d":
            n = frozenset(x for x in f[1] if lo <= x <= hi)
            st.facts[t] = ("d", n) if n else ("i", 1, 0, frozenset())
            return
        l, h, ne = (f[1], f[2], f[3]) if f else (-INF, INF, frozenset())
        l, h = max(l, lo), min(h, hi)
        while l in ne:
            l += 1
        while h in ne:
            h -= 1
        tl, th = self.tyrange(t)
        if max(l, tl) == min(h, th) and max(l, tl) not in (INF, -INF):
            st.facts[t] = ("d", frozenset([max(l, tl)]))
        else:
            st.facts[t] = ("i", l, h, ne)

    def split(self, st, t, e=None):
        """[(state, bool)] feasible truth values of t"""
        if t.op == "and":
            r = []
            for s, v in self.split(st, t.a[0], e):
                if v:
                    r += self.split(s, t.a[1], e)
                else:
                    r.append((s, False))
            return r
        if t.op == "or":
            r = []
            for s, v in self.split(st, t.a[0], e):
                if v:
                    r.append((s, True))
                else:
                    r += self.split(s, t.a[1], e)
            return r
        if t.op == "not":
            return [(s, not v) for s, v in self.split(st, t.a[0], e)]
        if t.op == "ite" and self.truth(st, t) is None:
            r = []
            for s, v in self.split(st, t.a[0], e):
                r += self.split(s, t.a[1] if v else t.a[2], e)
            return r
        if t.op == "==" and t.a[0].op == "ite" and self.truth(st, t) is None:
            r = []
            for s, v in self.split(st, t.a[0].a[0], e):
                r += self.split(s, binop("==", t.a[0].a[1] if v else t.a[0].a[2], t.a[1]), e)
            return r
        v = self.truth(st, t)
        if v is not None:
            return [(st, v)]
        out = []
        s2 = st.clone()
        if self.assume(st, t, True):
            out.append((st, True))
        if self.assume(s2, t, False):
            out.append((s2, False))
        for s, v in out:
            self.h.on_branch(self, s, t, v, e)
        return out

    # ---- state sets --------------------------------------------------------------------------
    def gc(self, st):
        live = set()
        for k, v in st.store.items():
            live |= leaves(v)
        for v in st.mon.values():
            live |= self.monleaves(v)
        # objects behind opaque pointers that nothing refers to any more
        for k in [k for k in st.store if k[0] == "x" and not (leaves(k[1]) <= live)]:
            del st.store[k]
        for t in [t for t in st.facts if not (leaves(t) <= live)]:
            del st.facts[t]

    def reduce(self, outs):
        """outs: list of (state, ctl); merge equal ones"""
        if len(outs) < 2:
            return outs
        seen = {}
        for s, c in outs:
            k = (s.key(), c)
            if k not in seen:
                seen[k] = (s, c)
        outs = list(seen.values())
        if len(outs) > self.soft:
            seen = {}
            for s, c in outs:
                self.gc(s)
                k = (s.key(), c)
                if k not in seen:
                    seen[k] = (s, c)
            outs = list(seen.values())
        if len(outs) > self.maxstates:
            self.maxstates = len(outs)
        if len(outs) > self.hard:
            outs = self.join_all(outs)
        return outs

    def join_all(self, outs):
        groups = {}
        for s, c in outs:
            groups.setdefault((frozenset(s.mon.items()), s.cleanup, c, self.joinkey(s)), []).append(s)
        r = []
        for k, g in groups.items():
            if len(g) > 1:
                self.merged += len(g) - 1
            s = g[0]
            for o in g[1:]:
                s = self.join(s, o)
            r.append((s, k[2]))
        return r

    def joinkey(self, s):
        # keep apart states that differ in null-ness / small constants of scalar roots
        return frozenset((r, v) for r, v in s.store.items() if v.op == "c" and cv(v) in (0, 1))

    def join(self, a, b):
        s = State()
        s.cleanup = a.cleanup
        s.mon = dict(a.mon)
        s.trace = a.trace
        for r in set(a.store) | set(b.store):
            x, y = self.rootval(a, r), self.rootval(b, r)
            s.store[r] = self.joinval(x, y, (r,))
        for t, f in a.facts.items():
            g = b.facts.get(t)
            if g is None:
                continue
            if f == g:
                s.facts[t] = f
            else:
                j = self.joininfo(f, g)
                if j:
                    s.facts[t] = j
        return s

    def joininfo(self, f, g):
        if f[0] == "d" and g[0] == "d":
            if len(f[1] | g[1]) <= 8:
                return ("d", f[1] | g[1])
        def rng(x):
            if x[0] == "i":
                return x[1], x[2], x[3]
            c = [v for v in x[1] if isinstance(v, (int, float))]
            if len(c) != len(x[1]):
                return None
            return min(c), max(c), None
        a, b = rng(f), rng(g)
        if not a or not b:
            return None
        lo, hi = min(a[0], b[0]), max(a[1], b[1])
        ne = frozenset()
        if lo == -INF and hi == INF and not ne:
            return None
        return ("i", lo, hi, ne)

    def joinval(self, x, y, path):
        if x is y:
            return x
        if x.op == "rec" and y.op == "rec":
            ks = set(k for k, _ in x.a[1]) | set(k for k, _ in y.a[1])
            if x.a[0] is y.a[0]:
                return rec(x.a[0], {k: self.joinval(fget(x, k), fget(y, k), path + (k,)) for k in ks})
        return S("join", path, x.n if False else 0)

    # ---- expressions -------------------------------------------------------------------------
    def ev(self, e, st):
        self.steps += 1
        if self.steps & 255 == 0 and time.time() > self.deadline:
            raise AnalysisError("time limit exceeded in " + (self.frames[0].fn["n"] if self.frames else "?"))
        if self.steps > self.budget:
            raise AnalysisError("budget exceeded in " + (self.frames[0].fn["n"] if self.frames else "?"))
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            raise AnalysisError("unsupported expression %s at %s" % (e["k"], self.where(e)))
        return m(e, st)

    def rv(self, e, st):
        """value of e, loading glvalues"""
        return [(s, self.load(s, v) if e.get("gl") else v) for s, v in self.ev(e, st)]

    def evs(self, es, st):
        outs = [(st, [])]
        for e in es:
            n = []
            for s, vs in outs:
                for s2, v in self.ev(e, s):
                    n.append((s2, vs + [v]))
            outs = n
        return outs

    def e_int(self, e, st):
        return [(st, C(e["v"]))]

    def e_float(self, e, st):
        return [(st, C(float(e["v"])))]

    def e_str(self, e, st):
        v = C(e["v"])
        return [(st, v)]

    def e_null(self, e, st):
        return [(st, NULL)]

    def e_zero(self, e, st):
        return [(st, self.zeroval(e["t"]))]

    def zeroval(self, t):
        d = self.ty(t)
        if d.get("k") == "rec":
            return self.defaultval(t)
        if d.get("k") == "float":
            return C(0.0)
        if d.get("k") == "arr":
            return mk("filled", ZERO, C(d["n"]))
        return ZERO

    def e_this(self, e, st):
        return [(st, st.store[("this", self.frames[-1].depth)])]

    def varroot(self, e, st):
        if e.get("g"):
            return ("g", e["gn"])
        return ("v", self.frames[-1].depth, e["id"])

    def e_var(self, e, st):
        r = self.varroot(e, st)
        if e.get("ref") or e["id"] in self.frames[-1].refcaps:
            v = st.store.get(r)
            if v is None:
                v = loc(r)
            return [(st, v if is_loc(v) else v)]
        return [(st, loc(r))]

    def e_fn(self, e, st):
        return [(st, mk("fnptr", e["f"]))]

    def e_mem(self, e, st):
        out = []
        for s, b in self.ev(e["b"], st):
            if e.get("arrow"):
                self.h.on_deref(self, s, b, e)
                b = self.deref(s, b, e)
            if is_loc(b) and b.a[1] and b.a[1][-1][0] == "p" and not isinstance(b.a[1][-1], str):
                # a map element seen as a pair
                k = b.a[1][-1][1]
                if e["f"] == "first":
                    out.append((s, k))
                else:
                    out.append((s, mk("loc", b.a[0], b.a[1][:-1] + (("i", k),))))
                continue
            if is_loc(b):
                l = sub(b, e["f"])
                if e.get("ref"):
                    l2 = self.load(s, l)
                    l = l2 if is_loc(l2) else mk("loc", ("x", l2), ())
                out.append((s, l))
            else:
                out.append((s, fget(b, e["f"])))
        return out

    def e_idx(self, e, st):
        out = []
        for s, b in self.ev(e["b"], st):
            for s2, i in self.ev(e["i"], s):
                out.append((s2, self.elem(s2, b, i, e)))
        return out

    def elem(self, st, b, i, e=None):
        """location of b[i] for a pointer value b"""
        self.h.on_deref(self, st, mk("ptr+", b, i), e)
        if is_loc(b):
            path = b.a[1]
            if path and not isinstance(path[-1], str):
                base = mk("loc", b.a[0], path[:-1])
                return sub(base, ("i", binop("+", path[-1][1], i)))
            return sub(b, ("i", i))
        if b.op == "ptr+":
            return sub(mk("loc", ("x", b.a[0]), ()), ("i", binop("+", b.a[1], i)))
        if b.op == "c" and isinstance(cv(b), str) and is_c(i) and 0 <= cv(i) < len(cv(b)):
            return C(ord(cv(b)[cv(i)]))
        return sub(mk("loc", ("x", b), ()), ("i", i))

    def e_decay(self, e, st):
        out = []
        for s, v in self.ev(e["e"], st):
            if is_loc(v):
                out.append((s, sub(v, ("i", ZERO))))
            else:
                out.append((s, v))
        return out

    def e_ld(self, e, st):
        out = []
        for s, l in self.ev(e["e"], st):
            if is_loc(l):
                self.h.on_deref(self, s, l, e)
                v = self.load(s, l)
                if not is_c(v) and v.op != "loc":
                    d = self.ty(e["t"])
                    if d.get("k") in ("int", "bool", "enum") and v not in self.termtype and v.op in ("s", "fld", "at", "deref"):
                        self.termtype[v] = e["t"]
                    c = st.facts.get(v)
                out.append((s, v))
            else:
                out.append((s, l))
        return out

    def e_full(self, e, st):
        mark = len(st.cleanup)
        outs = []
        for s, v in self.ev(e["e"], st):
            for s2 in self.unwind(s, mark, e):
                self.droptemps(s2, v)
                outs.append((s2, v))
        return outs

    def droptemps(self, st, keep):
        pass

    def e_bt(self, e, st):
        return self.ev(e["e"], st)

    def e_temp(self, e, st):
        root = ("t", self.frames[-1].depth, e["x"])
        l = loc(root)
        outs = []
        for s in self.init(st, l, e["t"], e["e"]):
            d = self.ty(e["t"])
            if d.get("ntd") and not e.get("ext") and not e.get("static"):
                s.cleanup = s.cleanup + ((l, e["t"]),)
            elif d.get("ntd") and e.get("ext"):
                s.cleanup = s.cleanup + ((l, e["t"]),)
            outs.append((s, l))
        return outs

    def e_cast(self, e, st):
        ck = e["ck"]
        out = []
        for s, v in self.ev(e["e"], st):
            out.append((s, self.castval(s, ck, v, e["ft"], e["t"], e)))
        return out

    def castval(self, s, ck, v, ft, t, e):
        if ck == "IntegralCast":
            return self.icast(s, v, t, ft)
        if ck in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean"):
            return neg(binop("==", v, ZERO)) if not isbool(v) else v
        if ck == "IntegralToFloating":
            if is_c(v):
                return C(float(cv(v)))
            return mk("i2f", v)
        if ck == "FloatingToIntegral":
            if is_c(v):
                return C(int(cv(v)))
            return mk("f2i", self.ty(t).get("bits", 0), v)
        if ck == "FloatingCast":
            fb, tb = self.ty(ft).get("bits", 64), self.ty(t).get("bits", 64)
            return v if tb >= fb or is_c(v) else mk("fnarrow", v)
        if ck in ("BitCast", "LValueBitCast", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "NoOp", "ToVoid",
                  "PointerToIntegral", "IntegralToPointer", "Dynamic", "AddressSpaceConversion", "BuiltinFnToFnPtr"):
            if ck == "ToVoid":
                return ZERO
            return v
        if ck == "MemberPointerToBoolean":
            return TRUE
        return mk("cast", ck, v)

    def icast(self, s, v, t, ft=None):
        d = self.ty(t)
        k = d.get("k")
        if k == "bool":
            return v if isbool(v) else neg(binop("==", v, ZERO))
        if k not in ("int", "enum") or "bits" not in d:
            return v
        b, sg = d["bits"], d.get("signed")
        if is_c(v):
            x = cv(v)
            if isinstance(x, str):
                x = ord(x[0]) if x else 0
            x = int(x) & ((1 << b) - 1)
            if sg and x >> (b - 1):
                x -= 1 << b
            return C(x)
        lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if sg else (0, (1 << b) - 1)
        l, h = self.iv(s, v)
        if ft:
            fd = self.ty(ft)
            if fd.get("k") in ("int", "enum", "bool"):
                fb = fd.get("bits", 1)
                fl, fh = (-(1 << (fb - 1)), (1 << (fb - 1)) - 1) if fd.get("signed") else (0, (1 << fb) - 1)
                l, h = max(l, fl), min(h, fh)
        if lo <= l and h <= hi:
            return v
        if v.op in ("loopvar",) or self.isindex(v):
            # loop counters and container sizes stay far below the range of int (documented assumption)
            return v
        return mk("trunc", b, bool(sg), v)

    def isindex(self, v):
        if v.op == "size":
            return True
        if v.op == "s" and v.a and v.a[0] in ("lv", "ri", "bv"):
            return True
        if v.op in ("+", "*", "-"):
            return all(self.isindex(x) or is_c(x) for x in v.a)
        return False

    def e_un(self, e, st):
        op = e["op"]
        if op == "&":
            return self.ev(e["e"], st)
        if op == "*":
            out = []
            for s, v in self.ev(e["e"], st):
                self.h.on_deref(self, s, v, e)
                out.append((s, self.pderef(s, v)))
            return out
        if op in ("pre++", "pre--", "post++", "post--"):
            out = []
            for s, l in self.ev(e["e"], st):
                v = self.load(s, l)
                n = self.ptradd(v, ONE if "++" in op else C(-1), e["t"])
                n = self.wrap(s, n, e["t"])
                self.save(s, l, n, e)
                if e.get("gl"):
                    out.append((s, l))
                else:
                    out.append((s, v if op.startswith("post") else n))
            return out
        out = []
        for s, v in self.ev(e["e"], st):
            if op == "!":
                out.append((s, neg(v)))
            elif op == "-":
                out.append((s, binop("-", ZERO, v) if not (is_c(v) and isinstance(cv(v), float)) else C(-cv(v))))
            elif op == "~":
                if is_c(v):
                    out.append((s, self.icast(s, C(~cv(v)), e["t"])))
                else:
                    out.append((s, mk("~", v)))
            elif op == "+":
                out.append((s, v))
            else:
                out.append((s, mk(op, v)))
        return out

    def pderef(self, s, v):
        if is_loc(v):
            return v
        if v.op == "ptr+":
            return sub(mk("loc", ("x", v.a[0]), ()), ("i", v.a[1]))
        if v.op == "c" and isinstance(cv(v), str):
            return C(ord(cv(v)[0])) if cv(v) else ZERO
        return mk("loc", ("x", v), ())

    def ptradd(self, v, k, t):
        if self.ty(t).get("k") == "ptr":
            if is_loc(v):
                p = v.a[1]
                if p and not isinstance(p[-1], str):
                    return sub(mk("loc", v.a[0], p[:-1]), ("i", binop("+", p[-1][1], k)))
                return sub(v, ("i", k))
            if v.op == "ptr+":
                n = binop("+", v.a[1], k)
                return v.a[0] if n is ZERO else mk("ptr+", v.a[0], n)
            return mk("ptr+", v, k)
        return binop("+", v, k)

    def wrap(self, s, v, t):
        return v

    def e_bin(self, e, st):
        op = e["op"]
        if op in ("&&", "||"):
            return [(s, C(b)) for s, b in self.branch(e, st)]
        if op == ",":
            out = []
            for s, _ in self.ev(e["a"], st):
                out += self.ev(e["b"], s)
            return out
        out = []
        for s, a in self.ev(e["a"], st):
            for s2, b in self.ev(e["b"], s):
                out.append((s2, self.arith(s2, op, a, b, e)))
        return out

    def arith(self, s, op, a, b, e):
        ta = self.ty(e["a"]["t"]).get("k")
        tb = self.ty(e["b"]["t"]).get("k")
        if op in ("+", "-") and ta == "ptr" and tb != "ptr":
            return self.ptradd(a, b if op == "+" else binop("-", ZERO, b), e["a"]["t"])
        if op == "+" and tb == "ptr":
            return self.ptradd(b, a, e["b"]["t"])
        if op == "-" and ta == "ptr":
            return mk("ptrdiff", a, b)
        if op in (".*", "->*"):
            raise AnalysisError("member pointers")
        t = binop(op, a, b)
        if is_c(t) and isinstance(cv(t), int):
            t = self.icast(s, t, e["t"])
        return t

    def e_assign(self, e, st):
        op = e["op"]
        out = []
        for s, b in self.ev(e["b"], st):
            for s2, l in self.ev(e["a"], s):
                if op != "=":
                    v = self.load(s2, l)
                    o = op[:-1]
                    if self.ty(e["t"]).get("k") == "ptr":
                        b2 = self.ptradd(v, b if o == "+" else binop("-", ZERO, b), e["t"])
                    else:
                        v2 = v
                        b2 = self.icast(s2, binop(o, v2, b), e["t"]) if self.ty(e["t"]).get("k") == "int" else binop(o, v2, b)
                else:
                    b2 = b
                self.save(s2, l, b2, e)
                out.append((s2, l if e.get("gl") else b2))
        return out

    def e_cond(self, e, st):
        out = []
        for s, b in self.branch(e["c"], st):
            out += self.ev(e["a"] if b else e["b"], s)
        return out

    def branch(self, e, st):
        """[(state, bool)]"""
        k = e["k"]
        if k == "bin" and e["op"] == "&&":
            out = []
            for s, b in self.branch(e["a"], st):
                if b:
                    out += self.branch(e["b"], s)
                else:
                    out.append((s, False))
            return out
        if k == "bin" and e["op"] == "||":
            out = []
            for s, b in self.branch(e["a"], st):
                if b:
                    out.append((s, True))
                else:
                    out += self.branch(e["b"], s)
            return out
        if k == "un" and e["op"] == "!":
            return [(s, not b) for s, b in self.branch(e["e"], st)]
        if k == "full":
            mark = len(st.cleanup)
            outs = []
            for s, b in self.branch(e["e"], st):
                for s2 in self.unwind(s, mark, e):
                    outs.append((s2, b))
            return outs
        if k == "cast" and e["ck"] in ("IntegralToBoolean", "PointerToBoolean", "UserDefinedConversion"):
            out = []
            for s, v in self.ev(e["e"], st):
                out += self.split(s, v, e)
            return out
        out = []
        for s, v in self.rv(e, st):
            out += self.split(s, v, e)
        return out

    def e_throw(self, e, st):
        if "e" not in e:
            exc = st.store.get(("exc", 0))
            self.throw(st, exc.a[0] if exc is not None and exc.op == "exc" else "?", exc, e)
            return []
        for s, v in self.ev(e["e"], st):
            if e["e"].get("gl"):
                v = self.load(s, v)
            cls = self.ty(e["tt"]).get("cls") or e["tt"]
            self.throw(s, cls, v, e)
        return []

    def throw(self, st, cls, val, e):
        st.note(self.where(e), "throws " + cls)
        self.h.on_throw(self, st, cls, e)
        self.tc[-1].append((st, cls, val if val is not None else ZERO))

    def mthrow(self, st, cls, e, why=""):
        """a modelled function throws in a copy of this state"""
        s = st.clone()
        s.note(self.where(e), why or "call throws " + cls)
        self.h.on_throw(self, s, cls, e)
        self.tc[-1].append((s, cls, S("excmsg")))

    def e_ctor(self, e, st):
        root = ("t", self.frames[-1].depth if self.frames else 0, e["x"])
        l = loc(root)
        out = []
        for s in self.construct(st, l, e):
            v = s.store.pop(root, None)
            if v is None:
                v = mk("uninit", "tmp")
            out.append((s, v))
        return out

    def e_ilist(self, e, st):
        d = self.ty(e["t"])
        out = []
        if d.get("k") == "rec" and d.get("rec") in self.p.records:
            r = self.p.records[d["rec"]]
            outs = [(st, [])]
            for a in e["a"]:
                outs = [(s2, vs + [v]) for s, vs in outs for s2, v in self.rv(a, s)]
            for s, vs in outs:
                out.append((s, rec(None, {f["n"]: v for f, v in zip(r["fields"], vs)})))
            return out
        outs = [(st, [])]
        for a in e["a"]:
            outs = [(s2, vs + [v]) for s, vs in outs for s2, v in self.rv(a, s)]
        for s, vs in outs:
            if d.get("k") in ("arr", "rec"):
                if d.get("k") == "arr" and d["n"] > len(vs):
                    vs = vs + [self.zeroval(d["to"])] * (min(d["n"], 64) - len(vs))
                out.append((s, mk("vec", *vs)))
            elif len(vs) == 1:
                out.append((s, vs[0]))
            elif not vs:
                out.append((s, self.zeroval(e["t"])))
            else:
                out.append((s, mk("vec", *vs)))
        return out

    def e_stdil(self, e, st):
        return self.rv(e["e"], st)

    def e_arrinit(self, e, st):
        return [(st, S("arr", self.site(e)))]

    def e_opaque(self, e, st):
        return [(st, S("opq", self.site(e)))]

    def e_lambda(self, e, st):
        caps = []
        outs = [(st, [])]
        for c in e["caps"]:
            n = []
            for s, cs in outs:
                if c.get("this"):
                    n.append((s, cs + [("this", s.store[("this", self.frames[-1].depth)])]))
                else:
                    r = ("v", self.frames[-1].depth, c["id"])
                    if c.get("byref"):
                        v = s.store.get(r)
                        isref = v is not None and is_loc(v) and self.declref(c["id"])
                        n.append((s, cs + [(c["id"], v if isref else loc(r), True)]))
                    else:
                        for s2, v in self.rv(c["init"], s):
                            n.append((s2, cs + [(c["id"], v, False)]))
            outs = n
        return [(s, mk("lambda", e.get("f"), tuple(cs))) for s, cs in outs]

    def declref(self, i):
        f = self.frames[-1].fn
        for p in f["params"]:
            if p["id"] == i:
                return bool(p.get("ref"))
        return i in self.frames[-1].refcaps

    def e_vaarg(self, e, st):
        return [(st, self.fresh(st, "vaarg", e))]

    def e_typeid(self, e, st):
        return [(st, S("typeid"))]

    def e_new(self, e, st):
        site = self.site(e)
        out = []
        if e.get("arr"):
            l = self.alloc(st, site)
            st.store[l.a[0]] = mk("uninitarr")
            return [(st, l)]
        l = self.alloc(st, site)
        st.store[l.a[0]] = mk("uninit", "new")
        if "init" in e:
            for s in self.init(st, l, e["at"], e["init"]):
                out.append((s, l))
            return out
        st.store[l.a[0]] = self.defaultval(e["at"])
        return [(st, l)]

    def alloc(self, st, site):
        n = 0
        while ("o", site, n) in st.store and n < 3:
            n += 1
        return loc(("o", site, n))

    def e_delete(self, e, st):
        out = []
        for s, v in self.ev(e["e"], st):
            out += [(s2, ZERO) for s2 in self.delete(s, v, e["dt"], e)]
        return out

    def delete(self, s, v, tname, e):
        out = []
        for s2, b in self.split(s, binop("==", v, NULL), e):
            if b:
                out.append(s2)
                continue
            l = self.deref(s2, v)
            for s3 in self.destroy(s2, l, tname, e):
                if is_loc(v) and v.a[0][0] == "o" and not v.a[1]:
                    s3.store.pop(v.a[0], None)
                out.append(s3)
        return out

    def e_unknown(self, e, st):
        raise AnalysisError("unknown expression %s at %s" % (e.get("cn"), self.where(e)))

    def e_dep(self, e, st):
        raise AnalysisError("dependent expression at " + self.where(e))

    # ---- construction / destruction ----------------------------------------------------------
    def init(self, st, l, tname, e):
        """initialise location l (type tname) from expression e; [(state)]"""
        if e is None:
            self.save(st, l, self.defaultval(tname), None, quiet=True)
            return [st]
        k = e["k"]
        if k == "full":
            mark = len(st.cleanup)
            out = []
            for s in self.init(st, l, tname, e["e"]):
                out += self.unwind(s, mark, e)
            return out
        if k == "bt":
            return self.init(st, l, tname, e["e"])
        if k == "ctor" and self.ty(tname).get("k") == "rec":
            return self.construct(st, l, e)
        out = []
        for s, v in self.rv(e, st):
            self.save(s, l, v, e, quiet=True)
            out.append(s)
        return out

    def construct(self, st, l, e):
        name = e["n"]
        ck = e.get("ck")
        cls = self.ty(e["t"])
        fn = self.p.functions.get(e["f"])
        m = self.models.get(name)
        if m is None and cls.get("cls"):
            m = self.models.get(cls["cls"] + "::ctor")
        out = []
        if m is not None:
            for s, args in self.evs(e["a"], st):
                r = self.h.pre_call(self, s, name, l, args, e)
                if r is None:
                    r = m(self, s, l, args, e)
                for s2, v in r:
                    if v is not None:
                        self.save(s2, l, v, e, quiet=True)
                    self.h.post_call(self, s2, name, l, args, v, e)
                    out.append(s2)
            return out
        if ck in ("copy", "move") and not e.get("user"):
            for s, v in self.ev(e["a"][0], st):
                src = v
                if is_loc(v):
                    v = self.load(s, v)
                self.save(s, l, v, e, quiet=True)
                if ck == "move" and is_loc(src):
                    self.moved(s, src, e["t"])
                out.append(s)
            return out
        if cls.get("own"):
            if ck == "default" and (fn is None or ("inits" not in fn and "body" not in fn)):
                self.save(st, l, self.defaultval(e["t"]), e, quiet=True)
                return [st]
            if fn is not None and not self.opaque(fn):
                for s, args in self.evs(e["a"], st):
                    r = self.h.pre_call(self, s, name, l, args, e)
                    if r is not None:
                        for s2, v in r:
                            if v is not None:
                                self.save(s2, l, v, e, quiet=True)
                            out.append(s2)
                        continue
                    for s2, _ in self.inline(fn, s, args, l, e):
                        self.h.post_call(self, s2, name, l, args, None, e)
                        out.append(s2)
                return out
        # unknown constructor
        for s, args in self.evs(e["a"], st):
            r = self.h.pre_call(self, s, name, l, args, e)
            if r is not None:
                for s2, v in r:
                    if v is not None:
                        self.save(s2, l, v, e, quiet=True)
                    out.append(s2)
                continue
            vs = [self.load(s, a) if is_loc(a) and ga.get("gl") else a for a, ga in zip(args, e["a"])]
            self.unmodelled["ctor " + name] = self.unmodelled.get("ctor " + name, 0) + 1
            self.save(s, l, mk("new", cls.get("cls", name), *vs), e, quiet=True)
            self.h.post_call(self, s, name, l, args, None, e)
            out.append(s)
        return out

    def moved(self, s, src, t):
        c = self.ty(t).get("cls")
        if c in ("std::unique_ptr",):
            self.save(s, src, NULL, None, quiet=True)

    def defaultval(self, tname):
        d = self.ty(tname)
        if d.get("k") != "rec":
            return mk("uninit", "var")
        m = self.models.get("default:" + d.get("cls", ""))
        if m is not None:
            return m
        r = self.p.records.get(d.get("rec"))
        if r is None:
            return mk("new", d.get("cls", tname))
        fs = {}
        for f in r["fields"]:
            if "init" in f:
                i = f["init"]
                fr = Frame({"n": r["n"], "file": r["file"], "params": []}, 900, ("default",))
                self.frames.append(fr)
                try:
                    rs = self.rv(i, State())
                finally:
                    self.frames.pop()
                fs[f["n"]] = rs[0][1] if len(rs) == 1 else S("init", f["n"])
            elif self.ty(f["t"]).get("k") == "rec":
                fs[f["n"]] = self.defaultval(f["t"])
            else:
                fs[f["n"]] = mk("uninit", f["n"])
        return rec(None, fs)

    def destroy(self, st, l, tname, e):
        """run the destructor of the object at l; [(state)]"""
        d = self.ty(tname)
        if not d.get("ntd"):
            return [st]
        self.h.on_dtor(self, st, l, tname, e)
        cls = d.get("cls")
        m = self.models.get("dtor:" + str(cls))
        if m is not None:
            return m(self, st, l, tname, e)
        r = self.p.records.get(d.get("rec"))
        if r is None:
            return [st]
        states = [st]
        if r.get("dtorUser"):
            fn = self.p.functions.get(r["dtor"])
            if fn is not None and not self.opaque(fn):
                n = []
                for s in states:
                    rr = self.h.pre_call(self, s, fn["n"], l, [], e or {})
                    if rr is not None:
                        n += [s2 for s2, _ in rr]
                        continue
                    self.tc.append([])
                    rs = self.inline(fn, s, [], l, e or {})
                    for ts, cls2, _ in self.tc.pop():
                        self.h.on_terminate(self, ts, "%s leaves a destructor (%s)" % (cls2, fn["n"]), e)
                    n += [s2 for s2, _ in rs]
                states = n
        for f in reversed(r["fields"]):
            if self.ty(f["t"]).get("ntd"):
                n = []
                for s in states:
                    n += self.destroy(s, sub(l, f["n"]), f["t"], e)
                states = n
        for b in reversed(r["bases"]):
            n = []
            for s in states:
                n += self.destroy(s, l, b, e)
            states = n
        return states

    def unwind(self, st, mark, e):
        """destroy objects above mark; [(state)]"""
        states = [st]
        while True:
            n = []
            again = False
            for s in states:
                if len(s.cleanup) > mark:
                    l, t = s.cleanup[-1]
                    s.cleanup = s.cleanup[:-1]
                    for s2 in self.destroy(s, l, t, e):
                        if l.a[0][0] in ("t",) and not l.a[1]:
                            s2.store.pop(l.a[0], None)
                        n.append(s2)
                    again = True
                else:
                    n.append(s)
            states = n
            if not again:
                break
        if len(states) > 1:
            states = [s for s, _ in self.reduce([(s, None) for s in states])]
        return states

    # ---- calls -------------------------------------------------------------------------------
    def e_call(self, e, st):
        out = []
        name = e["n"]
        if e.get("this"):
            for s, t in self.ev(e["this"], st):
                if e.get("arrow"):
                    self.h.on_deref(self, s, t, e)
                    t = self.deref(s, t, e)
                for s2, args in self.evs(e["a"], s):
                    out += self.call(e, s2, name, t, args)
            return out
        for s, args in self.evs(e["a"], st):
            out += self.call(e, s, name, None, args)
        return out

    def e_icall(self, e, st):
        out = []
        for s, c in self.ev(e["c"], st):
            if is_loc(c):
                c = self.load(s, c)
            for s2, args in self.evs(e["a"], s):
                if c.op == "fnptr" and c.a[0] in self.p.functions:
                    out += self.inline(self.p.functions[c.a[0]], s2, args, None, e)
                    continue
                r = self.h.pre_call(self, s2, "<indirect>", c, args, e)
                if r is None:
                    r = [(s2, self.fresh(s2, "icall", e))]
                for s3, v in r:
                    self.h.post_call(self, s3, "<indirect>", c, args, v, e)
                    out.append((s3, v))
        return out

    def call(self, e, st, name, this, args):
        self.calls.add((self.frames[-1].fn["n"], e.get("l"), name))
        r = self.h.pre_call(self, st, name, this, args, e)
        if r is None:
            m = self.models.get(name)
            if m is not None:
                r = m(self, st, this, args, e)
        if r is None:
            fn = self.p.functions.get(e["f"])
            if fn is None and e["f"] in self.p.decls and self.p.decls[e["f"]].get("own"):
                # same function dumped under the unit that defines it
                l = [f for f in self.p.byname.get(name, []) if f["f"].split("@")[0] == e["f"].split("@")[0]]
                if len(l) == 1:
                    fn = l[0]
            if name.endswith("::operator=") and (fn is None or fn.get("implicit") or "body" not in fn):
                if len(args) == 1 and this is not None:
                    v = self.load(st, args[0]) if is_loc(args[0]) else args[0]
                    self.save(st, this, v, e)
                    r = [(st, this)]
        if r is None and e.get("virt"):
            fn = self.devirt(e, st, this, fn)
        if r is None and fn is not None and "body" in fn and not self.opaque(fn):
            if fn.get("lambda") and this is not None:
                r = self.inline_lambda(fn, st, self.load(st, this), args, e)
            else:
                r = self.inline(fn, st, args, this, e)
        if r is None:
            r = self.extern(e, st, name, this, args, fn)
        out = []
        for s, v in r:
            self.h.post_call(self, s, name, this, args, v, e)
            out.append((s, v))
        return out

    def devirt(self, e, st, this, fn):
        ov = self.p.overriders.get(e["f"], set())
        if not ov:
            return fn
        return {"f": e["f"], "n": e["n"], "virtual_unresolved": True, "own": True}

    def inline_lambda(self, fn, st, lam, args, e):
        def binder(s, depth, fr):
            if lam.op == "lambda":
                for c in lam.a[1]:
                    if c[0] == "this":
                        s.store[("this", depth)] = c[1]
                    else:
                        s.store[("v", depth, c[0])] = c[1]
                        if c[2]:
                            fr.refcaps.add(c[0])
        return self.inline(fn, st, args, None, e, binder)

    def inline(self, fn, st, args, this, e, binder=None):
        depth = len(self.frames)
        if depth > 40:
            raise AnalysisError("inlining too deep: " + fn["n"])
        if sum(1 for f in self.frames if f.fn is fn) > 1:
            raise AnalysisError("recursion: " + fn["n"])
        self.covered.add(fn["n"])
        fr = Frame(fn, depth, (self.frames[-1].site if self.frames else ()) + ((e or {}).get("x", 0),))
        self.frames.append(fr)
        try:
            mark = len(st.cleanup)
            if this is not None:
                st.store[("this", depth)] = this
            if binder:
                binder(st, depth, fr)
            for p, a in zip(fn["params"], args):
                root = ("v", depth, p["id"])
                if p.get("ref"):
                    if not is_loc(a):
                        # value passed for a reference: give it a home
                        t = ("t", depth, p["id"])
                        st.store[t] = a
                        a = loc(t)
                    st.store[root] = a
                else:
                    if is_loc(a) and self.ty(p["t"]).get("k") == "rec" and self.ty(p["t"]).get("cls") not in ("std::unique_ptr", "std::shared_ptr"):
                        a = self.load(st, a)
                    st.store[root] = a
                    if self.ty(p["t"]).get("ntd"):
                        st.cleanup = st.cleanup + ((loc(root), p["t"]),)
            states = [st]
            if fn.get("ctor"):
                # members not named keep their default; clang lists every initializer
                if not any(i.get("deleg") for i in fn.get("inits", ())):
                    st.store.setdefault(this.a[0], mk("uninit", "obj"))
                    cur = self.load(st, this)
                    if cur.op == "uninit":
                        self.save(st, this, rec(None, {}), None, quiet=True)
                for i in fn.get("inits", ()):
                    n = []
                    for s in states:
                        if "f" in i:
                            fl = sub(this, i["f"])
                            ft = self.fieldtype(fn, i["f"]) or i["e"]["t"]
                            if self.ty(ft).get("k") == "ref":
                                for s2, v in self.ev(i["e"], s):
                                    self.save(s2, fl, v, None, quiet=True)
                                    n.append(s2)
                                continue
                            for s2 in self.init(s, fl, ft, i["e"]):
                                if self.ty(ft).get("ntd"):
                                    s2.cleanup = s2.cleanup + ((fl, ft),)
                                n.append(s2)
                        elif "base" in i or i.get("deleg"):
                            if i["e"]["k"] == "ctor" and self.ty(i["e"]["t"]).get("own"):
                                n += self.construct(s, this, i["e"])
                            else:
                                n.append(s)
                        else:
                            n.append(s)
                    states = n
            outs = []
            if "body" in fn:
                for s in states:
                    outs += self.exec(fn["body"], s)
            else:
                outs = [(s, None) for s in states]
            outs = self.reduce(outs)
            res = []
            isvoid = self.ty(fn["ret"]).get("k") == "void"
            for s, c in outs:
                if c is None:
                    if not isvoid and not fn.get("ctor") and not fn.get("dtor"):
                        self.falloff(s, fn)
                    v = ZERO if isvoid else S("noreturn", fn["n"])
                elif c[0] == "return":
                    v = c[1]
                else:
                    raise AnalysisError("stray %s in %s" % (c[0], fn["n"]))
                if fn.get("ctor"):
                    # the object is complete: sub-object cleanups are replaced by the caller's
                    s.cleanup = s.cleanup[:mark] + tuple(x for x in s.cleanup[mark:] if not self.isfieldof(x[0], this))
                for s2 in self.unwind(s, mark, e):
                    res.append((s2, v))
            for s, v in res:
                self.purge(s, depth, v)
        finally:
            self.frames.pop()
        if len(res) > 1:
            res = self.reduce(res)
            if len(res) > 6:
                for s, _ in res:
                    self.gc2(s, res)
                res = self.reduce(res)
        return res

    def gc2(self, s, res):
        pass

    def isfieldof(self, l, this):
        return this is not None and l.a[0] == this.a[0] and len(l.a[1]) > len(this.a[1]) and l.a[1][:len(this.a[1])] == this.a[1]

    def falloff(self, s, fn):
        pass

    def fieldtype(self, fn, f):
        d = self.ty(fn["cls"])
        r = self.p.records.get(d.get("rec"))
        if r:
            for x in r["fields"]:
                if x["n"] == f:
                    return x["t"]
        return None

    def purge(self, s, depth, keep=None):
        for r in [r for r in s.store if (r[0] in ("v", "t", "this") and r[1] >= depth)]:
            if keep is not None and isinstance(keep, T) and keep.op == "loc" and keep.a[0] == r:
                continue
            del s.store[r]

    def extern(self, e, st, name, this, args, fn):
        """a function without a model: result unknown, non-const arguments unknown afterwards"""
        d = self.p.decls.get(e["f"], {})
        key = name
        self.unmodelled[key] = self.unmodelled.get(key, 0) + 1
        vals = []
        for a in args:
            vals.append(self.load(st, a) if is_loc(a) else a)
        for a, pt in zip(args, d.get("params", ())):
            pd = self.ty(pt)
            if pd.get("k") in ("ptr", "ref") and not pd.get("const") and is_loc(a):
                self.save(st, a, self.fresh(st, "out:" + name, e, (len(vals),)), e)
        if this is not None and is_loc(this) and not d.get("constm"):
            self.save(st, this, self.fresh(st, "mut:" + name, e), e)
        if fn is not None and not d.get("nothrow"):
            self.mthrow(st, "GeoDiffException", e, name + " throws")
        rt = self.ty(d.get("ret", ""))
        if rt.get("k") == "void":
            return [(st, ZERO)]
        v = self.fresh(st, "call:" + name, e)
        if rt.get("k") == "ref":
            v = mk("loc", ("x", v), ())
        elif rt.get("k") in ("int", "bool", "enum"):
            self.termtype.setdefault(v, d["ret"])
        return [(st, v)]

    # ---- statements --------------------------------------------------------------------------
    def exec(self, n, st):
        if n is None:
            return [(st, None)]
        m = getattr(self, "s_" + n["k"], None)
        if m is None:
            raise AnalysisError("unsupported statement %s at %s" % (n["k"], self.where(n)))
        return m(n, st)

    def s_nop(self, n, st):
        return [(st, None)]

    def s_expr(self, n, st):
        mark = len(st.cleanup)
        e = n["e"]
        outs = []
        if e["k"] == "bt" or (e["k"] == "full" and e["e"]["k"] == "bt"):
            # a discarded class value: a temporary that dies here
            inner = e if e["k"] == "bt" else e["e"]
            l = loc(("t", self.frames[-1].depth, inner["x"]))
            for s in self.init(st, l, inner["t"], inner["e"]):
                s.cleanup = s.cleanup + ((l, inner["t"]),)
                outs += [(s2, None) for s2 in self.unwind(s, mark, e)]
            return outs
        for s, v in self.ev(e, st):
            outs += [(s2, None) for s2 in self.unwind(s, mark, e)]
        return outs

    def s_decl(self, n, st):
        states = [st]
        for v in n["vars"]:
            nn = []
            for s in states:
                nn += self.declvar(v, s)
            states = nn
        return [(s, None) for s in states]

    def declvar(self, v, st):
        if v.get("static"):
            root = ("g", v["gn"])
            return [st]
        root = ("v", self.frames[-1].depth, v["id"])
        l = loc(root)
        t = v["t"]
        if v.get("ref"):
            out = []
            e = v["init"]
            for s, x in self.refinit(e, st):
                if not is_loc(x):
                    h = ("t", self.frames[-1].depth, -v["id"])
                    s.store[h] = x
                    x = loc(h)
                s.store[root] = x
                out.append(s)
            return out
        if "init" in v:
            sts = self.init(st, l, t, v["init"])
        else:
            st.store[root] = mk("uninit", v["n"]) if self.ty(t).get("k") != "rec" else self.defaultval(t)
            sts = [st]
        if self.ty(t).get("ntd"):
            for s in sts:
                s.cleanup = s.cleanup + ((l, t),)
        return sts

    def refinit(self, e, st):
        if e["k"] == "full":
            # temporaries bound to the reference live on: keep the extended one
            out = []
            mark = len(st.cleanup)
            for s, x in self.refinit(e["e"], st):
                new = s.cleanup[mark:]
                ext = self.exttemps(e["e"])
                keep = tuple(c for c in new if c[0].a[0] in ext)
                drop = tuple(c for c in new if c[0].a[0] not in ext)
                s.cleanup = s.cleanup[:mark] + drop
                for s2 in self.unwind(s, mark, e):
                    s2.cleanup = s2.cleanup + keep
                    out.append((s2, x))
            return out
        return self.ev(e, st)

    def exttemps(self, e):
        r = set()

        def walk(x):
            if isinstance(x, dict):
                if x.get("k") == "temp" and x.get("ext"):
                    r.add(("t", self.frames[-1].depth, x["x"]))
                for y in x.values():
                    walk(y)
            elif isinstance(x, list):
                for y in x:
                    walk(y)
        walk(e)
        return r

    def scoped(self, outs, mark, n):
        res = []
        for s, c in outs:
            for s2 in self.unwind(s, mark, n):
                res.append((s2, c))
        return res

    def s_block(self, n, st):
        mark = len(st.cleanup)
        outs = self.seq(n["s"], [(st, None)])
        outs = self.scoped(outs, mark, n)
        ids = self.blockdecls(n)
        if ids:
            d = self.frames[-1].depth
            for s, c in outs:
                for i in ids:
                    s.store.pop(("v", d, i), None)
        return self.reduce(outs)

    def blockdecls(self, n):
        r = n.get("_ids")
        if r is None:
            r = [v["id"] for s in n["s"] if s and s["k"] == "decl" for v in s["vars"] if not v.get("static")]
            n["_ids"] = r
        return r

    def seq(self, stmts, outs):
        done = []
        cur = [s for s, c in outs if c is None]
        done = [(s, c) for s, c in outs if c is not None]
        for x in stmts:
            if not cur:
                break
            nxt = []
            for s in cur:
                for s2, c in self.exec(x, s):
                    if c is None:
                        nxt.append((s2, None))
                    else:
                        done.append((s2, c))
            cur = [s for s, _ in self.reduce(nxt)]
        return [(s, None) for s in cur] + self.reduce(done)

    def s_if(self, n, st):
        mark = len(st.cleanup)
        outs = [(st, None)]
        if n.get("init"):
            outs = self.exec(n["init"], st)
        if n.get("cv"):
            outs = [x for s, c in outs for x in self.exec(n["cv"], s)]
        res = []
        for s, _ in outs:
            for s2, b in self.branch(n["c"], s):
                if b:
                    res += self.exec(n["t"], s2)
                elif n.get("e"):
                    res += self.exec(n["e"], s2)
                else:
                    res.append((s2, None))
        return self.reduce(self.scoped(res, mark, n))

    def s_break(self, n, st):
        return [(st, ("break",))]

    def s_continue(self, n, st):
        return [(st, ("continue",))]

    def s_return(self, n, st):
        if "e" not in n:
            return [(st, ("return", ZERO))]
        e = n["e"]
        out = []
        mark = len(st.cleanup)
        rk = self.ty(self.frames[-1].fn["ret"]).get("k")
        src = self.returned_local(e) if rk == "rec" else None
        for s, v in (self.refinit(e, st) if rk == "ref" else self.rv(e, st)):
            for s2 in self.unwind(s, mark, e):
                if rk in ("bool", "int", "enum") and is_loc(v) is False and rk == "bool":
                    pass
                if src is not None:
                    # named return value: the local becomes the result, it is not destroyed
                    root = ("v", self.frames[-1].depth, src)
                    s2.cleanup = tuple(c for c in s2.cleanup if not (c[0].a[0] == root and not c[0].a[1]))
                out.append((s2, ("return", v)))
        return out

    def returned_local(self, e):
        """decl id of the by-value local this return expression names, if any"""
        while e["k"] in ("full", "bt", "temp"):
            e = e["e"]
        if e["k"] == "ctor" and e.get("ck") in ("copy", "move") and len(e["a"]) == 1:
            x = e["a"][0]
            while x["k"] in ("temp", "bt", "full") or (x["k"] == "cast" and x["ck"] in ("NoOp",)):
                x = x["e"]
            if x["k"] == "var" and not x.get("g") and not x.get("ref"):
                for p in self.frames[-1].fn["params"]:
                    if p["id"] == x["id"]:
                        return None
                return x["id"]
        return None

    def s_try(self, n, st):
        mark = len(st.cleanup)
        depth = self.frames[-1].depth
        self.tc.append([])
        nfr = len(self.frames)
        outs = self.exec(n["b"], st)
        thrown = self.tc.pop()
        byexc = {}
        for s, cls, v in thrown:
            byexc.setdefault((cls, v), []).append(s)
        for (cls, v), ss in byexc.items():
            ss = [s for s, _ in self.reduce([(s, None) for s in ss])]
            us = []
            for s in ss:
                us += self.unwind(s, mark, n)
            for s in us:
                self.purge(s, depth + 1)
            us = [s for s, _ in self.reduce([(s, None) for s in us])]
            for s in us:
                h = self.match(n["h"], cls)
                if h is None:
                    self.tc[-1].append((s, cls, v))
                    continue
                s.note(self.where(h), "caught " + cls)
                if "v" in h:
                    root = ("v", depth, h["v"]["id"])
                    if h["v"].get("ref"):
                        er = ("t", depth, -h["v"]["id"])
                        s.store[er] = v
                        s.store[root] = loc(er)
                    else:
                        s.store[root] = v
                s.store[("exc", 0)] = mk("exc", cls)
                r = self.exec(h["b"], s)
                for s2, c in r:
                    s2.store.pop(("exc", 0), None)
                    if "v" in h:
                        s2.store.pop(("v", depth, h["v"]["id"]), None)
                        s2.store.pop(("t", depth, -h["v"]["id"]), None)
                outs += r
        return self.reduce(outs)

    def isa(self, cls, base):
        while cls is not None:
            if cls == base:
                return True
            nxt = STD_EXC.get(cls)
            if nxt is None:
                r = self.p.recbycls.get(cls)
                if r and r["bases"]:
                    nxt = self.ty(r["bases"][0]).get("cls")
            cls = nxt
        return False

    def match(self, hs, cls):
        for h in hs:
            if h.get("all"):
                return h
            b = self.ty(h["t"]).get("cls") or h["t"]
            if cls == "?" or self.isa(cls, b):
                return h
        return None

    # loops
    def s_while(self, n, st):
        def step(s):
            if n.get("cv"):
                pairs = []
                for s1, _ in self.exec(n["cv"], s):
                    pairs += self.branch(n["c"], s1)
                return pairs
            return self.branch(n["c"], s)
        return self.loop(n, [st], step, n["b"], None)

    def s_do(self, n, st):
        # first iteration, then a while loop
        mark = len(st.cleanup)
        outs = self.exec(n["b"], st)
        res = [(s, None) for s, c in outs if c and c[0] == "break"]
        res += [(s, c) for s, c in outs if c and c[0] == "return"]
        cont = [s for s, c in outs if c is None or c[0] == "continue"]
        if n["c"]["k"] == "int" and not n["c"]["v"]:
            return self.reduce(res + [(s, None) for s in cont])
        if cont:
            res += self.loop(n, cont, lambda s: self.branch(n["c"], s), n["b"], None)
        return self.reduce(res)

    def s_for(self, n, st):
        mark = len(st.cleanup)
        outs = self.exec(n["i"], st) if n.get("i") else [(st, None)]
        starts = [s for s, _ in outs]
        counters = self.counters(n)
        site = self.site(n)
        d = self.frames[-1].depth
        for s in starts:
            for vid, dirn in counters:
                r = ("v", d, vid)
                v = s.store.get(r)
                if v is not None and is_c(v) and isinstance(cv(v), int):
                    L = S("lv", site, vid)
                    self.retire(s, L, S("old", "lv", site, vid))
                    s.store[r] = L
                    s.facts[L] = ("i", cv(v), INF, frozenset()) if dirn > 0 else ("i", -INF, cv(v), frozenset())

        def step(s):
            if not n.get("c"):
                return [(s, True)]
            return self.branch(n["c"], s)
        res = self.loop(n, starts, step, n["b"], n.get("n"), prewidened=True)
        res = self.scoped(res, mark, n)
        if n.get("i") and n["i"]["k"] == "decl":
            for s, c in res:
                for v in n["i"]["vars"]:
                    s.store.pop(("v", d, v["id"]), None)
        return self.reduce(res)

    def counters(self, n):
        """variables stepped by the increment expression"""
        r = n.get("_ctr")
        if r is None:
            r = []

            def walk(e):
                if not e:
                    return
                if e["k"] == "un" and e["op"] in ("pre++", "post++", "pre--", "post--") and e["e"]["k"] == "var" and not e["e"].get("g") and not e["e"].get("ref"):
                    if self.ty(e["e"]["t"]).get("k") == "int":
                        r.append((e["e"]["id"], 1 if "++" in e["op"] else -1))
                elif e["k"] == "assign" and e["op"] in ("+=", "-=") and e["a"]["k"] == "var" and not e["a"].get("g") and e["b"]["k"] == "int":
                    if self.ty(e["a"]["t"]).get("k") == "int":
                        r.append((e["a"]["id"], 1 if (e["op"] == "+=") == (e["b"]["v"] > 0) else -1))
                elif e["k"] == "bin" and e["op"] == ",":
                    walk(e["a"])
                    walk(e["b"])
                elif e["k"] in ("full",):
                    walk(e["e"])
            walk(n.get("n"))
            n["_ctr"] = r
        return r

    def loop(self, n, starts, step, body, inc, prewidened=False, elem=None):
        site = self.site(n)
        L = {"chg": {}, "cnt": {}, "force": site in self.forced}
        for s in starts:
            self.gc(s)
        keep = [s.clone() for s in starts]
        seen = {}
        work = []
        exits = []
        iters = 0
        for s in starts:
            self.enqueue(seen, work, s, site)
        while work:
            iters += 1
            if iters > self.loopiters and not L["force"]:
                # no fixed point in sight: start again, forgetting whatever the loop changes
                self.forced.add(site)
                L = {"chg": {}, "cnt": {}, "force": True}
                seen, work, exits, iters = {}, [], [], 0
                for s in keep:
                    self.enqueue(seen, work, s.clone(), site)
                continue
            if iters > 300:
                raise AnalysisError("loop does not converge at " + self.where(n))
            k = work.pop(0)
            if k not in seen:
                continue
            head = seen[k]
            head = head.clone()
            h0 = head.clone()
            nexts = []
            for s, b in step(head):
                if not b:
                    exits.append((s, None))
                    continue
                mark = len(s.cleanup)
                for s2, c in self.exec(body, s):
                    if c is None or c[0] == "continue":
                        for s3 in self.unwind(s2, mark, n):
                            if inc:
                                for s4, _ in self.ev(inc, s3):
                                    nexts.append(s4)
                            else:
                                nexts.append(s3)
                    elif c[0] == "break":
                        s2.note(self.where(n), "leaves the loop early")
                        exits.append((s2, ("brk",)))
                    else:
                        exits.append((s2, c))
            for s in nexts:
                self.h.on_iter_end(self, s, site, None, n)
            for s in nexts:
                self.widen(h0, s, site, n, L)
                self.gc(s)
            for s in nexts:
                self.enqueue(seen, work, s, site)
            if len(seen) > self.looplimit:
                ss = [s for s, _ in self.join_all([(s, None) for s in seen.values()])]
                old = seen
                seen = {}
                w2 = []
                for s in ss:
                    self.enqueue(seen, w2, s, site)
                work = [k for k in w2 if k not in old or seen[k].key() != old[k].key() or k in work]
        res = []
        pool = {}
        for s, c in exits:
            brk = c == ("brk",)
            self.finish_loop(s, site, n, brk, L)
            c = None if brk else c
            k = (self.skeleton(s, site), frozenset(s.facts.items()), s.cleanup, frozenset(s.mon.items()), c)
            if k in pool:
                self.unionstate(pool[k], s, site)
            else:
                pool[k] = s
                res.append((s, c))
        return self.reduce(res)

    def enqueue(self, seen, work, s, site):
        k = (self.skeleton(s, site), frozenset(s.facts.items()), s.cleanup, frozenset(s.mon.items()))
        if k in seen:
            o = seen[k]
            if self.unionstate(o, s, site) and k not in work:
                work.append(k)
        else:
            seen[k] = s
            work.append(k)

    # -- widening.  Accumulators built by a loop are summarised by nodes tagged with the loop:
    #    list(site, A, B)          text: nothing, or one of A followed by any number of B
    #    each(site, alts, exact)   elements appended to a vector, one alternative per iteration
    #    upds(base, site, alts, exact)  element i of base replaced in iteration i
    #    alternatives are (guards, value) with the iteration's symbols replaced by bound ones
    def widen(self, h, s, site, n, L):
        """generalise state s at the end of an iteration that started in h"""
        idx = self.loopindex(h, s, site)
        bind = {}

        def B(t):
            m = {}
            if isinstance(t, T):
                lv = leaves(t)
            else:
                lv = self.monleaves(t)
            for x in lv:
                if self.iterlocal(x, site):
                    m[x] = S("bv", x.a[1], x.a[2] if len(x.a) > 2 else 0)
            return subst(t, m) if m else t
        g = set()
        for t, f in s.facts.items():
            if h.facts.get(t) != f and t.op != "s":
                g.add((t, f))
        guards = frozenset((B(t), f) for t, f in g if not self.trivialguard(t, site))
        W = (site, h, s, idx, guards, B, L)
        for r in list(s.store):
            v = s.store[r]
            o = h.store.get(r)
            if o is None:
                if r[0] in ("v", "t") and r[1] >= self.frames[-1].depth:
                    del s.store[r]      # declared inside the body: dead at the next iteration
                continue
            if v is not o:
                s.store[r] = self.wval(o, v, (r,), W)
            else:
                self.unchanged(v, (r,), W)
        for k in list(s.mon):
            o = h.mon.get(k)
            v = s.mon[k]
            if o is not v and isinstance(v, T) and isinstance(o, T):
                s.mon[k] = self.wval(o, v, (("mon", k),), W)
        for t in list(s.facts):
            if self.hasnode(t, site):
                del s.facts[t]
                continue
            if any(self.iterlocal(x, site) for x in leaves(t)):
                if t.op == "s" and t.a[0] == "lv" and not L["force"]:
                    if t in h.facts and s.facts[t] != h.facts[t] and not L.get("keep:" + str(t.n)):
                        s.facts[t] = h.facts[t]
                    continue
                del s.facts[t]

    def trivialguard(self, t, site):
        if t.op == "<" and self.iterlocal(t.a[0], site):
            return True
        if t.op in ("size", "strlen") or t.op == "<" and t.a[0] is ZERO:
            return True
        return any(x.op in ("list", "each", "upds") for x in subterms(t))

    def addalts(self, alts, new):
        d = {x: g for g, x in alts}
        for g, x in new:
            d[x] = d[x] & g if x in d else g
        return frozenset((g, x) for x, g in d.items())

    def iterlocal(self, x, site):
        return x.op == "s" and len(x.a) > 1 and (x.a[0] in ("lv", "ri", "wd") and x.a[1] == site or x.a[0] == "old" and len(x.a) > 2 and x.a[1] in ("lv", "ri") and x.a[2] == site)

    def loopindex(self, h, s, site):
        """the symbol that counts iterations from zero, if there is one"""
        for st in (s, h):
            for v in st.store.values():
                for x in leaves(v):
                    if x.op == "s" and x.a[0] == "ri" and x.a[1] == site:
                        return x
        for st in (s, h):
            for t, f in st.facts.items():
                if t.op == "<" and t.a[0].op == "s" and t.a[0].a[0] == "ri" and t.a[0].a[1] == site:
                    return t.a[0]
        for r, v in h.store.items():
            if v.op == "s" and v.a[0] == "lv" and v.a[1] == site:
                f = h.facts.get(v)
                if f and f[0] == "i" and f[1] == 0:
                    return v
        return S("lv", site, "#")

    def wval(self, o, v, path, W):
        """o: value at the start of the iteration; v: value at its end"""
        site, h, s, idx, guards, B, L = W
        if o is v:
            self.unchanged(v, path, W)
            return v
        if L["force"] and not (o.op == "rec" and v.op == "rec" and o.a[0] is v.a[0]) and o.op != "loc" and v.op != "loc":
            if is_c(v) and is_c(o) and L["cnt"].get(path, 0) < 2:
                L["cnt"][path] = L["cnt"].get(path, 0) + 1
                return v
            return S("wd", site, path)
        if is_c(o) and is_c(v):
            a, b = cv(o), cv(v)
            ty = self.roottype((site, path))
            if ty == "int" and isinstance(a, int) and isinstance(b, int):
                if a in (0, 1) and b in (0, 1) and not L["cnt"].get(path):
                    L["cnt"][path] = 1
                    return v
                n = S("lv", site, path)
                s.facts[n] = ("i", min(a, b), INF, frozenset()) if b > a else ("i", -INF, max(a, b), frozenset())
                return n
            if not (isinstance(a, str) and isinstance(b, str)):
                return v
        # counters
        if v.op == "+" or (o.op == "+" and v.op in ("s", "c")):
            d, k = lin(v)
            e, m = lin(o)
            if d == e and k != m:
                if o.op == "s" and o.a[0] == "lv":
                    f = h.facts.get(o)
                    lo, hi = (f[1], f[2]) if f and f[0] == "i" else (-INF, INF)
                    s.facts[o] = ("i", lo if k > m else -INF, INF if k > m else hi, frozenset())
                    return o
                n = S("lv", site, path)
                lo, hi = self.iv(h, o)
                s.facts[n] = ("i", lo if k > m else -INF, INF if k > m else hi, frozenset())
                return n
        if o.op == "s" and o.a[0] == "lv" and o.a[1] == site and is_c(v) and isinstance(cv(v), int):
            # counter reset inside the loop
            f = h.facts.get(o)
            lo, hi = (f[1], f[2]) if f and f[0] == "i" else (-INF, INF)
            s.facts[o] = ("i", min(lo, cv(v)), max(hi, cv(v)), frozenset())
            return o
        if o.op == "rec" and v.op == "rec" and o.a[0] is v.a[0]:
            ks = set(k for k, _ in v.a[1]) | set(k for k, _ in o.a[1])
            return rec(o.a[0], {k: self.wval(fget(o, k), fget(v, k), path + (k,), W) for k in ks})
        # text that grows
        if v.op == "concat" or (is_c(v) and isinstance(cv(v), str)):
            if is_c(o) and isinstance(cv(o), str) or o.op == "concat" or v.op == "concat":
                po, pv = parts(o), parts(v)
                tail = None
                if len(pv) >= len(po) and pv[:len(po)] == po:
                    tail = pv[len(po):]
                elif po and len(pv) >= len(po) and pv[:len(po) - 1] == po[:-1]:
                    a, b = po[-1], pv[len(po) - 1]
                    if a.op == "c" and b.op == "c" and cv(b).startswith(cv(a)):
                        tail = (C(cv(b)[len(cv(a)):]),) + pv[len(po):]
                if tail is not None:
                    tail = tuple(B(x) for x in tail)
                    if po and po[-1].op == "list" and po[-1].a[0] == site:
                        l = po[-1]
                        return concat(*(po[:-1] + (mk("list", site, l.a[1], self.addalts(l.a[2], [(guards, tail)])),)))
                    return concat(*(po + (mk("list", site, frozenset([(guards, tail)]), frozenset()),)))
        # vectors that grow
        if v.op == "vec":
            new = None
            if o.op == "vec" and len(v.a) > len(o.a) and v.a[:len(o.a)] == o.a:
                new = v.a[len(o.a):]
                base = o.a
            elif v.a and v.a[0].op == "spread" and v.a[0].a[0] is o:
                new = v.a[1:]
                base = (v.a[0],)
            if new is not None:
                self.mark(path, W, len(new) == 1)
                e = None
                if base and base[-1].op == "each" and base[-1].a[0] == site:
                    e, base = base[-1], base[:-1]
                alts = frozenset((guards, B(x)) for x in new)
                e = mk("each", site, self.addalts(alts, e.a[1] if e else ()), True)
                return mk("vec", *(base + (e,)))
        # element-wise updates
        if v.op == "upd":
            x = v
            ups = []
            while x.op == "upd" and x is not o:
                ups.append((x.a[1], x.a[2]))
                x = x.a[0]
            if x is o:
                bi = B(idx)
                self.mark(path, W, len(ups) == 1 and ups[0][0] is idx)
                alts = frozenset((guards, (B(i), B(y))) for i, y in ups)
                if o.op == "upds" and o.a[1] == site:
                    return mk("upds", o.a[0], site, self.addalts(o.a[2], alts), True, bi)
                return mk("upds", o, site, alts, True, bi)
        # a value computed afresh in each iteration
        v = B(v)
        if v is o:
            return v
        c = L["cnt"].get(path, 0) + 1
        L["cnt"][path] = c
        if c > 24 or self.depthof(v) > 14 or (c > 3 and o in subterms(v) and o.op not in ("c",)):
            return S("wd", site, path)
        if o.op == "s" and o.a[0] == "wd" and o.a[1] == site:
            return o
        return v

    def mark(self, path, W, one):
        d = W[6]["chg"].setdefault(path, set())
        d.add("c" if one else "u")

    def unchanged(self, v, path, W):
        if v.op in ("vec", "upd", "upds", "filled", "resized", "s", "fld", "at") or v.op in ("rec",):
            if v.op == "rec":
                for k, x in v.a[1]:
                    self.unchanged(x, path + (k,), W)
                return
            W[6]["chg"].setdefault(path, set()).add("u")

    def depthof(self, t, lim=16):
        d = 0
        cur = [t]
        while cur and d < lim:
            nx = []
            for x in cur:
                for k in x.a:
                    if isinstance(k, T):
                        nx.append(k)
            cur = nx[:50]
            d += 1
        return d

    def roottype(self, where):
        r = where[1][0]
        if len(where[1]) > 1:
            return None
        if r and r[0] == "v" and len(r) == 3:
            if not hasattr(self, "_vt"):
                self._vt = {}
            f = self.frames[-1].fn
            key = f["f"]
            m = self._vt.get(key)
            if m is None:
                m = {}

                def walk(x):
                    if isinstance(x, dict):
                        if "id" in x and "n" in x and "t" in x:
                            m.setdefault(x["id"], x["t"])
                        for y in x.values():
                            walk(y)
                    elif isinstance(x, list):
                        for y in x:
                            walk(y)
                walk(f)
                self._vt[key] = m
            t = m.get(r[2])
            if t:
                return self.ty(t).get("k")
        return None

    def nodemap(self, v, site, f, memo=None):
        """apply f to this loop's summary nodes inside v (records, vectors, text)"""
        if v.op in ("each", "list", "upds") and v.a[1 if v.op == "upds" else 0] == site:
            return f(v)
        if v.op == "rec":
            fs = [(k, self.nodemap(x, site, f)) for k, x in v.a[1]]
            if any(y is not x for (_, y), (_, x) in zip(fs, v.a[1])):
                return mk("rec", v.a[0], tuple(fs))
            return v
        if v.op in ("vec", "concat"):
            xs = tuple(self.nodemap(x, site, f) if x.op in ("each", "list") else x for x in v.a)
            if any(a is not b for a, b in zip(xs, v.a)):
                return mk(v.op, *xs)
        return v

    def skeleton(self, s, site):
        def bl(v):
            if v.op == "upds":
                return mk("upds*", v.a[0])
            return mk(v.op + "*", site)
        return frozenset((r, self.nodemap(v, site, bl)) for r, v in s.store.items())

    def unionstate(self, a, b, site):
        """add b's summary nodes to a; True if a changed"""
        ch = False
        for r, v in list(a.store.items()):
            w = b.store.get(r)
            if w is v or w is None:
                continue
            n = self.unionval(v, w, site)
            if n is not v:
                a.store[r] = n
                ch = True
        return ch

    def unionval(self, a, b, site):
        if a is b:
            return a
        if a.op == b.op == "rec":
            d = dict(b.a[1])
            return mk("rec", a.a[0], tuple((k, self.unionval(x, d[k], site)) for k, x in a.a[1]))
        if a.op == b.op and a.op in ("vec", "concat") and len(a.a) == len(b.a):
            return mk(a.op, *[self.unionval(x, y, site) for x, y in zip(a.a, b.a)])
        if a.op == b.op == "list":
            return mk("list", a.a[0], self.addalts(a.a[1], b.a[1]), self.addalts(a.a[2], b.a[2]))
        if a.op == b.op == "each":
            return mk("each", a.a[0], self.addalts(a.a[1], b.a[1]), a.a[2] and b.a[2])
        if a.op == b.op == "upds":
            return mk("upds", a.a[0], a.a[1], self.addalts(a.a[2], b.a[2]), a.a[3] and b.a[3], a.a[4])
        return a

    def finish_loop(self, s, site, n, brk, L):
        """settle the exactness of this loop's summary nodes"""
        def fin(v, path):
            if v.op == "rec":
                fs = [(k, fin(x, path + (k,))) for k, x in v.a[1]]
                if any(y is not x for (_, y), (_, x) in zip(fs, v.a[1])):
                    return mk("rec", v.a[0], tuple(fs))
                return v
            ex = not brk and L["chg"].get(path) == {"c"}
            if v.op == "upds" and v.a[1] == site:
                return mk("upds", v.a[0], v.a[1], v.a[2], ex, v.a[4])
            if v.op == "vec" and v.a and v.a[-1].op == "each" and v.a[-1].a[0] == site:
                e = v.a[-1]
                return mk("vec", *(v.a[:-1] + (mk("each", e.a[0], e.a[1], ex),)))
            return v
        for r in list(s.store):
            v = s.store[r]
            if v.op in ("upds", "vec", "rec"):
                s.store[r] = fin(v, (r,))
        for t in [t for t in s.facts if self.hasnode(t, site)]:
            del s.facts[t]

    def hasnode(self, t, site):
        return any(x.op in ("list", "each") and x.a[0] == site or x.op == "upds" and x.a[1] == site or x.op == "s" and x.a[0] == "bv" and x.a[1] == site for x in subterms(t))

    def s_rfor(self, n, st):
        mark = len(st.cleanup)
        out = []
        for s, c in self.refinit(n["r"], st):
            if not is_loc(c):
                h = ("t", self.frames[-1].depth, -(n["v"]["id"] + 1000000))
                s.store[h] = c
                c = loc(h)
            out += self.rfor(n, s, c)
        out = self.scoped(out, mark, n)
        return self.reduce(out)

    def rfor(self, n, s, c):
        v = self.load(s, c)
        var = n["v"]
        d = self.frames[-1].depth
        root = ("v", d, var["id"])
        kind = self.ty(n["rt"])
        while kind.get("k") == "ref":
            kind = self.ty(kind["to"])
        ismap = kind.get("cls") in ("std::map", "std::unordered_map")
        isset = kind.get("cls") in ("std::set", "std::unordered_set")

        def bindelem(s, l):
            if var.get("ref"):
                s.store[root] = l
            else:
                x = self.load(s, l) if is_loc(l) else l
                s.store[root] = x
        site = self.site(n)
        if v.op == "vec" and not ismap and not isset and len(v.a) <= 12 and all(x.op not in ("each", "spread") for x in v.a):
            outs = [(s, None)]
            for k in range(len(v.a)):
                nxt = []
                for s1, ctl in outs:
                    if ctl is not None:
                        nxt.append((s1, ctl))
                        continue
                    bindelem(s1, sub(c, ("i", C(k))))
                    m2 = len(s1.cleanup)
                    for s2, c2 in self.exec(n["b"], s1):
                        s2.store.pop(root, None)
                        for s3 in self.unwind(s2, m2, n):
                            nxt.append((s3, None if c2 and c2[0] == "continue" else c2))
                outs = self.reduce(nxt)
            return [(s1, None if c1 and c1[0] == "break" else c1) for s1, c1 in outs]
        idx = S("ri", site, var["id"])
        mark = ("v", d, -(var["id"] + 3000000))

        def step(s1):
            res = []
            cur = self.load(s1, c)
            self.__dict__.setdefault("ranges", {}).setdefault(site, set()).add(cur)
            nz = neg(binop("==", size(cur), ZERO))
            # leave
            s0 = s1.clone()
            es = self.exactsize(cur)
            b = self.truth(s1, binop("==", es, ZERO)) if es is not None and mark not in s1.store else None
            if b is not False:
                res.append((s0, False))
            if b is True:
                return res
            if es is not None:
                s1.store[mark] = C(1)
            if self.truth(s1, nz) is False:
                return res
            self.retire(s1, idx, S("old", "ri", site, var["id"]))
            s1.facts[idx] = ("i", 0, INF, frozenset())
            self.assume(s1, binop("<", idx, size(cur)), True)
            self.assume(s1, nz, True)
            if ismap:
                k = mk("key", cur, idx)
                if var.get("ref"):
                    s1.store[root] = sub(c, ("p", k))
                else:
                    s1.store[root] = rec(None, {"first": k, "second": at(cur, k)})
            elif isset:
                bindelem(s1, mk("key", cur, idx))
                if var.get("ref") and not is_loc(s1.store[root]):
                    h = ("t", d, -(var["id"] + 2000000))
                    s1.store[h] = s1.store[root]
                    s1.store[root] = loc(h)
            else:
                bindelem(s1, sub(c, ("i", idx)))
            res.append((s1, True))
            return res

        def first(s1):
            # the zero-iteration exit knows that the container is empty
            return step(s1)
        res = self.loop(n, [s], step, n["b"], None)
        for s1, _ in res:
            s1.store.pop(root, None)
            s1.store.pop(mark, None)
        return res

    def exactsize(self, v):
        """the size of a vector filled by exactly one element per iteration of loops over known containers"""
        if v.op != "vec" or not any(x.op == "each" for x in v.a):
            return None
        r = None
        for x in v.a:
            if x.op != "each" or not x.a[2] or len(x.a[1]) != 1:
                return None
            l = getattr(self, "ranges", {}).get(x.a[0], ())
            if len(l) != 1 or r is not None:
                return None
            r = size(next(iter(l)))
        return r

    def s_switch(self, n, st):
        mark = len(st.cleanup)
        outs = []
        items = self.switchitems(n["b"])
        for s, v in self.rv(n["c"], st):
            rest = [s]
            default = None
            for k, (labels, _) in enumerate(items):
                for lab in labels:
                    if lab is None:
                        default = k
                        continue
                    nrest = []
                    for s1 in rest:
                        for s2, b in self.split(s1, binop("==", v, C(lab)), n):
                            if b:
                                outs += self.seq([x for _, x in items[k:]], [(s2, None)])
                            else:
                                nrest.append(s2)
                    rest = nrest
            for s1 in rest:
                if default is not None:
                    outs += self.seq([x for _, x in items[default:]], [(s1, None)])
                else:
                    outs.append((s1, None))
        res = []
        for s, c in outs:
            res.append((s, None if c and c[0] == "break" else c))
        return self.reduce(self.scoped(res, mark, n))

    def switchitems(self, b):
        items = []
        stmts = b["s"] if b["k"] == "block" else [b]
        for x in stmts:
            labels = []
            while x and x["k"] in ("case", "default"):
                if x["k"] == "case":
                    labels.append(x["v"]["v"])
                    if "v2" in x:
                        raise AnalysisError("case range")
                else:
                    labels.append(None)
                x = x["s"]
            items.append((labels, x))
        return items

    def s_case(self, n, st):
        return self.exec(n["s"], st)

    s_default = s_case
    s_label = s_case

    def s_goto(self, n, st):
        raise AnalysisError("goto at " + self.where(n))

    def s_unknownstmt(self, n, st):
        raise AnalysisError("unknown statement %s at %s" % (n.get("cn"), self.where(n)))

    # ---- entry points ------------------------------------------------------------------------
    def run(self, fn, args=None, this=None, st=None):
        """analyse fn as an entry point; returns (normal [(state, value)], thrown [(state, cls)])"""
        st = st or State()
        if args is None:
            args = []
            for p in fn["params"]:
                args.append(self.symarg(st, fn, p))
        if this is None and fn.get("method"):
            root = ("o", "this")
            st.store.setdefault(root, S("this"))
            this = loc(root)
        self.tc.append([])
        res = self.inline(fn, st, args, this, {"x": 0, "l": fn["l"]})
        thrown = []
        ths = self.tc.pop()
        for s, cls, v in ths:
            for s2 in self.unwind(s, 0, {}):
                self.purge(s2, 0)
                thrown.append((s2, cls, v))
        return res, thrown

    def symarg(self, st, fn, p):
        t = self.ty(p["t"])
        sym = S("arg", p["n"] or str(p["id"]))
        if t.get("k") == "ref":
            root = ("o", "arg:" + p["n"])
            st.store[root] = sym
            return loc(root)
        self.termtype.setdefault(sym, p["t"])
        return sym
