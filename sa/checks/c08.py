"""C08: exception-escape analysis.

Bottom-up over the call graph: which exception classes may leave each function, taking try/catch
blocks, rethrow, constructors, destructors, virtual calls and lambdas into account.  Operations of
the C++ library that throw under a condition (at, substr, stoi, ...) count only where the abstract
interpreter cannot exclude the condition.  Exported C functions, destructors and noexcept functions
must have an empty set.
"""
from ..astutil import *
from ..engine import Engine, Hooks, AnalysisError, STD_EXC
from .. import models, contracts

LEVEL = "other"
ASSUMPTIONS = ["running out of memory (std::bad_alloc) is not considered",
               "user callbacks given to the library do not throw"]

COND = {"at": "std::out_of_range", "substr": "std::out_of_range"}
ALWAYS = {"std::stoi": "std::invalid_argument", "std::stol": "std::invalid_argument", "std::stoll": "std::invalid_argument",
          "std::stod": "std::invalid_argument", "std::stoul": "std::invalid_argument", "std::stoull": "std::invalid_argument",
          "std::stof": "std::invalid_argument",
          "std::__cxx11::stoi": "std::invalid_argument", "std::__cxx11::stol": "std::invalid_argument",
          "std::__cxx11::stoll": "std::invalid_argument", "std::__cxx11::stod": "std::invalid_argument",
          "std::__cxx11::stoul": "std::invalid_argument",
          "std::wstring_convert::from_bytes": "std::range_error", "std::wstring_convert::to_bytes": "std::range_error"}


def place(n):
    if not isinstance(n, dict):
        return None
    if n.get("k") == "var":
        return n.get("n")
    if n.get("k") == "mem":
        b = place(n.get("b"))
        return b and b + "." + n.get("f", "?")
    if n.get("k") == "this":
        return "this"
    if n.get("k") == "call" and n.get("n", "").endswith("::operator[]") and "this" in n:
        b = place(n["this"])
        return b and b + "[]"
    return None


class Esc:
    def __init__(self, ctx):
        self.c = ctx
        self.p = ctx.p
        self.memo = {}
        self.active = set()
        self.condmemo = {}
        self.eng = Engine(self.p, models.FULL)
        self.callers = {}
        self.invoked = set()     # lambdas some function of the program calls
        self.stored = []         # lambdas kept in a std::function
        for g in self.p.functions.values():
            for n in nodes(g):
                if n.get("k") in ("call", "ctor") and n.get("n", "").startswith("std::function::") and not n["n"].endswith("::operator()"):
                    for x in walk(n):
                        h = self.p.functions.get(x.get("f")) if x.get("k") in ("lambda", "fn") else None
                        if h is not None and h not in self.stored:
                            self.stored.append(h)
        for g in self.p.functions.values():
            for c in calls(g):
                for h in callees(self.p, c):
                    l = self.callers.setdefault(h["f"], [])
                    if g not in l:
                        l.append(g)
                    if h.get("lambda"):
                        self.invoked.add(h["f"])

    def sites(self, fn, start):
        """sites of conditional library throws in fn that cannot be excluded, running from start"""
        r = set()

        class H(Hooks):
            def on_throw(s, en, st, cls, e):
                if cls == "std::out_of_range" and en.frames[-1].fn is fn and e.get("k") == "call":
                    r.add((e.get("l"), e.get("x")))
        try:
            en = Engine(self.p, contracts.UP, H(), limit=60, soft=8, hard=24)
            en.run(start)
        except AnalysisError as x:
            self.c.incomplete.append("%s: %s" % (start["n"], x))
        return r

    def condthrows(self, fn):
        r = self.condmemo.get(fn["f"])
        if r is None:
            r = self.sites(fn, fn)
            if r and not fn.get("externC"):
                cs = self.callers.get(fn["f"], [])
                if cs and len(cs) <= 4:
                    n = len(self.c.incomplete)
                    q = set()
                    for g in cs:
                        q |= self.sites(fn, g)
                    if len(self.c.incomplete) == n:
                        r = q
            self.condmemo[fn["f"]] = r
        return r

    def guarded(self, fn, call):
        """the function consults the same container before (find, size, a loop over it ...):
        whether that establishes the precondition of at() is not decided here"""
        t = place(call.get("this"))
        if t is None:
            return False
        skip = {id(x) for c in calls(fn) if c.get("n", "").endswith("::at") and "this" in c for x in walk(c["this"])}
        return any(place(x) == t for x in nodes(fn) if id(x) not in skip and (x.get("l") or 0) <= (call.get("l") or 0))

    def of(self, fn):
        f = fn["f"]
        if f in self.memo:
            return self.memo[f]
        if f in self.active:
            return {}
        self.active.add(f)
        self.c.cover(fn["n"])
        r = {}
        for n in roots(fn):
            self.node(fn, n, r, None)
        self.active.discard(f)
        self.memo[f] = r
        return r

    def add(self, r, cls, chain):
        if cls not in r:
            r[cls] = chain

    def node(self, fn, n, r, handler):
        k = n.get("k")
        where = "%s:%s" % (fn["file"], n.get("l", fn["l"]))
        if k == "try":
            inner = {}
            self.node(fn, n["b"], inner, handler)
            for cls, ch in inner.items():
                h = self.eng.match(n["h"], cls)
                if h is None:
                    self.add(r, cls, ch)
                else:
                    self.c.count("caught exception classes")
                    self.node(fn, h["b"], r, (cls, ch))
            # handlers no exception reaches can still throw when entered
            return
        if k == "throw":
            self.c.count("throw expressions")
            if "e" not in n:
                if handler:
                    self.add(r, handler[0], handler[1])
            else:
                self.node(fn, n["e"], r, handler)
                cls = self.eng.ty(n["tt"]).get("cls") or n["tt"]
                self.add(r, cls, (fn["n"] + " (" + where + ")",))
            return
        if k in ("call", "ctor") and "f" in n:
            self.c.count("call sites")
            name = n.get("n", "")
            cs = callees(self.p, n)
            for g in cs:
                for cls, ch in self.of(g).items():
                    self.add(r, cls, (fn["n"] + " (" + where + ")",) + ch)
            if name == "std::function::operator()":
                cs = self.stored
                for g in cs:
                    for cls, ch in self.of(g).items():
                        self.add(r, cls, (fn["n"] + " (" + where + ")",) + ch)
            if not cs:
                short = name.split("::")[-1]
                if name in ALWAYS:
                    self.add(r, ALWAYS[name], (fn["n"] + " (" + where + ")", name))
                elif name.startswith("std::") and short in COND:
                    if short == "at" and self.guarded(fn, n):
                        self.c.count("at() on a container the function consults first (not decided)")
                    elif (n.get("l"), n.get("x")) in self.condthrows(fn):
                        self.add(r, COND[short], (fn["n"] + " (" + where + ")", name))
        if k == "lambda" and n.get("f") in self.p.functions and n["f"] not in self.invoked and self.p.functions[n["f"]] not in self.stored:
            for cls, ch in self.of(self.p.functions[n["f"]]).items():
                self.add(r, cls, (fn["n"] + " (" + where + ")",) + ch)
        for x in kids(n):
            self.node(fn, x, r, handler)


def run(ctx):
    p = ctx.p
    ctx.rule("exported", "no exception class may leave an exported C function")
    ctx.rule("destructor", "no exception class may leave a destructor or a noexcept function")
    es = Esc(ctx)
    api = [f for f in p.functions.values() if f.get("externC") and f["n"].startswith("GEODIFF_")]
    ctx.need("exported functions", api)
    for f in api:
        e = es.of(f)
        ctx.count("exported functions")
        if not e:
            ctx.ok("exported", f["n"])
        for cls, ch in e.items():
            ctx.viol("exported", "%s:%d" % (f["file"], f["l"]), "%s may leave %s: thrown by %s" % (cls, f["n"], " <- ".join(reversed(ch))),
                     key="exported|%s|%s" % (f["n"], cls), path=ch)
    for f in p.functions.values():
        if f.get("dtor") or f.get("nothrow"):
            e = es.of(f)
            ctx.count("destructors and noexcept functions")
            if not e:
                ctx.ok("destructor", f["n"])
            for cls, ch in e.items():
                ctx.viol("destructor", "%s:%d" % (f["file"], f["l"]), "%s may leave %s: thrown by %s" % (cls, f["n"], " <- ".join(reversed(ch))),
                         key="destructor|%s|%s" % (f["n"], cls), path=ch)
