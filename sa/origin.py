"""Backward slices over the resolved AST: what an expression, a variable or the result of a function depends on.

Flow-insensitive within a function (a variable depends on everything that is ever stored in it), through the
results of project functions and lambdas.  The leaves are calls of functions outside the project, mutable
variables with static storage, parameters of the function where the slice started."""
from .astutil import kids, walk, roots, nodes, callees

ENTROPY = {"mkstemp", "mkstemps", "mkostemp", "mkdtemp", "getrandom", "getentropy", "arc4random", "arc4random_uniform", "arc4random_buf", "sqlite3_randomness",
           "uuid_generate", "uuid_generate_random", "tmpfile", "rand_s"}
PID = {"getpid", "_getpid", "GetCurrentProcessId"}
TID = {"std::this_thread::get_id", "gettid", "pthread_self", "GetCurrentThreadId"}
TIME = {"time", "clock", "gettimeofday", "clock_gettime", "std::chrono::_V2::system_clock::now", "std::chrono::_V2::steady_clock::now", "std::chrono::_V2::high_resolution_clock::now"}
RAND = {"rand", "random", "rand_r", "drand48", "lrand48"}


class Origins:
    def __init__(self, p):
        self.p = p
        self.memo = {}
        self.busy = set()
        self.vars_ = {}
        self.functions = set()
        self.lengths = {}      # calls of functions that make random text: with which number

    # -- the stores of a function
    def stores(self, fn):
        """variable id -> expressions that may be stored in it"""
        r = self.vars_.get(fn["f"])
        if r is not None:
            return r
        r = {}

        def put(v, x):
            r.setdefault(v, []).append(x)

        def base(x):
            """ids of the variables an lvalue belongs to"""
            return [y["id"] for y in walk(x) if y.get("k") == "var" and "id" in y] if x else []
        for x in nodes(fn):
            k = x.get("k")
            if k == "decl":
                for v in x.get("vars", ()):
                    if isinstance(v.get("init"), dict):
                        put(v["id"], v["init"])
            elif k == "assign":
                for i in base(x["a"]):
                    put(i, x["b"])
            elif k in ("call", "ctor"):
                a = list(x.get("a", ()))
                t = x.get("this")
                named = ([t] if isinstance(t, dict) else []) + a
                for y in named:
                    for i in base(y):
                        for z in named:
                            if z is not y:
                                put(i, z)
                        put(i, {"k": "_f", "c": x})
            elif k == "for" or k == "range":
                pass
        for x in nodes(fn):
            if isinstance(x.get("var"), dict) and isinstance(x.get("range"), dict):
                put(x["var"]["id"], x["range"])
        self.vars_[fn["f"]] = r
        return r

    def outside(self, c):
        n = c.get("n", "")
        cls = c.get("cls", "") or n.rsplit("::", 1)[0]
        if n in ENTROPY or "random_device" in cls or "random_device" in n:
            return {"entropy"}
        if n in PID:
            return {"pid"}
        if n in TID:
            return {"tid"}
        if n in TIME or n.startswith("std::chrono") and n.endswith("::now"):
            return {"time"}
        if n in RAND:
            return {"rand"}
        return set()

    def call(self, fn, c):
        """what the result of a call depends on, besides its arguments"""
        out = self.outside(c)
        for g in callees(self.p, c):
            r = self.result(g)
            out |= r
            if "entropy" in r:
                for a in c.get("a", ()):
                    while isinstance(a, dict) and a.get("k") in ("cast", "full", "temp", "ld") and isinstance(a.get("e"), dict):
                        a = a["e"]
                    if isinstance(a, dict) and a.get("k") == "int":
                        self.lengths[(fn["f"], c.get("x"))] = (fn, c, a["v"])
        return out

    def expr(self, fn, x):
        """origins of the value of an expression of a function"""
        out = set()
        for y in walk(x):
            k = y.get("k")
            if k == "_f":
                out |= self.call(fn, y["c"])
            elif k in ("call", "ctor"):
                out |= self.call(fn, y)
            elif k == "lambda":
                g = self.p.functions.get(y.get("f"))
                if g is not None:
                    out |= self.result(g)
                for c in y.get("caps", ()):
                    if isinstance(c, dict) and "id" in c:
                        out |= self.var(fn, c["id"])
            elif k == "var" and "id" in y:
                out |= self.var(fn, y["id"])
            elif k in ("gvar", "var"):
                out |= self.glob(y)
        return out

    def glob(self, y):
        g = self.p.globals.get(y.get("gn"))
        if g is None or g.get("const"):
            return set()
        return {"state"}

    def var(self, fn, i):
        key = (fn["f"], i)
        if key in self.memo:
            return self.memo[key]
        if key in self.busy:
            return set()
        self.busy.add(key)
        out = set()
        st = self.statics(fn)
        if i in st:
            out.add("state")
        for x in self.stores(fn).get(i, ()):
            out |= self.expr(fn, x)
        t = self.types(fn).get(i, "")
        if "random_device" in t:
            out.add("entropy")
        self.busy.discard(key)
        self.memo[key] = out
        return out

    def statics(self, fn):
        return {v["id"] for x in nodes(fn) if x.get("k") == "decl" for v in x.get("vars", ()) if v.get("static") and not v.get("const") and not str(v.get("t", "")).startswith("const ")}

    def types(self, fn):
        return {v["id"]: str(v.get("t", "")) for x in nodes(fn) if x.get("k") == "decl" for v in x.get("vars", ())}

    def result(self, fn):
        """origins of what a function returns (apart from its arguments)"""
        key = fn["f"]
        if key in self.memo:
            return self.memo[key]
        if key in self.busy:
            return set()
        self.busy.add(key)
        self.functions.add(fn["n"])
        out = set()
        for x in nodes(fn):
            if x.get("k") == "return" and isinstance(x.get("e"), dict):
                out |= self.expr(fn, x["e"])
        # results that are handed out through parameters
        ps = {q["id"] for q in fn.get("params", ()) if "&" in str(q.get("t")) or "*" in str(q.get("t"))}
        for i in ps:
            if i in self.stores(fn):
                out |= self.var(fn, i)
        self.busy.discard(key)
        self.memo[key] = out
        return out
