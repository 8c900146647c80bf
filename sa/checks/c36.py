"""C36: an operation does not depend on the operations that ran before it in the process.

What one call can hand to the next without files is storage that outlives the call.  Every variable with static
storage duration (global, static member, static local) is enumerated, with every place that may change it after
its initialisation and everything that the initialiser of a static local refers to; so are the calls that change
settings of the whole process or end it.
"""
from ..astutil import walk, nodes, callees

LEVEL = "other"

SETTINGS = {"setlocale", "uselocale", "std::locale::global", "chdir", "fchdir", "_chdir", "putenv", "_putenv", "setenv", "unsetenv", "clearenv", "umask", "signal", "sigaction",
            "sigprocmask", "setrlimit", "tzset", "std::set_terminate", "std::set_unexpected", "std::set_new_handler", "sqlite3_config", "sqlite3_shutdown", "sqlite3_auto_extension",
            "sqlite3_reset_auto_extension", "sqlite3_enable_shared_cache", "sqlite3_soft_heap_limit", "sqlite3_soft_heap_limit64", "sqlite3_hard_heap_limit64", "sqlite3_vfs_register",
            "sqlite3_vfs_unregister", "setuid", "setgid", "chroot"}
ENDS = {"exit", "_exit", "_Exit", "quick_exit", "std::exit", "std::_Exit", "std::quick_exit", "std::terminate", "abort", "std::abort", "raise", "kill", "std::raise"}
RANDOM = ("std::random_device", "std::mersenne_twister_engine", "std::linear_congruential_engine", "std::subtract_with_carry_engine", "std::uniform_int_distribution", "std::discard_block_engine", "std::shuffle_order_engine", "std::independent_bits_engine")
ONCE = ("std::once_flag", "std::mutex", "std::recursive_mutex", "std::shared_mutex")


THROUGH = {"at", "front", "back", "data", "begin", "end", "find", "get", "operator*", "operator->", "lower_bound", "upper_bound", "value", "first", "second", "rbegin", "rend"}
CHANGERS = {"insert", "emplace", "operator[]", "push_back", "push_front", "emplace_back", "emplace_front", "try_emplace", "insert_or_assign", "erase", "clear", "operator=", "assign", "append",
            "operator+=", "operator-=", "operator|=", "operator&=", "operator^=", "swap", "reset", "resize", "reserve", "pop_back", "pop_front", "pop", "push", "merge", "extract", "replace",
            "store", "exchange", "fetch_add", "fetch_sub", "fetch_or", "fetch_and", "compare_exchange_strong", "compare_exchange_weak", "operator++", "operator--", "release", "set", "flip",
            "write", "put", "operator<<", "operator>>", "str", "open", "close", "read", "seekg", "seekp", "rdbuf", "test_and_set"}
TAKES = {"std::swap", "std::getline", "std::exchange", "std::operator>>", "std::operator<<", "std::move", "std::ref"}


def tree(fn):
    """(node, parent, the key it hangs on) for every node of a function"""
    st = [(r, None, None) for r in list(fn.get("inits", ())) + ([fn["body"]] if "body" in fn else [])]
    while st:
        x, up, key = st.pop()
        yield x, up, key
        for k, v in x.items():
            if k[0] == "_":
                continue
            for y in (v if isinstance(v, list) else [v]):
                for z in (y if isinstance(y, list) else [y]):
                    if isinstance(z, dict):
                        st.append((z, x, k))


def method(x):
    return x.get("n", "").split("::")[-1]


def open_(t):
    """a parameter or result through which the storage may change"""
    t = str(t)
    return t.endswith(("&", "*")) and not t.startswith("const ")


class Storage:
    def __init__(self, p):
        self.p = p
        self.vars = {}        # gn -> description
        self.writes = {}      # gn -> [(function, node, how)]
        self.reads = {}
        self.inside = {}      # lambda -> function
        self.up = {}
        for gn, g in p.globals.items():
            self.vars[gn] = dict(g, local=None)
        for f in p.functions.values():
            up = self.up[f["f"]] = {}
            for x, par, key in tree(f):
                up[id(x)] = (par, key)
                if x.get("k") == "lambda" and x.get("f"):
                    self.inside[x["f"]] = f
                if x.get("k") == "decl":
                    for v in x.get("vars", ()):
                        if v.get("static") and v.get("gn"):
                            self.vars[v["gn"]] = dict(v, local=f)
        for f in p.functions.values():
            for x in nodes(f):
                if x.get("k") == "var" and x.get("gn"):
                    how = self.use(f, x)
                    (self.writes if how else self.reads).setdefault(x["gn"], []).append((f, x, how))

    def use(self, f, x):
        """how this occurrence may change the variable (None: it does not)"""
        up = self.up[f["f"]]
        deref = False
        while True:
            par, key = up.get(id(x), (None, None))
            if par is None:
                return None
            k = par.get("k")
            if k == "ld":
                t = str(par.get("t", ""))
                if not t.endswith("*") or t.startswith("const "):
                    return None
                deref = True          # what a pointer points to may change
            elif k == "assign":
                return "is assigned" if key == "a" else None
            elif k == "un":
                if par.get("op", "").endswith(("++", "--")):
                    return "is counted"
                if par.get("op") == "&":
                    return "its address is taken"
                if par.get("op") != "*":
                    return None
            elif k in ("call", "ctor"):
                if key == "this":
                    m = method(par)
                    g = [h for h in callees(self.p, par)] if "f" in par else []
                    if g:
                        return None if all(h.get("constm") for h in g) else "is changed by %s" % m
                    if m in CHANGERS:
                        return "is changed by %s" % m
                    if m not in THROUGH:
                        return None
                else:
                    g = callees(self.p, par) if "f" in par else []
                    i = next((j for j, a in enumerate(par.get("a", ())) if a is x), None)
                    if g:
                        return "is handed to %s" % g[0]["n"] if any(i is not None and i < len(h["params"]) and open_(h["params"][i]["t"]) for h in g) else None
                    return "is handed to %s" % par.get("n") if par.get("n") in TAKES or deref and not par.get("n", "").startswith("std::") else None
            elif k == "return":
                return "is handed out by %s" % f["n"] if open_(f.get("ret")) else None
            elif k == "rfor":
                return None
            elif k is None and ("init" in par or "n" in par):      # a variable that is declared
                return "is bound to %s" % par.get("n") if par.get("ref") and open_(par.get("t")) else None
            elif k not in ("mem", "idx", "decay", "cast", "full", "temp", "bt", "cond", "paren"):
                return None
            x = par

    def outermost(self, f):
        n = 0
        while f["f"] in self.inside and n < 9:
            f = self.inside[f["f"]]
            n += 1
        return f

    def once(self, f, x, gn=None):
        """whether the node lies in a branch that runs once in a process and knows nothing of any operation:
        if ( !flag ) {...}, where the branch refers to no parameter, local variable or object"""
        up = self.up[f["f"]]
        y = x
        while y is not None:
            par, key = up.get(id(y), (None, None))
            if par is not None and par.get("k") == "if" and key in ("t", "e", "c") and isinstance(par.get("c"), dict):
                vs = [v for v in walk(par["c"]) if v.get("k") == "var"]
                if vs and all(v.get("gn") and not self.vars.get(v["gn"], {}).get("const") for v in vs) and (gn is None or any(v["gn"] == gn for v in vs)):
                    body = [b for q in ("t", "e") for b in ([par[q]] if isinstance(par.get(q), dict) else [])]
                    if not any(v.get("k") in ("this", "return", "throw") or v.get("k") == "var" and not v.get("gn") for b in body for v in walk(b)):
                        return True
            y = par
        # a lambda that is handed to std::call_once
        if f["f"] in self.inside:
            g = self.inside[f["f"]]
            for c in nodes(g):
                if c.get("k") == "call" and c.get("n") == "std::call_once" and any(z.get("k") == "lambda" and z.get("f") == f["f"] and not z.get("caps") for a in c.get("a", ()) for z in walk(a)):
                    return True
        return False

    def startup(self, f, seen=()):
        """a function that sets the process up: neither it nor its callers know of an operation"""
        f = self.outermost(f)
        if f["f"] in seen:
            return False
        if not f.get("params") and not f.get("cls") and f.get("ret") == "void":
            return True
        cs = self.callers().get(f["f"], [])
        return bool(cs) and all(self.startup(c, seen + (f["f"],)) or self.once(c, x) for c, x in cs)

    def callers(self):
        if not hasattr(self, "callers_"):
            self.callers_ = {}
            for f in self.p.functions.values():
                for x in nodes(f):
                    if x.get("k") in ("call", "ctor") and "f" in x:
                        for g in callees(self.p, x):
                            self.callers_.setdefault(g["f"], []).append((f, x))
        return self.callers_


def where(f, x):
    return "%s:%s" % (f["file"], x.get("l", f.get("l")))


def run(ctx):
    ctx.rule("kept state", "no variable that outlives a call is both changed and read by operations; a flag that runs process-wide preparations once is not state, nor are the settings of the log")
    ctx.rule("first call", "the initialiser of a variable that outlives a call refers to no parameter, local variable or object of the call that happens to come first")
    ctx.rule("process", "operations neither change settings of the whole process nor end it")
    p = ctx.p
    s = Storage(p)
    ctx.need("functions", p.functions)
    ctx.cover(*[f["n"] for f in p.functions.values()])
    ctx.need("variables that outlive a call", s.vars)
    for gn, v in sorted(s.vars.items()):
        ctx.count("variables that outlive a call")
        t = str(v.get("t", ""))
        name = gn.split("@")[0]
        if v["local"] is not None and isinstance(v.get("init"), dict):
            bad = [x for x in walk(v["init"]) if x.get("k") == "this" or x.get("k") == "var" and not x.get("gn") or x.get("k") == "lambda" and x.get("caps")]
            what = "the object" if bad and bad[0].get("k") == "this" else bad[0].get("n", "captured variables") if bad else ""
            ctx.check(not bad, "first call", where(v["local"], v), "%s keeps the value it gets in the first call: its initialiser refers to %s" % (name, what), key="first|%s" % name, what=name)
        if v.get("const") and not t.endswith("*"):
            ctx.ok("kept state", "%s is constant" % name)
            continue
        if t.replace("const", "").strip(" *&") == "Logger" or t == "std::unique_ptr<Logger>" or t.startswith(RANDOM) or t.startswith(ONCE):
            ctx.ok("kept state", "%s: %s" % (name, t))
            continue
        ws = [(f, x, how) for f, x, how in s.writes.get(gn, ())]
        uses = ws + s.reads.get(gn, [])
        free = [u for u in uses if not s.once(u[0], u[1], gn) and not s.startup(u[0])]
        used = s.reads.get(gn) or any(how != "is assigned" for _, _, how in ws)
        bad = ws and used and free
        f, x, how = (ws or uses or [(None, v, "")])[0]
        g = next((u for u in free if u[2]), free[0])[0] if free else f
        ctx.check(not bad, "kept state", where(f, x) if f else "%s:%s" % (v.get("file"), v.get("l")),
                  "%s keeps its value from one call to the next: it %s in %s and is used in %s" % (name, how, f and f["n"], g and g["n"]), key="state|%s" % name, what=name)
    for f in p.functions.values():
        for x in nodes(f):
            if x.get("k") != "call":
                continue
            n = x.get("n", "")
            ctx.count("calls")
            if n in SETTINGS:
                if n == "setlocale" and len(x.get("a", ())) == 2 and any(y.get("k") == "null" or y.get("k") == "int" and y.get("v") == 0 for y in walk(x["a"][1])):
                    continue        # only asks
                ctx.check(s.startup(f) or s.once(f, x), "process", where(f, x), "%s changes a setting of the whole process: %s" % (f["n"], n), key="set|%s|%s" % (f["n"], n), what="%s in %s" % (n, f["n"]))
            elif n in ENDS:
                ctx.check(False, "process", where(f, x), "%s ends the process: %s" % (f["n"], n), key="end|%s|%s" % (f["n"], n))
    ctx.ok("process", "%d calls" % ctx.counts.get("calls", 0))
