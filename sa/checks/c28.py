"""C28: abstract interpretation of the logging path from the C interface to the callback.

The functions of the C interface that configure logging and the logger's methods are interpreted for
every level, every maximum, every order of configuring, with and without a callback and for every kind of
environment variable; the calls of the (unknown) callback and the texts sent to the standard streams
are recorded and compared with the rule in geodiff.h.
"""
from ..world import *

LEVEL = "other"

METHODS = [("Logger::error", 1), ("Logger::warn", 2), ("Logger::info", 3), ("Logger::debug", 4)]
MSG = "message %s 'x'"


class Env:
    def __init__(self, val):
        self.val = val
        self.calls = []
        self.out = []

    def attach(self, w):
        self.w = w

    def icall(self, f, args):
        self.calls.append((f.t, [a for a in args]))
        return None

    def x_getenv(self, k):
        n = text(self.w.cstr(k))
        if n != "GEODIFF_LOGGER_LEVEL" or self.val is None:
            return None
        return Ptr(S(self.val).d + [K(0, 8)], 0)

    def x_secure_getenv(self, k):
        return self.x_getenv(k)

    def x_atoi(self, p):
        t = text(self.w.cstr(p)).strip()
        n = ""
        for c in t:
            if c.isdigit() or (c in "+-" and not n):
                n += c
            else:
                break
        try:
            return K(int(n), 32)
        except ValueError:
            return K(0, 32)

    def x_strtol(self, p, e, b):
        return self.w.resize(self.x_atoi(p), 64, True)

    def stream(self, s, d):
        self.out.append((s.f["n"], text(d)))


def fns(p, name):
    return [f for f in p.byname.get(name, []) if "body" in f]


def run(ctx):
    p = ctx.p
    ctx.rule("gate", "for each level and maximum, with a callback set through the C interface, the callback gets the message exactly once, with the level and text, if the level does not exceed the maximum, and nothing otherwise; without a callback nothing is reported")
    ctx.rule("default", "before anything is configured, a message whose level does not exceed the one of the environment variable (errors only, if it is not set) is written to a standard stream exactly once with its text")
    need = ["GEODIFF_setLoggerCallback", "GEODIFF_setMaximumLoggerLevel", "Logger::instance"] + [m for m, _ in METHODS]
    for n in need:
        ctx.need("function " + n, fns(p, n))
    w32 = 32

    def go(env, steps):
        """runs the steps; returns (callback calls, output) or a message"""
        out = []
        def body(it):
            for name, args in steps:
                if name.startswith("Logger::"):
                    inst = it.callfn(fns(p, "Logger::instance")[0], [])
                    f = [g for g in fns(p, name) if "basic_string" in g["params"][0]["t"]] if args[0] == "msg" else [g for g in fns(p, name) if "Exception" in g["params"][0]["t"]]
                    if not f:
                        raise AnalysisError("no " + name)
                    if args[0] == "msg":
                        a = Ref({0: S(MSG)}, 0)
                    else:
                        ex = it.default("GeoDiffException")
                        c = [g for g in p.byname.get("GeoDiffException::GeoDiffException", []) if len(g["params"]) == 1 and "basic_string" in g["params"][0]["t"]]
                        it.callfn(dict(c[0], body=c[0].get("body") or {"k": "block", "s": []}), [Ref({0: S(MSG)}, 0)], Ref({0: ex}, 0))
                        a = Ref({0: ex}, 0)
                    it.callfn(f[0], [a], inst)
                else:
                    it.callfn(fns(p, name)[0], list(args))
            return None
        done, why = explore(p, lambda: Env(env), body, 200)
        for it, r in done:
            ctx.functions |= it.covered
            if r[0] == "error":
                ctx.incomplete.append(r[1])
                return None
        return done

    def expect(rule, env, steps, want, where, what, stream=False):
        done = go(env, steps)
        if done is None:
            return
        for it, r in done:
            ctx.count("runs")
            e = it.env
            m = None
            if r[0] == "throw":
                m = "throws %s" % r[1]
            elif r[0] != "ok":
                m = "accesses invalid memory or fails (%s)" % r[0]
            else:
                got = []
                for t, a in e.calls:
                    lv = a[0].const() if isinstance(a[0], BV) else None
                    got.append((t, lv, text(it.cstr(a[1])) if isinstance(a[1], (Ptr, Str)) else None))
                hits = sum(t.count(MSG) for _, t in e.out)
                if stream:
                    if got:
                        m = "a callback is called"
                    elif hits != want:
                        m = "written %d times instead of %d" % (hits, want)
                elif got != want:
                    if not want:
                        m = "the message is passed on although it must not be"
                    elif not got:
                        m = "the message does not reach the callback"
                    elif len(got) > len(want):
                        m = "the callback is called %d times" % len(got)
                    else:
                        m = "the callback gets level %s and text '%s' instead of %s and '%s'" % (got[0][1], got[0][2], want[0][1], want[0][2]) if got[0][0] == want[0][0] else "another callback is called"
                elif hits:
                    m = "the message is also written to a standard stream"
            ctx.check(m is None, rule, where, "%s: %s" % (what, m), key="%s|%s|%s" % (rule, where, what), what=what)

    CB, CB2 = Op("callback"), Op("other callback")
    for meth, lv in METHODS:
        kinds = [("msg",)]
        if any("Exception" in g["params"][0]["t"] for g in fns(p, meth)):
            kinds.append(("exception",))
        f = fns(p, meth)[0]
        where = "%s (%s:%d)" % (meth, f["file"].split("/")[-1], f["l"])
        for kind in kinds:
            for mx in range(5):
                sets = [("GEODIFF_setLoggerCallback", (CB,)), ("GEODIFF_setMaximumLoggerLevel", (K(mx, w32),))]
                want = [("callback", lv, MSG)] if lv <= mx else []
                for o, steps in (("callback then maximum", sets), ("maximum then callback", sets[::-1])):
                    expect("gate", None, steps + [(meth, kind)], want, where, "level %d, maximum %d, %s" % (lv, mx, o))
                expect("gate", None, [("GEODIFF_setLoggerCallback", (CB2,)), ("GEODIFF_setMaximumLoggerLevel", (K(4, w32),))] + sets + [(meth, kind)], want, where, "level %d, maximum %d after other settings" % (lv, mx))
                expect("gate", "4", sets + [(meth, kind)], want, where, "level %d, maximum %d, environment variable set" % (lv, mx))
                expect("gate", None, [sets[1], ("GEODIFF_setLoggerCallback", (None,)), (meth, kind)], [], where, "level %d, maximum %d, no callback" % (lv, mx))
                expect("default", None, [sets[1], (meth, kind)], int(lv <= mx), where, "level %d, maximum %d, standard streams" % (lv, mx), True)
            for env, mx in ((None, 1), ("0", 0), ("1", 1), ("2", 2), ("3", 3), ("4", 4)):
                expect("default", env, [(meth, kind)], int(lv <= mx), where, "level %d, environment variable %s" % (lv, env), True)
                expect("gate", env, [("GEODIFF_setLoggerCallback", (CB,)), (meth, kind)], [("callback", lv, MSG)] if lv <= mx else [], where, "level %d, environment variable %s, callback only" % (lv, env))
