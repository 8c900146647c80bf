"""Runs one property's check: loads the program, runs the analysis, compares the violations with the
recorded findings, writes the evidence file and sets the exit code."""
import importlib, json, multiprocessing as mp, os, re, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

from sa import frontend  # noqa: E402
from sa.engine import AnalysisError  # noqa: E402


class Undecided(Exception):
    """the constructs the property is about cannot be found: no answer"""


class Ctx:
    def __init__(self, prop, tier, prog):
        self.prop = prop
        self.tier = tier
        self.p = prog
        self.violations = []      # dicts
        self.seen = set()
        self.obligations = 0
        self.discharged = 0
        self.rules = {}
        self.functions = set()
        self.samples = []
        self.incomplete = []
        self.notes = []
        self.counts = {}
        self.assumptions = []
        self.thorough = tier == "thorough"

    def rule(self, name, text):
        self.rules[name] = {"rule": text, "obligations": 0, "violated": 0}

    def ok(self, rule, what=None):
        """an obligation that was examined and found to hold"""
        self.obligations += 1
        self.discharged += 1
        self.rules.setdefault(rule, {"rule": rule, "obligations": 0, "violated": 0})["obligations"] += 1
        if what and len(self.samples) < 60:
            s = "%s: %s" % (rule, what)
            if s not in self.samples:
                self.samples.append(s)

    def viol(self, rule, where, msg, key=None, path=()):
        """a construct that breaks the property; key identifies it independently of line numbers"""
        k = key or "%s|%s" % (rule, re.sub(r":\d+", "", str(where)) + "|" + msg)
        self.obligations += 1
        r = self.rules.setdefault(rule, {"rule": rule, "obligations": 0, "violated": 0})
        r["obligations"] += 1
        if k in self.seen:
            return
        self.seen.add(k)
        r["violated"] += 1
        self.violations.append({"rule": rule, "where": str(where), "message": msg, "key": k, "path": list(path)})

    def check(self, cond, rule, where, msg, key=None, path=(), what=None):
        if cond:
            self.ok(rule, what or msg if what else None)
        else:
            self.viol(rule, where, msg, key, path)
        return cond

    def cover(self, *names):
        for n in names:
            self.functions.add(n)

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def need(self, what, n):
        if not n:
            raise Undecided("nothing to analyse: " + what)

    def merge(self, o):
        """results of an analysis that ran in another process"""
        for v in o["violations"]:
            self.viol(v["rule"], v["where"], v["message"], v["key"], v["path"])
        for r, n in o["ok"].items():
            self.obligations += n
            self.discharged += n
            self.rules.setdefault(r, {"rule": r, "obligations": 0, "violated": 0})["obligations"] += n
        self.functions |= set(o["functions"])
        for s in o["samples"]:
            if len(self.samples) < 60 and s not in self.samples:
                self.samples.append(s)
        self.incomplete += o["incomplete"]
        self.notes += o["notes"]
        for k, v in o["counts"].items():
            self.counts[k] = self.counts.get(k, 0) + v

    def par(self, fn, items):
        """fn(ctx, item) in parallel, each with a context of its own; results in the order of items"""
        items = list(items)
        global _work
        _work = (fn, self.prop, self.tier, self.p, items)
        if os.environ.get("SA_SERIAL") or len(items) == 1:
            rs = [_one(i) for i in range(len(items))]
        else:
            with mp.get_context("fork").Pool(min(8, max(1, len(items)))) as pool:
                rs = pool.map(_one, range(len(items)), 1)
        out = []
        for o in rs:
            if "error" in o:
                raise RuntimeError(o["error"])
            self.merge(o)
            out.append(o["ret"])
        return out


_work = None


def _one(i):
    fn, prop, tier, prog, items = _work
    c = Ctx(prop, tier, prog)
    try:
        ret = fn(c, items[i])
    except AnalysisError as x:
        c.incomplete.append("%s: %s" % (label(items[i]), x))
        ret = None
    except Exception:
        if os.environ.get("SA_RAISE"):
            return {"error": "%s: %s" % (label(items[i]), traceback.format_exc())}
        c.incomplete.append("%s: internal: %s" % (label(items[i]), traceback.format_exc().strip().split("\n")[-1]))
        ret = None
    oks = {r: v["obligations"] for r, v in c.rules.items()}
    for v in c.violations:
        oks[v["rule"]] -= 1
    return {"violations": c.violations, "ok": oks, "functions": sorted(c.functions), "samples": c.samples,
            "incomplete": c.incomplete, "notes": c.notes, "counts": c.counts, "ret": ret}


def label(x):
    if isinstance(x, dict):
        return x.get("n", "?")
    if isinstance(x, tuple):
        return label(x[0])
    return str(x)


def known():
    r = {}
    f = VERIF + "/known_findings.txt"
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) key=(.*?) -- (.*)$", l.strip())
            if m:
                r[(m.group(1), m.group(2))] = m.group(3)
    return r


def main(argv):
    prop = argv[0]
    tier = "quick"
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    t0 = time.time()
    mod = importlib.import_module("sa.checks." + prop.lower())
    try:
        prog = frontend.load() if getattr(mod, "NEEDS_CPP", True) else None
        ctx = Ctx(prop, tier, prog)
        mod.run(ctx)
    except (frontend.FrontendError, Undecided, AnalysisError) as x:
        print("NO ANSWER property=%s %s" % (prop, x))
        return 3
    kn = known()
    new = []
    for v in ctx.violations:
        if (prop, v["key"]) in kn:
            print("KNOWN-FINDING: property=%s %s (%s)" % (prop, kn[(prop, v["key"])], v["where"]))
        else:
            new.append(v)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    rp = "evidence/%s.violations.json" % prop
    for v in new:
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        print("  rule %s at %s: %s" % (v["rule"], v["where"], v["message"]))
        for s in v["path"][-25:]:
            print("      " + s)
    if new:
        json.dump(new, open(VERIF + "/" + rp, "w"), indent=1)
    elif os.path.exists(VERIF + "/" + rp):
        os.unlink(VERIF + "/" + rp)
    for x in ctx.incomplete:
        print("NOT ANALYSED: " + x)
    level = getattr(mod, "LEVEL", "other")
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
        "coverage": {
            "obligations": ctx.obligations, "discharged": ctx.discharged,
            "states": ctx.counts.get("abstract states", 0),
            "explanation": "; ".join("%s: %s (%d examined, %d violated)" % (k, v["rule"], v["obligations"], v["violated"])
                                     for k, v in ctx.rules.items()),
            "exhaustive": not ctx.incomplete,
            "trusted_base": ["clang 18 front end (gdast)", "models of the C++ library, SQLite and libpq in sa/models.py"],
        },
        "assumptions": ctx.assumptions + list(getattr(mod, "ASSUMPTIONS", ())),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    ev["coverage"]["detail"] = {"functions analysed": sorted(ctx.functions), "counts": ctx.counts, "rules": ctx.rules,
                    "samples": ctx.samples, "not analysed": ctx.incomplete, "notes": ctx.notes,
                    "known findings": sorted(v["key"] for v in ctx.violations if (prop, v["key"]) in kn),
                    "reported": new}
    json.dump(ev, open(VERIF + "/evidence/%s.json" % prop, "w"), indent=1)
    print("%s %s: %d obligations, %d discharged, %d functions, %d violations, %.1fs" % (
        prop, tier, ctx.obligations, ctx.discharged, len(ctx.functions), len(new), time.time() - t0))
    return 1 if new else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
