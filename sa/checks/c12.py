"""C12: every exported operation is interpreted over an abstract file system, with a failing variant of each
step; at each exit every file it wrote that is not one of its arguments must have been removed."""
from ..terms import *
from .. import fs, ops

LEVEL = "other"


def one(ctx, fn):
    n = fn["n"]
    en, res, thrown = fs.analyse(ctx.p, fn, limit=200)
    ctx.cover(*en.covered)
    ctx.count("final states", len(res) + len(thrown))
    A = [S("arg", q["n"]) for q in fn["params"]]
    out = [A[i] for i in ops.OUT.get(n, ())]
    for st in [s for s, _ in res] + [s for s, _, _ in thrown]:
        for path, ev in ops.written(st).items():
            if path in A:
                if path not in out and fs.get(st, path) is fs.ABSENT:
                    ctx.viol("not the caller's files", ev[-1], "%s removes its argument %s" % (n, show(path)), key="arg|%s|%s" % (n, show(path)), path=st.path())
                continue
            ctx.count("temporary files at exits")
            c = fs.get(st, path)
            ctx.check(c is fs.ABSENT, "temporary files", ev[-1], "%s leaves the file %s behind (%s)" % (n, show(path), show(fs.norm(c))[:100]),
                      key="tmp|%s|%s" % (n, ev[-1].split(":")[0]) + "|" + show(path).replace("$", "")[-40:], path=st.path(), what="%s: %s" % (n, show(path)))
    if en.unmodelled:
        ctx.notes.append("%s: no model for %s" % (n, ", ".join(sorted(map(str, en.unmodelled)))[:300]))


def run(ctx):
    ctx.rule("temporary files", "a file that is written and is not an argument is removed on every path out of the operation")
    ctx.rule("not the caller's files", "arguments that are not outputs are not removed")
    fns = ops.exported(ctx.p)
    ctx.need("exported operations", fns)
    ctx.par(one, fns)
    ctx.need("temporary files", ctx.counts.get("temporary files at exits"))
