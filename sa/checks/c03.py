"""C03: bounds of every access while changeset bytes are read.

(1) The reader is interpreted over files whose bytes are undetermined (see c04): no cell of the partition may
access memory outside of the loaded bytes or use memory that was never written.
(2) Loading: the function that fills the buffer is interpreted over terms; at each normal exit the size the
buffer reports must be what was allocated and what was really read.
(3) The conversion of values that came from a changeset to SQL text reads inside of the value's bytes, for
geometries of every length around the header's length and any content.
"""
from ..bits import *
from .. import bits
from ..engine import Engine, Hooks, AnalysisError
from ..terms import is_loc, show, binop, S, subst
from .. import models, codec, astutil
from . import c04

LEVEL = "other"
ASSUMPTIONS = list(c04.ASSUMPTIONS) + ["the functions of the C library and of SQLite stay inside the lengths they are given"]


def one(ctx, job):
    if job[0] == "buffer":
        return buffers(ctx)
    if job[0] == "values":
        return values(ctx)
    c04.explore(ctx, job, True)


def buffers(ctx):
    p = ctx.p
    for f in p.functions.values():
        if not f.get("method") or f.get("cls") != "Buffer" or "body" not in f:
            continue
        names = [c.get("n") for c in astutil.calls(f)]
        if not any(n in ("fread", "std::basic_istream::read") for n in names):
            reach = astutil.reachable(p, [f])
            if not any(c.get("n") in ("fread",) for g in reach for c in astutil.calls(g)):
                continue
        sizefn = [g for g in p.byname.get("Buffer::size", []) if "body" in g]
        ptrfn = [g for g in p.byname.get("Buffer::c_buf", []) if "body" in g]
        if not sizefn or not ptrfn:
            ctx.notes.append("Buffer::size or c_buf not found")
            return

        class H(Hooks):
            def post_call(s, en, st, name, this, args, ret, e):
                if name in ("fread",):
                    st.mon["read"] = (args[0], args[1], args[2], ret, e.get("l"))
                elif name in ("sqlite3_malloc", "sqlite3_malloc64", "malloc", "sqlite3_realloc", "sqlite3_realloc64", "realloc"):
                    if ret is not None and st.mon.get("alloc") is None or ret is not None:
                        st.mon["alloc"] = (ret, args[-1])
        try:
            en = Engine(p, models.FULL, H(), limit=60)
            res, thrown = en.run(f)
        except AnalysisError as x:
            ctx.incomplete.append("%s: %s" % (f["n"], x))
            continue
        ctx.cover(*en.covered)
        for st, _ in res:
            if "read" not in st.mon and "alloc" not in st.mon:
                # nothing loaded: nothing may be reported as available
                size = call(en, st, sizefn[0])
                d = en.truth(st, binop("==", size, models.ZERO)) if size is not None else None
                ctx.count("exits of the loading function")
                ctx.check(d is not False, "loading", codec.where(f), "the buffer reports bytes although nothing was loaded", key="loading|none", what="nothing loaded")
                continue
            ctx.count("exits of the loading function")
            size = call(en, st, sizefn[0])
            ptr = call(en, st, ptrfn[0])
            if size is None or ptr is None:
                continue
            alloc, rd = st.mon.get("alloc"), st.mon.get("read")
            if alloc is not None and alloc[0] is ptr:
                more = en.truth(st, binop("<=", size, alloc[1]))
                ctx.check(more is True or size is alloc[1], "loading", codec.where(f), "the buffer reports %s bytes but %s were allocated" % (show(size), show(alloc[1])), key="loading|alloc", path=st.path(), what="allocation")
            if rd is not None:
                a, b, n, ret, l = rd
                whole = binop("*", b, n) if b is not models.ONE else n
                ok = en.truth(st, binop("==", ret, n)) is True or ret is size
                ctx.check(ok, "loading", "%s:%s" % (codec.where(f).split(":")[0], l), "a short read is not noticed: the bytes after it are used although they were never read", key="loading|short", path=st.path(), what="short read")
                ctx.check(en.truth(st, binop("<=", size, whole)) is True or size is whole or size is ret, "loading", codec.where(f),
                          "the buffer reports %s bytes but %s were read" % (show(size), show(whole)), key="loading|count", path=st.path(), what="bytes read")
                if alloc is not None and alloc[0] is a:
                    ctx.check(en.truth(st, binop("<=", whole, alloc[1])) is True or whole is alloc[1], "loading", codec.where(f),
                              "%s bytes are read into a buffer of %s" % (show(whole), show(alloc[1])), key="loading|room", path=st.path(), what="room")


def call(en, st, fn):
    """value of a const accessor in the state"""
    from ..terms import loc
    s = st.clone()
    en.tc.append([])
    try:
        r = en.inline(fn, s, [], loc(("o", "this")), {"x": 0, "l": fn["l"]})
    finally:
        en.tc.pop()
    return r[0][1] if len(r) == 1 else None


def values(ctx):
    p = ctx.p
    cand = [f for f in p.functions.values() if "body" in f and len(f["params"]) == 2 and f["file"].endswith("postgresdriver.cpp")
            and any(p.types.get(q["t"].replace("const ", "").replace(" &", ""), {}).get("cls") == "Value" for q in f["params"])
            and any("TableColumnInfo" in q["t"] for q in f["params"])]
    if not cand:
        ctx.notes.append("no conversion of values to SQL found")
    for f in cand:
        ctx.cover(f["n"])
        for geom in (0, 1):
            for t in (3, 4):
                for n in list(range(0, 12)) + [39, 40, 41, 56, 57, 72, 73]:
                    def body(it):
                        col = it.default("TableColumnInfo")
                        col.f["isGeometry"] = K(geom, 1)
                        col.f["geomSrsId"] = K(4326, 32)
                        for k, v in list(col.f.items()):
                            if v is UNDEF:
                                d = next(x["t"] for x in p.recbycls["TableColumnInfo"]["fields"] if x["n"] == k)
                                col.f[k] = it.zero(d)
                        # the header bytes are free, the rest is fixed
                        data = [sym("g%d" % i, 8) if i in (3,) else K(0x41 + i % 7, 8) for i in range(n)]
                        v = codec.set_value(it, it.default("Value"), (t, data))
                        args = [Ref({0: v if "Value" in q["t"] else col}, 0) for q in f["params"]]
                        it.callfn(f, args)
                        return None
                    try:
                        done, cov = cells(p, body, maxcells=2000, ext=codec.ext())
                    except AnalysisError as x:
                        ctx.incomplete.append("%s with %d bytes: %s" % (f["n"], n, x))
                        return
                    ctx.cover(*cov)
                    for cell, r in done:
                        ctx.count("values converted")
                        ctx.check(r[0] not in ("oob", "undef"), "values", codec.where(f), "a %s of %d bytes is read beyond its end" % ("geometry" if geom else "value", n),
                                  key="values|%s" % f["n"], what="%d bytes" % n)


def run(ctx):
    ctx.rule("bounds", "no access outside the loaded bytes or to memory that was never written, for any content")
    ctx.rule("loading", "the size the buffer reports is the size allocated and really read")
    ctx.rule("values", "converting a value read from a changeset stays inside its bytes")
    ctx.need("reader", codec.fn(ctx.p, "ChangesetReader::nextEntry"))
    js = c04.jobs(ctx)
    js.insert(0, ("buffer",))
    js.insert(0, ("values",))
    ctx.par(one, js)
