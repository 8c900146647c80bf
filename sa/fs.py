"""Interpretation of the exported operations over an abstract file system.

Contents of files and databases are provenance terms: file0(p) is what p holds at the start,
diff(a,b) a comparison, inv(c) an inversion, apply(d,c) a database after applying, and so on.  The
monitor state of a path maps paths to contents, and records which steps failed on the path.
"""
from .terms import *
from .models import V, VT, vals, nn, FULL, M
from .contracts import UP, entry_value
from .engine import Engine, Hooks, State, AnalysisError

ABSENT = mk("absent")


def get(st, p):
    return st.mon.get(("f", p)) or mk("file0", p)


def put(en, st, p, c, e, op):
    st.mon[("f", p)] = c
    st.mon["log"] = st.mon.get("log", ()) + ((op, p, c, en.where(e)),)
    st.note(en.where(e), "%s: %s := %s" % (op, show(p), show(c)[:160]))


def fail(en, st, what, e, cls="GeoDiffException"):
    """the step fails by exception in a copy of st"""
    s = st.clone()
    s.mon["failed"] = s.mon.get("failed", ()) + ((what, en.where(e)),)
    s.note(en.where(e), what + " fails")
    en.throw(s, cls, S("excmsg"), e)


def failed(en, st, what, e):
    """copy of st where the step has failed and reports it by its result"""
    s = st.clone()
    s.mon["failed"] = s.mon.get("failed", ()) + ((what, en.where(e)),)
    s.note(en.where(e), what + " fails")
    return s


def did(en, st, what, e, *args):
    st.mon["log"] = st.mon.get("log", ()) + ((what,) + args + (en.where(e),),)


FS = dict(UP)
for _k in ("fileexists",):
    FS.pop(_k, None)


def fsm(*names):
    def deco(f):
        for n in names:
            FS[n] = f
        return f
    return deco


# ---- changeset files ---------------------------------------------------------------------------

@fsm("ChangesetReader::open")
def r_open(en, st, this, args, e):
    # whether a file can be read does not change while its content stays the same
    f = V(en, st, args, e, 0)
    c = get(st, f)
    seen = st.mon.get(("readable", c))
    s2 = failed(en, st, "opening " + show(f), e)
    s2.mon[("readable", c)] = 0
    if c is ABSENT or seen == 0:
        return [(s2, FALSE)]
    did(en, st, "read", e, f, c)
    en.save(st, this, mk("reader", f, c, C("start")), e)
    st.mon[("readable", c)] = 1
    if seen == 1:
        return [(st, TRUE)]
    return [(st, TRUE), (s2, FALSE)]


def rd(en, st, l):
    v = en.load(st, l) if is_loc(l) else l
    return v if v.op == "reader" else None


@fsm("ChangesetReader::nextEntry")
def r_next(en, st, this, args, e):
    fail(en, st, "reading an entry", e)
    s2 = st.clone()
    r = rd(en, st, this)
    if r is not None:
        en.save(s2, this, mk("reader", r.a[0], r.a[1], C("end")), e)
        en.save(st, this, mk("reader", r.a[0], r.a[1], C("mid")), e)
    en.save(st, args[0], entry_value(en, st, e, r or S("reader?")), e)
    return [(st, TRUE), (s2, FALSE)]


def emptiness(c):
    """an inverted changeset is empty exactly if the changeset is"""
    while isinstance(c, T) and c.op == "inv":
        c = c.a[0]
    return mk("isEmpty", c)


@fsm("ChangesetReader::isEmpty")
def r_empty(en, st, this, args, e):
    r = rd(en, st, this)
    t = emptiness(r.a[1] if r is not None else VT(en, st, this))
    en.termtype[t] = "bool"
    return [(st, t)]


@fsm("ChangesetReader::rewind")
def r_rewind(en, st, this, args, e):
    r = rd(en, st, this)
    if r is not None:
        en.save(st, this, mk("reader", r.a[0], r.a[1], C("start")), e)
    return [(st, ZERO)]


@fsm("ChangesetWriter::open")
def w_open(en, st, this, args, e):
    f = V(en, st, args, e, 0)
    fail(en, st, "opening " + show(f), e)
    s2 = failed(en, st, "opening " + show(f), e)
    put(en, st, f, mk("buffered", mk("nothing")), e, "open")
    en.save(st, this, mk("writer", f), e)
    return [(st, TRUE), (s2, FALSE)]


def wpath(en, st, l):
    v = en.load(st, l) if is_loc(l) else l
    return v.a[0] if v.op == "writer" else None


@fsm("ChangesetWriter::close")
def w_close(en, st, this, args, e):
    f = wpath(en, st, this)
    fail(en, st, "closing the output", e)
    if f is not None:
        c = get(st, f)
        if c.op == "buffered":
            put(en, st, f, c.a[0], e, "close")
        en.save(st, this, mk("closed", "ChangesetWriter"), e, quiet=True)
    return [(st, ZERO)]


def w_dtor(en, st, l, tname, e):
    f = wpath(en, st, l)
    if f is not None:
        c = get(st, f)
        if c.op == "buffered":
            put(en, st, f, mk("unchecked", c.a[0]), e or {}, "close by destructor")
    return [st]


FS["dtor:ChangesetWriter"] = w_dtor


# ---- databases ---------------------------------------------------------------------------------

def drv(en, st, this):
    h = this
    if is_loc(h) and h.a[0][0] == "x" and not h.a[1]:
        h = h.a[0][1]
    return h


def dbs(st, h):
    return st.mon.get(("d", h), (None, None))


def conn(en, st, args, e):
    m = V(en, st, args, e, 0)
    out = []
    from .models import has
    for k in ("base", "modified", "conninfo"):
        if has(m, C(k)) is False or has(m, C(k)) is FALSE or has(m, C(k)) is ZERO:
            out.append(None)
        else:
            v = at(m, C(k))
            out.append(None if v is EMPTY or v.op in ("at", "undef") and v.a[0] is M.get("default:std::map") else v)
    return out


@fsm("Driver::open")
def d_open(en, st, this, args, e):
    h = drv(en, st, this)
    b, m, ci = conn(en, st, args, e)
    fail(en, st, "opening the database", e)
    st.mon[("d", h)] = (b, m)
    did(en, st, "dbopen", e, h, b, m, ci)
    if b is not None:
        did(en, st, "read", e, b, get(st, b))
    if m is not None:
        did(en, st, "read", e, m, get(st, m))
    return [(st, ZERO)]


@fsm("Driver::create")
def d_create(en, st, this, args, e):
    h = drv(en, st, this)
    b, m, ci = conn(en, st, args, e)
    fail(en, st, "creating the database", e)
    st.mon[("d", h)] = (b, m)
    did(en, st, "dbopen", e, h, b, m, ci)
    ow = V(en, st, args, e, 1) if len(args) > 1 else FALSE
    if b is not None:
        put(en, st, b, mk("newdb", ow), e, "create")
    return [(st, ZERO)]


@fsm("Driver::createTables")
def d_tables(en, st, this, args, e):
    b, _ = dbs(st, drv(en, st, this))
    fail(en, st, "creating the tables", e)
    if b is not None:
        put(en, st, b, mk("withTables", get(st, b), V(en, st, args, e, 0)), e, "createTables")
    return [(st, ZERO)]


@fsm("Driver::createChangeset")
def d_diff(en, st, this, args, e):
    b, m = dbs(st, drv(en, st, this))
    f = wpath(en, st, args[0])
    if f is not None:
        s = st.clone()
        put(en, s, f, mk("buffered", mk("partial")), e, "createChangeset")
        fail(en, s, "comparing", e)
        x = mk("diff", get(st, b) if b is not None else S("none"), get(st, m) if m is not None else S("none"))
        put(en, st, f, mk("buffered", x), e, "createChangeset")
    else:
        fail(en, st, "comparing", e)
    return [(st, ZERO)]


@fsm("Driver::dumpData")
def d_dump(en, st, this, args, e):
    b, m = dbs(st, drv(en, st, this))
    um = V(en, st, args, e, 1) if len(args) > 1 else FALSE
    f = wpath(en, st, args[0])
    if f is not None:
        s = st.clone()
        put(en, s, f, mk("buffered", mk("partial")), e, "dumpData")
        fail(en, s, "dumping", e)
        src = m if um is TRUE else b
        put(en, st, f, mk("buffered", mk("dump", get(st, src) if src is not None else S("none"))), e, "dumpData")
    else:
        fail(en, st, "dumping", e)
    return [(st, ZERO)]


@fsm("Driver::applyChangeset")
def d_apply(en, st, this, args, e):
    b, m = dbs(st, drv(en, st, this))
    r = rd(en, st, args[0])
    fail(en, st, "applying", e)
    if r is not None and b is not None:
        c = r.a[1] if r.a[2] is C("start") else mk("rest", r.a[1], r.a[2])
        put(en, st, b, mk("apply", get(st, b), c), e, "applyChangeset")
    return [(st, ZERO)]


@fsm("Driver::checkCompatibleForRebase")
def d_compat(en, st, this, args, e):
    b, m = dbs(st, drv(en, st, this))
    um = V(en, st, args, e, 0) if args else FALSE
    fail(en, st, "checking that the database can be rebased", e)
    x = m if um is TRUE else b
    did(en, st, "compatible", e, get(st, x) if x is not None else S("none"))
    return [(st, ZERO)]


@fsm("Driver::listTables")
def d_list(en, st, this, args, e):
    b, m = dbs(st, drv(en, st, this))
    um = V(en, st, args, e, 0) if args else FALSE
    fail(en, st, "listing the tables", e)
    x = m if um is TRUE else b
    return [(st, mk("tables", get(st, x) if x is not None else S("none")))]


@fsm("Driver::tableSchema")
def d_schema(en, st, this, args, e):
    b, m = dbs(st, drv(en, st, this))
    um = V(en, st, args, e, 1) if len(args) > 1 else FALSE
    fail(en, st, "reading a table definition", e)
    x = m if um is TRUE else b
    return [(st, mk("schema", get(st, x) if x is not None else S("none"), V(en, st, args, e, 0)))]


@fsm("Driver::createDriver")
def d_new(en, st, this, args, e):
    s2 = failed(en, st, "creating the driver", e)
    h = en.fresh(st, "driver", e)
    st.mon[("n", h)] = V(en, st, args, e, 0)
    nn(st, h)
    return [(st, h), (s2, NULL)]


@fsm("Driver::driverIsRegistered")
def d_reg(en, st, this, args, e):
    t = mk("registered", V(en, st, args, e, 0))
    en.termtype[t] = "bool"
    return [(st, t)]


# ---- whole-changeset functions -----------------------------------------------------------------

@fsm("invertChangeset")
def f_inv(en, st, this, args, e):
    f = r = None
    for a in args:
        r = r or rd(en, st, a)
        f = f or wpath(en, st, a)
    if r is None or f is None:
        fail(en, st, "inverting", e)
        return [(st, ZERO)]
    s = st.clone()
    put(en, s, f, mk("buffered", mk("partial")), e, "invertChangeset")
    fail(en, s, "inverting", e)
    c = r.a[1] if r.a[2] is C("start") else mk("rest", r.a[1], r.a[2])
    put(en, st, f, mk("buffered", mk("inv", c)), e, "invertChangeset")
    return [(st, ZERO)]


@fsm("changesetToJSON", "changesetToJSONSummary")
def f_json(en, st, this, args, e):
    r = rd(en, st, args[0])
    fail(en, st, "listing", e)
    if r is None:
        return [(st, mk("json", e["n"], S("?")))]
    c = r.a[1] if r.a[2] is C("start") else mk("rest", r.a[1], r.a[2])
    en.save(st, args[0], mk("reader", r.a[0], r.a[1], C("end")), e)
    return [(st, mk("json", e["n"], c))]


@fsm("conflictsToJSON")
def f_conf(en, st, this, args, e):
    fail(en, st, "listing the conflicts", e)
    return [(st, mk("conflictsJSON", V(en, st, args, e, 0)))]


@fsm("tableSchemaConvert")
def f_conv(en, st, this, args, e):
    fail(en, st, "converting a table definition", e)
    a = vals(en, st, args, e)
    for i, n in enumerate(e["a"]):
        if en.ty(n["t"]).get("cls") == "TableSchema" and is_loc(args[i]):
            en.save(st, args[i], mk("convert", *[a[j] for j in range(len(a)) if j != i], a[i]), e)
    return [(st, ZERO)]


def opaque_step(en, st, fn, args, e):
    """a project function that works on a changeset reader: outputs depend on all inputs"""
    name = fn["n"]
    ins = []
    path = None
    for a, n, p in zip(args, e["a"], fn["params"]):
        v = en.load(st, a) if is_loc(a) else a
        r = rd(en, st, a)
        if r is not None:
            ins.append(r.a[1] if r.a[2] is C("start") else mk("rest", r.a[1], r.a[2]))
        else:
            cls = en.ty(en.ty(p["t"]).get("to", "")).get("cls") or en.ty(p["t"]).get("cls")
            if en.ty(n["t"]).get("cls") == "std::basic_string":
                path = v
            ins.append(v)
    s = st.clone()
    if path is not None:
        put(en, s, path, mk("partial"), e, name)
    fail(en, s, name, e)
    outs = []
    if en.ty(fn["ret"]).get("k") in ("int",):
        b = failed(en, s, name, e)
        rc = S("rc", name)
        b.facts[rc] = ("d", frozenset([1, 2, 3]))
        outs.append((b, rc))
    for i, (a, p) in enumerate(zip(args, fn["params"])):
        pd = en.ty(p["t"])
        if rd(en, st, a) is not None:
            r = rd(en, st, a)
            if is_loc(a):
                en.save(st, a, mk("reader", r.a[0], r.a[1], C("end")), e)
            continue
        if p.get("ref") and not en.ty(en.ty(p["t"]).get("to", "")).get("const") and not pd.get("const") and not p["t"].startswith("const ") and is_loc(a):
            en.save(st, a, mk("res", name, i, *ins), e)
    if path is not None:
        put(en, st, path, mk("res", name, "file", *ins), e, name)
    outs.append((st, ZERO))
    return outs


# ---- plain files -------------------------------------------------------------------------------

@fsm("stat", "access", "PathFileExists")
def f_stat(en, st, this, args, e):
    p = V(en, st, args, e, 0)
    c = get(st, p)
    if c is ABSENT:
        return [(st, C(-1))]
    if c.op != "file0":
        return [(st, ZERO)]
    t = mk("statrc", p)
    if not st.facts.get(t):
        s2 = st.clone()
        st.facts[t] = ("d", frozenset([0]))
        s2.facts[t] = ("d", frozenset([-1]))
        s2.mon[("f", p)] = ABSENT
        return [(st, ZERO), (s2, C(-1))]
    return [(st, t)]


@fsm("remove", "unlink")
def f_remove(en, st, this, args, e):
    put(en, st, V(en, st, args, e, 0), ABSENT, e, "remove")
    return [(st, ZERO)]


@fsm("rename")
def f_rename(en, st, this, args, e):
    a, b = V(en, st, args, e, 0), V(en, st, args, e, 1)
    s2 = failed(en, st, "renaming", e)
    put(en, st, b, get(st, a), e, "rename")
    put(en, st, a, ABSENT, e, "rename")
    return [(st, ZERO), (s2, C(-1))]


@fsm("std::basic_ofstream::ctor", "std::basic_ofstream::open")
def o_open(en, st, this, args, e):
    if not args:
        return [(st, mk("ofs", NULL))]
    p = V(en, st, args, e, 0)
    put(en, st, p, mk("buffered", mk("nothing")), e, "open")
    v = mk("ofs", p)
    if e["n"].endswith("open"):
        en.save(st, this, v, e)
        return [(st, ZERO)]
    return [(st, v)]


@fsm("std::basic_ifstream::ctor")
def i_open(en, st, this, args, e):
    if not args:
        return [(st, mk("ifs", NULL, ABSENT))]
    p = V(en, st, args, e, 0)
    did(en, st, "read", e, p, get(st, p))
    return [(st, mk("ifs", p, get(st, p)))]


def stv(en, st, l):
    v = en.load(st, l) if is_loc(l) else l
    return v


@fsm("std::basic_ofstream::close", "std::basic_ostream::flush")
def o_close(en, st, this, args, e):
    v = stv(en, st, this)
    if v.op == "ofs":
        c = get(st, v.a[0])
        if c.op == "buffered":
            put(en, st, v.a[0], mk("unchecked", c.a[0]), e, "close")
    return [(st, this if e.get("gl") else ZERO)]


def o_dtor(en, st, l, tname, e):
    v = stv(en, st, l)
    if v.op == "ofs":
        c = get(st, v.a[0])
        if c.op == "buffered":
            put(en, st, v.a[0], mk("unchecked", c.a[0]), e or {}, "close by destructor")
    return [st]


FS["dtor:std::basic_ofstream"] = o_dtor
FS["dtor:std::basic_ifstream"] = lambda en, st, l, tname, e: [st]


def io_state(neg):
    def m(en, st, this, args, e):
        v = stv(en, st, this)
        bad, good = (TRUE, FALSE) if neg else (FALSE, TRUE)
        if v.op not in ("ofs", "ifs"):
            return FULL[e["n"]](en, st, this, args, e)
        if ("bad", v) in st.mon:
            return [(st, bad)]
        if v.op == "ifs" and v.a[1] is ABSENT:
            s2 = failed(en, st, "reading " + show(v.a[0]), e)
            s2.mon[("bad", v)] = 1
            return [(s2, bad)]
        s2 = failed(en, st, "accessing " + show(v.a[0]), e)
        s2.mon[("bad", v)] = 1
        if v.op == "ofs":
            c = get(st, v.a[0])
            if c.op == "unchecked":
                st.mon[("f", v.a[0])] = c.a[0]
        return [(st, good), (s2, bad)]
    return m


for _n in ("operator!", "fail", "bad"):
    FS["std::basic_ios::" + _n] = io_state(True)
for _n in ("good", "operator bool"):
    FS["std::basic_ios::" + _n] = io_state(False)


@fsm("std::basic_ios::eof")
def i_eof(en, st, this, args, e):
    t = en.fresh(st, "eof", e)
    en.termtype.setdefault(t, "bool")
    return [(st, t)]


@fsm("std::basic_istream::peek")
def i_peek(en, st, this, args, e):
    v = stv(en, st, this)
    t = mk("peek", v.a[1] if v.op == "ifs" else v)
    return [(st, t)]


@fsm("std::char_traits::eof")
def i_ceof(en, st, this, args, e):
    return [(st, C(-1))]


@fsm("std::basic_ifstream::rdbuf")
def i_rdbuf(en, st, this, args, e):
    v = stv(en, st, this)
    return [(st, mk("contents", v.a[1]) if v.op == "ifs" else mk("rdbuf", v))]


_put = FULL["std::basic_ostream::operator<<"]


@fsm("std::basic_ostream::operator<<", "std::operator<<", "std::basic_ostream::write")
def o_put(en, st, this, args, e):
    tgt = this if this is not None else args[0]
    v = stv(en, st, tgt)
    if v.op != "ofs":
        m = FULL.get(e["n"])
        return m(en, st, this, args, e)
    i = 0 if this is not None else 1
    x = V(en, st, args, e, i)
    c = get(st, v.a[0])
    if c.op == "buffered":
        old = c.a[0]
        new = x.a[0] if x.op == "contents" else x
        put(en, st, v.a[0], mk("buffered", new if old.op == "nothing" else mk("cat", old, new)), e, "write")
    return [(st, tgt)]


# ---- buffers and changegroups ------------------------------------------------------------------

@fsm("Buffer::ctor", "Buffer::Buffer")
def b_ctor(en, st, this, args, e):
    return [(st, mk("buf", mk("nothing")))]


FS["default:Buffer"] = mk("buf", mk("nothing"))
FS["dtor:Buffer"] = lambda en, st, l, tname, e: [st]


@fsm("Buffer::read")
def b_read(en, st, this, args, e):
    if len(args) == 1:
        f = V(en, st, args, e, 0)
        if st.mon.get(("readable", get(st, f))) != 1:
            fail(en, st, "reading " + show(f), e)
        st.mon[("readable", get(st, f))] = 1
        did(en, st, "read", e, f, get(st, f))
        en.save(st, this, mk("buf", get(st, f)), e)
    else:
        x = V(en, st, args, e, 1)
        en.save(st, this, mk("buf", st.mon.get(("out", x), mk("mem?", x))), e)
    return [(st, ZERO)]


def bufv(en, st, this):
    v = stv(en, st, this)
    return v.a[0] if v.op == "buf" else v


@fsm("Buffer::isEmpty")
def b_empty(en, st, this, args, e):
    t = emptiness(bufv(en, st, this))
    en.termtype[t] = "bool"
    return [(st, t)]


@fsm("Buffer::v_buf", "Buffer::c_buf")
def b_buf(en, st, this, args, e):
    t = mk("bufptr", bufv(en, st, this))
    nn(st, t)
    return [(st, t)]


@fsm("Buffer::size")
def b_size(en, st, this, args, e):
    return [(st, mk("bufsize", bufv(en, st, this)))]


@fsm("Buffer::write")
def b_write(en, st, this, args, e):
    f = V(en, st, args, e, 0)
    s = st.clone()
    put(en, s, f, mk("partial"), e, "write")
    fail(en, s, "writing " + show(f), e)
    fail(en, st, "opening " + show(f), e)
    put(en, st, f, bufv(en, st, this), e, "write")
    return [(st, ZERO)]


@fsm("sqlite3changegroup_new")
def g_new(en, st, this, args, e):
    s2 = failed(en, st, "sqlite3changegroup_new", e)
    h = en.fresh(st, "chgrp", e)
    nn(st, h)
    st.mon[("grp", h)] = ()
    en.save(st, args[0], h, e)
    en.save(s2, args[0], NULL, e)
    return [(st, ZERO), (s2, ONE)]


@fsm("sqlite3changegroup_add")
def g_add(en, st, this, args, e):
    s2 = failed(en, st, "sqlite3changegroup_add", e)
    h = V(en, st, args, e, 0)
    n, p = V(en, st, args, e, 1), V(en, st, args, e, 2)
    ok = p.op == "bufptr" and n.op == "bufsize" and p.a[0] is n.a[0]
    st.mon[("grp", h)] = st.mon.get(("grp", h), ()) + ((p.a[0] if ok else mk("bytes?", p, n)),)
    return [(st, ZERO), (s2, ONE)]


@fsm("sqlite3changegroup_output")
def g_out(en, st, this, args, e):
    s2 = failed(en, st, "sqlite3changegroup_output", e)
    h = V(en, st, args, e, 0)
    b = en.fresh(st, "cgout", e)
    nn(st, b)
    st.mon[("out", b)] = mk("concat", *st.mon.get(("grp", h), ()))
    en.save(st, args[2], b, e)
    en.save(st, args[1], mk("cgsize", b), e)
    en.save(s2, args[2], NULL, e)
    en.save(s2, args[1], ZERO, e)
    return [(st, ZERO), (s2, ONE)]


class FSHooks(Hooks):
    """treats project functions that consume a changeset reader as one step"""
    INLINE = ("rebase",)

    def __init__(self, prog):
        self.p = prog
        self.steps = set()

    def pre_call(self, en, st, name, this, args, e):
        if name in FS or name.startswith("GEODIFF_"):
            return None
        fn = self.p.functions.get(e.get("f"))
        if fn is None or "body" not in fn or fn.get("method") or len(args) != len(fn["params"]):
            return None
        if any(self.p.types.get(p["t"], {}).get("cls") == "ChangesetReader" or "ChangesetReader" in p["t"] for p in fn["params"]):
            self.steps.add(name)
            return opaque_step(en, st, fn, args, e)
        return None


def isempty(en, st, c):
    """is content c known to be empty on this path"""
    if c.op == "nothing":
        return True
    if c.op == "concat":
        return en.truth(st, emptiness(c)) is True or all(isempty(en, st, x) for x in c.a)
    if en.truth(st, emptiness(c)) is True:
        return True
    d = en.dom(st, mk("peek", c))
    return d == frozenset([-1])


def same(en, st, a, b):
    """equal contents, given what is known about emptiness on this path"""
    a, b = norm(a), norm(b)
    if a is b:
        return True
    if isempty(en, st, a) and isempty(en, st, b):
        return True
    if a.op == b.op and len(a.a) == len(b.a) and a.op in ("apply", "inv", "diff", "dump", "json", "concat"):
        return all(x is y or (isinstance(x, T) and isinstance(y, T) and same(en, st, x, y)) for x, y in zip(a.a, b.a))
    return False


def analyse(prog, fn, limit=200, hooks=None, models=None, null=None):
    h = hooks or FSHooks(prog)
    en = Engine(prog, models or FS, h, limit=limit, soft=400, hard=2000)
    st = State()
    args = []
    for q in fn["params"]:
        s = en.symarg(st, fn, q)
        if not is_loc(s) and prog.types.get(q["t"], {}).get("k") == "ptr" and "extrainfo" not in q["n"].lower():
            nn(st, s)
        args.append(s if q["n"] != null or null is None else NULL)
    res, thrown = en.run(fn, args=args, st=st)
    return en, res, thrown


def norm(c):
    """contents without the bookkeeping of buffering"""
    m = {}

    def go(t):
        if not isinstance(t, T):
            return t
        if t in m:
            return m[t]
        if t.op in ("unchecked", "buffered"):
            r = go(t.a[0])
        elif t.op in ("apply",) and isinstance(t.a[1], T) and go(t.a[1]).op == "concat":
            r = go(t.a[0])
            for x in go(t.a[1]).a:
                r = mk("apply", r, x)
        elif t.op in ("c", "sym"):
            r = t
        else:
            r = mk(t.op, *[go(x) if isinstance(x, T) else x for x in t.a])
        m[t] = r
        return r
    return go(c)
