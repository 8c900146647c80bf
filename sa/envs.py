"""Abstract environments for whole operations: changeset files, and the pieces both drivers need."""
from .world import *
from .codec import OPS, fn

OPNAME = {v: k[2:].lower() for k, v in OPS.items()}
VT = {0: "undef", 1: "int", 2: "real", 3: "text", 4: "blob", 5: "null"}


class E:
    """an entry of a changeset"""

    def __init__(self, table, pk, op, old=None, new=None):
        self.table, self.pk, self.op, self.old, self.new = table, tuple(pk), op, old, new

    def __repr__(self):
        return "%s %s %s %s -> %s" % (self.op, self.table, "".join("PK"[0] if x else "-" for x in self.pk), show(self.old), show(self.new))

    def key(self):
        return (self.table, self.pk, self.op, tuple(self.old) if self.old is not None else None, tuple(self.new) if self.new is not None else None)


def show(vs):
    if vs is None:
        return "()"
    return "(" + ", ".join(v[0] if len(v) == 1 else "%s %s" % (v[0], v[1]) for v in vs) + ")"


U = ("undef",)
N = ("null",)


def obj(this):
    o = this
    while isinstance(o, (Ref, Own, Sh)):
        o = o.get() if isinstance(o, Ref) else o.p
    return o.at(0).get() if isinstance(o, Ptr) else o


def rv(a):
    return a.get() if isinstance(a, Ref) else a


def mkval(it, v):
    """Value object with the given abstract content"""
    p = it.p
    o = it.default("Value")
    r = Ref({0: o}, 0)
    k = v[0]
    if k == "int":
        it.callfn(fn(p, "Value::setInt"), [K(v[1], 64) if isinstance(v[1], int) else Sc(v[1], 64)], r)
    elif k == "real":
        it.callfn(fn(p, "Value::setDouble"), [K(v[1][1], 64) if v[1][0] == "dbl" and isinstance(v[1][1], int) else Sc(v[1], 64)], r)
    elif k in ("text", "blob"):
        f = fn(p, "Value::setString", 3)
        w = it.tinfo(f["params"][2]["t"])[0]
        t = K(3 if k == "text" else 4, 32)
        if isinstance(v[1], str):
            it.callfn(f, [t, Ptr(S(v[1], v[1]).d + [K(0, 8)], 0), K(len(v[1].encode()), w)], r)
        elif isinstance(v[1], bytes):
            it.callfn(f, [t, Ptr([K(c, 8) for c in v[1]] + [K(0, 8)], 0), K(len(v[1]), w)], r)
        else:
            it.callfn(f, [t, Op(("data", v[1])), Sc(("len", v[1]), w)], r)
    elif k == "null":
        it.callfn(fn(p, "Value::setNull"), [], r)
    return r.get()


def content(d):
    """abstract content of a text"""
    if len(d) == 1 and isinstance(d[0], Chunk):
        t, n = d[0].t, d[0].n
        if isinstance(t, tuple) and t[0] == "data":
            while isinstance(n, tuple) and n[0] in ("sext", "zext"):
                n = n[1]
            if n == ("len", t[1]):
                return t[1]
            return ("cut", t[1], n)
        return ("bytes", t, n)
    if all(not isinstance(c, Chunk) and c.const() is not None for c in d):
        b = bytes(c.const() for c in d)
        try:
            return b.decode()
        except UnicodeDecodeError:
            return b
    return ("parts",) + tuple((c.t, c.n) if isinstance(c, Chunk) else c.const() for c in d)


def getval(it, o):
    p = it.p
    r = Ref({0: o}, 0)
    t = it.term(it.callfn(fn(p, "Value::type"), [], r))
    k = VT.get(t, "?")
    if k == "int":
        v = it.callfn(fn(p, "Value::getInt"), [], r)
        v = rv(v)
        return (k, v.t if isinstance(v, Sc) else it.sconst(v))
    if k == "real":
        v = rv(it.callfn(fn(p, "Value::getDouble"), [], r))
        return (k, v.t if isinstance(v, Sc) else ("dbl", v.const()))
    if k in ("text", "blob"):
        s = rv(it.callfn(fn(p, "Value::getString"), [], r))
        return (k, content(s.d))
    return (k,)


def getvals(it, v):
    return [getval(it, x) for x in v.d]


def geoexc(it, msg):
    cls = "GeoDiffException"
    o = it.default_of_class(cls)
    if isinstance(o, Obj):
        for c in it.lineage(cls):
            for f in (it.recof(c) or {}).get("fields", ()):
                if it.ty(f["t"]).get("cls") == "std::basic_string":
                    o.f[f["n"]] = S(msg)
    x = Thrown(cls)
    x.val = o
    return x


class Env:
    """changeset files and the log"""
    finite = True       # real values are finite numbers

    maybe = ()      # files that may or may not exist

    def __init__(self, p, files=None):
        self.p = p
        self.files = files or {}
        self.out = {}           # path -> list of events
        self.events = []
        self.res = {}           # resource -> kind
        self.misuse = []
        self.removed = []

    # -- resources
    def acquire(self, kind, key):
        self.res[(kind, key)] = True

    def release_(self, kind, key, what):
        st = self.res.get((kind, key))
        if st is None:
            self.misuse.append("%s: not a %s" % (what, kind))
        elif st is False:
            self.misuse.append("%s: the %s was released before" % (what, kind))
        self.res[(kind, key)] = False

    def use(self, kind, key, what):
        if self.res.get((kind, key)) is False:
            self.misuse.append("%s: the %s was released before" % (what, kind))

    def leaks(self):
        return sorted({k[0] for k, v in self.res.items() if v})

    # -- attach
    def attach(self, w):
        self.w = w
        x = w.ext
        for n in ("open", "nextEntry", "isEmpty", "rewind"):
            x["ChangesetReader::" + n] = getattr(self, "r_" + n)
        for n in ("open", "beginTable", "writeEntry", "close"):
            x["ChangesetWriter::" + n] = getattr(self, "w_" + n)
        x["ChangesetReader::ctor"] = lambda it, this, a, e: Obj("ChangesetReader", {"$key": None, "$pos": 0, "$tab": None})
        x["ChangesetWriter::ctor"] = lambda it, this, a, e: Obj("ChangesetWriter", {"$key": None})
        x["ChangesetReader::~ChangesetReader"] = x["ChangesetWriter::~ChangesetWriter"] = lambda it, this, a, e: None
        for n in list(self.p.byname):
            if n.startswith("Logger::") and n.split("::")[1] in ("error", "warn", "info", "debug"):
                x[n] = lambda it, this, a, e, n=n: self.events.append(("log", n.split("::")[1]))
        x["fileexists"] = self.f_exists
        x["fileremove"] = self.f_remove
        x["Logger::maxLogLevel"] = lambda it, this, a, e: K(0, 32)

    def stream(self, s, d):
        pass

    def x_snprintf(self, buf, n, f, *a):
        import re, struct
        w = self.w
        fm = text(w.cstr(f))
        args = list(a)
        out = []
        pos = 0
        for m in re.finditer(r"%([-+ #0]*\d*(?:\.(?:\d+|\*))?)(hh|h|ll|l|z|j)?([a-zA-Z%])", fm):
            out += S(fm[pos:m.start()]).d
            pos = m.end()
            c = m.group(3)
            if c == "%":
                out += S("%").d
                continue
            if not args:
                w.errors.append((0, "format string with too few arguments"))
                raise OutOfBounds()
            fl = m.group(1)
            if "*" in fl:
                fl = fl.replace("*", str(w.sconst(args.pop(0))))
            v = args.pop(0)
            if c == "s":
                out += w.cstr(v)
                continue
            if isinstance(v, BV) and v.const() is not None:
                v = v.const()
            elif c in "diu" and not fl and isinstance(v, (BV, Sc)):
                out.append(Chunk(("dec", w.term(v))))
                continue
            else:
                raise AnalysisError("snprintf of an unknown number")
            b = {"l": 64, "ll": 64, "z": 64, "j": 64, "h": 16, "hh": 8}.get(m.group(2), 32)
            if c in "gGfFeE":
                out += S((("%" + fl + c) % struct.unpack("<d", struct.pack("<Q", v))[0]).replace(".", LOCALE["point"])).d
            elif c in "di":
                v &= (1 << b) - 1
                out += S(("%" + fl + "d") % (v - (1 << b) if v >> (b - 1) else v)).d
            elif c in "uxXo":
                out += S(("%" + fl + c.replace("u", "d")) % (v & (1 << b) - 1)).d
            elif c == "c":
                out.append(K(v & 255, 8))
            else:
                raise AnalysisError("snprintf %" + c)
        out += S(fm[pos:]).d
        n = w.const(n)
        unknown = [c for c in out if isinstance(c, Chunk)]
        if unknown and (any(not (isinstance(c.t, tuple) and c.t[0] == "dec") for c in unknown) or len(out) + 20 * len(unknown) >= n):
            raise AnalysisError("snprintf of an unknown text")
        for i, c in enumerate(out[:max(0, n - 1)] + [K(0, 8)]):
            if n:
                buf.at(i).put(c)
        return Sc(("snprintf",), 32) if unknown else K(len(out), 32)

    def x_getenv(self, n):
        return None

    def path(self, a):
        a = rv(a)
        if isinstance(a, Ptr):
            a = Str(self.w.cstr(a))
        if isinstance(a, Str):
            return content(a.d)
        if isinstance(a, Op):
            return a.t
        return repr(a)

    def f_exists(self, it, this, a, e):
        n = self.path(a[0])
        if n in self.removed or n in self.maybe and not it.decide(("exists", n)):
            return K(0, 1)
        return K(1 if n in self.maybe else int(not it.fault("fileexists")), 1)

    def f_remove(self, it, this, a, e):
        n = self.path(a[0])
        if n in self.maybe and it.decide(("cannot remove", n)):
            return K(0, 1)
        self.removed.append(n)
        return K(1, 1)

    # -- reader
    def r_open(self, it, this, a, e):
        o = obj(this)
        if it.fault("reader open"):
            return K(0, 1)
        o.f["$key"] = self.path(a[0])
        o.f["$pos"] = 0
        return K(1, 1)

    def entries(self, o):
        return self.files.get(o.f["$key"], [])

    def r_isEmpty(self, it, this, a, e):
        return K(int(not self.entries(obj(this))), 1)

    def r_rewind(self, it, this, a, e):
        o = obj(this)
        o.f["$pos"] = 0
        if o.f["$tab"] is not None:
            t = o.f["$tab"].at(0).get()
            t.f["name"] = Str([])
            t.f["primaryKeys"] = Str([], "vec")

    def r_nextEntry(self, it, this, a, e):
        o = obj(this)
        ent = obj(a[0])
        l = self.entries(o)
        if it.fault("reader"):
            self.events.append(("read error",))
            raise geoexc(it, "changeset")
        if o.f["$pos"] >= len(l):
            self.events.append(("read end", o.f["$key"]))
            return K(0, 1)
        x = l[o.f["$pos"]]
        if o.f["$tab"] is None:
            o.f["$tab"] = Ptr(None, 0, ref=Ref({0: it.default("ChangesetTable")}, 0))
        t = o.f["$tab"].at(0).get()
        t.f["name"] = S(x.table, x.table)
        t.f["primaryKeys"] = Str([b if isinstance(b, BV) else K(int(b), 1) for b in x.pk], "vec")
        ent.f["op"] = K(OPS["Op" + x.op.capitalize()] if isinstance(x.op, str) else x.op, 32)
        # the reader clears and refills only the sides of the operation
        if x.old is not None:
            ent.f["oldValues"] = Str([mkval(it, v) for v in x.old], "vec")
        if x.new is not None:
            ent.f["newValues"] = Str([mkval(it, v) for v in x.new], "vec")
        ent.f["table"] = o.f["$tab"]
        self.events.append(("read", o.f["$key"], o.f["$pos"]))
        o.f["$pos"] += 1
        return K(1, 1)

    # -- writer
    def w_open(self, it, this, a, e):
        o = obj(this)
        if it.fault("writer open"):
            return K(0, 1)
        o.f["$key"] = self.path(a[0])
        self.out[o.f["$key"]] = []
        self.acquire("changeset writer", id(o))
        return K(1, 1)

    def wlist(self, o):
        return self.out.setdefault(o.f["$key"], [])

    def w_beginTable(self, it, this, a, e):
        if it.fault("writer"):
            raise geoexc(it, "write")
        t = obj(a[0])
        self.wlist(obj(this)).append(("header", content(t.f["name"].d), tuple(self.bit(it, b) for b in t.f["primaryKeys"].d)))

    def bit(self, it, b):
        return bool(it.const(b))

    def w_writeEntry(self, it, this, a, e):
        if it.fault("writer"):
            raise geoexc(it, "write")
        x = obj(a[0])
        op = x.f.get("op", UNDEF)
        op = OPNAME.get(it.term(op), it.term(op)) if op is not UNDEF else "undefined"
        self.wlist(obj(this)).append(("entry", op, getvals(it, x.f["oldValues"]), getvals(it, x.f["newValues"])))

    def w_close(self, it, this, a, e):
        if it.fault("writer close"):
            raise geoexc(it, "write")
        o = obj(this)
        self.wlist(o).append(("close",))
        self.res.pop(("changeset writer", id(o)), None)


def reader(key):
    return Ref({0: Obj("ChangesetReader", {"$key": key, "$pos": 0, "$tab": None})}, 0)


def writer(key):
    return Ref({0: Obj("ChangesetWriter", {"$key": key})}, 0)


def decode(events):
    """the entries of an output with the header that governs them; (entries, problem)"""
    cur = None
    out = []
    for x in events:
        if x[0] == "header":
            cur = x
        elif x[0] == "entry":
            if cur is None:
                return out, "an entry before the first table header"
            n = len(cur[2])
            op, old, new = x[1:]
            if op not in ("insert", "update", "delete"):
                return out, "an entry of the unknown kind %s" % (op,)
            if op in ("update", "delete") and len(old) != n or op in ("update", "insert") and len(new) != n:
                return out, "an entry of kind %s with %d old and %d new values under a header of %d columns" % (op, len(old), len(new), n)
            out.append(E(cur[1], cur[2], op, old if op != "insert" else None, new if op != "delete" else None))
    return out, None


def wellformed(e):
    """the documented contents of an entry: which values may be absent"""
    if e.op in ("insert", "delete"):
        vs = e.new if e.op == "insert" else e.old
        if any(v == U for v in vs):
            return "%s entry with an absent value" % e.op
        return None
    for i, pk in enumerate(e.pk):
        o, n = e.old[i], e.new[i]
        if pk and o == U:
            return "update entry without the old value of key column %d" % i
        if not pk and (o == U) != (n == U):
            return "update entry with only one side of column %d" % i
    return None
