"""Scenarios of rebasing changesets, and what the rebased changeset and the conflicts must be."""
import itertools
from .envs import *

THEIRS, OWN, OUT, CONF = "theirs", "own", "rebased", "conflicts"


class RebEnv(Env):
    """changeset files, the conflict file and copies of files"""

    def __init__(self, p, files):
        super().__init__(p, files)
        self.reported = None
        self.written = []
        self.copies = []

    def attach(self, w):
        super().attach(w)
        x = w.ext
        x["conflictsToJSON"] = self.tojson
        x["flushString"] = self.flush
        x["filecopy"] = self.copy

    def tojson(self, it, this, a, e):
        p = self.p
        v = obj(a[0])
        get = lambda c, n, o: rv(it.callfn(fn(p, "%s::%s" % (c, n)), [], Ref({0: o}, 0)))
        self.reported = []
        for f in v.d:
            f = obj(f)
            items = []
            l = get("ConflictFeature", "items", f)
            for i in obj(l).d:
                i = obj(i)
                items.append((it.sconst(get("ConflictItem", "column", i)),) + tuple(getval(it, obj(get("ConflictItem", n, i))) for n in ("base", "theirs", "ours")))
            k = get("ConflictFeature", "pk", f)
            self.reported.append((content(get("ConflictFeature", "tableName", f).d), it.sconst(k), items))
        return S("the conflicts", "the conflicts")

    def flush(self, it, this, a, e):
        if it.fault("writing the conflicts"):
            raise geoexc(it, "write")
        n = self.path(a[0])
        c = rv(a[1])
        self.written.append((n, content(c.d) if isinstance(c, Str) else repr(c)))

    def copy(self, it, this, a, e):
        if it.fault("copying a file"):
            raise geoexc(it, "copy")
        d, s = self.path(a[0]), self.path(a[1])
        self.copies.append((d, s))
        self.out[d] = ("copy", s)


def cstr_(n):
    return Ptr(S(n, n).d + [K(0, 8)], 0)


def rebased(p, theirs, own, faults=0, maxruns=60):
    f = fn(p, "GEODIFF_createRebasedChangesetEx")

    def body(it):
        it.maxfaults = faults
        return it.callfn(f, [cstr_(x) for x in ("sqlite", "", "base", OWN, THEIRS, OUT, CONF)])
    done, why = explore(p, lambda: RebEnv(p, {THEIRS: theirs, OWN: own}), body, maxruns)
    return done, why, f


# -- scenarios

class T:
    """a table: name and key flags; columns other than the key hold texts and integers"""

    def __init__(self, name, pk, text=False):
        self.name, self.pk, self.text = name, tuple(pk), text
        self.k = self.pk.index(True)

    def key(self, k):
        return ("text", "key'%s" % k) if self.text else ("int", k)

    def val(self, i, k, side):
        return (("text", "int", "real", "blob")[i % 4], (self.name, k, i, side))

    def row(self, k, side):
        return [self.key(k) if i == self.k else self.val(i, k, side) for i in range(len(self.pk))]

    def insert(self, k, side):
        v = self.row(k, side)
        if side == "own":
            v = [N if i == len(v) - 1 and i != self.k and len(v) > 2 else x for i, x in enumerate(v)]
        return E(self.name, self.pk, "insert", new=v)

    def delete(self, k):
        return E(self.name, self.pk, "delete", old=self.row(k, "base"))

    def update(self, k, side, what):
        """what: one letter per other column: = unchanged, c changed, n to NULL, s to the value both sides give"""
        what = iter(what)
        old, new = [], []
        for i, b in enumerate(self.row(k, "base")):
            if i == self.k:
                old.append(b)
                new.append(U)
                continue
            c = next(what)
            old.append(U if c == "=" else b)
            new.append(U if c == "=" else N if c == "n" else self.val(i, k, "both" if c == "s" else side))
        return E(self.name, self.pk, "update", old, new)


A = T("alp\"ha", (True, False, False))
B = T("beta", (False, True))
C = T("gpkg_contents", (True, False, False, False, False, False), True)
D = T("delta", (False, False, True, False))


def act(t, k, side, a):
    """action of a side on the row k: '' nothing, 'd' delete, 'i' insert, else an update"""
    return [] if a == "" else [t.delete(k)] if a == "d" else [t.insert(k, side)] if a == "i" else [t.update(k, side, a)]


def scenarios(thorough=False):
    """[(description, their entries, own entries)]"""
    out = []
    ups = lambda n: ["".join(x) for x in itertools.product("=cns", repeat=n) if set(x) != {"="}]
    # one row: every action of one side with every action of the other
    for t, n in ((A, 2), (B, 1), (D, 3)):
        u = ups(n) if n < 3 else ["c==", "=c=", "==c", "ccc", "=cn", "ss="]
        for a in [""] + ["d"] + u:
            for b in ["d"] + u:
                for extra in ((), (t.delete(3),), (t.update(3, "theirs", "c" * n),)):
                    th = act(t, 2, "theirs", a) + list(extra)
                    if th and (extra != () or a):
                        out.append(("their %s, own %s" % (a or "nothing", b), th, act(t, 2, "own", b)))
    # two rows
    two = ["", "d", "cc", "=c", "c="]
    for a, b in itertools.product(itertools.product(two, repeat=2), repeat=2):
        th = act(A, 1, "theirs", a[0]) + act(A, 2, "theirs", a[1])
        ow = act(A, 1, "own", b[0]) + act(A, 2, "own", b[1])
        if th and ow:
            out.append(("two rows", th, ow))
            if thorough or len(th) + len(ow) == 4:
                out.append(("two rows", th, ow[::-1]))
    # inserts: which keys coincide
    keys = (4, 5, 6, 7)
    sub = lambda l: [x for n in range(len(l) + 1) for x in itertools.combinations(l, n)]
    for a in sub(keys):
        for b in sub(keys + (8,)):
            if a and b:
                for o in (b, b[::-1]) if len(b) > 1 else (b,):
                    t = A if len(b) % 2 else D
                    out.append(("inserts %s and %s" % (a, o), [t.insert(k, "theirs") for k in a], [t.insert(k, "own") for k in o]))
    # keys of more than 32 bits
    for k in (5000000000, 705032704 + (1 << 40), -5000000000):
        for a in ("d", "cc", "=c"):
            for b in ("d", "cc", "c="):
                low = (k + (1 << 31)) % (1 << 32) - (1 << 31)
                out.append(("large keys", act(A, k, "theirs", a), act(A, k, "own", b)))
                out.append(("large keys", act(A, k, "theirs", a), act(A, low, "own", b)))
                out.append(("large keys", act(A, low, "theirs", a), act(A, k, "own", b)))
    # special keys
    big = 5000000000
    for a, b in [((-1,), (-1,)), ((-2,), (-2,)), ((-2,), (-2, -1)), ((-2, 3), (-1, 3)), ((0,), (0, 1)), ((big,), (big - (1 << 32),)), ((big - (1 << 32),), (big,)),
                 ((big,), (big, big + 1, 705032705)), ((big - (1 << 32), big), (big, 1)), ((9, 3), (3, 9, 10, 4)), ((1 << 62,), (1 << 62,)), ((-9, -5), (-5, -4, -9))]:
        out.append(("inserts %s and %s" % (a, b), [A.insert(k, "theirs") for k in a], [A.insert(k, "own") for k in b]))
    # dropped changes next to inserts
    for a in ("d", "cc"):
        for b in ("d", "cc"):
            for k in ((-1,), (0, -1), (4, -1), (4, 5)):
                for ti in ((), (4,), (-1,), (7,)):
                    out.append(("%s and %s of a row, inserts %s and %s" % (a, b, ti, k), act(A, 2, "theirs", a) + [A.insert(x, "theirs") for x in ti],
                                act(A, 2, "own", b) + [A.insert(x, "own") for x in k]))
                    out.append(("inserts first", [A.insert(x, "theirs") for x in ti] + act(A, 2, "theirs", a),
                                [A.insert(x, "own") for x in k] + act(A, 2, "own", b)))
    # several tables
    a1 = {"i": [4], "d": [2], "c": [2]}
    for ts in itertools.product((A, B), repeat=2):
        for os in itertools.product((A, B, D), repeat=3):
            for acts in (("i", "i", "i"), ("d", "c", "d"), ("c", "i", "c"), ("i", "d", "i")):
                th, ow = [], []
                for j, t in enumerate(ts):
                    n = len(t.pk) - 1
                    th += [t.insert(4 + j, "theirs"), t.update(2 + 10 * j, "theirs", "c" * n), t.delete(3 + 10 * j)]
                for j, t in enumerate(os):
                    n = len(t.pk) - 1
                    x = acts[j]
                    k = j % 2
                    ow += [t.insert(4 + j, "own")] if x == "i" else [t.delete(2 + 10 * j)] if x == "d" else [t.update((2 if j else 3) + 10 * k, "own", "c" * n)]
                out.append(("several tables", th, ow))
    # the contents table and text keys
    for a in ("d", "===c=", "c==c=", "=cccc", "====c"):
        for b in ("d", "===c=", "c==c=", "=cccc", "====c"):
            out.append(("contents table", act(C, "x", "theirs", a) + [C.insert("y", "theirs")], act(C, "x", "own", b) + [C.insert("z", "own")]))
            out.append(("another table", act(D, 2, "theirs", a[:3] if len(a) > 1 and set(a[:3]) != {"="} else "ccc"), act(C, "x", "own", b)))
    e5 = T("five", (True, False, False, False, False, False))
    for a in ("===c=", "cccc=", "====c"):
        for b in ("===c=", "ccccc"):
            out.append(("fifth column", act(e5, 2, "theirs", a), act(e5, 2, "own", b)))
    # the special column is one of gpkg_contents alone
    for name in ("gpkg_extensions", "gpkg_contents_x", "my gpkg_contents", "gpkg_content"):
        g = T(name, (True, False, False, False, False, False))
        for a, b in (("===c=", "===c="), ("cccc=", "===c="), ("===c=", "ccccc")):
            out.append(("table %s" % name, act(g, 2, "theirs", a), act(g, 2, "own", b)))
    # one table under two definitions
    for x, y in (((True, False, False), (False, True, False)), ((True, False, False), (True, True, False)), ((False, False, True), (True, False, False))):
        p, q = T("twice", x), T("twice", y)
        for th in ([A.insert(4, "theirs")], [p.insert(4, "theirs"), p.delete(2)]):
            for ow in ([p.insert(5, "own"), q.insert(6, "own")], [p.delete(3), q.insert(6, "own")], [p.insert(5, "own"), A.insert(4, "own"), q.insert(6, "own")]):
                out.append(("two definitions of a table", th, ow))
    # nothing on one side
    out += [("nothing on their side", [], [A.insert(1, "own"), A.delete(2)]), ("nothing on the own side", [A.insert(1, "theirs")], []), ("nothing", [], [])]
    return out


# -- what must come out

class Side:
    def __init__(self, es):
        self.ins, self.dele, self.upd = {}, set(), {}
        for e in es:
            k = keyof(e)
            if e.op == "insert":
                self.ins[k] = e
            elif e.op == "delete":
                self.dele.add(k)
            else:
                self.upd[k] = e


def keyof(e):
    i = e.pk.index(True)
    return (e.table, (e.new if e.op == "insert" else e.old)[i])


def changeset_problem(theirs, own, out):
    """why `out` is not the own changeset rebased onto theirs, or None"""
    th = Side(theirs)
    rest = list(out)
    ren = {}        # own key -> new key of inserts
    for e in own:
        k = keyof(e)
        pkc = e.pk.index(True)
        if e.op in ("update", "delete") and k in th.dele:
            if any(o.table == e.table and o.op != "insert" and keyof(o) == k for o in rest):
                return "dropped", "the %s of the row %s, which the other side deleted, is kept" % (e.op, k[1])
            continue
        hit = None
        for o in rest:
            if o.table != e.table or o.op != e.op:
                continue
            if e.op == "insert":
                same = all(i == pkc or o.new[i] == v for i, v in enumerate(e.new))
            else:
                same = keyof(o) == k
            if same:
                hit = o
                break
        if hit is None:
            return "kept", "the own %s of the row %s is missing or changed" % (e.op, k[1])
        rest.remove(hit)
        if tuple(hit.pk) != tuple(e.pk):
            return "kept", "the %s of the row %s has other key flags" % (e.op, k[1])
        if e.op == "insert":
            ren[k] = keyof(hit)
            continue
        u = th.upd.get(k)
        for i in range(len(e.pk)):
            theirnew = u.new[i] if u is not None and i != pkc else U
            if e.op == "update":
                if hit.new[i] != e.new[i]:
                    return "values", "the update of the row %s has %s instead of %s as new value of column %d" % (k[1], hit.new[i], e.new[i], i)
                want = [theirnew if theirnew != U else e.old[i]]
                if e.new[i] == U and i != pkc:
                    want.append(e.old[i])
            else:
                want = [theirnew if theirnew != U else e.old[i]]
            if hit.old[i] not in want:
                return "old values", "the %s of the row %s has %s instead of %s as old value of column %d" % (e.op, k[1], hit.old[i], want[0], i)
    if rest:
        return "kept", "an additional %s of the row %s" % (rest[0].op, keyof(rest[0])[1])
    new = list(ren.values())
    for k, n in ren.items():
        if n in th.ins:
            return "keys", "the own insert %s gets the key %s, which the other side inserted" % (k[1], n[1])
        if new.count(n) > 1:
            return "keys", "two own inserts get the key %s" % (n[1],)
        if n != k and k not in th.ins and not any(m == k and j != k for j, m in ren.items()):
            return "keys", "the own insert %s is renumbered to %s without need" % (k[1], n[1])
        if n[1][0] != k[1][0]:
            return "keys", "the key %s becomes %s" % (k[1], n[1])
    return None


def conflict_problem(theirs, own, reported):
    """why the reported conflicts are not those of the two changesets, or None"""
    th = Side(theirs)
    must, may = {}, {}
    for e in own:
        k = keyof(e)
        u = th.upd.get(k)
        if e.op != "update" or u is None:
            continue
        pkc = e.pk.index(True)
        for i in range(len(e.pk)):
            if i == pkc or e.new[i] == U or u.new[i] == U or e.table == "gpkg_contents" and i == 4:
                continue
            (may if e.new[i] == u.new[i] else must)[(k, i)] = (e.old[i], u.new[i], e.new[i])
    seen = set()
    for t, pk, items in reported or ():
        for c, b, a, o in items:
            hit = [x for x in list(must) + list(may) if x[0][0] == t and x[1] == c and (x[0][1][1] == pk or x[0][1][0] == "text")]
            if not hit:
                return "only conflicts", "a conflict of table %s, row %s, column %s is reported, but not both sides changed it" % (t, pk, c)
            x = hit[0]
            if x in seen:
                return "only conflicts", "the conflict of table %s, row %s, column %s is reported twice" % (t, pk, c)
            seen.add(x)
            w = must.get(x) or may[x]
            if (b, a, o) != w:
                return "values", "the conflict of table %s, row %s, column %s is reported with the values %s, %s, %s instead of %s, %s, %s" % ((t, pk, c, b, a, o) + w)
    for x in must:
        if x not in seen:
            return "every conflict", "the conflict of table %s, row %s, column %s is not reported" % (x[0][0], x[0][1][1], x[1])
    return None
