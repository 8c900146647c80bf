"""C15: abstract interpretation of the functions that produce JSON.

changesetToJSON(), changesetToJSONSummary() and conflictsToJSON() are interpreted for every shape of
entry; numbers are opaque, texts and blobs representatives of every byte and every sequence of characters
that JSON treats specially.  The text they return is parsed by a strict JSON parser and compared with the
entries.
"""
import base64, itertools, json
from ..envs import *
from ..scen import outcomes, where
from ..pgval import struct

LEVEL = "other"
SPECIAL = ["\\", '"', "\n", "\t", "\r", "\b", "\x01", "\x1f", "\x7f", "u0041", "n", "/", "\u00e9", "\u2028", "\U0001f600"]


def texts():
    out = [""] + [chr(i) for i in range(128)] + ["a%cb" % i for i in range(128)]
    out += ["".join(x) for n in (2, 3) for x in itertools.product(SPECIAL if n == 2 else SPECIAL[:4] + ["u0041"], repeat=n)]
    return out + ["\\u0022", "x" * 300 + '"', "\\\\\\\"\\", "</script>", "{}[],:", "null"]


def blobs():
    return [bytes(range(256))] + [bytes((37 * i + n) & 255 for i in range(n)) for n in range(8)] + [b"\0", b"\xff" * 5, b'"\\\n']


class Js:
    """an unknown number in the output"""

    def __init__(self, t):
        self.t = t


def rendered(d):
    """(text, [unknown numbers])"""
    out, nums = bytearray(), []
    for c in d:
        if isinstance(c, Chunk):
            if not (isinstance(c.t, tuple) and c.t[0] in ("to_string", "dec")):
                raise AnalysisError("unknown piece of the output %r" % (c.t,))
            nums.append(c.t[1])
            out += b"-%d" % (77000000000 + len(nums))
        else:
            v = c.const()
            if v is None:
                raise AnalysisError("unknown character in the output")
            out.append(v)
    return bytes(out), nums


def strict(b):
    def no(x):
        raise ValueError("%s is not JSON" % x)

    def pairs(l):
        d = {}
        for k, v in l:
            if k in d:
                raise ValueError("the member %s occurs twice" % k)
            d[k] = v
        return d
    return json.loads(b.decode("utf-8"), parse_constant=no, object_pairs_hook=pairs, parse_float=float)


def agrees(it, v, j, nums):
    """does the JSON value stand for this value"""
    k = v[0]
    if isinstance(j, int) and not isinstance(j, bool) and -77000000000 - len(nums) <= j < -77000000000:
        return k in ("int", "real") and nums[-j - 77000000001] == v[1]
    if k == "null":
        return j is None
    if k == "int":
        return isinstance(j, int) and not isinstance(j, bool) and j == v[1]
    if k == "real":
        f = struct.unpack("<d", struct.pack("<Q", v[1][1]))[0] if v[1][0] == "dbl" else None
        if f is None:
            return it.cell.get((("isfinite", v[1]), 0)) == 0 and (j is None or isinstance(j, str))
        if f != f or abs(f) == float("inf"):
            return j is None or isinstance(j, str)
        return isinstance(j, (int, float)) and not isinstance(j, bool) and abs(j - f) <= max(1e-5, abs(f) * 1e-5)
    if k == "text":
        return j == v[1]
    if k == "blob":
        try:
            return isinstance(j, str) and base64.b64decode(j, validate=True) == v[1]
        except ValueError:
            return False
    return False


class JsEnv(Env):
    finite = False


def short(x):
    return (x if len(x) < 200 else x[:200] + "...")


def run(ctx, keep=None, reals=[("real", ("x", 1))]):
    p = ctx.p
    ctx.rule("valid", "the output is valid JSON (RFC 8259), without duplicate members")
    ctx.rule("content", "it lists every entry in order, with table, kind and the values that are present")
    ctx.rule("summary", "the summary has every table once, with the numbers of its inserts, updates and deletes")
    ctx.rule("conflicts", "the conflict listing has every conflict with table, key, columns and values")
    fs = {}
    for n in ("changesetToJSON", "changesetToJSONSummary", "conflictsToJSON", "ConflictFeature::ConflictFeature", "ConflictFeature::addItem", "ConflictItem::ConflictItem"):
        fs[n] = fn(p, n, 4 if n.startswith("ConflictItem::") else 2 if n == "ConflictFeature::ConflictFeature" else 1)
        ctx.need(n, fs[n])
    T = [("text", x) for x in texts()]
    B = [("blob", x) for x in blobs()]
    R = [("real", ("dbl", struct.unpack("<Q", struct.pack("<d", x))[0])) for x in (0.0, 0.1, -1e300, 1e-300, float("inf"), float("-inf"), float("nan"), 1e15, -0.0)] + reals
    I = [("int", x) for x in (0, -1, 2 ** 63 - 1, -2 ** 63)] + [("int", ("y", 1))]
    some = [("int", ("y", 2)), ("text", 'q"\\\n'), ("null",), ("blob", b"\0\xff"), ("real", ("dbl", 4607182418800017408)), U]
    lists = {"no entries": []}
    for n, l in (("texts", T), ("blobs", B), ("reals", R), ("integers", I)):
        pk = [True] + [False] * (len(l) - 1)
        lists[n + ", insert"] = [E("t", pk, "insert", new=l)]
        lists[n + ", delete"] = [E("t", pk, "delete", old=l)]
        lists[n + ", update"] = [E("t", pk, "update", old=l, new=[U] + l[:0:-1])]
    for a, b in itertools.product(range(len(some)), repeat=2):
        lists["update %d %d" % (a, b)] = [E("t", [True, False, False], "update", old=[("int", 1), some[a], U], new=[U, some[b], some[a]])]
    lists["nothing but keys"] = [E("t", [True, False], "update", old=[("int", 1), U], new=[U, U])]
    lists["nothing at all"] = [E("t", [True, False], "update", old=[U, U], new=[U, U]), E("t", [True], "insert", new=[("int", 1)])]
    ins = lambda t: E(t, [True, False], "insert", new=[("int", 1), ("text", "v")])
    dele = lambda t: E(t, [True, False], "delete", old=[("int", 1), ("null",)])
    upd = lambda t: E(t, [True, False], "update", old=[("int", 1), ("null",)], new=[U, ("int", 3)])
    kinds = (ins, upd, dele)
    for n in (1, 2, 3):
        for x in itertools.product(range(3), repeat=n):
            lists["kinds %s" % (x,)] = [kinds[k]("t") for k in x]
            if n > 1:
                for tabs in ("ab", "ba", "aba") if n == 3 else ("ab", "ba"):
                    lists["kinds %s, tables %s" % (x, tabs)] = [kinds[k](tabs[i % len(tabs)]) for i, k in enumerate(x)]
    names = texts()
    for i in range(0, len(names), 40):
        lists["table names %d" % i] = [kinds[k % 3](x) for k, x in enumerate(names[i:i + 40])]
    lists["the same table with other columns"] = [ins("t"), E("t", [True], "insert", new=[("int", 4)]), E("t", [False, True, False], "delete", old=[("int", 4)] * 3)]

    def explored(c, label, files, body, f, rule, judge):
        def run1(it):
            it.maxfaults = 0
            return body(it)
        done, why = explore(c.p, lambda: JsEnv(c.p, files), run1, 3000, 120)
        n = 0
        wh = where(f)
        for it, r in outcomes(c, done, why, label):
            c.functions |= it.covered
            if not c.check(r[0] == "ok", "valid", wh, "%s: producing the JSON fails (%s)" % (label, " ".join(map(str, r))[:80]), key="fails|" + f["n"], what=label):
                continue
            v = rv(r[1])
            b, nums = rendered(v.d)
            try:
                j = strict(b)
            except (ValueError, UnicodeDecodeError) as x:
                c.check(False, "valid", wh, "%s: the output is not valid JSON (%s)" % (label, str(x)[:100]), key="valid|" + f["n"], path=[short(repr(b[max(0, getattr(x, "pos", 0) - 100):getattr(x, "pos", 0) + 60]))])
                continue
            c.ok("valid", label)
            bad = judge(it, j, nums)
            c.check(bad is None, rule, wh, "%s: %s" % (label, bad), key="%s|%s" % (rule, f["n"]), path=[short(repr(b))], what=label)
            n += 1
        c.count("outputs", n)
        return n

    def listing(es):
        def judge(it, j, nums):
            l = j.get("geodiff") if isinstance(j, dict) else None
            if not isinstance(l, list) or len(l) != len(es):
                return "%s entries are listed instead of %d" % (len(l) if isinstance(l, list) else "no", len(es))
            for e, x in zip(es, l):
                if x.get("table") != e.table:
                    return "the table of an entry is listed as %s" % short(repr(x.get("table")))
                if x.get("type") != e.op:
                    return "an %s is listed as %s" % (e.op, x.get("type"))
                got = {}
                for y in x.get("changes", []):
                    if y.get("column") in got:
                        return "a column is listed twice"
                    got[y.get("column")] = y
                for i in range(len(e.pk)):
                    o = e.old[i] if e.old else U
                    w = e.new[i] if e.new else U
                    y = got.pop(i, {})
                    for side, v in (("old", o), ("new", w)):
                        if (side in y) != (v != U):
                            return "the %s value of column %d is %slisted" % (side, i, "" if side in y else "not ")
                        if v != U and not agrees(it, v, y[side], nums):
                            return "the %s value of column %d, %s, is listed as %s" % (side, i, short(repr(v)), short(repr(y[side])))
                if got:
                    return "column %s is listed" % sorted(got, key=repr)[0]
            return None
        return judge

    def totals(es):
        def judge(it, j, nums):
            l = j.get("geodiff_summary") if isinstance(j, dict) else None
            want = {}
            for e in es:
                want.setdefault(e.table, {"insert": 0, "update": 0, "delete": 0})[e.op] += 1
            got = {}
            for x in l if isinstance(l, list) else ():
                if x.get("table") in got:
                    return "a table is listed twice"
                got[x.get("table")] = {k: x.get(k) for k in ("insert", "update", "delete")}
            if got != want:
                k = [t for t in sorted(set(got) | set(want), key=repr) if got.get(t) != want.get(t)][0]
                return "table %s has %s instead of %s" % (short(repr(k)), got.get(k), want.get(k))
            return None
        return judge

    def conflicts(cs):
        def judge(it, j, nums):
            l = j.get("geodiff") if isinstance(j, dict) else None
            if not isinstance(l, list) or len(l) != len(cs):
                return "not all conflicts are listed"
            for (pk, table, items), x in zip(cs, l):
                if x.get("table") != table or str(x.get("fid")) != str(pk):
                    if not (isinstance(pk, tuple) and x.get("table") == table):
                        return "a conflict is listed under table %s, key %s" % (short(repr(x.get("table"))), x.get("fid"))
                ch = x.get("changes")
                if not isinstance(ch, list) or len(ch) != len(items):
                    return "not all columns of a conflict are listed"
                for (col, *vs), y in zip(items, ch):
                    if y.get("column") != col:
                        return "another column is listed"
                    for side, v in zip(("base", "old", "new"), vs):
                        if (side in y) != (v != U):
                            return "the %s value is %slisted" % (side, "" if side in y else "not ")
                        if v != U and not agrees(it, v, y[side], nums):
                            return "the %s value %s is listed as %s" % (side, short(repr(v)), short(repr(y[side])))
            return None
        return judge

    def mkconflicts(it, cs):
        out = []
        for pk, table, items in cs:
            o = it.default_of_class("ConflictFeature")
            it.callfn(fs["ConflictFeature::ConflictFeature"], [K(pk, 64), S(table)], Ref({0: o}, 0))
            for col, *vs in items:
                x = it.default_of_class("ConflictItem")
                it.callfn(fs["ConflictItem::ConflictItem"], [K(col, 32)] + [mkval(it, v) for v in vs], Ref({0: x}, 0))
                it.callfn(fs["ConflictFeature::addItem"], [x], Ref({0: o}, 0))
            out.append(o)
        return Str(out, "vec")

    def one(c, item):
        if item[0] == "list":
            for label, es in item[1]:
                for n, j, rule in (("changesetToJSON", listing(es), "content"), ("changesetToJSONSummary", totals(es), "summary")):
                    if not explored(c, "%s, %s" % (n, label), {"in": es}, lambda it: it.callfn(fs[n], [reader("in")]), fs[n], rule, j):
                        c.incomplete.append("%s, %s" % (n, label)) if not c.violations else None
        else:
            for label, cs in item[1]:
                f = fs["conflictsToJSON"]
                explored(c, "conflictsToJSON, " + label, {}, lambda it: it.callfn(f, [mkconflicts(it, cs)]), f, "conflicts", conflicts(cs))
    cl = [("no conflicts", [])]
    for n, l in (("texts", T), ("blobs", B), ("reals", R), ("integers", I)):
        for side in range(3):
            cl.append(("%s, side %d" % (n, side), [(5, "t", [tuple([i] + [x if k == side else ("int", 1) for k in range(3)]) for i, x in enumerate(l)])]))
    for a in itertools.product(some, repeat=3):
        cl.append(("values", [(-3, "t", [(1,) + a, (2,) + a[::-1]])]))
    cl.append(("numbers of items", [(1, "a", []), (2 ** 63 - 1, "a", [(0, U, U, U)]), (-2 ** 63, "b", [(7, N, N, N), (8, U, N, N), (9, N, U, U)])]))
    for i in range(0, len(names), 40):
        cl.append(("table names %d" % i, [(k, x, [(0, N, N, N)]) for k, x in enumerate(names[i:i + 40])]))
    ls = list(lists.items())
    items = [("list", [x]) for x in ls if "," in x[0] and not x[0].startswith("kinds") or x[0].startswith("table names")]
    rest = [x for x in ls if ("list", [x]) not in items]
    items += [("list", rest[i::16]) for i in range(16)] + [("conflicts", cl[i::16]) for i in range(16)]
    if keep:
        items = [(k, [x for x in l if keep(x[0])]) for k, l in items]
        items = [x for x in items if x[1]]
    ctx.par(one, items)
    ctx.need("outputs", ctx.counts.get("outputs"))
