"""Transfer functions of the functions the project calls but does not define.

A model is m(engine, state, this, args, call-node) -> [(state, result value)].  `this` and glvalue
arguments are locations.  Models of allocation/IO failure are written from the documented
interface of the library, not from how the project uses it.
"""
from .terms import *

M = {}


def model(*names):
    def deco(f):
        for n in names:
            M[n] = f
        return f
    return deco


def V(en, st, a, e, i):
    """value of argument i"""
    x = a[i]
    if is_loc(x) and e["a"][i].get("gl"):
        return en.load(st, x)
    return x


def VT(en, st, this):
    return en.load(st, this) if is_loc(this) else this


def simple(f):
    def m(en, st, this, args, e):
        return [(st, f(en, st, this, args, e))]
    return m


def vals(en, st, args, e):
    return [V(en, st, args, e, i) for i in range(len(args))]


# ---- strings ---------------------------------------------------------------------------------

def cstr2str(en, st, v, e):
    """std::string from const char*: undefined / throws for a null pointer"""
    out = []
    if v.op == "c" and isinstance(cv(v), str) or v.op in ("concat", "tostr"):
        return [(st, v)]
    if is_loc(v):
        return [(st, mk("cstrof", loadbuf(en, st, v)))]
    for s, isnull in en.split(st, binop("==", v, NULL), e):
        if isnull:
            en.mthrow(s, "std::logic_error", e, "std::string is built from a null pointer")
        else:
            out.append((s, v))
    return out


def loadbuf(en, st, p):
    """contents of the char buffer p points to (p = &buf[0])"""
    if p.a[1] and not isinstance(p.a[1][-1], str) and p.a[1][-1][1] is ZERO:
        return en.load(st, mk("loc", p.a[0], p.a[1][:-1]))
    return p


@model("std::basic_string::ctor")
def string_ctor(en, st, this, args, e):
    a = [x for x, n in zip(args, e["a"]) if en.ty(n["t"]).get("cls") != "std::allocator"]
    ns = [n for n in e["a"] if en.ty(n["t"]).get("cls") != "std::allocator"]
    if not a:
        return [(st, EMPTY)]
    t0 = en.ty(ns[0]["t"])
    if t0.get("k") == "rec":
        v = en.load(st, a[0]) if is_loc(a[0]) else a[0]
        if t0.get("cls") == "std::initializer_list":
            return [(st, mk("ilstr", v))]
        if len(a) >= 2 and en.ty(ns[1]["t"]).get("k") == "int":
            return [(st, mk("substr", v, *a[1:]))]
        if len(a) == 2 and t0.get("cls", "").endswith("iterator"):
            return [(st, mk("range", v, V2(en, st, a[1], ns[1])))]
        return [(st, v)]
    if t0.get("k") == "int":     # (count, char)
        return [(st, mk("repeat", a[0], a[1]))]
    if len(a) == 1:
        return cstr2str(en, st, a[0], e)
    if len(a) == 2:
        t1 = en.ty(ns[1]["t"])
        if t1.get("k") == "int":
            return [(st, mk("bytes", a[0] if not is_loc(a[0]) else loadbuf(en, st, a[0]), a[1]))]
        return [(st, mk("range", a[0], V2(en, st, a[1], ns[1])))]
    return [(st, mk("strctor", *a))]


def V2(en, st, x, n):
    return en.load(st, x) if is_loc(x) and n.get("gl") else x


M["default:std::basic_string"] = EMPTY
M["default:std::vector"] = EMPTYVEC
EMPTYMAP = mk("emptymap")
M["default:std::map"] = EMPTYMAP
M["default:std::set"] = EMPTYMAP
M["default:std::unordered_map"] = EMPTYMAP
M["default:std::unordered_set"] = EMPTYMAP
M["default:std::unique_ptr"] = NULL
M["default:std::shared_ptr"] = NULL


@model("std::basic_string::operator+=", "std::basic_string::append", "std::basic_string::push_back")
def string_append(en, st, this, args, e):
    v = VT(en, st, this)
    out = []
    for s, x in strarg(en, st, args, e, 0):
        if len(args) > 1:
            x = mk("bytes", x, V(en, s, args, e, 1))
        en.save(s, this, concat(v, x), e)
        out.append((s, this if e.get("gl") else ZERO))
    return out


def strarg(en, st, args, e, i):
    v = V(en, st, args, e, i)
    t = en.ty(e["a"][i]["t"])
    if t.get("k") in ("ptr",) or (t.get("k") == "arr"):
        return cstr2str(en, st, v, e)
    if t.get("k") == "int" or t.get("k") == "char":
        return [(st, chr2str(v))]
    return [(st, v)]


def chr2str(v):
    if is_c(v) and isinstance(cv(v), int):
        return C(chr(cv(v) & 255))
    return mk("chr", v)


@model("std::operator+")
def op_plus(en, st, this, args, e):
    t = en.ty(e["t"]).get("cls", "")
    if "string" not in t:
        return [(st, binop("+", V(en, st, args, e, 0), V(en, st, args, e, 1)))]
    out = []
    for s, a in strarg(en, st, args, e, 0):
        for s2, b in strarg(en, s, args, e, 1):
            out.append((s2, concat(a, b)))
    return out


@model("std::basic_string::operator=", "std::basic_string::assign")
def string_assign(en, st, this, args, e):
    out = []
    for s, x in strarg(en, st, args, e, 0):
        if len(args) > 1:
            x = mk("bytes", x, V(en, s, args, e, 1))
        en.save(s, this, x, e)
        out.append((s, this))
    return out


@model("std::basic_string::c_str", "std::basic_string::data")
@simple
def string_cstr(en, st, this, args, e):
    return VT(en, st, this)


@model("std::basic_string::empty")
@simple
def string_empty(en, st, this, args, e):
    return binop("==", VT(en, st, this), EMPTY)


@model("std::basic_string::size", "std::basic_string::length")
@simple
def string_size(en, st, this, args, e):
    v = VT(en, st, this)
    if v.op == "c" and isinstance(cv(v), str):
        return C(len(cv(v).encode("utf-8", "surrogateescape")) if not cv(v).isascii() else len(cv(v)))
    return mk("strlen", v)


@model("std::basic_string::clear")
@simple
def string_clear(en, st, this, args, e):
    en.save(st, this, EMPTY, e)
    return ZERO


@model("std::basic_string::operator[]", "std::basic_string::at", "std::basic_string::front", "std::basic_string::back")
def string_at(en, st, this, args, e):
    v = VT(en, st, this)
    if e["n"].endswith("at"):
        en.mthrow(st, "std::out_of_range", e)
    if e["n"].endswith("front"):
        i = ZERO
    elif e["n"].endswith("back"):
        i = binop("-", mk("strlen", v), ONE)
    else:
        i = V(en, st, args, e, 0)
    if v.op == "c" and is_c(i) and 0 <= cv(i) <= len(cv(v)):
        return [(st, C(ord(cv(v)[cv(i)])) if cv(i) < len(cv(v)) else ZERO)]
    en.h.on_index(en, st, this, v, i, e) if hasattr(en.h, "on_index") else None
    if e.get("gl"):
        return [(st, sub(this, ("i", i)) if is_loc(this) else mk("at", v, i))]
    return [(st, mk("at", v, i))]


@model("std::basic_string::substr")
def string_substr(en, st, this, args, e):
    v = VT(en, st, this)
    a = vals(en, st, args, e)
    if v.op == "c" and all(is_c(x) for x in a):
        p = cv(a[0])
        n = cv(a[1]) if len(a) > 1 else len(cv(v))
        if p <= len(cv(v)):
            return [(st, C(cv(v)[p:p + n] if n >= 0 else cv(v)[p:]))]
    if not (a and a[0] is ZERO) and not haslen(en, st, v, a[0]):
        en.mthrow(st, "std::out_of_range", e, "substr position may exceed the length")
    return [(st, mk("substr", v, *a))]


def haslen(en, st, v, p):
    """v provably has at least p characters"""
    if not is_c(p):
        return False
    n = cv(p)
    for t, f in st.facts.items():
        if t.op == "startsWith" and t.a[0] is v and f[1] == frozenset([1]) and is_c(t.a[1]) and len(cv(t.a[1])) >= n:
            return True
    lo, _ = en.iv(st, mk("strlen", v))
    if lo >= n:
        return True
    return False


@model("std::basic_string::rfind", "std::basic_string::find", "std::basic_string::find_first_of", "std::basic_string::find_last_of",
       "std::basic_string::find_first_not_of", "std::basic_string::find_last_not_of")
def string_find(en, st, this, args, e):
    v = VT(en, st, this)
    out = []
    kind = e["n"].rsplit("::", 1)[1]
    for s, x in strarg(en, st, args, e, 0):
        p = V(en, s, args, e, 1) if len(args) > 1 and e["a"][1]["k"] != "defarg" else None
        npos = C((1 << 64) - 1)
        if kind == "rfind" and p is ZERO:
            if is_c(v) and is_c(x):
                out.append((s, ZERO if cv(v).startswith(cv(x)) else npos))
            else:
                out.append((s, ite(mk("startsWith", v, x), ZERO, npos)))
            continue
        if kind == "find" and (p is None or p is ZERO) and is_c(v) and is_c(x):
            k = cv(v).find(cv(x))
            out.append((s, C(k) if k >= 0 else npos))
            continue
        t = mk(kind, v, x) if (p is None or p is npos or p is ZERO and kind == "find") else mk(kind, v, x, p)
        en.termtype.setdefault(t, e["t"])
        if kind == "find" and len(t.a) == 2:
            # contains(v, x) decides whether the result is npos
            out.append((s, ite(mk("contains", v, x), mk("pos", v, x), npos)))
        else:
            out.append((s, t))
    return out


@model("std::basic_string::compare")
def string_compare(en, st, this, args, e):
    v = VT(en, st, this)
    if len(args) == 1:
        out = []
        for s, x in strarg(en, st, args, e, 0):
            out.append((s, ite(binop("==", v, x), ZERO, mk("strcmp", v, x))))
        return out
    if len(args) == 3:
        a = vals(en, st, args, e)
        if a[0] is ZERO and is_c(a[2]) and isinstance(cv(a[2]), str) and (a[1] is C(len(cv(a[2]))) or a[1].op == "strlen"):
            return [(st, ite(mk("startsWith", v, a[2]), ZERO, ONE))]
        if a[0] is ZERO and a[1] is mk("strlen", a[2]):
            return [(st, ite(mk("startsWith", v, a[2]), ZERO, ONE))]
    return [(st, mk("strcmp", v, *vals(en, st, args, e)))]


@model("std::basic_string::replace", "std::basic_string::insert", "std::basic_string::erase")
@simple
def string_replace(en, st, this, args, e):
    v = VT(en, st, this)
    a = vals(en, st, args, e)
    kind = e["n"].rsplit("::", 1)[1]
    n = mk("str" + kind, v, *a)
    if kind == "insert" and len(a) == 2 and a[0] is ZERO:
        n = concat(a[1], v)
    en.save(st, this, n, e)
    return this if e.get("gl") else ZERO


@model("std::basic_string::pop_back", "std::basic_string::resize", "std::basic_string::reserve", "std::basic_string::shrink_to_fit")
@simple
def string_misc(en, st, this, args, e):
    kind = e["n"].rsplit("::", 1)[1]
    if kind in ("pop_back", "resize"):
        en.save(st, this, mk("str" + kind, VT(en, st, this), *vals(en, st, args, e)), e)
    return ZERO


@model("std::to_string", "std::__cxx11::to_string")
@simple
def to_string(en, st, this, args, e):
    v = V(en, st, args, e, 0)
    k = en.ty(e["a"][0]["t"]).get("k")
    if is_c(v) and k == "int":
        return C(str(cv(v)))
    return mk("tostr", "f" if k == "float" else "i", v)


@model("std::stoi", "std::stol", "std::stoll", "std::stod", "std::stoul", "std::stoull")
def stoi(en, st, this, args, e):
    v = V(en, st, args, e, 0)
    en.mthrow(st, "std::invalid_argument", e, e["n"] + " on text that is not a number")
    en.mthrow(st, "std::out_of_range", e, e["n"] + " on a number out of range")
    t = mk("parse", e["n"].split("::")[-1], v)
    en.termtype.setdefault(t, e["t"])
    return [(st, t)]


@model("atoi", "atol", "atoll", "atof", "strtol", "strtoll", "strtod", "strtoull")
@simple
def atoi(en, st, this, args, e):
    v = V(en, st, args, e, 0)
    if e["n"] == "atoi" and is_c(v):
        import re
        m = re.match(r"\s*[-+]?\d+", str(cv(v)))
        return C(int(m.group()) if m else 0)
    t = mk("parse", e["n"], v)
    en.termtype.setdefault(t, e["t"])
    return t


@model("strlen")
@simple
def strlen(en, st, this, args, e):
    v = V(en, st, args, e, 0)
    return C(len(cv(v))) if v.op == "c" and isinstance(cv(v), str) else mk("strlen", v)


@model("strcmp", "sqlite3_stricmp", "strcasecmp")
@simple
def strcmp(en, st, this, args, e):
    a, b = vals(en, st, args, e)[:2]
    if e["n"] == "strcmp":
        return ite(mk("streq", a, b), ZERO, mk("strcmp", a, b)) if a is not b else ZERO
    return ite(mk("ieq", a, b), ZERO, mk("stricmp", a, b)) if a is not b else ZERO


@model("memcmp")
@simple
def memcmp(en, st, this, args, e):
    a, b, n = vals(en, st, args, e)
    return ite(mk("memeq", a, b, n), ZERO, mk("memcmp", a, b, n))


@model("tolower", "toupper", "isalnum", "isdigit", "isspace")
@simple
def ctype(en, st, this, args, e):
    return mk(e["n"], V(en, st, args, e, 0))


@model("__bswap_64", "__builtin_bswap64", "__bswap_32", "__bswap_16")
@simple
def bswap(en, st, this, args, e):
    v = V(en, st, args, e, 0)
    if v.op == "bswap" and v.a[0] == e["n"][-2:]:
        return v.a[1]
    return mk("bswap", e["n"][-2:], v)


# ---- generic comparison operators ------------------------------------------------------------

def eqterm(en, st, a, b, e):
    return binop("==", a, b)


@model("std::operator==", "__gnu_cxx::operator==", "std::operator!=", "__gnu_cxx::operator!=")
def op_eq(en, st, this, args, e):
    ne = e["n"].endswith("!=")
    out = []
    k0 = en.ty(e["a"][0]["t"])
    if len(args) == 1:          # member form
        a, b = VT(en, st, this), V(en, st, args, e, 0)
        return [(st, neg(iteq(en, st, a, b)) if ne else iteq(en, st, a, b))]
    cls0 = k0.get("cls", "")
    if "iterator" in cls0 or cls0 in ("std::unique_ptr", "std::shared_ptr") or k0.get("k") in ("null",):
        a, b = V(en, st, args, e, 0), V(en, st, args, e, 1)
        t = iteq(en, st, a, b)
        return [(st, neg(t) if ne else t)]
    if cls0 == "std::vector":
        a, b = V(en, st, args, e, 0), V(en, st, args, e, 1)
        t = veceq(en, st, a, b, k0, e)
        return [(st, neg(t) if ne else t)]
    for s, a in strarg(en, st, args, e, 0):
        for s2, b in strarg(en, s, args, e, 1):
            t = binop("==", a, b)
            out.append((s2, neg(t) if ne else t))
    return out


def veceq(en, st, a, b, k, e):
    if a is b:
        return TRUE
    return binop("==", a, b)


def iteq(en, st, a, b):
    """equality of iterators / pointers"""
    if a.op == "mapend":
        a, b = b, a
    if b.op == "mapend":
        if a.op == "mapit":
            return neg(mk("has", a.a[1], a.a[2]))
        if a.op == "mapend":
            return TRUE
        if a.op == "findit":
            return neg(mk("elem", a.a[0], a.a[1]))
        if a.op == "mapbegin":
            return binop("==", size(a.a[0]), ZERO)
    return binop("==", a, b)


for _n in ("std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator", "__gnu_cxx::__normal_iterator"):
    M[_n + "::operator=="] = M[_n + "::operator!="] = op_eq


def itctor(en, st, this, args, e):
    if not args:
        return [(st, mk("uninit", "it"))]
    return [(st, V(en, st, args, e, 0))]


for _n in ("std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator", "__gnu_cxx::__normal_iterator"):
    M[_n + "::ctor"] = itctor


def itderef(en, st, this, args, e):
    it = VT(en, st, this)
    d = en.frames[-1].depth
    if it.op == "mapit":
        l, m, k = it.a
        isset = en.ty(e["t"]).get("cls") != "std::pair" and en.ty(en.ty(e["t"]).get("to", "")).get("cls") != "std::pair"
        if isset:
            h = ("t", d, e["x"])
            st.store[h] = k
            return [(st, loc(h))]
        if is_loc(l):
            return [(st, sub(l, ("p", k)))]
        h = ("t", d, e["x"])
        st.store[h] = rec(None, {"first": k, "second": at(m, k)})
        return [(st, loc(h))]
    if it.op in ("vecit",):
        return [(st, sub(it.a[0], ("i", it.a[1])))]
    if it.op == "mapbegin":
        k = mk("key", it.a[0], mk("first"))
        h = ("t", d, e["x"])
        st.store[h] = k if en.ty(e["t"]).get("k") != "ptr" and en.ty(e["t"]).get("cls") != "std::pair" else rec(None, {"first": k, "second": at(it.a[0], k)})
        return [(st, loc(h))]
    v = mk("itval", it)
    if e.get("gl") or en.ty(e["t"]).get("k") == "ptr":
        return [(st, mk("loc", ("x", it), ()))]
    return [(st, v)]


for _n in ("std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator", "__gnu_cxx::__normal_iterator"):
    M[_n + "::operator*"] = M[_n + "::operator->"] = itderef


# ---- vector ----------------------------------------------------------------------------------

@model("std::vector::ctor")
def vector_ctor(en, st, this, args, e):
    a = [x for x, n in zip(args, e["a"]) if en.ty(n["t"]).get("cls") != "std::allocator"]
    ns = [n for n in e["a"] if en.ty(n["t"]).get("cls") != "std::allocator"]
    if not a:
        return [(st, EMPTYVEC)]
    t0 = en.ty(ns[0]["t"])
    v = V2(en, st, a[0], ns[0])
    if t0.get("k") == "rec":
        if t0.get("cls") in ("std::vector", "std::initializer_list"):
            if e.get("ck") == "move" and is_loc(a[0]):
                pass
            return [(st, v)]
        if len(a) == 2:
            b = V2(en, st, a[1], ns[1])
            if v.op == "itbegin" and b.op == "itend":
                return [(st, v.a[0])]
            return [(st, mk("range", v, b))]
    if t0.get("k") == "int":
        el = V2(en, st, a[1], ns[1]) if len(a) > 1 else defelem(en, e["t"])
        return [(st, filled(el, v))]
    return [(st, mk("range", *a))]


def filled(el, n):
    if is_c(n) and cv(n) <= 8:
        return mk("vec", *([el] * cv(n)))
    return mk("filled", el, n)


def defelem(en, t):
    d = en.ty(t)
    ta = (d.get("targs") or [None])[0]
    if ta and en.ty(ta).get("k") == "rec":
        return en.defaultval(ta)
    return ZERO


@model("std::vector::push_back", "std::vector::emplace_back")
@simple
def vector_push(en, st, this, args, e):
    v = VT(en, st, this)
    if len(args) == 1:
        x = V(en, st, args, e, 0)
    else:
        x = mk("emplace", *vals(en, st, args, e))
    en.save(st, this, push(v, x), e)
    if hasattr(en.h, "on_push"):
        en.h.on_push(en, st, this, x, e)
    return ZERO


@model("std::vector::operator[]", "std::vector::at", "std::vector::front", "std::vector::back")
def vector_at(en, st, this, args, e):
    v = VT(en, st, this)
    if e["n"].endswith("at"):
        i = V(en, st, args, e, 0)
        if en.truth(st, binop("<", i, size(v))) is not True:
            en.mthrow(st, "std::out_of_range", e, "vector::at index out of range")
    elif e["n"].endswith("front"):
        i = ZERO
    elif e["n"].endswith("back"):
        i = binop("-", size(v), ONE)
    else:
        i = V(en, st, args, e, 0)
    if hasattr(en.h, "on_index"):
        en.h.on_index(en, st, this, v, i, e)
    if is_loc(this):
        l = sub(this, ("i", i))
        if en.ty(e["t"]).get("cls") == "std::_Bit_reference":
            return [(st, mk("bitref", l))]
        if not e.get("gl"):
            return [(st, en.load(st, l))]
        return [(st, l)]
    return [(st, at(v, i))]


@model("std::_Bit_reference::operator bool")
@simple
def bitref_bool(en, st, this, args, e):
    v = VT(en, st, this)
    if v.op == "bitref":
        r = en.load(st, v.a[0])
    else:
        r = v
    if not is_c(r):
        en.termtype.setdefault(r, "bool")
    return r


@model("std::_Bit_reference::operator=")
@simple
def bitref_set(en, st, this, args, e):
    v = VT(en, st, this)
    if v.op == "bitref":
        x = V(en, st, args, e, 0)
        if x.op == "bitref":
            x = en.load(st, x.a[0])
        en.save(st, v.a[0], x, e)
    return this


@model("std::vector::size", "std::map::size", "std::set::size")
@simple
def vector_size(en, st, this, args, e):
    return size(VT(en, st, this))


@model("std::vector::empty", "std::map::empty", "std::set::empty")
@simple
def vector_empty(en, st, this, args, e):
    v = VT(en, st, this)
    if v is EMPTYMAP:
        return TRUE
    return binop("==", size(v), ZERO)


@model("std::vector::clear")
@simple
def vector_clear(en, st, this, args, e):
    en.save(st, this, EMPTYVEC, e)
    return ZERO


@model("std::map::clear", "std::set::clear")
@simple
def map_clear(en, st, this, args, e):
    en.save(st, this, EMPTYMAP, e)
    return ZERO


@model("std::vector::resize")
@simple
def vector_resize(en, st, this, args, e):
    n = V(en, st, args, e, 0)
    v = VT(en, st, this)
    el = V(en, st, args, e, 1) if len(args) > 1 else None
    if el is None:
        r = en.ty((e.get("this") or {}).get("t", ""))
        el = defelem(en, (e.get("this") or {}).get("t", ""))
    if v is EMPTYVEC:
        en.save(st, this, filled(el, n), e)
    else:
        en.save(st, this, mk("resized", v, n, el), e)
    return ZERO


@model("std::vector::operator=", "std::map::operator=", "std::set::operator=")
@simple
def container_assign(en, st, this, args, e):
    v = V(en, st, args, e, 0)
    en.save(st, this, v, e)
    if is_loc(args[0]) and e["a"][0].get("k") == "call" and e["a"][0].get("n") == "std::move":
        en.save(st, args[0], EMPTYVEC if e["n"].startswith("std::vector") else EMPTYMAP, e, quiet=True)
    return this


@model("std::vector::reserve", "std::vector::shrink_to_fit")
@simple
def noop(en, st, this, args, e):
    return ZERO


@model("std::vector::begin", "std::basic_string::begin", "std::vector::cbegin", "std::basic_string::cbegin")
@simple
def vec_begin(en, st, this, args, e):
    return mk("itbegin", this)


@model("std::vector::end", "std::basic_string::end", "std::vector::cend", "std::basic_string::cend")
@simple
def vec_end(en, st, this, args, e):
    return mk("itend", this)


@model("std::move", "std::forward", "std::as_const")
@simple
def std_move(en, st, this, args, e):
    return args[0]


# ---- map / set -------------------------------------------------------------------------------

@model("std::map::ctor", "std::set::ctor", "std::unordered_map::ctor", "std::unordered_set::ctor")
def map_ctor(en, st, this, args, e):
    if not args:
        return [(st, EMPTYMAP)]
    v = V(en, st, args, e, 0)
    t0 = en.ty(e["a"][0]["t"])
    if t0.get("cls") in ("std::map", "std::set", "std::unordered_map", "std::unordered_set"):
        return [(st, v)]
    if v.op == "vec":
        m = EMPTYMAP
        for x in v.a:
            if t0.get("cls") == "std::initializer_list" and "map" in e["n"]:
                m = upd(m, fget(x, "first"), fget(x, "second"))
            else:
                m = upd(m, x, TRUE)
        return [(st, m)]
    return [(st, mk("mapof", v))]


@model("std::map::operator[]", "std::unordered_map::operator[]")
def map_index(en, st, this, args, e):
    k = V(en, st, args, e, 0)
    m = VT(en, st, this)
    if not is_loc(this):
        return [(st, at(m, k))]
    l = sub(this, ("i", k))
    cur = at(m, k)
    if cur.op == "absent":
        d = en.ty((e.get("this") or {}).get("t", ""))
        ta = (d.get("targs") or [None, None])
        el = en.ty(ta[1]) if len(ta) > 1 and ta[1] else {}
        if el.get("k") == "rec":
            en.save(st, l, en.defaultval(ta[1]), e, quiet=True)
        else:
            en.save(st, l, ZERO, e, quiet=True)
    elif m.op != "upd":
        en.save(st, l, cur, e, quiet=True) if False else None
    return [(st, l)]


@model("std::map::at", "std::unordered_map::at")
def map_at(en, st, this, args, e):
    k = V(en, st, args, e, 0)
    m = VT(en, st, this)
    out = []
    for s, h in en.split(st, has(m, k), e):
        if h:
            out.append((s, sub(this, ("i", k)) if is_loc(this) else at(m, k)))
        else:
            en.mthrow(s, "std::out_of_range", e, "map::at on a missing key")
    return out


def has(m, k):
    if m.op == "upd":
        if m.a[1] is k:
            return TRUE
        if distinct(m.a[1], k):
            return has(m.a[0], k)
    if m is EMPTYMAP:
        return FALSE
    return mk("has", m, k)


@model("std::map::find", "std::set::find", "std::unordered_map::find")
@simple
def map_find(en, st, this, args, e):
    k = V(en, st, args, e, 0)
    m = VT(en, st, this)
    return mk("mapit", this, m, k)


@model("std::map::count", "std::set::count", "std::map::contains", "std::set::contains", "std::unordered_map::count")
@simple
def map_count(en, st, this, args, e):
    k = V(en, st, args, e, 0)
    h = has(VT(en, st, this), k)
    return h if is_c(h) else mk("has", VT(en, st, this), k)


@model("std::map::end", "std::set::end", "std::map::cend", "std::set::cend", "std::unordered_map::end")
@simple
def map_end(en, st, this, args, e):
    return mk("mapend")


@model("std::map::begin", "std::set::begin", "std::map::cbegin", "std::set::cbegin")
@simple
def map_begin(en, st, this, args, e):
    return mk("mapbegin", VT(en, st, this))


@model("std::map::insert", "std::map::emplace", "std::set::insert", "std::set::emplace")
@simple
def map_insert(en, st, this, args, e):
    m = VT(en, st, this)
    a = vals(en, st, args, e)
    ismap = e["n"].startswith("std::map")
    if ismap:
        if len(a) == 2:
            k, x = a
        else:
            k, x = fget(a[0], "first"), fget(a[0], "second")
        en.save(st, this, upd(m, k, x), e)      # insert keeps an existing entry; keys here are fresh
    else:
        k, x = a[0], TRUE
        en.save(st, this, upd(m, a[0], TRUE), e)
    if hasattr(en.h, "on_insert"):
        en.h.on_insert(en, st, this, k, x, e)
    return mk("insres", m, k)


@model("std::map::erase", "std::set::erase")
@simple
def map_erase(en, st, this, args, e):
    m = VT(en, st, this)
    en.save(st, this, mk("erased", m, *vals(en, st, args, e)), e)
    return ZERO


@model("std::pair::ctor")
@simple
def pair_ctor(en, st, this, args, e):
    a = vals(en, st, args, e)
    if len(a) == 1:
        return a[0]
    if len(a) == 2:
        return rec(None, {"first": a[0], "second": a[1]})
    return rec(None, {"first": mk("uninit", "first"), "second": mk("uninit", "second")})


@model("std::make_pair")
@simple
def make_pair(en, st, this, args, e):
    a = vals(en, st, args, e)
    return rec(None, {"first": a[0], "second": a[1]})


# ---- smart pointers --------------------------------------------------------------------------

@model("std::unique_ptr::ctor")
@simple
def uptr_ctor(en, st, this, args, e):
    if not args:
        return NULL
    v = V(en, st, args, e, 0)
    if is_loc(args[0]) and e["a"][0].get("gl") and en.ty(e["a"][0]["t"]).get("cls") == "std::unique_ptr":
        en.save(st, args[0], NULL, e, quiet=True)
    return v


@model("std::unique_ptr::get", "std::__shared_ptr::get", "std::shared_ptr::get")
@simple
def ptr_get(en, st, this, args, e):
    return VT(en, st, this)


@model("std::unique_ptr::operator->", "std::__shared_ptr_access::operator->", "std::shared_ptr::operator->")
@simple
def ptr_arrow(en, st, this, args, e):
    return VT(en, st, this)


@model("std::unique_ptr::operator*", "std::__shared_ptr_access::operator*")
@simple
def ptr_star(en, st, this, args, e):
    return en.deref(st, VT(en, st, this), e)


@model("std::unique_ptr::operator bool", "std::__shared_ptr::operator bool")
@simple
def ptr_bool(en, st, this, args, e):
    return neg(binop("==", VT(en, st, this), NULL))


@model("std::unique_ptr::release")
@simple
def uptr_release(en, st, this, args, e):
    v = VT(en, st, this)
    en.save(st, this, NULL, e)
    return v


@model("std::unique_ptr::reset", "std::unique_ptr::operator=")
def uptr_reset(en, st, this, args, e):
    old = VT(en, st, this)
    v = V(en, st, args, e, 0) if args else NULL
    if args and is_loc(args[0]) and e["a"][0].get("gl") and en.ty(e["a"][0]["t"]).get("cls") == "std::unique_ptr":
        en.save(st, args[0], NULL, e, quiet=True)
    en.save(st, this, v, e)
    t = en.ty((e.get("this") or {}).get("t", ""))
    out = []
    for s in en.delete(st, old, (t.get("targs") or ["?"])[0], e):
        out.append((s, this if e.get("gl") else ZERO))
    return out


def uptr_dtor(en, st, l, tname, e):
    t = en.ty(tname)
    v = en.load(st, l)
    return en.delete(st, v, (t.get("targs") or ["?"])[0], e)


M["dtor:std::unique_ptr"] = uptr_dtor


@model("std::shared_ptr::ctor", "std::__shared_ptr::ctor")
@simple
def sptr_ctor(en, st, this, args, e):
    return V(en, st, args, e, 0) if args else NULL


@model("std::shared_ptr::operator=")
@simple
def sptr_assign(en, st, this, args, e):
    en.save(st, this, V(en, st, args, e, 0), e)
    return this


@model("std::__shared_ptr::reset", "std::shared_ptr::reset")
@simple
def sptr_reset(en, st, this, args, e):
    en.save(st, this, V(en, st, args, e, 0) if args else NULL, e)
    return ZERO


@model("std::make_shared", "std::make_unique")
def make_shared(en, st, this, args, e):
    l = en.alloc(st, en.site(e))
    t = (en.ty(e["t"]).get("targs") or ["?"])[0]
    d = en.ty(t)
    if d.get("own"):
        r = en.p.records.get(d.get("rec"))
        st.store[l.a[0]] = en.defaultval(t)
        ctors = [f for f in en.p.functions.values() if f.get("ctor") and f.get("cls") == t and len(f["params"]) == len(args)]
        if len(ctors) == 1:
            return [(s, l) for s, _ in en.inline(ctors[0], st, args, l, e)]
    else:
        st.store[l.a[0]] = mk("new", t, *vals(en, st, args, e))
    return [(st, l)]


# shared objects: the last owner destroys the object.  Reference counts are not modelled; the
# destructor of the pointee runs when the owner that created it goes away.
def sptr_dtor(en, st, l, tname, e):
    return [st]


M["dtor:std::shared_ptr"] = sptr_dtor
for _c in ("std::basic_string", "std::vector", "std::map", "std::set", "std::pair", "std::allocator", "std::basic_ofstream",
           "std::basic_ifstream", "std::basic_ostringstream", "std::unordered_map"):
    M["dtor:" + _c] = lambda en, st, l, tname, e: [st]


# ---- algorithms ------------------------------------------------------------------------------

@model("std::find")
@simple
def std_find(en, st, this, args, e):
    a = vals(en, st, args, e)
    if a[0].op == "itbegin":
        c = a[0].a[0]
        return mk("findit", en.load(st, c) if is_loc(c) else c, a[2])
    return mk("findit", *a)


def op_eq_vec(en, st, a, b):
    return None


@model("std::distance")
@simple
def std_distance(en, st, this, args, e):
    a = vals(en, st, args, e)
    if a[1].op == "findit":
        return mk("indexof", a[1].a[0], a[1].a[1])
    return mk("distance", *a)


@model("std::max_element", "std::min_element")
@simple
def std_maxel(en, st, this, args, e):
    a = vals(en, st, args, e)
    return mk(e["n"].split("::")[1], *a[:2])


@model("std::max", "std::min")
@simple
def std_max(en, st, this, args, e):
    a = vals(en, st, args, e)
    t = mk(e["n"].split("::")[1], *a)
    return t


@model("std::sort", "std::stable_sort")
@simple
def std_sort(en, st, this, args, e):
    a = vals(en, st, args, e)
    if a[0].op == "itbegin" and is_loc(a[0].a[0]):
        v = en.load(st, a[0].a[0])
        en.save(st, a[0].a[0], mk("sorted", v), e)
    return ZERO


@model("std::transform")
@simple
def std_transform(en, st, this, args, e):
    a = vals(en, st, args, e)
    if a[0].op == "itbegin" and a[2].op == "itbegin" and is_loc(a[2].a[0]):
        src = en.load(st, a[0].a[0]) if is_loc(a[0].a[0]) else a[0].a[0]
        fn = a[3]
        kind = "transformed"
        if fn.op == "lambda" and fn.a[0] in en.p.functions:
            t = str(en.p.functions[fn.a[0]].get("body"))
            if "'tolower'" in t:
                kind = "lower"
            elif "'toupper'" in t:
                kind = "upper"
        elif fn.op == "fnptr" and "tolower" in str(fn.a[0]):
            kind = "lower"
        en.save(st, a[2].a[0], mk(kind, src), e)
    return a[2]


@model("std::generate_n")
@simple
def std_generate(en, st, this, args, e):
    a = vals(en, st, args, e)
    if a[0].op == "itbegin" and is_loc(a[0].a[0]):
        en.save(st, a[0].a[0], S("generated", en.site(e)), e)
    return ZERO


# ---- streams ---------------------------------------------------------------------------------

@model("std::basic_ostringstream::ctor", "std::basic_stringstream::ctor")
@simple
def oss_ctor(en, st, this, args, e):
    return rec(None, {"str": EMPTY})


@model("std::basic_ostringstream::str", "std::basic_stringstream::str")
@simple
def oss_str(en, st, this, args, e):
    return fget(VT(en, st, this), "str")


@model("std::basic_ostream::operator<<", "std::operator<<")
def os_put(en, st, this, args, e):
    if this is not None:
        stream, i = this, 0
    else:
        stream, i = args[0], 1
    v = VT(en, st, stream)
    out = []
    for s, x in strarg(en, st, args, e, i):
        if v.op == "rec" and any(k == "str" for k, _ in v.a[1]):
            k = en.ty(e["a"][i]["t"]).get("k")
            if k == "fn" or x.op == "fnptr":
                x = C("\n") if "endl" in str(x.a[0]) else EMPTY
            elif k in ("int", "float", "bool", "enum") and x.op not in ("chr",):
                t = e["a"][i]["t"]
                if t not in ("char", "unsigned char", "signed char"):
                    y = V(en, s, args, e, i)
                    x = C(str(cv(y))) if is_c(y) and k == "int" else mk("tostr", "f" if k == "float" else "i", y)
            en.save(s, stream, fset(v, "str", concat(fget(v, "str"), x)), e)
        elif hasattr(en.h, "on_stream_write"):
            en.h.on_stream_write(en, s, stream, v, x, e)
        out.append((s, stream))
    return out


@model("std::endl", "std::flush")
@simple
def endl(en, st, this, args, e):
    return args[0]


# ---- environment / process -------------------------------------------------------------------

@model("getenv")
@simple
def getenv(en, st, this, args, e):
    return mk("env", V(en, st, args, e, 0))


@model("printf", "puts", "putchar", "fprintf", "fflush")
@simple
def printf(en, st, this, args, e):
    return en.fresh(st, "printf", e)


@model("rand")
@simple
def rand(en, st, this, args, e):
    r = en.fresh(st, "rand", e)
    st.facts[r] = ("i", 0, (1 << 31) - 1, frozenset())
    return r


@model("std::exception::exception", "std::exception::ctor")
@simple
def exc_ctor(en, st, this, args, e):
    return None


@model("std::exception::what")
@simple
def exc_what(en, st, this, args, e):
    t = S("what")
    return t


# ---- sqlite3 / libpq: handles ----------------------------------------------------------------

def fresh_int(en, st, name, e):
    r = en.fresh(st, name, e)
    en.termtype.setdefault(r, e["t"])
    return r


OPS = ("sqlite3_open_v2", "sqlite3_prepare_v2", "sqlite3_exec", "sqlite3_step", "sqlite3_close")


def nn(st, p):
    st.facts[p] = ("i", 1, (1 << 64) - 1, frozenset())


def fail2(en, st, name, e, ok, bad):
    """fork into success and failure: returns [(state, result)]"""
    s2 = st.clone()
    r1, r2 = en.fresh(st, name, e, ("ok",)), en.fresh(s2, name, e, ("fail",))
    ok(st)
    bad(s2)
    return [(st, ZERO), (s2, ONE)]


@model("sqlite3_open_v2")
def sqlite3_open(en, st, this, args, e):
    s2 = st.clone()
    h = en.fresh(st, "db", e)
    nn(st, h)
    en.save(st, args[1], h, e)
    h2 = en.fresh(s2, "db", e)
    en.save(s2, args[1], h2, e)
    return [(st, ZERO), (s2, ONE)]


@model("sqlite3_prepare_v2", "sqlite3_prepare_v3", "sqlite3_prepare")
def sqlite3_prepare(en, st, this, args, e):
    sql = V(en, st, args, e, 1)
    s2 = st.clone()
    h = mk("stmt", en.fresh(st, "prep", e), sql)
    nn(st, h)
    out = args[3]
    en.save(st, out, h, e)
    en.save(s2, out, NULL, e)
    return [(st, ZERO), (s2, ONE)]


@model("sqlite3_step")
def sqlite3_step(en, st, this, args, e):
    h = V(en, st, args, e, 0)
    r = fresh_int(en, st, "step", e)
    en.setdom(st, r, [100, 101, 1])
    st.store[("row", h)] = r
    return [(st, r)]


def col(kind):
    def m(en, st, this, args, e):
        a = vals(en, st, args, e)
        # one value per row: the last step result names the row
        t = mk("col", kind, a[0], a[1], en.rowof(st, a[0]))
        en.termtype.setdefault(t, e["t"])
        return [(st, t)]
    return m


for _k in ("int", "int64", "text", "value", "double", "blob", "bytes", "type", "name"):
    M["sqlite3_column_" + _k] = col(_k)


def svalue(kind):
    def m(en, st, this, args, e):
        t = mk("sv" + kind, V(en, st, args, e, 0))
        en.termtype.setdefault(t, e["t"])
        if kind == "type" and t not in st.facts:
            en.setdom(st, t, [1, 2, 3, 4, 5])
        return [(st, t)]
    return m


for _k in ("int", "int64", "text", "type", "double", "blob", "bytes"):
    M["sqlite3_value_" + _k] = svalue(_k)


def opres(en, st, this, args, e):
    """library call with a success/failure result"""
    r = fresh_int(en, st, e["n"], e)
    en.setdom(st, r, [0, 1])
    return [(st, r)]


for _n in ("sqlite3_bind_blob", "sqlite3_bind_double", "sqlite3_bind_int", "sqlite3_bind_int64", "sqlite3_bind_null", "sqlite3_bind_text",
           "sqlite3_reset", "sqlite3_finalize", "sqlite3_close", "sqlite3_close_v2", "sqlite3_config", "sqlite3_initialize",
           "sqlite3_enable_load_extension", "sqlite3changegroup_add", "sqlite3_bind_value", "sqlite3_gpkg_auto_init"):
    M[_n] = opres


@model("sqlite3_exec")
def sqlite3_exec(en, st, this, args, e):
    s2 = st.clone()
    if len(args) > 4 and is_loc(args[4]):
        en.save(st, args[4], NULL, e)
        en.save(s2, args[4], en.fresh(s2, "errmsg", e), e)
    return [(st, ZERO), (s2, ONE)]


@model("sqlite3changegroup_new")
def cg_new(en, st, this, args, e):
    s2 = st.clone()
    h = en.fresh(st, "chgrp", e)
    nn(st, h)
    en.save(st, args[0], h, e)
    en.save(s2, args[0], NULL, e)
    return [(st, ZERO), (s2, ONE)]


@model("sqlite3changegroup_output")
def cg_out(en, st, this, args, e):
    s2 = st.clone()
    h = mk("cgout", en.fresh(st, "cgout", e), V(en, st, args, e, 0))
    n = mk("cgsize", h)
    nn(st, h)
    en.save(st, args[2], h, e)
    en.save(st, args[1], n, e)
    en.save(s2, args[2], NULL, e)
    en.save(s2, args[1], ZERO, e)
    return [(st, ZERO), (s2, ONE)]


@model("sqlite3_free", "sqlite3changegroup_delete", "sqlite3_value_free", "PQclear", "PQfinish", "sqlite3_mutex_enter", "sqlite3_mutex_leave",
       "sqlite3session_delete")
@simple
def release(en, st, this, args, e):
    return ZERO


@model("sqlite3_malloc", "sqlite3_realloc", "sqlite3_value_dup", "sqlite3_expanded_sql", "sqlite3_vmprintf", "sqlite3_mprintf", "PQexec",
       "sqlite3_malloc64", "sqlite3_realloc64", "malloc", "realloc", "calloc")
def alloc(en, st, this, args, e):
    s2 = st.clone()
    a = vals(en, st, args, e)
    h = mk("mem", en.fresh(st, e["n"], e), *a[-2 if "printf" in e["n"] else -1:])
    nn(st, h)
    return [(st, h), (s2, NULL)]


@model("PQconnectdb")
@simple
def pqconnect(en, st, this, args, e):
    h = en.fresh(st, "pgconn", e)
    nn(st, h)
    return h


@model("PQstatus", "PQresultStatus")
@simple
def pqstatus(en, st, this, args, e):
    v = V(en, st, args, e, 0)
    t = mk(e["n"], v)
    en.termtype.setdefault(t, e["t"])
    return t


@model("PQgetvalue", "PQgetisnull", "PQntuples", "PQcmdTuples", "PQerrorMessage", "PQresultErrorMessage", "sqlite3_errmsg",
       "sqlite3_db_mutex", "sqlite3_changes", "PQnfields", "PQfname", "PQgetlength")
@simple
def pqget(en, st, this, args, e):
    a = vals(en, st, args, e)
    if e["n"] == "sqlite3_changes":
        t = fresh_int(en, st, "changes", e)
        st.facts[t] = ("i", 0, INF, frozenset())
        return t
    t = mk(e["n"], *a)
    en.termtype.setdefault(t, e["t"])
    if e["n"] in ("PQntuples", "PQnfields", "PQgetlength"):
        st.facts.setdefault(t, ("i", 0, INF, frozenset()))
    if e["n"] in ("PQcmdTuples", "PQgetvalue", "PQerrorMessage", "PQresultErrorMessage", "sqlite3_errmsg"):
        nn(st, t)
    return t


INF = float("inf")


# ---- files -----------------------------------------------------------------------------------

@model("fopen", "fopen64")
def fopen(en, st, this, args, e):
    a = vals(en, st, args, e)
    s2 = st.clone()
    h = mk("file", en.fresh(st, "fopen", e), *a)
    nn(st, h)
    return [(st, h), (s2, NULL)]


@model("fread", "fwrite")
@simple
def fread(en, st, this, args, e):
    r = fresh_int(en, st, e["n"], e)
    st.facts[r] = ("i", 0, INF, frozenset())
    return r


@model("fclose", "fseek", "remove", "unlink", "rename", "stat", "fflush", "ferror")
def fclose(en, st, this, args, e):
    if e["n"] == "stat":
        pass
    return opres(en, st, this, args, e)


@model("ftell")
@simple
def ftell(en, st, this, args, e):
    r = fresh_int(en, st, "ftell", e)
    return r


@model("rewind")
@simple
def rewind(en, st, this, args, e):
    return ZERO


@model("std::basic_ofstream::ctor", "std::basic_ifstream::ctor", "std::basic_fstream::ctor")
@simple
def ofs_ctor(en, st, this, args, e):
    if not args:
        return mk("stream", S("closed"))
    return mk("stream", en.fresh(st, "fstream", e), *vals(en, st, args, e)[:1])


@model("std::basic_ofstream::open", "std::basic_ifstream::open")
@simple
def ofs_open(en, st, this, args, e):
    en.save(st, this, mk("stream", en.fresh(st, "fstream", e), V(en, st, args, e, 0)), e)
    return ZERO


@model("std::basic_ofstream::is_open", "std::basic_ifstream::is_open")
@simple
def ofs_isopen(en, st, this, args, e):
    t = mk("isopen", VT(en, st, this))
    en.termtype.setdefault(t, e["t"])
    return t


@model("std::basic_ofstream::close", "std::basic_ostream::write", "std::basic_ostream::flush", "std::basic_ifstream::close", "std::basic_ofstream::rdbuf",
       "std::basic_ifstream::rdbuf", "std::basic_ostream::put", "std::basic_ostream::seekp", "std::basic_ostream::tellp")
@simple
def ofs_misc(en, st, this, args, e):
    if e["n"].endswith("rdbuf"):
        return mk("rdbuf", VT(en, st, this))
    return this if e.get("gl") else ZERO


@model("std::basic_ios::operator!", "std::basic_ios::fail", "std::basic_ios::bad")
@simple
def ios_fail(en, st, this, args, e):
    t = en.fresh(st, "iosfail", e)
    en.termtype.setdefault(t, "bool")
    return t


@model("std::basic_ios::good", "std::basic_ios::operator bool")
@simple
def ios_good(en, st, this, args, e):
    t = en.fresh(st, "iosgood", e)
    en.termtype.setdefault(t, "bool")
    return t


@model("std::wstring_convert::ctor", "stat::stat", "stat::ctor", "std::less::ctor", "std::allocator::ctor", "__va_list_tag::__va_list_tag", "__va_list_tag::ctor",
       "std::less::less", "std::allocator::allocator")
@simple
def trivial_ctor(en, st, this, args, e):
    return mk("obj", e["n"])


@model("__builtin_va_start", "__builtin_va_end", "__builtin_va_copy")
@simple
def va(en, st, this, args, e):
    return ZERO


@model("sqlite3_vsnprintf", "snprintf", "vsnprintf", "sqlite3_snprintf")
@simple
def vsn(en, st, this, args, e):
    v = en.fresh(st, e["n"], e)
    en.termtype.setdefault(v, e["t"])
    return v


@model("memcpy", "memmove")
@simple
def memcpy(en, st, this, args, e):
    d, s, n = vals(en, st, args, e)
    if hasattr(en.h, "on_memcpy"):
        en.h.on_memcpy(en, st, d, s, n, e)
    if is_loc(d):
        src = en.load(st, s) if is_loc(s) else mk("mem8", s, n)
        # copying an object representation
        dt = e["a"][0]["t"]
        en.save(st, d, src if not (is_loc(s) and s.a[1]) else en.load(st, s), e)
    return d


@model("memset")
@simple
def memset(en, st, this, args, e):
    d = args[0]
    if is_loc(d):
        en.save(st, d, mk("filled", V(en, st, args, e, 1), V(en, st, args, e, 2)), e)
    return d


# ---- Value as an abstract data type ----------------------------------------------------------

V_UNDEF = mk("val", C(0), NULL)
V_NULL = mk("val", C(5), NULL)


def vtype(v):
    if v.op == "val":
        return v.a[0]
    if v.op == "ite":
        return ite(v.a[0], vtype(v.a[1]), vtype(v.a[2]))
    return mk("vtype", v)


VALUE = {}


def vmodel(*names):
    def deco(f):
        for n in names:
            VALUE["Value::" + n] = f
        return f
    return deco


@vmodel("ctor")
@simple
def value_ctor(en, st, this, args, e):
    if not args:
        return V_UNDEF
    return V(en, st, args, e, 0)


VALUE["default:Value"] = V_UNDEF
VALUE["dtor:Value"] = lambda en, st, l, tname, e: [st]


@vmodel("operator=")
@simple
def value_assign(en, st, this, args, e):
    en.save(st, this, V(en, st, args, e, 0), e)
    return this


@vmodel("type")
@simple
def value_type(en, st, this, args, e):
    t = vtype(VT(en, st, this))
    if not is_c(t) and t not in st.facts:
        if t.op == "vtype":
            en.setdom(st, t, [0, 1, 2, 3, 4, 5])
    return t


@vmodel("getInt", "getDouble", "getString")
def value_get(en, st, this, args, e):
    v = VT(en, st, this)
    k = {"getInt": "i", "getDouble": "f", "getString": "s"}[e["n"].split("::")[1]]
    if hasattr(en.h, "on_value_get"):
        en.h.on_value_get(en, st, v, k, e)
    if v.op == "val":
        r = v.a[1]
    else:
        r = mk("vget", k, v)
        if k == "i":
            en.termtype.setdefault(r, "long")
    if e.get("gl"):
        h = ("t", en.frames[-1].depth, e["x"])
        st.store[h] = r
        return [(st, loc(h))]
    return [(st, r)]


@vmodel("setInt", "setDouble")
@simple
def value_set(en, st, this, args, e):
    en.save(st, this, mk("val", C(1 if e["n"].endswith("Int") else 2), V(en, st, args, e, 0)), e)
    return ZERO


@vmodel("setString")
@simple
def value_setstr(en, st, this, args, e):
    a = vals(en, st, args, e)
    n = a[2]
    p = a[1]
    if is_loc(p):
        p = loadbuf(en, st, p)
    full = n is mk("strlen", p) or (n.op == "trunc" and n.a[2] is mk("strlen", p)) or (is_c(p) and n is C(len(cv(p))))
    pay = p if full else mk("bytes", p, n)
    en.save(st, this, mk("val", a[0], pay), e)
    return ZERO


@vmodel("setUndefined", "setNull", "reset")
@simple
def value_setu(en, st, this, args, e):
    en.save(st, this, V_NULL if e["n"].endswith("Null") else V_UNDEF, e)
    return ZERO


def vpay(v):
    if v.op == "val":
        return v.a[1]
    return mk("vpay", v)


@vmodel("operator==", "operator!=")
@simple
def value_eq(en, st, this, args, e):
    a, b = VT(en, st, this), V(en, st, args, e, 0)
    t = veq(a, b)
    return neg(t) if e["n"].endswith("!=") else t


def veq(a, b):
    if a is b:
        return TRUE
    ta, tb = vtype(a), vtype(b)
    if is_c(ta) and is_c(tb) and ta is not tb:
        return FALSE
    if a.op == "val" and b.op == "val" and ta is tb and ta in (C(0), C(5)):
        return TRUE
    if a.n > b.n:
        a, b = b, a
    return mk("veq", a, b)


BOOLOPS.update({"veq", "streq", "ieq", "memeq", "elem", "isopen"})

ALL = dict(M)
ALL.update(VALUE)

# ---- summaries of project helpers ------------------------------------------------------------
# Used where a check looks at the callers; what the helpers themselves do is decided by checks
# that analyse their bodies (see DESIGN.md, "Helper contracts").

SUM = {}


def pure(name, op=None, boolean=False, nt=None):
    def m(en, st, this, args, e):
        a = [V(en, st, args, e, i) for i in range(len(args))]
        if this is not None:
            a = [VT(en, st, this)] + a
        t = mk(op or "pure:" + name, *a)
        if boolean:
            en.termtype.setdefault(t, "bool")
        elif en.ty(e["t"]).get("k") in ("int", "enum"):
            en.termtype.setdefault(t, e["t"])
        return [(st, t)]
    SUM[name] = m


def sum_replace(en, st, this, args, e):
    a = [V(en, st, args, e, i) for i in range(3)]
    if all(is_c(x) for x in a):
        return [(st, C(cv(a[0]).replace(cv(a[1]), cv(a[2]))))]
    return [(st, mk("repl", *a))]


def sum_lower(en, st, this, args, e):
    v = V(en, st, args, e, 0)
    return [(st, C(cv(v).lower()) if is_c(v) else mk("lower", v))]


def sum_starts(en, st, this, args, e):
    a, b = V(en, st, args, e, 0), V(en, st, args, e, 1)
    if is_c(a) and is_c(b):
        return [(st, C(cv(a).startswith(cv(b))))]
    return [(st, mk("startsWith", a, b))]


SUM["replace"] = sum_replace
SUM["lowercaseString"] = sum_lower
SUM["startsWith"] = sum_starts
pure("isLayerTable", "isLayer", True)
pure("concatNames", "joined")
pure("indexOf", "indexof")
pure("pOpToStr")
pure("conflict2Str")
pure("hex2bin")
pure("bin2hex")
pure("base64_encode")
pure("base64_decode")
pure("fileexists", None, True)


def sum_fresh(en, st, this, args, e):
    return [(st, en.fresh(st, e["n"], e))]


for _n in ("randomString", "tmpdir", "getEnvVar"):
    SUM[_n] = sum_fresh


def sum_noop(en, st, this, args, e):
    return [(st, ZERO)]


for _n in ("error", "warn", "info", "debug", "log"):
    SUM["Logger::" + _n] = sum_noop

FULL = dict(ALL)
FULL.update(SUM)
BOOLOPS.update({"isLayer", "pure:fileexists"})
