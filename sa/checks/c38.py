"""C38: the locale of the application.

A library cannot choose the locale: the application may have called setlocale.  Numbers and letters that are
converted with functions of the C library then come out differently.  The conversions are found in the resolved
syntax tree, and the operations that convert real numbers (JSON, literals for PostgreSQL, values read from it) are
interpreted in an environment whose decimal separator is a comma.
"""
import re
from ..astutil import nodes, walk, callees
from .. import world
from . import c15, c18

LEVEL = "other"
LETTERS = {"tolower", "toupper", "isalpha", "isalnum", "isupper", "islower", "isspace", "ispunct", "isprint", "isgraph", "iscntrl", "isblank", "towlower", "towupper", "strcasecmp", "strncasecmp",
           "stricmp", "_stricmp", "strcoll", "strxfrm", "wcscasecmp"}
PARSE = {"atof", "strtod", "strtof", "strtold", "stod", "stof", "stold"}
PRINT = {"printf", "sprintf", "snprintf", "vsnprintf", "vsprintf", "fprintf", "asprintf", "sscanf", "fscanf"}
KNOWS = {"localeconv", "nl_langinfo", "uselocale", "newlocale", "_create_locale", "std::locale::classic"}
FLOATS = ("double", "float", "long double")


def base(n):
    return n[5:] if n.startswith("std::") else n


def strip(x):
    while isinstance(x, dict) and x.get("k") in ("cast", "ld", "full", "temp", "bt", "decay") and isinstance(x.get("e"), dict):
        x = x["e"]
    return x


def floating(x):
    return isinstance(x, dict) and (str(x.get("t", "")).replace("const ", "").rstrip(" &") in FLOATS)


def conversion(x):
    """what a call converts with the rules of the locale"""
    if x.get("k") != "call":
        return None
    n = x.get("n", "")
    b = base(n)
    a = x.get("a", ())
    if b in LETTERS and len(a) + (1 if isinstance(x.get("this"), dict) else 0) < 2 or b in ("strcasecmp", "strncasecmp", "stricmp", "_stricmp", "strcoll", "strxfrm"):
        v = strip(a[0]) if a else {}
        return "letters" if v.get("k") not in ("int", "chr", "char") else None
    if b in PARSE:
        return "reals"
    if b in PRINT:
        f = next((y for y in a if isinstance(strip(y), dict) and strip(y).get("k") == "str"), None)
        if f is not None and re.search(r"%[-+ #0]*(\d+|\*)?(\.(\d+|\*))?[lL]?[aAeEfFgG]", str(strip(f).get("v"))):
            return "reals"
        return None
    if n in ("std::to_string", "std::__cxx11::to_string", "std::to_wstring") and a and floating(a[0]):
        return "reals"
    if b.split("::")[-1] in ("operator<<", "operator>>") and ("ostream" in n or "istream" in n or n in ("std::operator<<", "std::operator>>")) and any(floating(y) for y in a):
        return "reals"
    return None


def reachable(p):
    """functions that operations can reach"""
    todo = [f for f in p.functions.values() if f.get("externC") and f["n"].startswith("GEODIFF_")]
    seen = {f["f"] for f in todo}
    while todo:
        f = todo.pop()
        for x in nodes(f):
            gs = []
            if x.get("k") in ("call", "ctor") and "f" in x:
                gs = callees(p, x)
            elif x.get("k") in ("lambda", "fn") and x.get("f") in p.functions:
                gs = [p.functions[x["f"]]]
            for g in gs:
                if g["f"] not in seen:
                    seen.add(g["f"])
                    todo.append(g)
        # what the destructors and constructors of classes and inherited operations do
        for g in p.functions.values():
            if g.get("cls") and g.get("cls") == f.get("cls") and g["f"] not in seen and (g.get("virt") or g["n"].split("::")[-1].startswith("~")):
                seen.add(g["f"])
                todo.append(g)
    return seen


def run(ctx):
    ctx.rule("letters", "letters of names are not converted or classified with functions that follow the locale")
    ctx.rule("reals", "a function that converts real numbers to or from text with functions that follow the locale takes its decimal separator into account")
    p = ctx.p
    knows = set()
    for f in p.functions.values():
        for x in nodes(f):
            if x.get("k") == "call" and (x.get("n") in KNOWS or x.get("n", "").endswith("::imbue")):
                knows.add(f["f"])
    # small helpers that only pass such a value on
    for _ in range(2):
        for f in p.functions.values():
            if not f.get("cls") and len(list(nodes(f))) < 60 and any(g["f"] in knows for y in nodes(f) if y.get("k") == "call" and "f" in y for g in callees(p, y)):
                knows.add(f["f"])
    live = reachable(p)
    for f in p.functions.values():
        if f["f"] not in live:
            continue
        ctx.cover(f["n"])
        for x in nodes(f):
            what = conversion(x)
            if what is None:
                continue
            ctx.count("conversions of " + what)
            if what == "letters":
                ok = False
            else:
                ok = f["f"] in knows or any(g["f"] in knows for y in nodes(f) if y.get("k") == "call" and "f" in y for g in callees(p, y))
            ctx.check(ok, what, "%s:%s" % (f["file"], x.get("l")), "%s uses %s, the result of which depends on the locale of the application" % (f["n"], x.get("n")), key="%s|%s|%s" % (what, f["n"], x.get("n")), what="%s in %s" % (x.get("n"), f["n"]))
    world.LOCALE["point"] = ","
    try:
        c15.run(ctx, keep=lambda n: n.startswith("reals"), reals=[])
        c18.run(ctx, keep=lambda x: x[2] == "postgres" and (x[0] == "read" and ("double precision" in x[1] or "type real" in x[1]) or x[0] == "write" and x[5] == "double precision"))
    finally:
        world.LOCALE["point"] = "."
