"""The exported operations and what each of them may write and must produce (for checks over sa/fs.py)."""
from .terms import *
from . import fs

# output parameters by position
OUT = {
    "GEODIFF_createChangeset": (2,), "GEODIFF_createChangesetEx": (4,), "GEODIFF_invertChangeset": (1,),
    "GEODIFF_createRebasedChangeset": (3, 4), "GEODIFF_createRebasedChangesetEx": (5, 6),
    "GEODIFF_rebase": (2, 3), "GEODIFF_rebaseEx": (3, 5), "GEODIFF_applyChangeset": (0,), "GEODIFF_applyChangesetEx": (2,),
    "GEODIFF_listChanges": (1,), "GEODIFF_listChangesSummary": (1,), "GEODIFF_makeCopy": (5,), "GEODIFF_dumpData": (3,),
    "GEODIFF_hasChanges": (), "GEODIFF_changesCount": (),
}
COUNTS = ("GEODIFF_hasChanges", "GEODIFF_changesCount")


def exported(p):
    r = []
    for f in p.functions.values():
        if f.get("externC") and f["n"].startswith("GEODIFF_") and "body" in f:
            if any("char" in q["t"] and p.types.get(q["t"], {}).get("k") == "ptr" and "(" not in q["t"] for q in f["params"]):
                r.append(f)
    return sorted(r, key=lambda f: f["n"])


def succeeded(en, st, fn, v):
    """does this path report success"""
    if is_c(v):
        return cv(v) >= 0 if fn["n"] in COUNTS else cv(v) == 0
    d = en.dom(st, v)
    if d is not None:
        ks = [x for x in d if x != "other"]
        return any(k >= 0 for k in ks) if fn["n"] in COUNTS else 0 in d
    return None


def where(fn):
    return "%s:%s" % (fn["file"].split("/")[-1], fn["l"])


def is_param(t):
    return isinstance(t, T) and t.op == "sym" and str(t.a[0]).startswith("arg")


def leaves(t, acc=None):
    """initial files a content depends on"""
    acc = set() if acc is None else acc
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if isinstance(x, T):
            if id(x) in seen:
                continue
            seen.add(id(x))
            if x.op == "file0":
                acc.add(x.a[0])
                continue
            st += [y for y in x.a]
        elif isinstance(x, (tuple, frozenset)):
            st += list(x)
    return acc


def subterms(t):
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if isinstance(x, T):
            if id(x) in seen:
                continue
            seen.add(id(x))
            yield x
            st += list(x.a)
        elif isinstance(x, (tuple, frozenset)):
            st += list(x)


def written(st):
    """paths written on the way, with the last place each was written"""
    r = {}
    for ev in st.mon.get("log", ()):
        if len(ev) == 4 and ev[0] not in ("read", "compatible"):
            r[ev[1]] = ev
    return r
