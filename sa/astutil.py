"""Syntax-level helpers over the resolved AST: traversal, call graph, exception escapes."""


def kids(n):
    if isinstance(n, dict):
        for key, v in list(n.items()):
            if key[0] == "_":
                continue
            if isinstance(v, dict):
                yield v
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, dict):
                        yield x
                    elif isinstance(x, list):
                        for y in kids({"l": x}):
                            yield y


def walk(n):
    st = [n]
    while st:
        x = st.pop()
        yield x
        st += list(kids(x))[::-1]


def roots(fn):
    r = []
    for i in fn.get("inits", ()):
        r.append(i)
    if "body" in fn:
        r.append(fn["body"])
    return r


def nodes(fn):
    for r in roots(fn):
        for x in walk(r):
            if "k" in x or "e" in x:
                yield x


def calls(fn):
    return [x for x in nodes(fn) if x.get("k") in ("call", "ctor") and "f" in x]


def callees(p, node):
    """project functions a call node may reach"""
    fid = node["f"]
    out = []
    f = p.functions.get(fid)
    if f is None:
        l = [g for g in p.byname.get(node.get("n", ""), []) if g["f"].split("@")[0] == fid.split("@")[0]]
        f = l[0] if len(l) == 1 else None
    if f is not None:
        out.append(f)
    if node.get("virt"):
        for o in p.overriders.get(fid, ()):
            g = p.functions.get(o)
            if g is not None:
                out.append(g)
    return out


def owner(p, where):
    return where


def bylineage(p, pred):
    return [f for f in p.functions.values() if pred(f)]


def reachable(p, roots_):
    seen = {}
    st = list(roots_)
    while st:
        f = st.pop()
        if f["f"] in seen:
            continue
        seen[f["f"]] = f
        for c in nodes(f):
            if c.get("k") in ("call", "ctor") and "f" in c:
                st += callees(p, c)
            elif c.get("k") == "lambda" and c.get("f") in p.functions:
                st.append(p.functions[c["f"]])
            elif c.get("k") == "fn" and c.get("f") in p.functions:
                st.append(p.functions[c["f"]])
    return list(seen.values())
