import ctypes, os, sqlite3
W = os.environ["WORK"]
lib = ctypes.CDLL(os.environ["GEODIFF_LIB"])
LOG = []
_cb = ctypes.CFUNCTYPE(None, ctypes.c_int, ctypes.c_char_p)(lambda l, m: LOG.append((l, m.decode("utf-8", "replace"))))
lib.GEODIFF_setLoggerCallback(_cb)


def path(n):
    return W + "/" + n


def b(x):
    return x.encode() if isinstance(x, str) else x


def call(fn, *a):
    return getattr(lib, "GEODIFF_" + fn)(*[b(x) for x in a])


def db(name, *sqls):
    f = path(name)
    if os.path.exists(f):
        os.unlink(f)
    c = sqlite3.connect(f)
    for s in sqls:
        if isinstance(s, tuple):
            c.execute(*s)
        else:
            c.execute(s)
    c.commit()
    c.close()
    return f


def rows(f, sql):
    c = sqlite3.connect(f)
    r = c.execute(sql).fetchall()
    c.close()
    return r


def copy(a, name, *sqls):
    import shutil
    f = path(name)
    shutil.copy(a, f)
    c = sqlite3.connect(f)
    for s in sqls:
        if isinstance(s, tuple):
            c.execute(*s)
        else:
            c.execute(s)
    c.commit()
    c.close()
    return f


def write(name, data):
    with open(path(name), "wb") as f:
        f.write(data)
    return path(name)


def read(f):
    with open(f, "rb") as h:
        return h.read()


_handler = None


def pg(fn):
    """fn(sql) -> None/int (command, affected rows), list of rows, or Exception for an error"""
    global _handler
    keep = []

    def h(sql):
        r = fn(sql.decode("utf-8", "replace"))
        if isinstance(r, Exception):
            s = b"E|0|0|"
        elif r is None or isinstance(r, int):
            s = b"C|%d|0|" % (r or 0)
        else:
            s = b"T|0|%d|" % (len(r[0]) if r else 1)
            for row in r:
                for v in row:
                    s += (b"\x01" if v is None else b(str(v))) + b"\x1f"
        keep.append(ctypes.create_string_buffer(s))
        return ctypes.addressof(keep[-1])
    _handler = ctypes.CFUNCTYPE(ctypes.c_void_p, ctypes.c_char_p)(h)
    lib.mock_set_handler(_handler)


def conninfo():
    lib.mock_get_conninfo.restype = ctypes.c_char_p
    return lib.mock_get_conninfo().decode()


def check(c, msg):
    if not c:
        print("FAILED: " + msg)
        for l in LOG[-5:]:
            print("   log", l)
        raise SystemExit(1)
