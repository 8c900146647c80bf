"""Contracts of project classes used modularly.

A check that analyses a caller uses the contract; separate checks analyse the implementation (the
reader's by C03/C04, the writer's by C05/C10, the drivers' by their own checks).
"""
from .terms import *
from .models import V, VT, vals, nn, FULL, fresh_int, model, EMPTYMAP

CON = {}


def con(*names):
    def deco(f):
        for n in names:
            CON[n] = f
        return f
    return deco


def entry_value(en, st, e, src):
    ent = mk("entry", en.fresh(st, "entry", e), src)
    op = fget(ent, "op")
    en.setdom(st, op, [9, 18, 23])
    en.termtype[op] = "ChangesetEntry::OperationType"
    nn(st, fget(ent, "table"))
    return ent


@con("ChangesetReader::nextEntry")
def reader_next(en, st, this, args, e):
    en.mthrow(st, "GeoDiffException", e, "the changeset is malformed")
    s2 = st.clone()
    ent = entry_value(en, st, e, readersrc(en, st, this))
    en.save(st, args[0], ent, e)
    return [(st, TRUE), (s2, FALSE)]


def readersrc(en, st, this):
    v = en.load(st, this) if is_loc(this) else this
    if v.op == "reader":
        return v
    return mk("reader", mk("at?", this) if not isinstance(v, T) else v)


def opened(kind):
    def m(en, st, this, args, e):
        s2 = st.clone()
        f = V(en, st, args, e, 0)
        en.save(st, this, mk(kind, f), e)
        return [(st, TRUE), (s2, FALSE)]
    return m


CON["ChangesetReader::open"] = opened("reader")


@con("ChangesetReader::ctor", "ChangesetReader::ChangesetReader", "ChangesetWriter::ctor", "ChangesetWriter::ChangesetWriter")
def rw_ctor(en, st, this, args, e):
    return [(st, mk("closed", e["n"].split("::")[0]))]


for _c in ("ChangesetReader", "ChangesetWriter"):
    CON["default:" + _c] = mk("closed", _c)
    CON["dtor:" + _c] = lambda en, st, l, tname, e: [st]


@con("ChangesetReader::isEmpty")
def reader_empty(en, st, this, args, e):
    t = mk("isEmpty", readersrc(en, st, this))
    en.termtype[t] = "bool"
    return [(st, t)]


@con("ChangesetReader::rewind")
def reader_rewind(en, st, this, args, e):
    return [(st, ZERO)]


@con("ChangesetWriter::open")
def writer_open(en, st, this, args, e):
    en.mthrow(st, "GeoDiffException", e, "the output cannot be opened")
    f = V(en, st, args, e, 0)
    k = en.ty(e["t"]).get("k")
    if k == "bool":
        s2 = st.clone()
        en.save(st, this, mk("writer", f), e)
        return [(st, TRUE), (s2, FALSE)]
    en.save(st, this, mk("writer", f), e)
    return [(st, ZERO)]


@con("ChangesetWriter::beginTable", "ChangesetWriter::writeEntry", "ChangesetWriter::close", "ChangesetWriter::flush")
def writer_op(en, st, this, args, e):
    en.mthrow(st, "GeoDiffException", e, "the output cannot be written")
    return [(st, ZERO)]


# ---- database drivers, seen from above --------------------------------------------------------

def driver_op(ret):
    def m(en, st, this, args, e):
        en.mthrow(st, "GeoDiffException", e, e["n"] + " fails")
        if ret is None:
            return [(st, ZERO)]
        v = en.fresh(st, e["n"], e)
        if ret == "b":
            en.termtype.setdefault(v, "bool")
        return [(st, v)]
    return m


for _n in ("open", "create", "createChangeset", "applyChangeset", "createTables", "dumpData", "checkCompatibleForRebase"):
    CON["Driver::" + _n] = driver_op(None)
CON["Driver::listTables"] = driver_op("v")
CON["Driver::tableSchema"] = driver_op("v")


@con("Driver::createDriver")
def create_driver(en, st, this, args, e):
    s2 = st.clone()
    h = mk("driver", en.fresh(st, "driver", e), V(en, st, args, e, 0))
    nn(st, h)
    return [(st, h), (s2, NULL)]


CON["dtor:Driver"] = lambda en, st, l, tname, e: [st]
CON["Driver::driverIsRegistered"] = lambda en, st, this, args, e: [(st, mk("registered", V(en, st, args, e, 0)))]

UP = dict(FULL)
UP.update(CON)
