"""Contracts of the Boost.Hana reflectors (H01): which members are visited, in which order, under which name, with what handed on.

Hana's containers of keys carry no state: the type of an expression (computed by clang from Hana's own headers) says which keys it holds."""
import z3
from z3 import And, IntVal, BoolVal, If
from .sym import *
from .ir import Ty
from .lib_std import LIB, lib, apply_lambda
from .engine import Engine, Loc, State, CppThrow
from .lib_clang import event, TR, I, B

JR, BR = "ReflectiveRapidJSON::JsonReflector::", "ReflectiveRapidJSON::BinaryReflector::"
HANA = "boost::hana::"
# the members drivers/hana.cpp declares, in order
DECLARED = {
    "HanaNone": [], "HanaOne": ["only"], "HanaMany": ["first", "second", "third", "fourth", "fifth"],
    "HanaNested": ["inner", "flag"], "HanaAdapted": ["b", "a", "z"],
    "HanaNames": ["_under", "X", "m_a9", "a_rather_long_name_with_many_words_in_it", "under_"],
}


def flat(args):
    for a in args:
        yield from flat(a["pack"]) if "pack" in a else (a,)


def key_name(u, t):
    """The text of a key type."""
    r = u.raw(u.noref(t))
    if r.get("name") != HANA + "string":
        raise Unsupported("key of type %s" % t)
    return "".join(chr(int(a["i"])) for a in flat(r["args"]))


def text_of(name):
    """A key's text: the names in the driver stand for any other ones."""
    return z3.Const("name of " + name, Str)


def key_types(u, t):
    r = u.raw(u.noref(t))
    if r.get("name") not in (HANA + "tuple", HANA + "basic_tuple"):
        return None
    out = [a["t"] for a in flat(r["args"])]
    return out if all(u.raw(u.noref(x)).get("name") == HANA + "string" for x in out) else None


@lib("*hana")
def hana_call(en, fn, obj, args, e):
    q = fn["q"]
    if not q.startswith(HANA):
        return NotImplemented
    q = q[len(HANA):]
    if q == "for_each_t::operator()":
        ks = key_types(en.u, fn["pt"][0])
        if ks is None:
            raise Unsupported("hana::for_each over %s" % fn["pt"][0])
        lam = en.val(args[1])
        for k in ks:
            apply_lambda(en, lam, [RecV("key", {}, en.u.ty(k))], [en.u.ty(k)]) if len(lam.ops) == 1 else by_key(en, lam, k)
        return None
    if q == "at_key_t::operator()":
        l = en.as_loc(args[0])
        n = key_name(en.u, fn["pt"][1])
        if n not in en.load(l).f:
            raise Unsupported("at_key: no member %s" % n)
        return l.f(n)
    if q == "to_t::operator()" and en.u.ty(fn["ret"]).k == "cstr":
        return CharP(FALSE, text_of(key_name(en.u, fn["pt"][0])), True)
    if q == "string::c_str":
        return CharP(FALSE, text_of(key_name(en.u, fn["cls"])), True)
    if key_types(en.u, fn["ret"]) is not None:
        return RecV("keys", {})
    return NotImplemented


def by_key(en, lam, k):
    for op in lam.ops:
        if len(op["pt"]) == 1 and en.u.noref(op["pt"][0]) == en.u.noref(k):
            return en.call_lambda(lam, op, [RecV("key", {}, en.u.ty(k))])
    raise Unsupported("no instantiation for a key")


def glob(en, e):
    return RecV("hana", {})


for n in ("keys", "for_each", "at_key", "to", "drop_front", "drop_front_exactly", "drop_back", "reverse", "take_front", "to_tuple", "filter", "remove_if", "slice"):
    LIB.setdefault("global:" + n, glob)


class HanaContracts:
    def __init__(self, apply):
        self.f = apply

    def find(self, en, fn, obj, args):
        q = fn["q"]
        if q in (JR + "push", JR + "pull") and len(args) == 4 or q in (BR + "BinarySerializer::write", BR + "BinaryDeserializer::read"):
            return self
        return None

    @property
    def name(self):
        return "(de)serialization of a member"

    def apply(self, en, fn, obj, args):
        return self.f(en, fn, obj, args)


def verify_hana(u, f, unroll=0, opts=None):
    what = f["q"].split("::")[-1]
    binary = what.endswith("CustomType")
    reading = what in ("pull", "readCustomType")
    names = DECLARED[u.ty(f["params"][1 if binary else 0]["t"]).x["name"]]
    ids = {}

    def ident(l):
        return IntVal(ids.setdefault(l, len(ids)))

    def place(en, v):
        """A pointer or reference as a number (0 is null)."""
        v = en.val(v) if not isinstance(v, Loc) else v
        if isinstance(v, PtrV):
            return If(as_bool(v.null), IntVal(-1), ident(v.loc))
        return ident(v)

    def member(en, fn, obj, args):
        l = en.as_loc(args[0])
        ev = en.o["event_log"]
        if binary:
            version = en.val(args[1]) if len(args) > 1 else IntVal(0)
            holes = [ident(en.as_loc(obj)), ident(l), version]
        else:
            n = en.val(args[1])
            last = en.val(args[3]) if what == "pull" else en.as_loc(args[3])
            holes = [ident(l), n.s, ident(en.as_loc(args[2])), place(en, last)]
        en.store(ev, event(en.load(ev), fn["q"].split("::")[-1], holes))
        if reading:
            v = en.fresh(I, "restored")
            en.store(l, v)
            en.o["restored"][l] = v
            if en.decide(en.fresh(B, "fails")):
                en.st.ghost["failed"] = True
                raise CppThrow(RecV("exc", {}), Ty("rec", name="JsonDeserializationError"))
        return IntVal(0) if binary and reading else None
    en = Engine(u, HanaContracts(member), dict(LIB, **{"*": hana_call}), dict(opts or {}, unroll=unroll, gn="H01"))
    en.scenario = what
    init = State()
    en.st = init
    en.trace, en.pos, en.alts, en.prefix_len = [], 0, [], 0
    en.reached = 0
    log = en.o["event_log"] = en.new_cell(en.fresh(TR, "log"))
    v0 = {n: en.fresh(I, n) for n in names}
    obj = en.new_cell(RecV("struct", v0))
    log0 = en.load(log)
    if binary:
        ser, version = en.new_cell(RecV("serializer", {})), en.fresh(I, "version")
        en.assume(And(version >= 0, version < 2 ** 64))
        args = [ser, obj, version]
    elif reading:
        value, e = en.new_cell(RecV("object", {})), en.new_cell(RecV("errors", {}))
        errors = PtrV(en.fresh(B, "no errors wanted"), e)
        args = [obj, value, errors]
    else:
        value, alloc = en.new_cell(RecV("object", {})), en.new_cell(RecV("allocator", {}))
        args = [obj, value, alloc]

    def run():
        en.st.ghost["failed"] = False
        en.o["restored"] = {}
        try:
            en.inline(f, None, args)
        except CppThrow:
            en.enter(f)
            en.oblige("H01", "fails only if a member fails", BoolVal(en.st.ghost["failed"]), assume_after=False)
            return
        en.enter(f)
        want = log0
        for n in names:
            if binary:
                want = event(want, "read" if reading else "write", [ident(ser), ident(obj.f(n)), version])
            else:
                want = event(want, what, [ident(obj.f(n)), text_of(n), ident(value), place(en, errors) if reading else ident(alloc)])
        en.oblige("H01", "each declared member is visited once, in order, under its name, and everything is handed on", en.load(log) == want, assume_after=False)
        en.oblige("H01", "an error of a member is not swallowed", BoolVal(not en.st.ghost["failed"]), assume_after=False)
        now = en.load(obj).f
        for n in names:
            en.oblige("H01", "only (de)serializing a member changes it", now[n] == en.o["restored"].get(obj.f(n), v0[n]), assume_after=False)
        en.reached += 1
    en.paths = en.explore(init, run)
    return [en]


NAMES = {JR + "push": 0, JR + "pull": 0, BR + "readCustomType": 1, BR + "writeCustomType": 1}


def targets(u):
    out = []
    for f in u.functions.values():
        i = NAMES.get(f["q"])
        if i is None or f.get("body") is None or len(f["params"]) != 3:
            continue
        t = u.ty(f["params"][i]["t"])
        o = u.ty(f["params"][1]["t"])
        if t.x.get("name") in DECLARED and (i == 1 or "GenericObject" in o.x.get("name", "")):
            out.append((f, verify_hana))
    return out
