#!/usr/bin/env python3
"""Runs the code generator (built from /repo's current tree) on random headers and compares what it emits with an
independent description of the headers.

usage: gen_harness.py GENERATOR PROPERTY SEED SECONDS [KIND ITERATION]
"""
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

STUBS = '''#pragma once
namespace ReflectiveRapidJSON {
template <bool b> struct Bool { static constexpr bool value = b; };
template <typename T> struct JsonSerializable {};
template <typename T, unsigned long v = 0> struct BinarySerializable {};
template <typename T> struct AdaptedJsonSerializable : Bool<false> {};
template <typename T> struct AdaptedBinarySerializable : Bool<false> {};
struct Errors;
namespace JsonReflector {
template <typename T> void push(const T &, int);
template <typename T> void pull(T &, int, Errors *);
template <typename T> void pushOther(const T &, int);
}
namespace BinaryReflector {
template <typename T> void writeCustomType(int, const T &, unsigned long);
template <typename T> unsigned long readCustomType(int, T &, unsigned long);
}
}
namespace other {
template <typename T> struct JsonSerializable {};
template <typename T> struct BinarySerializable {};
template <typename T> struct AdaptedJsonSerializable : ReflectiveRapidJSON::Bool<false> {};
namespace JsonReflector {
template <typename T> void push(const T &, int);
template <typename T> void pull(T &, int, ReflectiveRapidJSON::Errors *);
}
}
#define MACRO_JSON(NAME) struct NAME : ::ReflectiveRapidJSON::JsonSerializable<NAME> { int viaMacro; }
#define MACRO_BINARY(NAME) struct NAME : ::ReflectiveRapidJSON::BinarySerializable<NAME> { int viaMacro; }
'''
TYPES = ["int", "unsigned long", "double", "bool", "char", "const char *", "int *"]
CONSTS = ["const int", "int *const", "const double"]


class Field:
    def __init__(self, name, access, const, type):
        self.name, self.access, self.const, self.type = name, access, const, type


class Cls:
    """One class definition of a header."""
    def __init__(self):
        self.items = []       # ("field", Field) ("static", name) ("marker", "AsOf"|"Until", n) ("text", s)
        self.bases = []       # classes
        self.json = self.binary = None   # None or the text of the base
        self.friends = set()
        self.default_ctor = True
        self.included = False
        self.nested = []
        self.adapted = {"json": None, "binary": None}  # None, "main", "included"
        self.macro = None

    def fields(self):
        return [i[1] for i in self.items if i[0] == "field"]

    def ancestors(self):
        out = []
        for b in self.bases:
            out += [b] + b.ancestors()
        return out


class Header:
    def __init__(self, r, prop):
        self.r = r
        self.prop = prop
        self.classes = []
        self.n = 0
        self.body = {True: [], False: []}
        self.additional = {"json": [], "binary": []}
        for part in ([True] if r.random() < .7 else []) + [False]:
            for _ in range(r.randint(1, 3 if part else 6)):
                self.block(part)
        if r.random() < .5:
            for fmt in ("json", "binary"):
                names = [c.q for c in self.classes] + ["nope", "n0::nope"] + [c.q.split("::")[-1] for c in self.classes]
                self.additional[fmt] = r.sample(names, min(len(names), r.randint(1, 3)))

    def name(self, p="C"):
        self.n += 1
        return "%s%d" % (p, self.n)

    def block(self, included):
        r = self.r
        ns = [r.choice(["n0", "n1", "deep"]) for _ in range(r.choice([0, 0, 1, 2]))]
        out = []
        after = []
        for _ in range(r.randint(1, 3)):
            self.cls(out, after, ns, included, "    " * len(ns), r.random() < .3)
        txt = "".join("%snamespace %s {\n" % ("    " * i, n) for i, n in enumerate(ns)) + "".join(out) + "".join("    " * i + "}\n" for i in reversed(range(len(ns))))
        self.body[included].append(txt + "".join(after))

    def cls(self, out, after, ns, included, ind, forward, outer=None):
        r = self.r
        c = Cls()
        c.included = included
        c.n = self.name()
        c.q = "::".join(ns + [c.n])
        if forward:
            out.append("%sstruct %s;\n" % (ind, c.n))
            if r.random() < .3:
                return  # never defined
        if outer is None and r.random() < .08:
            c.macro = r.choice(["JSON", "BINARY"])
            setattr(c, c.macro.lower(), "%s" % c.q)
            c.btext = "::ReflectiveRapidJSON::BinarySerializable<::%s>" % c.q if c.macro == "BINARY" else ""
            c.items.append(("field", Field("viaMacro", "public", False, "int")))
            out.append("%sMACRO_%s(%s);\n" % (ind, c.macro, c.n))
            self.classes.append(c)
            return
        kw = r.choice(["struct", "class"])
        bases = []
        if r.random() < .45:
            c.json = "::ReflectiveRapidJSON::JsonSerializable<%s>" % c.n
            bases.append(r.choice(["public ", "", "private "]) + c.json)
        if r.random() < .45:
            v = r.choice([None, 0, 1, 3, 70000])
            c.binary = "::ReflectiveRapidJSON::BinarySerializable<%s%s>" % (c.n, "" if v is None else ", %d" % v)
            c.btext = "::ReflectiveRapidJSON::BinarySerializable<::%s%s>" % (c.q, "" if v is None else ", %d" % v)
            bases.insert(r.randint(0, len(bases)), "public " + c.binary)
        if r.random() < .1:
            bases.append("public other::%sSerializable<%s>" % (r.choice(["Json", "Binary"]), c.n))
        # previous classes, but none twice and none ambiguous
        cand = [b for b in self.classes if (b.included or not included) and b is not outer and not any(b is x for x in self.enclosing(outer)) and b.default_ctor and not getattr(b, "hidden", False)]
        if cand and r.random() < .6:
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                b = r.choice(cand[-4:] if r.random() < .6 else cand)
                mine = {id(x) for y in c.bases for x in [y] + y.ancestors()}
                if any(id(x) in mine for x in [b] + b.ancestors()):
                    continue
                c.bases.append(b)
                bases.insert(r.randint(0, len(bases)), "public ::" + b.q)
        r.random() < .3 and r.shuffle(bases)
        for f in ("push", "pull", "write", "read"):
            if r.random() < .4:
                c.friends.add(f)
        if self.prop == "G02" and ("write" in c.friends) != ("read" in c.friends):
            c.friends -= {"write", "read"}
        lines = []
        acc = "private" if kw == "class" else "public"
        members = [("field",)] * r.choice([0, 1, 2, 3, 5]) + [("static",)] * r.choice([0, 0, 1]) + [("marker",)] * r.choice([0, 0, 1, 2, 4]) + [("text",)] * r.choice([0, 1]) + [("nested",)] * (r.random() < .12)
        members += [("friend", f) for f in c.friends] + [("decoy",)] * (r.random() < .3)
        r.shuffle(members)
        i2 = ind + "    "
        for m in members:
            if r.random() < .3 and m[0] != "friend":
                acc = r.choice(["public", "public", "protected", "private"])
                lines.append("%s%s:\n" % (ind, acc))
            if m[0] == "field":
                const = r.random() < .2
                t = r.choice(CONSTS if const else TYPES)
                f = Field(self.name("m"), acc, const, t)
                if not const and r.random() < .1:
                    f.type = "mutable " + f.type if not f.type.startswith("const") else f.type
                if r.random() < .1:
                    f.name = "rrjAsOfVersion" + f.name  # not a static variable: just a member
                c.items.append(("field", f))
                lines.append("%s%s %s%s;\n" % (i2, f.type, f.name, "{}" if const else r.choice(["", "", "{}"])))
            elif m[0] == "static":
                n = self.name("s")
                c.items.append(("static", n))
                lines.append("%sstatic %s %s;\n" % (i2, r.choice(["int", "bool"]), n))
            elif m[0] == "marker":
                w, v = r.choice(["AsOf", "AsOf", "Until"]), r.choice([0, 1, 2, 3, 4, 5, 8, 300])
                c.items.append(("marker", w, v))
                lines.append("%sstatic constexpr %s rrj%sVersion%s = %d;\n" % (i2, r.choice(["unsigned long", "auto", "int"]), w, self.name("_"), v))
            elif m[0] == "nested" and outer is None:
                sub = []
                old = self.classes[:]
                was = acc
                self.partial = c
                n = self.cls(sub, after, ns + [c.n], included, i2, False, (outer, c))
                for x in self.classes[len(old):]:
                    x.hidden = acc != "public" or getattr(x, "hidden", False)
                    x.adapted = {"json": None, "binary": None}
                lines += sub
            elif m[0] == "text":
                lines.append(i2 + r.choice(["void %s();\n", "enum %s { };\n", "typedef int %s;\n", "template <typename T> void %s(T);\n"]) % self.name("t"))
            elif m[0] == "friend":
                lines.append(i2 + {"push": "friend void ::ReflectiveRapidJSON::JsonReflector::push<%s>(const %s &, int);\n",
                                   "pull": "friend void ::ReflectiveRapidJSON::JsonReflector::pull<%s>(%s &, int, ::ReflectiveRapidJSON::Errors *);\n",
                                   "write": "friend void ::ReflectiveRapidJSON::BinaryReflector::writeCustomType<%s>(int, const %s &, unsigned long);\n",
                                   "read": "friend unsigned long ::ReflectiveRapidJSON::BinaryReflector::readCustomType<%s>(int, %s &, unsigned long);\n"}[m[1]] % (c.n, c.n))
            elif m[0] == "decoy":
                lines.append(i2 + r.choice(["friend void ::other::JsonReflector::push<%s>(const %s &, int);\n" % (c.n, c.n),
                                            "friend void ::other::JsonReflector::pull<%s>(%s &, int, ::ReflectiveRapidJSON::Errors *);\n" % (c.n, c.n),
                                            "friend void ::ReflectiveRapidJSON::JsonReflector::pushOther<%s>(const %s &, int);\n" % (c.n, c.n),
                                            "friend class Stranger;\n", "friend void push(int);\n"]))
        k = r.random()
        if k < .15:
            lines.append("%spublic:\n%s%s(int) {}\n" % (ind, i2, c.n))
            c.default_ctor = False
        elif k < .25:
            lines.append("%spublic:\n%s%s(int = 0) {}\n" % (ind, i2, c.n))
        elif k < .35:
            lines.append("%spublic:\n%s%s() {}\n%s%s(int) {}\n" % (ind, i2, c.n, i2, c.n))
        out.append("%s%s %s%s {\n%s%s};\n" % (ind, kw, c.n, " : " + ", ".join(bases) if bases else "", "".join(lines), ind))
        if r.random() < .15:
            out.append("%s%s %s;\n" % (ind, kw, c.n)) if outer is None else None
        self.classes.append(c)
        if outer is None:
            for fmt, T in (("json", "Json"), ("binary", "Binary")):
                if r.random() < .2:
                    where = included or r.random() < .3
                    if where and not included:
                        continue  # the class is not known there
                    if included and r.random() < .5:
                        where = False  # adapted by the processed file
                    c.adapted[fmt] = "included" if where else "main"
                    t = "template <> struct ReflectiveRapidJSON::Adapted%sSerializable<::%s> : Bool<true> {};\n" % (T, c.q)
                    if included and not where:
                        self.body[False].append(t)
                    else:
                        after.append(t)

    def enclosing(self, outer):
        out = []
        while outer:
            out.append(outer[1])
            outer = outer[0]
        return out

    # ---- what is expected ---------------------------------------------------------------------------------------------
    def relevant(self, c, fmt):
        if c.adapted[fmt] == "main":
            return True
        if c.included:
            return False
        return bool(getattr(c, fmt)) or c.q in self.additional[fmt]

    def expected(self, fmt):
        rel = [c for c in self.classes if self.relevant(c, fmt)]
        out = {}
        for c in rel:
            anc = [a for a in c.ancestors() if a in rel]
            bases = [a for a in anc if not any(a in b.ancestors() for b in anc)]
            own = bool(c.json if fmt == "json" else c.binary) and not c.included and c.adapted[fmt] != "main"
            e = dict(bases=sorted("::" + b.q for b in bases), default=c.default_ctor)
            if fmt == "json":
                e["out"] = [f.name for f in c.fields() if "push" in c.friends or f.access == "public"]
                e["in"] = [f.name for f in c.fields() if not f.const and ("pull" in c.friends or f.access == "public")]
            else:
                asof = until = 0
                e["out"], e["in"] = [], []
                for i in c.items:
                    if i[0] == "marker":
                        if i[1] == "AsOf":
                            asof = i[2]
                            until = 0 if asof > until else until
                        else:
                            until = i[2]
                            asof = 0 if until < asof else asof
                    elif i[0] == "field" and not i[1].const:
                        for w, fr in (("out", "write"), ("in", "read")):
                            if fr in c.friends or i[1].access == "public":
                                e[w].append((i[1].name, asof, until))
                e["version"] = c.btext if own else None
            out["::" + c.q] = e
        return out

    def text(self, incname):
        inc = any(self.body[True])
        return ("#include \"%s\"\n" % incname if inc else STUBS.replace("#pragma once\n", "")) + "".join(self.body[False]), STUBS + "".join(self.body[True])


# ---- what has been emitted ----------------------------------------------------------------------------------------------
class Bad(Exception):
    pass


class Invalid(Exception):
    pass


def norm(s):
    s = re.sub(r"//[^\n]*", " ", s)
    return re.sub(r"\s+", " ", s).strip()


FN = re.compile(r"template ?<> (?P<vis>[\w ]*?) ?(?P<ret>void|BinaryVersion) (?P<f>push|pull|writeCustomType|readCustomType)<(?P<n>[^>]*)>\((?P<params>[^{}]*)\) ?\{")
ST = [
    ("base", re.compile(r"push\(static_cast<const (\S+) &>\(reflectable\), value, allocator\);"), "push"),
    ("member", re.compile(r"push\(reflectable\.(\w+), \"([^\"]*)\", value, allocator\);"), "push"),
    ("base", re.compile(r"pull\(static_cast<(\S+) &>\(reflectable\), value, errors\);"), "pull"),
    ("member", re.compile(r"pull\(reflectable\.(\w+), \"([^\"]*)\", value, errors\);"), "pull"),
    ("save", re.compile(r"const char ?\* ?previousRecord = nullptr; if \(errors\) \{ previousRecord = errors->currentRecord; errors->currentRecord = \"([^\"]*)\"; \}"), "pull"),
    ("restore", re.compile(r"if \(errors\) \{ errors->currentRecord = previousRecord; \}"), "pull"),
    ("base", re.compile(r"serializer\.write\(static_cast<const (\S+) &>\(customObject\), version\);"), "writeCustomType"),
    ("member", re.compile(r"serializer\.write\(customObject\.(\w+), version\);"), "writeCustomType"),
    ("version", re.compile(r"using V = Versioning<(.*?)>; if constexpr \(V::enabled\) \{ serializer\.writeVariableLengthUIntBE\(V::applyDefault\(version\)\); \}"), "writeCustomType"),
    ("base", re.compile(r"deserializer\.read\(static_cast<(\S+) &>\(customObject\), version\);"), "readCustomType"),
    ("member", re.compile(r"deserializer\.read\(customObject\.(\w+), version\);"), "readCustomType"),
    ("version", re.compile(r"using V = Versioning<(.*?)>; if constexpr \(V::enabled\) \{ V::assertVersion\(version = deserializer\.readVariableLengthUIntBE\(\), \"([^\"]*)\"\); \}"), "readCustomType"),
    ("return", re.compile(r"return version;"), "readCustomType"),
    ("unused", re.compile(r"\(void\) ?(\w+);"), None),
    ("cond", re.compile(r"if \((?:version >= (\d+))?(?: && )?(?:version <= (\d+))?\) \{"), None),
    ("end", re.compile(r"\}"), None),
]
PARAMS = {
    "push": "const %s &reflectable, ::RAPIDJSON_NAMESPACE::Value::Object &value, ::RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator",
    "pull": "%s &reflectable, const ::RAPIDJSON_NAMESPACE::GenericValue<::RAPIDJSON_NAMESPACE::UTF8<char>>::ConstObject &value, JsonDeserializationErrors *errors",
    "writeCustomType": "BinarySerializer &serializer, const %s &customObject, BinaryVersion version",
    "readCustomType": "BinaryDeserializer &deserializer, %s &customObject, BinaryVersion version",
}


def parse(text):
    """[(format, [(function, class, visibility, [events])])]"""
    s = norm(text)
    out = []
    while s:
        m = re.match(r"namespace ReflectiveRapidJSON \{ namespace (Json|Binary)Reflector \{ ", s)
        if not m:
            raise Bad("unexpected code: " + s[:120])
        s = s[m.end():]
        fns = []
        while True:
            m = FN.match(s)
            if not m:
                break
            name = m.group("f")
            if norm(m.group("params")) != PARAMS[name] % m.group("n") or (m.group("ret") == "BinaryVersion") != (name == "readCustomType"):
                raise Bad("unexpected signature: " + m.group(0))
            s = s[m.end():].lstrip()
            ev, depth = [], 0
            while True:
                for k, rx, f in ST:
                    x = rx.match(s)
                    if x and (f is None or f == name):
                        break
                else:
                    raise Bad("unexpected statement: " + s[:120])
                s = s[x.end():].lstrip()
                if k == "cond":
                    if depth:
                        raise Bad("nested conditions")
                    depth = 1
                    ev.append(("cond", int(x.group(1) or 0), int(x.group(2) or 0)))
                elif k == "end":
                    if not depth:
                        break
                    depth = 0
                    ev.append(("cond", 0, 0))
                else:
                    ev.append((k,) + x.groups())
            fns.append((name, m.group("n"), m.group("vis"), ev))
        m = re.match(r"\} \} ?", s)
        if not m:
            raise Bad("unexpected code: " + s[:120])
        s = s[m.end():]
        out.append(("json" if "Json" in text and fns and fns[0][0] in ("push", "pull") else "binary", fns))
    return out


def squeeze(s):
    return re.sub(r"\s", "", s or "")


def check(prop, fmt, exp, fns, vis):
    w, rd = ("push", "pull") if fmt == "json" else ("writeCustomType", "readCustomType")
    names = [n for f, n, _, _ in fns if f == w]
    if prop == "G03":
        if sorted(names) != sorted(exp):
            raise Bad("%s code for %s instead of %s" % (fmt, sorted(names), sorted(exp)))
        for f, n, _, _ in fns:
            if n not in exp:
                raise Bad("%s code for %s" % (fmt, n))
        for f, n, v, _ in fns:
            if v != vis:
                raise Bad("visibility %r instead of %r" % (v, vis))
        return
    for n in exp:
        e = exp[n]
        for f, want in ((w, e["out"]), (rd, e["in"])):
            evs = [ev for ff, nn, _, ev in fns if ff == f and nn == n]
            if f == rd and not e["default"]:
                if prop in ("G01", "G02") and evs:
                    raise Bad("%s emitted for %s which has no default constructor" % (f, n))
                continue
            if len(evs) != 1:
                if prop in ("G01", "G02") and not (f == w and not evs):
                    raise Bad("%s emitted %d times for %s" % (f, len(evs), n))
                if not evs:
                    continue
            ev = evs[0]
            if prop == "G04":
                got = sorted(x[1] for x in ev if x[0] == "base")
                if got != e["bases"]:
                    raise Bad("%s<%s> processes the bases %s instead of %s" % (f, n, got, e["bases"]))
                ib = [i for i, x in enumerate(ev) if x[0] == "base"]
                im = [i for i, x in enumerate(ev) if x[0] == "member"]
                if ib and im and max(ib) > min(im):
                    raise Bad("%s<%s> processes a base after own members" % (f, n))
                cond = (0, 0)
                for x in ev:
                    if x[0] == "cond":
                        cond = x[1:]
                    elif x[0] == "base" and cond != (0, 0):
                        raise Bad("%s<%s> processes a base under a condition" % (f, n))
                continue
            if fmt == "json":
                got = [x[1:] for x in ev if x[0] == "member"]
                if got != [(m, m) for m in want]:
                    raise Bad("%s<%s> processes %s instead of %s" % (f, n, got, want))
                if f == "pull":
                    ks = [x[0] for x in ev if x[0] in ("save", "member", "restore")]
                    if ks != ["save"] + ["member"] * len(want) + ["restore"] or [x[1] for x in ev if x[0] == "save"] != [n[2:]]:
                        raise Bad("pull<%s>: error context: %s" % (n, ev))
            else:
                cond, got = (0, 0), []
                for i, x in enumerate(ev):
                    if x[0] == "cond":
                        cond = x[1:]
                    elif x[0] == "member":
                        got.append((x[1],) + cond)
                    elif x[0] == "version":
                        if got or cond != (0, 0):
                            raise Bad("%s<%s>: version after members" % (f, n))
                        if squeeze(x[1]) != squeeze(e["version"]):
                            raise Bad("%s<%s>: version of %s instead of %s" % (f, n, x[1], e["version"]))
                        if f == rd and x[2] != n[2:]:
                            raise Bad("%s<%s>: version check names %s" % (f, n, x[2]))
                if bool([x for x in ev if x[0] == "version"]) != bool(e["version"]):
                    raise Bad("%s<%s>: version %s" % (f, n, "expected" if e["version"] else "not expected"))
                if got != want:
                    raise Bad("%s<%s> processes %s instead of %s" % (f, n, got, want))
                if f == rd and ev[-1][0] != "return":
                    raise Bad("%s<%s> does not return the version last" % (f, n))


# ---- cases ----------------------------------------------------------------------------------------------------------------
ASAN = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:detect_container_overflow=0:detect_odr_violation=0:alloc_dealloc_mismatch=0:exitcode=99")


class Runner:
    def __init__(self, gen, work):
        self.gen, self.work = gen, work

    def run(self, args, stdout=None):
        with subprocess.Popen([self.gen] + args, cwd=self.work, stdin=subprocess.DEVNULL, stdout=stdout or subprocess.PIPE, stderr=subprocess.PIPE, env=ASAN) as p:
            try:
                out, err = p.communicate(timeout=60)
            except subprocess.TimeoutExpired:
                p.kill()
                raise
        err = err.decode("utf-8", "replace")
        if p.returncode < 0:
            raise Bad("crash (signal %d): %s" % (-p.returncode, " ".join(args)))
        m = re.search("ERROR: AddressSanitizer:? ([^ ]*)", err)
        if m:
            raise Bad("invalid access (%s): %s" % (m.group(1), " ".join(args)))
        return p.returncode, out.decode("utf-8", "replace") if out else "", err

    def put(self, name, s):
        with open(os.path.join(self.work, name), "w") as f:
            f.write(s)


def headers(run, prop, r):
    h = Header(r, prop)
    main, inc = h.text("inc.h")
    run.put("main.h", main)
    run.put("inc.h", inc)
    fmts = {"G01": ["json"], "G02": ["binary"]}.get(prop, ["json", "binary"])
    args = ["--input-file", "main.h", "--generators"] + fmts
    vis = {}
    for f in fmts:
        if h.additional[f]:
            args += ["--%s-classes" % f] + h.additional[f]
        vis[f] = r.choice(["", "", "EXPORT_%s" % f.upper()])
        if vis[f]:
            args += ["--%s-visibility" % f, vis[f]]
    rc, out, err = run.run(args)
    if rc:
        if "error:" in err and prop != "G05":
            raise Invalid("the header is not valid: " + err)
        raise Bad("exit code %d: %s" % (rc, err[-300:]))
    got = parse(out)
    want = [f for f in fmts if h.expected(f)]
    if [f for f, _ in got] != want:
        if prop in ("G03", "G05"):
            raise Bad("code of the formats %s instead of %s" % ([f for f, _ in got], want))
    for f, fns in got:
        check(prop, f, h.expected(f), fns, vis[f])


FIXED = '''namespace x {
struct One : ::ReflectiveRapidJSON::JsonSerializable<One>, ::ReflectiveRapidJSON::BinarySerializable<One> { int a; };
}
'''
SEMANTIC = ["void e%d() { undeclared_thing(); }\n", "int e%d = some_missing;\n", "static_assert(false, \"no %d\");\n", "struct E%d { void f() { return 1; } };\n", "int *e%d = 1.5;\n"]
PARSE = ["int e%d = ;\n", "void e%d( { }\n", "#error stop %d\n", "struct E%d { int };\n", "#include \"missing%d.h\"\n"]
WARN = ["#warning careful %d\n", "int w%d() { }\n"]


def parse_or_none(out):
    try:
        return parse(out)
    except Exception:
        return None


def options(run, prop, r):
    """Options, generators, diagnostics."""
    kind = r.choice(["generators", "defines", "diagnostics", "diagnostics", "output", "failure"])
    if kind == "generators":
        run.put("main.h", STUBS + FIXED)
        single = {}
        for g in ("json", "binary"):
            rc, single[g], _ = run.run(["--input-file", "main.h", "--generators", g])
            if rc or [f for f, _ in parse(single[g])] != [g]:
                raise Bad("generator %s: exit code %d, output %s" % (g, rc, single[g][:200]))
        gs = [r.choice(["json", "binary", "binary", "yaml", "Json", "json "] if r.random() < .3 else ["json", "binary"]) for _ in range(r.randint(1, 4))] if r.random() < .85 else None
        f = r.choice([None, "gen.h"])
        args = (["--log-clang-opt"] if r.random() < .3 else []) + (["--generators"] + gs if gs else []) + (["--output-file", f] if f else [])
        rc, out, err = run.run(["--input-file", "main.h"] + args)
        if f:
            p = os.path.join(run.work, f)
            if out:
                raise Bad("%s: %s is written to the standard output" % (args, out[:200]))
            out = open(p).read() if os.path.exists(p) else None
        if gs and set(gs) - {"json", "binary"}:
            if rc <= 0 or out:
                raise Bad("generators %s: exit code %d, output %s" % (gs, rc, (out or "none")[:300]))
        elif rc or out != "".join(single[g] for g in gs or ["json"]):
            raise Bad("generators %s: exit code %d, output %s" % (gs, rc, (out or "none")[:300]))
    elif kind == "defines":
        names = ["AA", "BB", "REFLECTIVE_RAPIDJSON_GENERATOR"]
        vals = {"AA": None, "BB": None, "REFLECTIVE_RAPIDJSON_GENERATOR": "1"}
        opts, std = [], "201402L"
        for _ in range(r.randint(0, 5)):
            n = r.choice(names)
            k = r.random()
            if k < .6:
                v = str(r.randint(2, 9))
                opts.append("-D%s=%s" % (n, v))
                vals[n] = v
            elif k < .85:
                opts.append("-U" + n)
                vals[n] = None
            else:
                s, std = r.choice([("-std=c++17", "201703L"), ("-std=c++20", "202002L"), ("-std=c++14", "201402L")])
                opts.append(s)
        # later -U/-D win in clang as well: they are processed in order
        src = STUBS
        for n in names:
            src += "#if %s\n#define IS_%s_OK\n#endif\n" % ("!defined(%s)" % n if vals[n] is None else "defined(%s) && %s == %s" % (n, n, vals[n]), n)
        src += "#if __cplusplus == %s\n#define IS_STD_OK\n#endif\n" % std
        for n in names + ["STD"]:
            src += "#ifdef IS_%s_OK\nstruct %s_ok : ::ReflectiveRapidJSON::JsonSerializable<%s_ok> {};\n#endif\n" % (n, n, n)
        run.put("main.h", src)
        groups, i = [], 0
        while i < len(opts):
            k = r.randint(1, 3)
            groups.append(";".join(x for o in opts[i:i + k] for x in ([""] if r.random() < .1 else []) + [o] + ([""] if r.random() < .1 else [])))
            i += k
        args = ["--input-file", "main.h"] + (["--clang-opt"] + groups if groups else [])
        rc, out, err = run.run(args)
        got = sorted(n for _, fns in parse(out) for f, n, _, _ in fns if f == "push")
        want = sorted("::%s_ok" % n for n in names + ["STD"])
        if rc or got != want:
            raise Bad("options %s: exit code %d, only %s hold: %s" % (opts, rc, got, err[-200:]))
    elif kind == "diagnostics":
        n, body = 0, []
        sem = par = warn = 0
        fatal = False
        for _ in range(r.randint(0, 4)):
            k = r.random()
            n += 1
            if k < .55:
                body.append(r.choice(SEMANTIC) % n)
                sem += 1
            elif k < .75:
                t = r.choice(PARSE)
                body.append(t % n)
                par += 1
            else:
                body.append(WARN[0] % n)
                warn += 1
        pos = r.randint(0, len(body))
        run.put("main.h", STUBS + "".join(body[:pos]) + (FIXED if not par else "") + "".join(body[pos:]))
        resilient = r.random() < .6
        rc, out, err = run.run(["--input-file", "main.h"] + (["--error-resilient"] if resilient else []))
        fails = par > 0 or (sem > 0 and not resilient)
        if (rc != 0) != fails:
            raise Bad("%d semantic and %d other errors%s: exit code %d: %s" % (sem, par, ", resilient" if resilient else "", rc, err[-300:]))
        if not par:
            ne, nw = len(re.findall(r": error:", err)), len(re.findall(r": warning:", err))
            if (ne, nw) != ((0, warn + sem) if resilient else (sem, warn)):
                raise Bad("%d semantic errors and %d warnings%s: %d errors and %d warnings are printed" % (sem, warn, ", resilient" if resilient else "", ne, nw))
            if not fails and [n for _, fns in parse(out) for f, n, _, _ in fns if f == "push"] != ["::x::One"]:
                raise Bad("nothing emitted: " + out[:200])
        elif not re.search(r"error:", err):
            raise Bad("errors are not printed: " + err[-300:])
    elif kind == "failure":
        # the output cannot be opened or written, or only help is wanted
        many = r.random() < .4
        run.put("main.h", STUBS + FIXED + ("".join("struct Many%d : ::ReflectiveRapidJSON::JsonSerializable<Many%d> { int a, b, c, d; };\n" % (i, i) for i in range(100)) if many else ""))
        k = r.choice(["directory", "missing", "full", "stdout", "help"])
        args = ["--input-file", "main.h"]
        if k == "stdout":
            with open("/dev/full", "w") as full:
                rc = run.run(args, stdout=full)[0]
        elif k == "help":
            rc, out, err = run.run(["--help"])
            if rc or parse_or_none(out):
                raise Bad("--help: exit code %d, output %s" % (rc, out[:200]))
            return
        else:
            rc, out, err = run.run(args + ["--output-file", {"directory": ".", "missing": "no/such/out.h", "full": "/dev/full"}[k]])
            if out:
                raise Bad("output file (%s): %s is written to the standard output" % (k, out[:200]))
        if rc <= 0:
            raise Bad("output file (%s): exit code %d" % (k, rc))
    else:
        run.put("main.h", STUBS + FIXED)
        rc, out, _ = run.run(["--input-file", "main.h"])
        for f in ("out.h",):
            p = os.path.join(run.work, f)
            if r.random() < .5:
                run.put(f, "x" * 5000)
            elif os.path.exists(p):
                os.unlink(p)
            rc2, out2, err2 = run.run(["--input-file", "main.h", "--output-file", f])
            txt = open(p).read() if os.path.exists(p) else None
            if rc or rc2 or txt != out or out2:
                raise Bad("output file: exit codes %d %d, %s" % (rc, rc2, "missing" if txt is None else txt[:200]))


def main():
    gen, prop, seed, secs = sys.argv[1], sys.argv[2], int(sys.argv[3]), float(sys.argv[4])
    # the part of other properties which generated code is responsible for
    prop = {"J05": "G01", "J09": "G01", "B05": "G02"}.get(prop, prop)
    fixed = sys.argv[5:7]
    work = tempfile.mkdtemp(prefix="gh-", dir=os.environ.get("RRV_SCRATCH"))
    end = time.time() + secs
    n = it = bad = 0
    fn = options if prop == "G05" else headers
    try:
        run = Runner(os.path.abspath(gen), work)
        while time.time() < end or n < 3:
            if fixed:
                if n:
                    break
                it = int(fixed[1])
            r = random.Random("%d %d" % (seed, it))
            try:
                fn(run, prop, r)
            except Invalid as x:
                it += 1
                bad += 1
                if os.environ.get("GH_DEBUG"):
                    print(x)
                if bad > 1000 and not n:
                    break
                continue
            except Bad as x:
                print("CASE header %d" % it)
                print("FAIL %s: %s" % (prop, str(x)[:900]))
                for f in ("main.h", "inc.h"):
                    p = os.path.join(work, f)
                    if os.path.exists(p):
                        print("--- " + f)
                        print(open(p).read().replace(STUBS, "").replace(STUBS.replace("#pragma once\n", ""), ""))
                return 1
            n += 1
            it += 1
        if os.environ.get("GH_DEBUG"):
            print("invalid: %d" % bad)
        print("OK cases=%d" % n)
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
