"""Loading of the extracted AST and classification of C++ types."""
import json


class Ty:
    """A C++ type as far as the contracts care about it."""
    __slots__ = ("k", "a", "key", "x")

    def __init__(self, k, a=(), key="", **x):
        self.k, self.a, self.key, self.x = k, tuple(a), key, x

    def __repr__(self):
        return self.k + ("(" + ",".join(map(str, self.a)) + ")" if self.a else "") + (":" + self.x["name"] if "name" in self.x else "")

    def sig(self):
        if self.k == "int":
            return ("i" if self.x["signed"] else "u") + str(self.x["bits"])
        if self.k == "enum":
            return "enum_" + self.a[0].sig() + "_" + self.x["name"].split("::")[-1]
        s = self.k
        if "name" in self.x:
            s += "_" + self.x["name"].split("::")[-1]
        if self.a:
            s += "<" + ",".join(t.sig() if isinstance(t, Ty) else str(t) for t in self.a) + ">"
        return s


CONTAINERS = {
    "std::vector": "seq", "std::list": "seq", "std::deque": "seq", "std::array": "seq", "std::forward_list": "flist",
    "std::set": "set", "std::unordered_set": "set", "std::multiset": "mset", "std::unordered_multiset": "mset",
    "std::map": "map", "std::unordered_map": "map", "std::multimap": "mmap", "std::unordered_multimap": "mmap",
    "std::unique_ptr": "uptr", "std::shared_ptr": "sptr", "std::weak_ptr": "wptr", "std::optional": "opt",
    "std::pair": "pair", "std::tuple": "tuple", "std::variant": "variant", "std::initializer_list": "ilist",
}


AST_CLASSES = ("clang::", "llvm::", "CppUtilities::Argument", "CppUtilities::ConfigValueArgument", "CppUtilities::OperationArgument")


class Unit:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.path = path
        self.functions = {int(k): v for k, v in d["functions"].items()}
        self.types = d["types"]
        self.records = d["records"]
        self.errors = d["errors"]
        self._ty = {}

    def strip(self, key):
        while key not in self.types:
            if key.startswith("const "):
                key = key[6:]
            elif key.endswith("const"):
                key = key[:-5].rstrip()
            else:
                raise KeyError(key)
        return key

    def raw(self, key):
        return self.types[self.strip(key)]

    def noref(self, key):
        key = self.strip(key)
        t = self.types[key]
        while t["k"] == "ref":
            key = self.strip(t["to"])
            t = self.types[key]
        return key

    def ty(self, key):
        key = self.noref(key)
        r = self._ty.get(key)
        if r is None:
            r = self._ty[key] = self._mk(key)
        return r

    def _targs(self, args):
        out = []
        for a in args:
            if "pack" in a:
                out += self._targs(a["pack"])
            elif "t" in a:
                out.append(self.ty(a["t"]))
            elif "i" in a:
                out.append(int(a["i"]))
        return out

    def _mk(self, key):
        t = self.types[key]
        k = t["k"]
        if k == "bool":
            return Ty("bool", key=key)
        if k == "int":
            return Ty("int", key=key, bits=t["bits"], signed=t["signed"])
        if k == "float":
            return Ty("f%d" % t["bits"], key=key)
        if k == "enum":
            return Ty("enum", [self.ty(t["under"])], key=key, name=t["name"])
        if k == "ptr":
            to = self.raw(t["to"])
            if to["k"] == "int" and to["p"] == "char":
                return Ty("cstr", key=key)
            return Ty("ptr", [self.ty(t["to"])] if to["k"] != "func" else [], key=key)
        if k == "rec":
            n = t["name"]
            if n == "std::basic_string":
                return Ty("str", key=key)
            if n == "std::basic_string_view":
                return Ty("strview", key=key)
            if n == "std::__cxx11::basic_string":
                return Ty("str", key=key)
            if n in CONTAINERS:
                return Ty(CONTAINERS[n], self._targs(t["args"]), key=key, cpp=n)
            if n.startswith("Treated") and len(t.get("bases", ())) == 1:
                b = self.ty(t["bases"][0])      # a user's container which is treated as the one of the standard library it derives from
                return Ty(b.k, b.a, key=key, **b.x)
            if n in ("CppUtilities::DateTime", "CppUtilities::TimeSpan"):
                return Ty("chrono", key=key, name=n)
            if n == "llvm::StringRef":
                return Ty("strview", key=key)
            if n.startswith(AST_CLASSES) and n != "clang::Expr::EvalResult":
                return Ty("ast", key=key, name=n)
            if n == "std::monostate":
                return Ty("monostate", key=key)
            if "lambda" in t:
                return Ty("lambda", key=key, id=t["lambda"])
            if n.startswith("rapidjson::"):
                return Ty("rj", key=key, name=n, args=t["args"])
            return Ty("rec", [a for a in self._targs(t["args"]) if isinstance(a, Ty)] if not t.get("repo") else [], key=key, name=n, repo=t.get("repo", False))
        return Ty(k, key=key)

    def is_const(self, key):
        return self.strip(key) != key

    def is_ref(self, key):
        return self.types[self.strip(key)]["k"] == "ref"

    def ref_const(self, key):
        t = self.types[self.strip(key)]
        return t["k"] == "ref" and t.get("cst", False)
