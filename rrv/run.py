"""Runs the verification of one property and decides the outcome (see DESIGN.md, "Outcome")."""
import concurrent.futures
import hashlib
import json
import multiprocessing
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RRV_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
LLVM = "/usr/lib/llvm-18"


def log(*a):
    print(*a, flush=True)


# ---- extraction ------------------------------------------------------------------------------------------------------
def sh(cmd, timeout=600, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, **k)


def extractor():
    """Path of the extractor binary (built from source on first use)."""
    src = os.path.join(VERIF, "extractor/extract.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(CACHE, "extract-" + h)
    if os.path.exists(out):
        return out
    os.makedirs(CACHE, exist_ok=True)
    flags = [f for f in sh([LLVM + "/bin/llvm-config", "--cxxflags"]).stdout.split() if not f.startswith("-std=")]
    tmp = tempfile.mktemp(dir=CACHE)
    r = sh(["clang++", "-O1", "-fno-rtti", "-std=c++17"] + flags + ["-o", tmp, src, "-L" + LLVM + "/lib", "-l:libclang-cpp.so.18.1", "-lLLVM-18"])
    if r.returncode:
        raise RuntimeError("extractor does not build:\n" + r.stderr[-3000:])
    os.replace(tmp, out)
    return out


INCLUDES = ["-I%s" % os.path.join(VERIF, "drivers")]


def extract(unit, workdir):
    """Extracts the functions of a unit from /repo's current sources; returns the path of the IR."""
    u = UNITS[unit]
    out = os.path.join(workdir, unit + ".json")
    srcs = u["sources"]() if callable(u["sources"]) else u["sources"]
    r = sh([extractor(), out, ",".join([REPO + "/lib/", REPO + "/generator/", os.path.join(VERIF, "drivers/gen")])] + srcs + ["--", "-std=c++20"] + u["flags"]() + INCLUDES + [
        "-isystem", "/usr/include/martchus-c++utilities", "-resource-dir", LLVM + "/lib/clang/18"], timeout=300)
    errors = [l for l in r.stderr.splitlines() if "error:" in l]
    if not os.path.exists(out) or (errors and not u.get("tolerate_errors")):
        raise ExtractionError("\n".join(errors[:10]) or r.stderr[-2000:])
    return out


class ExtractionError(Exception):
    pass


# ---- units -----------------------------------------------------------------------------------------------------------
def json_flags():
    return ["-I" + REPO + "/lib"]


def json_targets(u):
    from . import contracts_json, contracts_top
    out = contracts_json.targets(u) + contracts_top.targets(u)
    if not contracts_json.enumerators(u):
        return [(f, contracts_json.numbered_otherwise) for f, _ in out]
    return out


def binary_targets(u):
    from . import contracts_binary
    return contracts_binary.targets(u)


def gen_flags():
    return ["-I" + REPO, "-I" + REPO + "/lib", "-isystem", LLVM + "/include"]


def gen_targets(u):
    from . import contracts_gen
    return contracts_gen.targets(u)


def hana_targets(u):
    from . import contracts_hana
    return contracts_hana.targets(u)


UNITS = {
    "hana": dict(sources=[os.path.join(VERIF, "drivers/hana.cpp")], flags=json_flags, targets=hana_targets),
    "generator": dict(sources=[os.path.join(VERIF, "drivers/generator.cpp")], flags=gen_flags, targets=gen_targets, budget=420),
    "binary": dict(sources=[os.path.join(VERIF, "drivers/binary.cpp")], flags=json_flags, targets=binary_targets),
    "json": dict(sources=[os.path.join(VERIF, "drivers/json.cpp")], flags=json_flags, targets=json_targets),
}


# ---- verification of the functions of a unit (worker processes) ------------------------------------------------------
_unit = {}
_proved = set()


def _load(path):
    if path not in _unit:
        from .ir import Unit
        _unit[path] = Unit(path)
    return _unit[path]


def _work(unit, path, index, opts, unroll):
    sys.setrecursionlimit(20000)
    from .sym import Unsupported
    u = _load(path)
    t = UNITS[unit]["targets"](u)[index]
    f, verify = t[0], t[1]
    t0 = time.time()
    r = dict(unit=unit, index=index, fn=f.get("diag") or f["q"], q=f["q"], file=f.get("file", ""), line=f.get("l", 0), params=f.get("pt", []), obs=[],
             unsupported=None, reached=0, paths=0, inlined=[], lib=[], contracts=[], loops=[], time=0.0, unroll=unroll)
    o = dict(opts or {})
    o["deadline"] = time.time() + o.pop("budget", UNITS[unit].get("budget", 240))
    from . import props, theory
    theory.TIMEOUT = o.pop("timeout", 10000)
    try:
        engines = verify(u, f, unroll, o)
        for e in engines:
            r["reached"] += e.reached
            r["paths"] += e.paths if isinstance(e.paths, int) else 0
            for ob in e.obs:
                r["obs"].append(dict(tag=ob.tag, name=ob.name, line=ob.line, file=ob.file, fn=ob.fn, res=ob.res, time=round(ob.time, 4), model=ob.model,
                                     scenario=e.scenario, backend=ob.backend, smt=ob.smt))
            r["inlined"] += sorted(e.inlined)
            r["lib"] += sorted(e.libused)
            r["contracts"] += sorted(e.called_contracts)
            r["loops"] += [dict(fn=x[0], line=x[1], invariants=x[2]) for x in e.loopinfo.values()]
            if not e.reached and not getattr(e, "may_not_return", False) and not unroll:
                r["obs"].append(dict(tag="INV", name="the function can return (vacuity guard, %s)" % e.scenario, line=r["line"], file=r["file"], fn=r["fn"],
                                     res="unknown", time=0, model=None, scenario=e.scenario, backend="", smt=None))
        for n, (fo, i, step, sorts) in list(theory.MONO.items()):
            if step is not None and n not in _proved:
                _proved.add(n)
                h, g = theory.lemma_mono(n)
                r["obs"].append(dict(props.prove("INV", "the error log fold %s only ever adds entries" % n, h, g, bool(o.get("keep_smt"))), fn=r["fn"]))
    except Unsupported as x:
        r["unsupported"] = str(x)
        r["obs"] = []
    except Exception as x:
        r["unsupported"] = "internal: %s" % "".join(traceback.format_exception_only(type(x), x)).strip()
        if os.environ.get("RRV_DEBUG"):
            traceback.print_exc()
        r["obs"] = []
    r["time"] = time.time() - t0
    lc = sys.modules.get("rrv.lib_clang")
    r["vocabulary"] = sorted(lc.USED) if lc else []
    return r


def pool():
    return concurrent.futures.ProcessPoolExecutor(max_workers=int(os.environ.get("RRV_JOBS", "8")), mp_context=multiprocessing.get_context("fork"))


def verify_unit(unit, path, opts=None, unroll=0, only=None):
    """Verifies the functions of the unit (those whose name matches the regular expression only); returns the results."""
    u = _load(path)
    ts = UNITS[unit]["targets"](u)
    idx = [i for i in range(len(ts)) if only is None or re.search(only, ts[i][0]["q"])]
    # long ones first
    idx.sort(key=lambda i: -weight(ts[i][0]))
    res = []
    with pool() as ex:
        fs = [ex.submit(_work, unit, path, i, opts, unroll) for i in idx]
        for f in concurrent.futures.as_completed(fs):
            res.append(f.result())
    res.sort(key=lambda r: r["index"])
    return res


def weight(f):
    n = f["q"] + str(f.get("pt"))
    return 3 * ("Generator::generate" in n) + 2 * ("multimap" in n) + ("map" in n or "set" in n or "variant" in n)


# ---- concrete harnesses ----------------------------------------------------------------------------------------------
def build_generator(work):
    """The code generator built from /repo's current sources; returns (programs to run, errors)."""
    import glob
    objs, ps = [], []
    for src in sorted(glob.glob(os.path.join(REPO, "generator", "*.cpp"))):
        o = os.path.join(work, "gen-" + os.path.basename(src) + ".o")
        objs.append(o)
        cmd = ["clang++", "-std=c++17", "-O0", "-w", "-fsanitize=address"] + gen_flags() + ["-I" + os.path.join(VERIF, "drivers"), "-I" + os.path.join(VERIF, "drivers/resources"), "-isystem",
                                                                   "/usr/include/martchus-c++utilities", "-c", src, "-o", o]
        ps.append(subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace"))
    errs = []
    for p in ps:
        _, e = p.communicate()
        if p.returncode:
            errs += [l for l in e.splitlines() if "error" in l][:5]
    if errs:
        return None, errs
    exe = os.path.join(work, "generator")
    p = subprocess.run(["clang++", "-fsanitize=address"] + objs + ["-o", exe, "-L" + LLVM + "/lib", "-l:libclang-cpp.so.18.1", "-lLLVM-18", "-lmartchus-c++utilities"], capture_output=True, text=True, errors="replace")
    if p.returncode:
        return None, p.stderr.splitlines()[-5:]
    run = os.path.join(work, "generator-harness")
    with open(run, "w") as f:
        f.write("#!/bin/sh\nexec python3 %s %s \"$@\"\n" % (os.path.join(VERIF, "harness/gen_harness.py"), exe))
    os.chmod(run, 0o755)
    return [run], []


HARNESS = {
    "json": dict(src="json_harness.cpp", parts=3, flags=lambda w: ["-I" + REPO + "/lib", "-I" + REPO]),
    "generator": dict(build=build_generator),
    "hana": dict(src="hana_harness.cpp", parts=1, flags=lambda w: ["-I" + REPO + "/lib", "-I" + REPO]),
    "binary": dict(src="binary_harness.cpp", parts=4, flags=lambda w: ["-I" + REPO + "/lib", "-I" + REPO]),
}
SAN = ["-std=c++20", "-O0", "-g1", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=pointer-overflow,enum", "-fno-sanitize-recover=all"]


def literals(paths):
    """Integer and string literals of the code under contract (a dictionary for the generators of the harnesses)."""
    ints, strs = set(), set()

    def walk(x):
        if isinstance(x, dict):
            if x.get("e") == "int" and str(x.get("v", "")).lstrip("-").isdigit():
                ints.add(int(x["v"]) & (2**64 - 1))
            if x.get("e") in ("str", "strlit") and isinstance(x.get("v"), str) and len(x["v"]) < 64:
                strs.add(x["v"])
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    for p in paths:
        try:
            for f in json.load(open(p))["functions"].values():
                if f.get("repo") and f.get("body") is not None:
                    walk(f["body"])
        except (OSError, ValueError):
            pass
    return ints, strs


class Harness:
    """Compiled on demand from /repo's current tree; searches for a failing input of one property."""

    def __init__(self, name, work, irs):
        self.name, self.work, self.h = name, work, HARNESS[name]
        self.built, self.error = None, None
        self.dict = os.path.join(work, "dict")
        ints, strs = literals(irs)
        with open(self.dict, "w") as f:
            for i in sorted(ints):
                f.write("i %d\n" % i)
            for s in sorted(strs):
                f.write("s x%s\n" % s.encode("utf-8", "surrogatepass").hex())

    def build(self):
        if self.built is not None or self.error:
            return self.built
        ps = []
        if "build" in self.h:
            self.built, errs = self.h["build"](self.work)
            self.error = errs or None
            return self.built
        src = os.path.join(VERIF, "harness", self.h["src"])
        for p in range(self.h["parts"]):
            out = os.path.join(self.work, "%s-%d" % (self.name, p))
            cmd = ["clang++"] + SAN + ["-DPART=%d" % p] + self.h["flags"](self.work) + ["-I" + os.path.join(VERIF, "harness"), "-isystem", "/usr/include/martchus-c++utilities", src, "-o", out,
                                                        "-lmartchus-c++utilities"] + self.h.get("libs", [])
            ps.append((out, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace")))
        errs = []
        for out, p in ps:
            _, e = p.communicate()
            if p.returncode:
                errs += [l for l in e.splitlines() if "error" in l][:5]
        if errs or not all(os.path.exists(o) for o, _ in ps):
            self.error = errs or ["no output"]
            return None
        self.built = [o for o, _ in ps]
        return self.built

    def run(self, prop, seed, secs, extra=()):
        """(failing input description or None, number of cases)"""
        if not self.build():
            return None, 0
        env = dict(os.environ, RRV_DICT=self.dict, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=1", RRV_SCRATCH=self.work)
        ps = []
        n = max(1, 8 // len(self.built)) if not extra else 1
        for k in range(n):
            for part, b in enumerate(self.built):
                sd = seed + 7919 * k
                cmd = [b, prop, str(sd), str(secs)] + [str(x) for x in extra]
                ps.append((part, sd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=self.work)))
        cases, fail = 0, None
        for part, sd, p in ps:
            try:
                out, _ = p.communicate(timeout=secs + 90)
                hung = False
            except subprocess.TimeoutExpired:
                p.kill()
                out, _ = p.communicate()
                hung = True
            lines = out.decode("utf-8", "replace").replace("\r", "\n").splitlines()
            last = [l for l in lines if l.startswith("CASE ")][-1:]
            rest = [l for l in lines if l and not l.startswith("CASE ")]
            if p.returncode == 0 and not hung:
                cases += sum(int(l.split("=")[1]) for l in rest if l.startswith("OK cases="))
            elif fail is None:
                f = [l for l in rest if l.startswith("FAIL ")]
                if not f and not last:
                    continue
                fail = dict(harness=self.name, part=part, seed=sd, case=last[0][5:] if last else "", output=rest[-60:],
                            summary=f[0] if f else "hangs" if hung else "crash (exit %s) in case %s: %s" % (
                                p.returncode, last[0][5:], next((l for l in rest if "runtime error" in l or "ERROR" in l or "Assert" in l), "")))
        return fail, cases


# ---- outcome ---------------------------------------------------------------------------------------------------------
def known(prop):
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding: property=%s " % prop):
                out.append(l.split(" ", 1)[1].strip())
    return out


def expected():
    p = os.path.join(VERIF, "rrv/expected.json")
    return json.load(open(p)) if os.path.exists(p) else {}


def fkey(f):
    return (f.get("q", "") + "(" + ", ".join(f.get("pt") or f.get("params") or []) + ")")


def check(prop, tier="quick", seed=1, only_units=None):
    from . import props
    P = props.PROPS[prop]
    t0 = time.time()
    os.makedirs(CACHE, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence/replay"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=CACHE)
    try:
        return _check(prop, P, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def _check(prop, P, tier, seed, work, t0):
    from . import props
    own = set(P["tags"])
    irs, results, gaps = [], [], []
    opts = {}
    if tier == "thorough":
        opts["keep_smt"] = True
    exp = expected()
    for unit in P["units"]:
        try:
            path = extract(unit, work)
        except ExtractionError as x:
            gaps.append(dict(unit=unit, fn="(unit %s)" % unit, reason="the sources do not compile with the driver: %s" % str(x)[:600]))
            continue
        irs.append(path)
        only = P.get("only", {}).get(unit)
        res = verify_unit(unit, path, opts=opts, only=only)
        results += res
        have = {r["q"] + "(" + ", ".join(r["params"]) + ")" for r in res}
        for k in exp.get(unit, []):
            if k not in have and (not only or re.search(only, k.split("(")[0])):
                gaps.append(dict(unit=unit, fn=k, reason="no such function in the current sources; it is not under contract"))
    seen = set()
    for r in results:  # a lemma may have been discharged by several worker processes
        r["obs"] = [o for o in r["obs"] if o["scenario"] != "lemma" or (o["name"] not in seen and not seen.add(o["name"]))]
    lem = props.lemmas(prop, tier, {os.path.basename(p)[:-5]: _load(p) for p in irs})
    results.append(lem)

    pat = re.compile(P["fn"]) if P.get("fn") else None

    def mine(r):
        if pat and any(pat.search(x) for x in r["params"][:1]):
            return r["obs"]
        tags = own | set(P.get("gtags", [])) if r["unit"] == "generator" else own
        return [o for o in r["obs"] if o["tag"] in tags or (o["tag"] == "INV" and any(x["tag"] in tags for x in r["obs"]))]

    # second chance for what the solver gave up on
    for n, r in enumerate(results):
        if r["unsupported"] and "deadline" not in r["unsupported"].lower():
            continue
        if r.get("lemma"):
            continue
        if any(o["res"] == "unknown" for o in mine(r)) or r["unsupported"]:
            r2 = retry(r, irs, dict(opts, timeout=40000, budget=200))
            if r2:
                results[n] = r2
    for r in results:
        if r["unsupported"]:
            gaps.append(dict(unit=r["unit"], fn=r["fn"], reason=r["unsupported"]))
    bad = [(r, o) for r in results for o in mine(r) if o["res"] != "valid"]
    other = [(r, o) for r in results for o in r["obs"] if o["res"] != "valid" and (r, o) not in bad]
    fails, cases = [], 0
    secs = P.get("secs", 25) if tier == "quick" else 240
    open_units = {r["unit"] for r, o in bad + other} | {g["unit"] for g in gaps}
    unjudged = []
    for h in P["harness"]:
        if h not in open_units and "lemmas" not in open_units and tier != "thorough":
            continue
        H = Harness(h, work, irs)
        f, c = H.run(prop, seed, secs)
        if H.error:
            gaps.append(dict(unit=h, fn="(harness %s)" % h, reason="does not compile: " + "; ".join(H.error)[:500]))
        cases += c
        if not c and not f:
            unjudged.append(h)
        if f:
            fails.append(f)
    confirmed = []
    if bad and not fails:
        confirmed = confirm(bad, irs, results)
    cvc5 = cross_check(results, mine) if tier == "thorough" else None
    # report
    rc = 0
    viol = []
    for k in known(prop):
        log("KNOWN-FINDING: " + k)
    if fails:
        f = fails[0]
        rp = os.path.join("evidence/replay", "%s-input.json" % prop)
        f["property"] = prop
        f["dict"] = open(os.path.join(work, "dict")).read() if os.path.exists(os.path.join(work, "dict")) else ""
        f["failed_obligations"] = [describe(r, o) for r, o in bad][:20]
        json.dump(f, open(os.path.join(VERIF, rp), "w"), indent=1)
        log("failing input: " + f["summary"][:1000])
        for d in f["failed_obligations"][:10]:
            log("failed obligation: %(fn)s: %(name)s (%(tag)s, line %(line)s): %(res)s" % d)
        viol.append("VIOLATION property=%s replay=%s" % (prop, os.path.join(VERIF, rp)))
        rc = 1
    elif confirmed:
        rp = os.path.join("evidence/replay", "%s-obligation.json" % prop)
        ds = [describe(r, o) for r, o in confirmed]
        json.dump(dict(property=prop, obligation=ds[0], all=ds[:30], verifier_output=[d.get("model") for d in ds][:5], inputs_tried=cases),
                  open(os.path.join(VERIF, rp), "w"), indent=1)
        for d in ds[:10]:
            log("failed obligation: %(fn)s: %(name)s (%(tag)s, line %(line)s): %(res)s" % d)
        viol.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, os.path.join(VERIF, rp)))
        rc = 1
    elif unjudged and ({r["unit"] for r, o in bad} | {g["unit"] for g in gaps}) & set(unjudged + ["lemmas"]):
        log("no answer: neither the verifier nor the harness can judge the current sources")
        for g in gaps[:10]:
            log("  gap: %s: %s" % (g["fn"], g["reason"]))
        for r, o in bad[:10]:
            log("  undecided: %s: %s" % (r["fn"], o["name"]))
        rc = 2
    for g in gaps[:20]:
        log("not under contract in this run (bounded stand-in: %d cases of the concrete harness): %s: %s" % (cases, g["fn"][:200], g["reason"][:300]))
    if bad and not rc:
        for r, o in bad[:10]:
            log("undecided obligation (bounded stand-in: %d cases): %s: %s: %s" % (cases, r["fn"][:120], o["name"], o["res"]))
    evidence(prop, P, tier, seed, results, mine, bad, other, gaps, cases, cvc5, fails, confirmed, rc, time.time() - t0)
    n = sum(len(mine(r)) for r in results)
    log("%s: %d of %d obligations discharged in %d functions, %d gaps, %d concrete cases, %.1f s" % (
        prop, n - len(bad), n, len([r for r in results if mine(r)]), len(gaps), cases, time.time() - t0))
    for v in viol:
        log(v)
    return rc


def retry(r, irs, opts, unroll=0):
    path = [p for p in irs if os.path.basename(p) == r["unit"] + ".json"]
    if not path:
        return None
    with pool() as ex:
        return ex.submit(_work, r["unit"], path[0], r["index"], opts, unroll).result()


def confirm(bad, irs, results):
    """The refuted obligations whose refutation does not come from a loop invariant which was not found."""
    out = []
    done = {}
    for r, o in bad:
        if o["res"] != "invalid":
            continue
        if r.get("lemma"):
            out.append((r, o))
            continue
        if not r["loops"]:
            out.append((r, o))
            continue
        k = (r["unit"], r["index"])
        if k not in done:
            done[k] = retry(r, irs, dict(budget=120, timeout=10000), unroll=3)
        r2 = done[k]
        if r2 and not r2["unsupported"] and any(x["res"] == "invalid" and x["tag"] == o["tag"] and x["name"] == o["name"] for x in r2["obs"]):
            out.append((r, o))
        elif o["tag"] == "INV" and r2 and any(x["res"] == "invalid" for x in r2["obs"]):
            out.append((r, o))
    return out


def describe(r, o):
    return dict(fn=r["fn"], file=o["file"], line=o["line"], inside=o["fn"], tag=o["tag"], name=o["name"], res=o["res"], scenario=o.get("scenario"), model=o.get("model"))


def _cvc5(smt):
    t = time.time()
    try:
        p = subprocess.run(["cvc5", "--tlimit=10000", "-"], input=smt, capture_output=True, text=True, timeout=30)
        return p.stdout.strip().splitlines()[:1], time.time() - t
    except subprocess.TimeoutExpired:
        return ["timeout"], time.time() - t


def cross_check(results, mine, limit=3000):
    """Re-discharges the obligations with a second solver."""
    smts = [o["smt"] for r in results for o in mine(r) if o.get("smt")][:limit]
    c = {}
    tt = 0.0
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for a, t in ex.map(_cvc5, smts):
            k = (a or ["error"])[0][:20]
            c[k] = c.get(k, 0) + 1
            tt += t
    return dict(sent=len(smts), answers=c, time_s=round(tt, 1))


def evidence(prop, P, tier, seed, results, mine, bad, other, gaps, cases, cvc5, fails, confirmed, rc, wall):
    from . import props
    obs = [o for r in results for o in mine(r)]
    back = {}
    for o in obs:
        if o["res"] == "valid":
            back[o["backend"]] = back.get(o["backend"], 0) + 1
    fns = [r for r in results if mine(r)]
    cov = dict(
        obligations=len(obs), discharged=len(obs) - len(bad),
        checker_cmd="python3-vt /verif/check.py %s --tier %s" % (prop, tier),
        trusted_base=props.TRUSTED + ["library contract: " + x for x in sorted({x for r in fns for x in r["lib"]})],
        explanation=P["explanation"],
        functions_under_contract=[dict(function=r["fn"], file=r["file"], line=r["line"], obligations=len(mine(r)), paths=r["paths"], time_s=round(r["time"], 2),
                                       inlined=sorted(set(r["inlined"])), contracts_used=sorted(set(r["contracts"])), loops=r["loops"]) for r in fns],
        discharged_by=back, solver_time_s=round(sum(o["time"] for o in obs), 2),
        obligations_of_other_properties_failed=[describe(r, o) for r, o in other][:20],
        failed=[describe(r, o) for r, o in bad][:20],
        bounded_stand_ins=[dict(g, bound="%d concrete cases of the harness" % cases) for g in gaps],
        evaluations=cases, exhaustive=False)
    if cvc5:
        cov["second_solver"] = cvc5
    if fails:
        cov["failing_inputs"] = [f["summary"] for f in fails]
    ev = dict(property=prop, tier=tier, seed=seed, level="proof", coverage=cov, assumptions=props.ASSUMPTIONS + P.get("assumptions", []), wall_s=round(wall, 1), violations=1 if rc == 1 else 0)
    if os.environ.get("RRV_NOEVIDENCE"):
        return
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % prop)
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))


def replay(path):
    d = json.load(open(path))
    if "obligation" in d:
        print(json.dumps(d["obligation"], indent=1))
        return 1
    work = tempfile.mkdtemp(prefix="replay-", dir=CACHE)
    try:
        H = Harness(d["harness"], work, [])
        if not H.build():
            print(H.error)
            return 2
        case, it = d["case"].rsplit(" ", 1)
        H.built = [H.built[d["part"]]]
        open(H.dict, "w").write(d.get("dict", ""))
        f, n = H.run(d["property"], d["seed"], 30, (case, it))
        print(f["summary"] if f else "no failure")
        return 1 if f else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)
