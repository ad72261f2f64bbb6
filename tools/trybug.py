#!/usr/bin/env python3
"""trybug.py ID... : confirms planted bugs (applies, builds, passes the tests, demo distinguishes) and runs the property's check on them.
Works on a scratch copy of /repo which is bind-mounted over /repo in a private mount namespace."""
import json, os, subprocess, sys, shutil, concurrent.futures as cf
V = "/verif"
def one(i):
    d = "%s/seeded/%s" % (V, i)
    w = "/tmp/sw-" + i
    subprocess.run(["rm", "-rf", w]); subprocess.run(["cp", "-a", "/repo", w], check=True)
    prop = json.load(open(d + "/meta.json"))["property"]
    out = {}
    def sh(name, cmd, timeout=900):
        r = subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (w, cmd)], capture_output=True, text=True, errors="replace", timeout=timeout)
        out[name] = r.returncode; return r
    log = ""
    checks_only = "--check" in sys.argv
    if not checks_only:
        r = sh("demo_clean", "bash %s/demo.sh" % d); log += r.stdout[-500:] + r.stderr[-500:] if r.returncode else ""
    r = sh("apply", "git apply %s/patch.diff" % d); log += r.stderr
    if not checks_only:
        r = sh("build", "bash /opt/vp/build.sh"); log += r.stdout[-800:] if r.returncode else ""
        r = sh("test", "bash /opt/vp/test.sh /repo/_o.json; python3 - <<'X'\nimport json,sys\no=json.load(open('/repo/_o.json'));b=json.load(open('/opt/vp/BASELINE.json'));\nb=b['stable']\nm=[x for x in b if x not in o['passed']]\nprint(m[:5],len(o['passed']));sys.exit(bool(m))\nX"); log += r.stdout[-300:] if r.returncode else ""
        r = sh("demo_bug", "bash %s/demo.sh" % d); log += "demo: " + (r.stdout + r.stderr)[-200:].strip() + "\n"
    r = sh("check", "cd %s && RRV_NOEVIDENCE=1 ./check.py %s" % (V, prop)); log += "\n".join(l[:250] for l in r.stdout.splitlines()[-7:])+ r.stderr[-300:]
    subprocess.run(["rm", "-rf", w])
    ok = checks_only or (out.get("demo_clean"), out["apply"], out.get("build"), out.get("test")) == (0, 0, 0, 0) and out.get("demo_bug") != 0
    return i, prop, ok, out, log
ids = [a for a in sys.argv[1:] if not a.startswith("--")]
if ids == ["all"]: ids = sorted(os.listdir(V + "/seeded"))
with cf.ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
    for i, prop, ok, out, log in ex.map(one, ids):
        print("=== %s %s valid=%s CAUGHT=%s %s" % (i, prop, ok, out.get("check") == 1, out)); print("\n".join("    " + l for l in log.splitlines())); sys.stdout.flush()
