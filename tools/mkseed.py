"""Helper for writing planted bugs: seed(id, prop, [(file, old, new)...], needs, breaks, demo_cpp)."""
import json, os, subprocess, tempfile, shutil
DEMO = '''#!/bin/bash
# run with cwd /repo after the build; exit 0: behaviour as documented
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
here=$(cd "$(dirname "$0")" && pwd)
g++ -std=c++20 -O1 %s -I"$PWD/lib" -isystem /usr/include/martchus-c++utilities "$here/demo.cpp" -o "$d/demo" -lmartchus-c++utilities || exit 3
timeout 120 "$d/demo"
'''
def seed(id, prop, edits, needs, breaks, demo, flags="", demo_sh=None, extra={}):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mkseed")
    subprocess.run("git -C /repo archive HEAD | tar x -C " + w, shell=True, check=True)
    subprocess.run("git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm x", shell=True, cwd=w, check=True, stdout=subprocess.DEVNULL)
    for f, old, new in edits:
        p = os.path.join(w, f); s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=w, capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    shutil.rmtree(w)
    if demo: open(d + "/demo.cpp", "w").write(demo)
    for n, t in extra.items(): open(d + "/" + n, "w").write(t)
    open(d + "/demo.sh", "w").write(demo_sh or DEMO % flags)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
