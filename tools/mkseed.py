#!/usr/bin/env python3
"""developer tool: create /verif/seeded/<id> from a python description (edits on /repo's current files)."""
import json, os, subprocess, sys, tempfile, shutil
DEMO = """#!/bin/bash
# builds demo.cpp against the libraries of the current tree (cwd = /repo) and runs it
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
B=$PWD/_build
L=$(find $B -name "libmqt-core-*.a" | tr '\\n' ' ')
I=$(find $B -name "*_export.h" -exec dirname {} \\; | xargs -n1 dirname | sort -u | sed 's/^/-I/' | tr '\\n' ' ')
g++ -std=c++17 -O0 -DNDEBUG -I$PWD/include/mqt-core -I/opt/vp/deps/json/include $I "$D/demo.cpp" -o "$W/demo" -Wl,--start-group $L -Wl,--end-group || exit 2
cd "$W" && timeout 120 ./demo
"""


def mk(id, prop, edits, demo, needs, breaks, demo_sh=None):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    diff = ""
    byf = {}
    for f, old, new in edits:
        byf.setdefault(f, open("/repo/" + f).read() if f not in byf else byf[f])
        assert byf[f].count(old) == 1, (id, f, byf[f].count(old), old)
        byf[f] = byf[f].replace(old, new)
    for f, t in byf.items():
        p = os.path.join(w, "new")
        open(p, "w").write(t)
        r = subprocess.run(["git", "diff", "--no-index", "--", "/repo/" + f, p], capture_output=True, text=True).stdout
        body = r[r.index("@@"):]
        diff += "--- a/%s\n+++ b/%s\n%s" % (f, f, body)
    open(d + "/patch.diff", "w").write(diff)
    if demo is not None:
        open(d + "/demo.cpp", "w").write(demo)
    open(d + "/demo.sh", "w").write(demo_sh or DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(w)
    subprocess.check_call(["git", "-C", "/repo", "apply", "--check", d + "/patch.diff"])
    print("made", id)
