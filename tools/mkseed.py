#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from a definition file: mkseed.py defs.py (dict SEEDS: id -> dict(property, needs, breaks, edits=[(file, old, new)], demo=C++ source))."""
import sys, os, subprocess, json, runpy, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
# Compiles demo.cc against the headers of the repository in the current directory and runs it in a scratch directory.
set -e
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
g++ -std=c++20 -O1 -w -I"$repo/eisvogel/core" -I"$repo/eisvogel/core/impl" @FLAGS@ "$here/demo.cc" -o "$tmp/demo" -luuid -ltbb
cd "$tmp" && timeout 120 ./demo
"""
seeds = runpy.run_path(sys.argv[1])["SEEDS"]
only = sys.argv[2:]
for sid, s in seeds.items():
    if only and sid not in only: continue
    d = os.path.join(V, "seeded", sid); os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(); subprocess.check_call(["git", "clone", "-q", os.environ.get("VERIF_REPO", "/repo"), w + "/r"])
    for f, old, new in s["edits"]:
        p = os.path.join(w, "r", f); t = open(p).read(); assert t.count(old) == 1, (sid, f, t.count(old)); open(p, "w").write(t.replace(old, new))
    open(os.path.join(d, "patch.diff"), "w").write(subprocess.check_output(["git", "-C", w + "/r", "diff"], text=True))
    shutil.rmtree(w)
    open(os.path.join(d, "demo.cc"), "w").write(s["demo"])
    open(os.path.join(d, "demo.sh"), "w").write(s.get("demo_sh", DEMO.replace("@FLAGS@", s.get("flags", ""))))
    for name, text in s.get("extra", {}).items(): open(os.path.join(d, name), "w").write(text)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    print("wrote", sid)
