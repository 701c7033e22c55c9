#!/usr/bin/env python3
"""tools/mutrun.py [-j N] [-t quick|thorough] MUTANTS.py [names...]: applies each listed change to a scratch copy of /repo and runs the checks of its properties.
MUTANTS.py defines M: list of (name, [property ids], file, old text, new text)."""
import sys, os, subprocess, shutil, runpy, tempfile, time, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]; jobs = 3; tier = "quick"
while a and a[0].startswith("-"):
    if a[0] == "-j": jobs = int(a[1])
    if a[0] == "-t": tier = a[1]
    a = a[2:]
M = runpy.run_path(a[0])["M"]; only = a[1:]
def one(m):
    name, props, f, old, new = m
    w = tempfile.mkdtemp(prefix="mut-"); out = w + "/out"; os.makedirs(out)
    try:
        os.makedirs(w + "/r"); subprocess.check_call("git -C /repo archive HEAD | tar -x -C %s/r" % w, shell=True)
        p = w + "/r/" + f; t = open(p).read()
        if t.count(old) != 1: return name, ["text found %d times" % t.count(old)]
        open(p, "w").write(t.replace(old, new)); res = []
        for pid in props:
            t0 = time.time(); r = subprocess.run([sys.executable, V + "/check.py", pid, tier], env=dict(os.environ, VERIF_REPO=w + "/r", VERIF_OUT=out), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            res.append("%s %s %ds" % (pid, {0: "MISSED", 1: "caught", 2: "NO ANSWER"}.get(r.returncode, r.returncode), time.time() - t0))
            os.makedirs("/tmp/mutlog", exist_ok=True); open("/tmp/mutlog/%s-%s.log" % (name, pid), "w").write(r.stdout)
        return name, res
    finally: shutil.rmtree(w)
with cf.ThreadPoolExecutor(jobs) as ex:
    for name, res in ex.map(one, [m for m in M if not only or m[0] in only]): print(name, "; ".join(res), flush=True)
