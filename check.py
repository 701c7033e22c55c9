#!/usr/bin/env python3
"""Builds and runs the property-based check of one property against /repo's working tree.

    check.py <ID> [quick|thorough]     run the check (tier defaults to $VERIF_TIER or quick)
    check.py <ID> --replay <file>      run one stored counterexample
    check.py setup                     compile everything once (sanity check of the tool chain)
    check.py all [tier]                every check, one after another
"""
import concurrent.futures as cf
import hashlib, json, os, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_OUT", V)       # where build/, evidence/ and replays/ go
sys.path.insert(0, V)
from checks import CHECKS  # noqa: E402

INC = [V + "/lib", V + "/harness", REPO + "/eisvogel/core", REPO + "/eisvogel/core/impl"]
COMMON = ["-std=c++20", "-w"]
MODES = {
    # the flags the project itself uses, asserts enabled
    "opt": ["-O3", "-ftree-vectorize", "-ffast-math", "-funroll-loops", "-march=native"],
    # memory errors become visible; plain IEEE arithmetic
    "asan": ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"],
}
LIBS = ["-luuid", "-ltbb"]
NCPU = os.cpu_count() or 4


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        files = []
        if os.path.isfile(p):
            files = [p]
        else:
            for d, dn, fn in os.walk(p):
                dn[:] = sorted(x for x in dn if x not in (".git", "build"))
                files += [os.path.join(d, f) for f in sorted(fn)]
        for f in files:
            h.update(f.encode() + b"\0")
            try:
                with open(f, "rb") as fh:
                    h.update(fh.read())
            except OSError:
                pass
    return h.hexdigest()


def compile_one(pid, mode, quiet=True):
    spec = CHECKS[pid]
    src = os.path.join(V, "harness", spec["src"])
    incs = [os.path.join(V, i[7:]) if i.startswith("@verif/") else os.path.join(REPO, i) for i in spec.get("inc", [])]
    srcs = [src] + [os.path.join(REPO, s) for s in spec.get("repo_src", [])]
    cxx = spec.get("cxx", "g++")
    flags = COMMON + MODES[mode] + spec.get("flags", []) + spec.get(mode + "_flags", [])
    key = hashlib.sha256((tree_hash([REPO + "/eisvogel", REPO + "/extern", V + "/lib", V + "/harness/stub", src] +
                                    [os.path.join(V, "harness", x) for x in spec.get("dep", [])]) +
                          " ".join([cxx] + flags + incs + srcs)).encode()).hexdigest()[:20]
    bdir = os.path.join(OUT, "build")
    os.makedirs(bdir, exist_ok=True)
    out = os.path.join(bdir, "%s-%s-%s" % (pid, mode, key))
    if os.path.exists(out):
        return out, 0.0
    for old in os.listdir(bdir):   # keep only the latest build of each harness and mode
        if old.startswith("%s-%s-" % (pid, mode)) and not old.endswith(".tmp"):
            try:
                os.remove(os.path.join(bdir, old))
            except OSError:
                pass
    t0 = time.time()
    tmp = out + ".%d.tmp" % os.getpid()
    cmd = [cxx] + flags + sum((["-I", i] for i in incs + INC), []) + srcs + ["-o", tmp] + spec.get("libs", []) + LIBS
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        sys.stderr.write(" ".join(cmd) + "\n" + r.stdout[-6000:] + "\n")
        print("check.py: compilation of %s (%s) failed" % (pid, mode))
        raise SystemExit(2)
    os.rename(tmp, out)
    return out, time.time() - t0


def known_findings(pid):
    res = []
    path = os.path.join(V, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                res.append(line[len("known: property=%s " % pid):])
    return res


def make_scratch():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > (2 << 30) else tempfile.gettempdir()
    d = tempfile.mkdtemp(prefix="verif-", dir=base)
    os.chmod(d, 0o777)
    return d


def make_scratch2():
    d = tempfile.mkdtemp(prefix="verif2-")
    os.chmod(d, 0o777)
    return d


def run_env():
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:max_malloc_fill_size=16777216:malloc_fill_byte=90:allocator_may_return_null=0:detect_odr_violation=0:handle_abort=0:handle_segv=0"
    return env


def run(pid, tier):
    t0 = time.time()
    spec = CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    plan = spec[tier] if tier in spec else spec["quick"]      # mode -> number of cases
    cap = spec.get("cap", {}).get(tier, 420 if tier == "quick" else 3000)
    with cf.ThreadPoolExecutor(len(plan)) as ex:
        bins = dict(zip(plan, ex.map(lambda m: compile_one(pid, m), plan)))
    t_build = time.time() - t0
    scratch, scratch2 = make_scratch(), make_scratch2()
    violations = []
    results = {}
    try:
        for mode, cases in plan.items():
            out = os.path.join(scratch, "result-%s.json" % mode)
            sdir = os.path.join(scratch, mode)
            os.makedirs(sdir)
            os.chmod(sdir, 0o777)
            cmd = [bins[mode][0], "--property", pid, "--seed", str(seed), "--cases", str(cases), "--time", str(cap / len(plan)),
                   "--jobs", str(min(NCPU, 8)), "--cpu", str(spec.get("cpu", 60)), "--out", out, "--scratch", sdir, "--scratch2", scratch2,
                   "--shrink-time", "60" if tier == "quick" else "180"]
            if tier == "thorough":
                cmd.append("--thorough")
            r = subprocess.run(cmd, env=run_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
            shutil.rmtree(sdir, ignore_errors=True)
            if r.stderr.strip():
                print("[%s/%s] %s" % (pid, mode, r.stderr.strip()[-1500:]))
            if r.returncode not in (0, 1) or not os.path.exists(out):
                print(r.stdout[-2000:])
                print("check.py: harness %s (%s) ended with %d" % (pid, mode, r.returncode))
                raise SystemExit(2)
            results[mode] = json.load(open(out))
            print("[%s/%s] %s" % (pid, mode, r.stdout.strip()[-3000:]))
            if r.returncode == 1:
                rdir = os.path.join(OUT, "replays")
                os.makedirs(rdir, exist_ok=True)
                body = "mode %s\n" % mode + open(out + ".replay").read()
                rp = os.path.join(rdir, "%s-%s.replay" % (pid, hashlib.sha256(body.encode()).hexdigest()[:12]))
                with open(rp, "w") as f:
                    f.write(body)
                violations.append(rp)
                break
        for kf in known_findings(pid):
            slug = kf.split()[0].replace("id=", "")
            r = subprocess.run([list(bins.values())[0][0], "--pinned", slug, "--scratch", scratch], env=run_env(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            print("KNOWN-FINDING: property=%s %s" % (pid, kf))
            if r.returncode == 0:
                print("note: known finding %s did not show on this tree" % slug)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        shutil.rmtree(scratch2, ignore_errors=True)
    labels = {}
    for m, r in results.items():
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=sum(r["evaluations"] for r in results.values()),
                            distinct_nontrivial=sum(r["distinct_nontrivial"] for r in results.values()),
                            rule=spec["rule"], samples=sum((r["samples"] for r in results.values()), [])[:6],
                            discarded=sum(r["discarded"] for r in results.values()),
                            per_build={m: dict(evaluations=r["evaluations"], distinct_nontrivial=r["distinct_nontrivial"], requested=r["requested"],
                                               explore_s=r["explore_s"], not_reproducible=r["flaky"]) for m, r in results.items()},
                            classes=labels),
              assumptions=spec.get("assumptions", []),
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    if violations:
        r = [r for r in results.values() if r["violation"]][0]
        ev["coverage"]["violation"] = dict(message=r["message"], prop=r["prop"], case=r["notes"], shrink_attempts=r["shrink_tried"])
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("[%s] %s tier, seed %d: build %.1f s, total %.1f s" % (pid, tier, seed, t_build, time.time() - t0))
    for rp in violations:
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    sys.stdout.flush()
    return 1 if violations else 0


def replay(pid, path):
    mode = "opt"
    for line in open(path):
        if line.startswith("mode "):
            mode = line.split()[1]
            break
    b, _ = compile_one(pid, mode)
    scratch, scratch2 = make_scratch(), make_scratch2()
    try:
        r = subprocess.run([b, "--replay", path, "--scratch", scratch, "--scratch2", scratch2], env=run_env())
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        shutil.rmtree(scratch2, ignore_errors=True)
    return r.returncode


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "setup":
        jobs = [(p, m) for p in CHECKS for m in CHECKS[p]["quick"]]
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for (p, m), (o, t) in zip(jobs, ex.map(lambda x: compile_one(*x), jobs)):
                print("built %s/%s %.1f s" % (p, m, t))
        return 0
    tier = a[1] if len(a) > 1 and not a[1].startswith("-") else os.environ.get("VERIF_TIER", "quick")
    if a[0] == "all":
        rc = 0
        for p in CHECKS:
            rc |= run(p, tier)
        return rc
    if len(a) > 2 and a[1] == "--replay":
        return replay(a[0], a[2])
    return run(a[0], tier)


if __name__ == "__main__":
    sys.exit(main())
