#!/usr/bin/env python3
"""tools/automut.py [-j N] [-n COUNT] [-s SEED] [-f FILE-SUBSTRING] OUT.jsonl: applies generated one-token changes to scratch copies of /repo's sources and
runs the checks responsible for the file (optimised build only, a third of the quick budget) until one notices. Survivors are listed for analysis; nothing here is
part of a registered check."""
import sys, os, re, json, random, shutil, subprocess, tempfile, time, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from checks import CHECKS
I = "eisvogel/core/impl/"
FILES = {
 I + "Cache.hxx": ["S10"], I + "NDVecArray.hxx": ["S09", "S14", "S12", "S13", "S06"], I + "NDVecArraySerialization.hh": ["S06", "S14"], I + "NDVecArrayStreamer.hxx": ["S06", "S01", "S17"],
 I + "NDVecArrayOperations.hxx": ["S11"], I + "RStarTree.hxx": ["S08"], I + "MathUtils.hxx": ["P10"], I + "DistributedNDVecArray.hxx": ["S01", "S02", "S05", "S03", "S04", "S13", "S17", "S16"],
 I + "GreensFunction.hxx": ["P02", "P03", "P04", "P08", "P06", "P09", "P07", "S17"], I + "Interpolation.hxx": ["P01"], I + "Quadrature.hh": ["P10"], I + "Symmetry.hxx": ["S04", "P02"], I + "Geometry.hxx": ["P12"],
 I + "Antenna.hxx": ["P16"], I + "Current.hxx": ["P12"], I + "SignalExport.hxx": ["P11", "S17"], I + "AnalyticGreensFunctionCalculator.hxx": ["P09"], I + "Vector.hxx": ["S15"], I + "VectorView.hh": ["S15"],
 I + "Vector.hh": ["S15"], I + "ChunkUtils.hh": ["S12"], I + "IteratorUtils.hh": ["S12"], I + "Serialization.hxx": ["S07"], I + "DefaultSerializationTraits.hxx": ["S07"],
 "eisvogel/meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx": ["P14"], "extern/corsika/impl/C8SignalCalculator.hxx": ["P15"], "extern/corsika/impl/C8GreensFunctionCalculator.hxx": ["P14"],
 "extern/shower_profile/shower_1D/shower_1D.cpp": ["P13"], "extern/shower_profile/shower_creator/shower_creator.cpp": ["P13"], "extern/shower_profile/environment/ice_profile.cpp": ["P13"],
 "extern/shower_profile/charge_excess_profile/charge_excess_profile.cpp": ["P13"],
}
OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "),
       (r" && ", " || "), (r" \|\| ", " && "), (r" \+= ", " -= "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"std::min\b", "std::max"), (r"std::max\b", "std::min"), (r"\b0\b(?![.\w])", "1"), (r"\b1\b(?![.\w])", "2"),
       (r"\b1\b(?![.\w])", "0"), (r"\bceil\b", "floor"), (r"\bfloor\b", "ceil"), (r"VectorUtils::min", "VectorUtils::max"), (r"VectorUtils::max", "VectorUtils::min"), (r"\baxis_1\b", "axis_2"), (r"\bstart_ind\b", "end_ind"),
       (r"\.r\(\)", ".z()"), (r"\.z\(\)", ".r()"), (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"), (r"if\((.*)\) \{$", r"if(!(\1)) {"), (r"if\((.*)\) \{$", "if(false) {")]
SKIP = re.compile(r"assert|std::cout|std::cerr|#include|template|static_assert|throw |^\s*//|operator<<|<< ")
def candidates(f):
    src = open("/repo/" + f).read().split("\n"); res = []
    for n, line in enumerate(src):
        if SKIP.search(line) or not line.strip(): continue
        code = line.split("//")[0].rstrip()
        for pat, rep in OPS:
            for m in re.finditer(pat, code):
                new = code[:m.start()] + m.expand(rep) + code[m.end():]
                if new != code: res.append((f, n, line, new))
        if code.endswith(";") and re.match(r"^\s+[\w.\->:\[\]()*, ]+( [+\-*/]?= |\().*;$", code) and not re.match(r"^\s*(return|const|auto|using|std::\w+ \w+|[\w:]+(<.*>)?[&*]? \w+( =|\(|;))", code):
            res.append((f, n, line, re.match(r"^\s*", code).group(0) + ";"))
    return res
def one(mut):
    f, n, old, new = mut
    w = tempfile.mkdtemp(prefix="amut-", dir="/dev/shm"); t0 = time.time()
    try:
        subprocess.check_call("git -C /repo archive HEAD eisvogel extern | tar -x -C %s" % w, shell=True)
        src = open(w + "/" + f).read().split("\n"); src[n] = new; open(w + "/" + f, "w").write("\n".join(src))
        tried = []
        for pid in FILES[f]:
            s = CHECKS[pid]; inc = [V + "/lib", V + "/harness", w + "/eisvogel/core", w + "/eisvogel/core/impl"]
            inc = [V + "/" + i[7:] if i.startswith("@verif/") else w + "/" + i for i in s.get("inc", [])] + inc
            b = w + "/" + pid; cmd = ["g++", "-std=c++20", "-w", "-O2", "-ffast-math", "-march=native"] + s.get("flags", []) + s.get("opt_flags", []) + sum((["-I", i] for i in inc), []) + [V + "/harness/" + s["src"], "-o", b] + s.get("libs", []) + ["-luuid", "-ltbb"]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if r.returncode: return dict(file=f, line=n + 1, old=old.strip(), new=new.strip(), result="does not build", s=round(time.time() - t0))
            sd = w + "/scratch"; sd2 = w + "/scratch2"
            for d in (sd, sd2): os.makedirs(d); os.chmod(d, 0o777)
            os.chmod(w, 0o755)
            cmd = [b, "--property", pid, "--seed", "1", "--cases", str(s["quick"]["opt"] // 3), "--time", "60", "--jobs", "3", "--cpu", str(s.get("cpu", 60)), "--out", w + "/out.json", "--scratch", sd, "--scratch2", sd2, "--shrink-time", "1"]
            try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=400).returncode
            except subprocess.TimeoutExpired: r = "timeout"
            shutil.rmtree(sd, ignore_errors=True); shutil.rmtree(sd2, ignore_errors=True)
            if r != 0: return dict(file=f, line=n + 1, old=old.strip(), new=new.strip(), result="caught by %s" % pid if r == 1 else "%s: %s" % (pid, r), s=round(time.time() - t0))
            tried.append(pid)
        return dict(file=f, line=n + 1, old=old.strip(), new=new.strip(), result="SURVIVED " + " ".join(tried), s=round(time.time() - t0))
    except Exception as e: return dict(file=f, line=n + 1, old=old.strip(), new=new.strip(), result="error %r" % e)
    finally: shutil.rmtree(w, ignore_errors=True)
if __name__ == "__main__":
    a = sys.argv[1:]; jobs, cnt, seed, sub = 3, 100, 1, ""
    while a and a[0].startswith("-"):
        if a[0] == "-j": jobs = int(a[1])
        if a[0] == "-n": cnt = int(a[1])
        if a[0] == "-s": seed = int(a[1])
        if a[0] == "-f": sub = a[1]
        a = a[2:]
    allm = [m for f in FILES if sub in f and os.path.exists("/repo/" + f) for m in candidates(f)]
    print("%d candidates" % len(allm)); random.Random(seed).shuffle(allm); done = 0
    with cf.ThreadPoolExecutor(jobs) as ex, open(a[0], "a") as o:
        for r in ex.map(one, allm[:cnt]):
            o.write(json.dumps(r) + "\n"); o.flush()
            if not r["result"].startswith(("caught", "does not")): print(json.dumps(r), flush=True)
