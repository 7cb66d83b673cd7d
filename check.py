#!/usr/bin/env python3
"""Runs the check of one property: builds its harness from /repo's working tree,
explores, writes evidence/<id>.json. Exit 0: held on everything explored; exit 1
with a VIOLATION line: broken.

  check.py C04 [--thorough] [--only SCENARIO] [--replay FILE] [--build-only]
"""
import concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
EVID = os.path.join(VERIF, "evidence")
H = os.path.join(VERIF, "harness")

BASE = ["-O1", "-g1", "-DNDEBUG", "-fno-omit-frame-pointer", "-w", "-ftrivial-auto-var-init=pattern"]
SAN = ["-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"]
MPI_C = ["-DENABLE_MPI", "-DOMPI_SKIP_MPICXX"]
# variant -> (flags for /repo's sources and the harness, extra sources, link flags)
VARIANTS = {
    "default": (BASE + SAN, [], []),
    "jit": (BASE + ["-D_GLIBCXX_ASSERTIONS", "-DENABLE_JIT_DTREE"], [], ["-ldl"]),
    "plain": (["-O2"] + BASE[1:] + ["-D_GLIBCXX_ASSERTIONS"], [], []),
    "nojit": (BASE + ["-D_GLIBCXX_ASSERTIONS"], [], []),
    "cuda": (BASE + SAN + ["-DENABLE_CUDA", "-I" + H + "/fakegpu"], ["timers/TimerCudaAsync.cpp"], []),
    "hip": (BASE + SAN + ["-DENABLE_HIP", "-D__HIP_PLATFORM_AMD__", "-I" + H + "/fakegpu"], ["timers/TimerHipAsync.cpp"], []),
    "opencv": (BASE + SAN + ["-DENABLE_OPENCV", "-I/usr/include/opencv4"], ["models/RegressionTree.cpp"], ["-lopencv_ml", "-lopencv_core"]),
    "mpi": (BASE + ["-D_GLIBCXX_ASSERTIONS"] + MPI_C, [], []),
}
SKIP = {"models/RegressionTree.cpp", "timers/TimerCudaAsync.cpp", "timers/TimerHipAsync.cpp"}
# property -> the configurations of /repo its harness is built against; a
# harness may come as several programs (run one after another).
PROGRAMS = {
    "C10": [("cuda", "c10.cpp"), ("hip", "c10.cpp")],
    "C13": [("cuda", "c13.cpp")],
    "C14": [("mpi", "c14.cpp")],
    "C20": [("jit", "c20.cpp")],
    "C24": [("default", "c24.cpp"), ("opencv", "c24cv.cpp")],
    "C26": [("plain", "c26.cpp")],
    "C28": [("opencv", "c28.cpp")],
}

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]

def rd(p):
    with open(p, "rb") as f:
        return f.read()

def repo_headers():
    out = []
    for d in ("src", "include"):
        for root, _, files in os.walk(os.path.join(REPO, d)):
            for f in sorted(files):
                if f.endswith((".h", ".hpp", ".hh", ".inc", ".ipp")):
                    out.append(os.path.join(root, f))
    return sorted(out)

def repo_sources(extra):
    out = []
    src = os.path.join(REPO, "src")
    for root, _, files in os.walk(src):
        for f in sorted(files):
            if f.endswith((".cpp", ".cc", ".cxx")):
                r = os.path.relpath(os.path.join(root, f), src)
                if r not in SKIP or r in extra:
                    out.append(os.path.join(root, f))
    return sorted(out)

class BuildError(Exception):
    pass

def mpi_flags(kind):
    return subprocess.check_output(["mpicxx", "-showme:" + kind], text=True).split()

def compile_one(job):
    src, flags, key, std, incs = job
    obj = os.path.join(BUILD, "obj", key + ".o")
    if os.path.exists(obj):
        return obj
    tmp = obj + ".%d.tmp" % os.getpid()
    cmd = ["g++", "-std=" + std] + flags + incs + ["-c", src, "-o", tmp]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stderr[-4000:]))
    os.replace(tmp, obj)
    return obj

def build(variant, harness, prop):
    """Returns the path of the program."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    flags, extra, link = VARIANTS[variant]
    flags = list(flags)
    link = list(link)
    if variant == "mpi":
        flags += mpi_flags("compile")
        link += mpi_flags("link")
    hdr = repo_headers()
    hkey = sha(*[rd(h) for h in hdr], *[os.path.relpath(h, REPO) for h in hdr])
    hh = sorted(glob.glob(H + "/*.h") + glob.glob(H + "/fakegpu/**/*.h", recursive=True))
    hhkey = sha(*[rd(h) for h in hh])
    rinc = ["-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + REPO + "/src/connectors/kokkos/include"]
    jobs = []
    for s in repo_sources(extra):
        jobs.append((s, flags, sha("r1", rd(s), hkey, s, " ".join(flags)), "gnu++14", rinc))
    for s in [H + "/mc.cpp", H + "/world.cpp", H + "/" + harness]:
        f = flags + (['-DPROPERTY_ID="%s"' % prop, "-DVARIANT_%s=1" % variant, '-DHARNESS_DIR="%s"' % H] if s.endswith(harness) else [])
        f = [x for x in f]
        jobs.append((s, f, sha("h1", rd(s), hkey, hhkey, s, " ".join(f)), "gnu++17", rinc + ["-I" + H]))
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        objs = list(ex.map(compile_one, jobs))
    key = sha("b1", *[os.path.basename(o) for o in objs], " ".join(link))
    exe = os.path.join(BUILD, "bin", prop + "-" + variant + "-" + key)
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        san = ["-fsanitize=address"] if "-fsanitize=address" in flags else []
        cmd = ["g++", "-rdynamic"] + san + objs + ["-o", tmp] + link + ["-ldl", "-lpthread"]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode != 0:
            raise BuildError(" ".join(cmd[:3]) + " ...\n" + p.stderr[-4000:])
        os.replace(tmp, exe)
        for old in glob.glob(os.path.join(BUILD, "bin", prop + "-" + variant + "-*")):
            if old != exe:
                try: os.remove(old)
                except OSError: pass
    return exe

def prune():
    """Keeps the object cache small."""
    objs = glob.glob(os.path.join(BUILD, "obj", "*"))
    if len(objs) > 1500:
        for o in sorted(objs, key=os.path.getmtime)[:700]:
            try: os.remove(o)
            except OSError: pass

def known_findings(prop):
    """Lines 'finding: property=<id> key=<key> ...' of known-findings.txt."""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out

def programs(prop):
    return PROGRAMS.get(prop, [("default", prop.lower() + ".cpp")])

def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in a: tier = "thorough"
    if "--quick" in a: tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.environ["VERIF_REPO"] = REPO
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.makedirs(EVID, exist_ok=True)
    if os.path.exists(os.path.join(VERIF, "harness", prop.lower() + ".py")):
        # Checks that are not a single C++ explorer program.
        sys.path.insert(0, H)
        mod = __import__(prop.lower())
        return mod.run(prop, tier, seed, a)
    try:
        with concurrent.futures.ThreadPoolExecutor(2) as ex:
            exes = list(ex.map(lambda p: build(p[0], p[1], prop), programs(prop)))
    except BuildError as e:
        sys.stderr.write("the harness does not build against /repo:\n%s\n" % e)
        return 2
    prune()
    if "--build-only" in a:
        print("\n".join(exes))
        return 0
    if "--replay" in a:
        r = json.load(open(a[a.index("--replay") + 1]))
        exe = exes[r.get("program", 0)]
        cmd = [exe, "--replay", r["scenario"], r["choices"]]
        if r.get("tier") == "thorough": cmd.insert(1, "--thorough")
        return subprocess.call(cmd)
    known = known_findings(prop)
    scen, rc = [], 0
    for n, exe in enumerate(exes):
        out = os.path.join(EVID, ".%s-%d.tmp" % (prop, n))
        cmd = [exe, "--out", out, "--workers", str(min(8, os.cpu_count() or 8))]
        if tier == "thorough": cmd += ["--thorough", "--budget", "3000"]
        else: cmd += ["--budget", "250"]
        for k, _ in known: cmd += ["--known", k]
        if "--only" in a: cmd += ["--only", a[a.index("--only") + 1]]
        r = subprocess.call(cmd)
        if r not in (0, 1) or not os.path.exists(out):
            sys.stderr.write("explorer ended with status %d\n" % r)
            return 2
        for s in json.load(open(out))["scenarios"]:
            s["program"] = n
            s["config"] = programs(prop)[n][0]
            scen.append(s)
        os.remove(out)
        rc = rc or r
        if r: break
    return finish(prop, tier, seed, t0, scen, rc, known)

def finish(prop, tier, seed, t0, scen, rc, known):
    for k, what in known:
        if any(s.get("known") for s in scen):
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
    viol = [s for s in scen if "violation" in s]
    samples = []
    for s in scen:
        for x in s.get("samples", [])[:2]:
            samples.append({"scenario": s["name"], "choices": x})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(s["states"] for s in scen),
            "transitions": sum(s["steps"] for s in scen),
            "traces_validated_against_impl": sum(s["validated"] for s in scen),
            "executions": sum(s["executions"] for s in scen),
            "distinct_outcomes": sum(s["outcomes"] for s in scen),
            "reexecuted_for_determinism": sum(s["reexecuted"] for s in scen),
            "reexecuted_different": sum(s["reexecuted_different"] for s in scen),
            "exhaustive": all(s["exhaustive"] for s in scen) and not viol,
            "samples": samples[:12],
            "scenarios": [{k: v for k, v in s.items() if k not in ("samples", "violation", "program")} for s in scen],
        },
        "assumptions": ASSUME,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if viol:
        s = viol[0]
        v = s["violation"]
        d = os.path.join(EVID, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s.json" % (prop, re.sub(r"\W+", "-", s["name"])))
        with open(p, "w") as f:
            json.dump({"property": prop, "tier": tier, "program": s.get("program", 0), "config": s.get("config", ""),
                       "scenario": s["name"], "choices": v["choices"], "key": v["key"], "message": v["message"],
                       "trace": v["trace"].split("\n"), "stderr": v.get("stderr", ""),
                       "replay_with": "python3 /verif/check.py %s --replay %s" % (prop, p)}, f, indent=1)
        print("%s: scenario %s: %s: %s" % (prop, s["name"], v["key"], v["message"]))
        print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    print("%s: held on %d executions (%d states, %d transitions), %.1f s" % (
        prop, ev["coverage"]["executions"], ev["coverage"]["states"], ev["coverage"]["transitions"], ev["wall_s"]))
    return 0

ASSUME = [
    "alphabets and bounds are those listed per property in DESIGN.md; values outside the alphabets are not covered",
    "std::random_device and CLOCK_MONOTONIC are replaced by enumerated answers",
    "single-threaded use of the runtime, as the API requires",
    "gcc 13, x86-64, one sanitizer build per configuration",
]

if __name__ == "__main__":
    sys.exit(main())
