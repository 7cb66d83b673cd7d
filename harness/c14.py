"""C14: runs the lock-step enumerations of c14.cpp under mpirun."""
import json, os, shutil, subprocess, sys, tempfile, time
import check

ENV = {"OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1", "OMPI_MCA_btl": "self,vader",
       "OMPI_MCA_pml": "ob1", "OMPI_MCA_plm": "isolated", "OMPI_MCA_oob_tcp_if_include": "lo",
       "OMPI_MCA_mpi_yield_when_idle": "1", "OMPI_MCA_hwloc_base_binding_policy": "none"}
SCEN = ["one-region", "two-regions", "sizes", "steps", "single", "report"]

def launch(exe, n, scen, tier, choices=None):
    d = tempfile.mkdtemp(prefix="c14.")
    env = {k: v for k, v in os.environ.items() if not k.startswith("APOLLO_")}
    env.update(ENV)
    env["TMPDIR"] = d
    cmd = ["mpirun", "--oversubscribe", "-n", str(n), exe, d + "/r", d, scen, "1" if tier == "thorough" else "0"]
    if choices is not None: cmd.append(choices)
    log = open(d + "/log", "wb")
    p = subprocess.Popen(cmd, env=env, cwd=d, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
    return {"dir": d, "proc": p, "n": n, "scen": scen, "last": time.time(), "beat": None, "t0": time.time()}

def poll(j, limit):
    """None while running, else the result."""
    rc = j["proc"].poll()
    d = j["dir"]
    if rc is None:
        try: b = os.stat(d + "/r.beat").st_size
        except OSError: b = None
        if b != j["beat"]: j["beat"], j["last"] = b, time.time()
        if time.time() - j["last"] < limit: return None
        os.killpg(j["proc"].pid, 9)
        j["proc"].wait()
        rc = "hang"
    out = {"scen": j["scen"], "n": j["n"], "rc": rc, "secs": round(time.time() - j["t0"], 2)}
    v = d + "/r.violation"
    log = open(d + "/log", errors="replace").read()[-2000:]
    if os.path.exists(v):
        l = open(v).read().split("\n")
        out["violation"] = {"choices": l[1], "message": " ".join(l[2:]).strip(), "log": log}
    elif rc != 0:
        out["violation"] = {"choices": "", "message": "the ranks hang" if rc == "hang" else "a rank ended abnormally: " + log[-400:], "log": log}
        out["crash"] = True
    else:
        out["ranks"] = []
        for r in range(j["n"]):
            l = open(d + "/r.%d" % r).read().split("\n")
            e, c, s = map(int, l[0].split())
            out["ranks"].append({"executions": e, "checks": c, "states": s})
            if r == 0: out["samples"] = [x for x in l[1:] if x]
    shutil.rmtree(d, ignore_errors=True)
    return out

def run(prop, tier, seed, argv):
    t0 = time.time()
    try:
        exe = check.build("mpi", "c14.cpp", prop)
    except check.BuildError as e:
        sys.stderr.write(str(e) + "\n")
        return 2
    if "--build-only" in argv:
        print(exe)
        return 0
    if "--replay" in argv:
        r = json.load(open(argv[argv.index("--replay") + 1]))
        j = launch(exe, r["ranks"], r["scenario"], r["tier"], r["choices"] or None)
        while True:
            x = poll(j, 120)
            if x: break
            time.sleep(.05)
        print(json.dumps(x, indent=1))
        return 1 if "violation" in x else 0
    # A trivial program first: without a working mpirun there is no answer.
    ranks = (1, 2, 3, 4)
    todo = [(n, s) for n in ranks for s in SCEN]
    todo.sort(key=lambda x: (-x[0], x[1] != "steps"))
    running, done, limit = [], [], 150
    while (todo or running) and not any("violation" in d for d in done):
        while todo and sum(j["n"] for j in running) + todo[0][0] <= 8:
            n, s = todo.pop(0)
            running.append(launch(exe, n, s, tier))
        time.sleep(.02)
        for j in list(running):
            x = poll(j, limit)
            if x:
                running.remove(j)
                done.append(x)
                sys.stderr.write("  %-12s ranks=%d %s %.1fs\n" % (x["scen"], x["n"], "VIOLATED" if "violation" in x else "execs=%d checks=%d" % (x["ranks"][0]["executions"], sum(r["checks"] for r in x["ranks"])), x["secs"]))
    for j in running:
        try: os.killpg(j["proc"].pid, 9)
        except OSError: pass
        j["proc"].wait()
        shutil.rmtree(j["dir"], ignore_errors=True)
    viol = [d for d in done if "violation" in d]
    if viol and viol[0].get("crash"):
        # An abnormal end counts only if mpirun itself works and it happens again.
        h = subprocess.run(["mpirun", "--oversubscribe", "-n", "2", "/bin/true"], env=dict(os.environ, **ENV), capture_output=True, text=True)
        if h.returncode != 0:
            sys.stderr.write("mpirun does not work here: " + h.stderr[-500:] + "\n")
            return 2
        j = launch(exe, viol[0]["n"], viol[0]["scen"], tier)
        while True:
            x = poll(j, limit)
            if x: break
            time.sleep(.05)
        if "violation" not in x:
            sys.stderr.write("an abnormal end that did not repeat: " + viol[0]["violation"]["message"] + "\n")
            return 2
        viol = [x]
    ok = [d for d in done if "ranks" in d]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {
              "states": sum(d["ranks"][0]["states"] for d in ok),
              "transitions": sum(d["ranks"][0]["executions"] * d["n"] for d in ok),
              "traces_validated_against_impl": sum(r["checks"] for d in ok for r in d["ranks"]),
              "executions": sum(d["ranks"][0]["executions"] for d in ok),
              "exhaustive": not viol and len(ok) == len(ranks) * len(SCEN),
              "samples": [{"scenario": d["scen"], "ranks": d["n"], "choices": s} for d in ok for s in d["samples"][-1:]][:12],
              "scenarios": [{"name": d["scen"], "ranks": d["n"], "secs": d["secs"], "executions": d["ranks"][0]["executions"], "states": d["ranks"][0]["states"]} for d in ok]},
          "assumptions": check.ASSUME + ["the exchange is a blocking collective of the MPI library, whose internal schedules are not enumerated"],
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    with open(os.path.join(check.EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if viol:
        v = viol[0]
        os.makedirs(check.EVID + "/replay", exist_ok=True)
        p = check.EVID + "/replay/%s-%s-%d.json" % (prop, v["scen"], v["n"])
        with open(p, "w") as f:
            json.dump({"property": prop, "tier": tier, "scenario": v["scen"], "ranks": v["n"], "choices": v["violation"]["choices"],
                       "message": v["violation"]["message"], "log": v["violation"]["log"],
                       "replay_with": "python3 /verif/check.py %s --replay %s" % (prop, p)}, f, indent=1)
        print("%s: scenario %s, %d ranks: %s" % (prop, v["scen"], v["n"], v["violation"]["message"]))
        print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    print("%s: held on %d executions (%d states), %.1f s" % (prop, ev["coverage"]["executions"], ev["coverage"]["states"], ev["wall_s"]))
    return 0
