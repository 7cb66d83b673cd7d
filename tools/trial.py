#!/usr/bin/env python3
"""trial.py FILE.json [WORKERS]: does a property's check notice these changes?
FILE: list of {id, property, edits:[[path, old, new], ...]} (edits must match once); scratch copies under /tmp/trial."""
import json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
B = json.load(open(sys.argv[1])); N = int(sys.argv[2]) if len(sys.argv) > 2 else 2
q = Queue(); V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for k in range(N):
    D = "/tmp/trial/w%d" % k
    if not os.path.exists(D):
        os.makedirs(D)
        subprocess.check_call("git clone -q /repo %s/repo && git clone -q /verif %s/verif" % (D, D), shell=True)
    subprocess.check_call("git -C %s/repo fetch -q ${TRIAL_REPO:-/repo} HEAD && git -C %s/repo checkout -q -f --detach FETCH_HEAD && rsync -a --delete --exclude .build --exclude .git --exclude seeded --exclude evidence %s/ %s/verif/" % (D, D, V, D), shell=True) if shutil.which("rsync") else subprocess.check_call("git -C %s/repo fetch -q ${TRIAL_REPO:-/repo} HEAD && git -C %s/repo checkout -q -f --detach FETCH_HEAD && cp -a %s/check.py %s/verif/ && cp -a %s/harness/. %s/verif/harness/ && cp -a %s/known-findings.txt %s/verif/" % (D, D, V, D, V, D, V, D), shell=True)
    q.put(D)
def one(b):
    D = q.get()
    try:
        subprocess.check_call("git -C %s/repo checkout -q -- ." % D, shell=True)
        for path, old, new in b["edits"]:
            f = D + "/repo/" + path; s = open(f).read()
            if s.count(old) != 1: return b["id"], "edit matches %d times: %s" % (s.count(old), old[:70])
            open(f, "w").write(s.replace(old, new))
        out = ""
        for c in b.get("checks", b["property"]).split():
            t = time.time()
            p = subprocess.run(["timeout", "900", "python3", "check.py", c], cwd=D + "/verif", env=dict(os.environ, VERIF_REPO=D + "/repo"), capture_output=True, text=True)
            m = [l for l in p.stderr.splitlines() + p.stdout.splitlines() if "scenario" in l or "build" in l]
            out += "%s:%s %ds %s " % (c, {0: "MISSED", 1: "caught"}.get(p.returncode, "rc%d" % p.returncode), time.time() - t, (m or [""])[0][:150] if p.returncode else "")
            if p.returncode not in (0, 1): out += p.stderr[-600:]
        return b["id"], out
    finally:
        subprocess.call("git -C %s/repo checkout -q -- ." % D, shell=True)
        q.put(D)
with ThreadPoolExecutor(N) as ex:
    for r in ex.map(one, B): print("%-28s %s" % r, flush=True)
