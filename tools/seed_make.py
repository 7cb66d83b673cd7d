#!/usr/bin/env python3
"""seed_make.py FILE.json: turns edits into seeded/<id>/patch.diff + meta.json.
FILE: list of {id, property, needs, what_it_breaks, edits:[[path, old, new], ...]}"""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
wt = tempfile.mkdtemp(prefix="sw-") + "/r"
subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", wt, "HEAD"])
try:
    for b in json.load(open(sys.argv[1])):
        for path, old, new in b["edits"]:
            p = os.path.join(wt, path); s = open(p).read()
            if s.count(old) != 1: print(b["id"], "edit matches", s.count(old), "times:", old[:60]); break
            open(p, "w").write(s.replace(old, new))
        else:
            d = os.path.join(V, "seeded", b["id"]); os.makedirs(d, exist_ok=True)
            diff = subprocess.check_output(["git", "-C", wt, "diff"], text=True)
            open(d + "/patch.diff", "w").write(diff)
            json.dump({k: b[k] for k in ("property", "needs", "what_it_breaks")}, open(d + "/meta.json", "w"), indent=1)
            base = subprocess.check_output(["git", "-C", wt, "log", "--format=%H", "--reverse"], text=True).split()[0]
            # removed lines have to be the original repository's
            mine = 0; orig = 0
            for path, old, new in b["edits"]:
                src = subprocess.run(["git", "-C", wt, "show", base + ":" + path], capture_output=True, text=True).stdout
                for l in diff.splitlines():
                    if l.startswith("-") and not l.startswith("---") and l[1:].strip():
                        if l[1:] in src.split("\n"): orig += 1
                        else: mine += 1
            print(b["id"], "original lines changed", orig, "own", mine)
        subprocess.check_call(["git", "-C", wt, "checkout", "-q", "--", "."])
finally:
    subprocess.check_call(["git", "-C", "/repo", "worktree", "remove", "--force", wt]); os.rmdir(os.path.dirname(wt))
