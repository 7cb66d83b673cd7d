#!/usr/bin/env python3
"""mutate.py list [FILE...]            lists small syntactic changes of /repo's sources
mutate.py run LIST LOG [N/M]           tries them: which check notices each
Works in scratch copies under /tmp/mut (a clone of /repo and of /verif)."""
import json, os, re, shutil, subprocess, sys, time
T = "src/models/impl/DecisionTreeImpl.cpp"
TREE = "C04 C06 C08 C05 C20 C24"
MAP = {
 "src/Dataset.cpp": "C03 C07 C08 C21",
 "src/Region.cpp": "C09 C11 C13 C07 C06 C16 C21 C23 C10 C12",
 "src/Apollo.cpp": "C23 C15 C14 C22 C13 C09 C26 C11",
 "src/ModelFactory.cpp": "C16 C01 C19 C02",
 "src/helpers/Parser.cpp": "C08 C07 C06",
 "src/helpers/OutputFormatter.cpp": "C06 C24",
 "src/models/DatasetMap.cpp": "C21", "src/models/Optimal.cpp": "C21",
 "src/models/DecisionTree.cpp": "C04 C11 C06 C02 C16",
 "src/models/RandomForest.cpp": "C05 C11 C06 C02 C16",
 "src/models/Random.cpp": "C02 C01", "src/models/RoundRobin.cpp": "C02 C01", "src/models/Static.cpp": "C02 C16",
 "src/models/PolicyNet.cpp": "C19 C06 C08 C01",
 "src/timers/TimerCudaAsync.cpp": "C10", "src/timers/TimerHipAsync.cpp": "C10", "src/timers/TimerSync.cpp": "C09 C13",
 "src/connectors/kokkos/kokkos-connector.cpp": "C17 C18",
 T: TREE, "src/models/impl/RandomForestImpl.cpp": "C05 C06 C08 C24",
 "src/python/analysis/dtree2dot.py": "C24", "src/python/analysis/rfc2dot.py": "C24",
}
OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
       (r" && ", " || "), (r" \|\| ", " && "), (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" \* ", " + "), (r" - ", " + "), (r" / ", " * "),
       (r"\b0\b(?!\.)", "1"), (r"\b1\b(?!\.)", "2"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.5\b", ".25"), (r"!(?=[a-z(])", ""),
       (r"\+\+", "--"), (r" \+= ", " -= "), (r"\bfloat\b", "int"), (r"\bdouble\b", "float"), (r"\bbreak;", "continue;"), (r"push_back", "reserve(1),push_back") ]
def muts(path):
    s = open("/repo/" + path).read().split("\n")
    out, com = [], False
    for n, l in enumerate(s):
        t = l.strip()
        if "/*" in t: com = "*/" not in t
        if com or not t or t.startswith(("//", "#", "*", "std::cout", "using", "namespace", "}")): continue
        if "cout" in l: continue
        code = l.split("//")[0]
        for pat, rep in OPS:
            if rep.startswith("reserve"): continue
            for m in re.finditer(pat, code):
                if code[:m.start()].count('"') % 2: continue
                new = l[:m.start()] + rep + l[m.end():]
                out.append((path, n, l, new))
        if re.match(r"\s+[\w>.\-\[\]():*, +]+;\s*$", code) and not re.match(r"\s*(return|break|[\w:<>]+ [\w]+;|auto|int|float|double|const|std::[\w:<>]+ \w)", code.strip()):
            out.append((path, n, l, re.match(r"\s*", l).group() + ";"))
        if re.match(r"\s*if \(.*\)", code) and code.count("(") == code.count(")"):
            for v in ("true", "false"):
                i = code.index("if (") + 3; d = 0
                for j in range(i, len(code)):
                    d += code[j] == "("; d -= code[j] == ")"
                    if d == 0: break
                out.append((path, n, l, l[:i] + "(" + v + ")" + l[j + 1:]))
    return out
if sys.argv[1] == "list":
    o = []
    for p in sys.argv[2:] or MAP: 
        m = muts(p); print(p, len(m), file=sys.stderr); o += m
    json.dump(o, sys.stdout)
else:
    L = json.load(open(sys.argv[2])); log = open(sys.argv[3], "a")
    k, m = (int(x) for x in (sys.argv[4] if len(sys.argv) > 4 else "0/1").split("/"))
    D = "/tmp/mut/w%d" % k
    shutil.rmtree(D, ignore_errors=True); os.makedirs(D)
    subprocess.check_call("git clone -q /repo %s/repo && git clone -q /verif %s/verif && rm -rf %s/verif/seeded" % (D, D, D), shell=True)
    env = dict(os.environ, VERIF_REPO=D + "/repo")
    for i, (path, n, old, new) in enumerate(L):
        if i % m != k: continue
        f = D + "/repo/" + path
        s = open(f).read().split("\n")
        assert s[n] == old
        t = list(s); t[n] = new
        open(f, "w").write("\n".join(t))
        res, t0 = "SURVIVED", time.time()
        for c in MAP[path].split():
            try: p = subprocess.run(["timeout", "-k", "5", "400", "python3", "check.py", c], cwd=D + "/verif", env=env, capture_output=True, text=True)
            except Exception as e: res = "?"; break
            if p.returncode == 1: res = c; break
            if p.returncode != 0:
                res = "nobuild" if "does not build" in p.stderr else "rc%d %s" % (p.returncode, c)
                break
        open(f, "w").write("\n".join(s))
        log.write("%-9s %4ds %s:%d\n   - %s\n   + %s\n" % (res, time.time() - t0, path, n + 1, old.strip(), new.strip())); log.flush()
