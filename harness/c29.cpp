// C29: the exhaustive-experiment driver runs a program once per policy.
#include <sys/wait.h>
#include <unistd.h>

#include "world.h"
using namespace mc;
using namespace w;

namespace {
std::string tool() { return std::string(getenv("VERIF_REPO") ? getenv("VERIF_REPO") : "/repo") + "/src/python/analysis/run-exhaustive.py"; }

const char *OTHERS[] = {"OUTPUT_DIR", "COLLECTIVE_TRAINING", "LOCAL_TRAINING", "SINGLE_MODEL", "REGION_MODEL", "GLOBAL_TRAIN_PERIOD", "PER_REGION_TRAIN_PERIOD", "TRACE_POLICY", "STORE_MODELS", "TRACE_RETRAIN", "TRACE_ALLGATHER", "TRACE_BEST_POLICIES", "RETRAIN_TIME_THRESHOLD", "RETRAIN_REGION_THRESHOLD", "PERSISTENT_DATASETS", "DATASETS_DIR", "TRACES_DIR", "MODELS_DIR", "OPTIM_READ_DIR", "MIN_TRAINING_DATA"};

int run_tool(const Env &env, const std::string &args) {
  std::string cmd = "env -u APOLLO_POLICY_MODEL -u APOLLO_TRACE_CSV -u APOLLO_RETRAIN_ENABLE";
  for (auto &e : env) cmd += " 'APOLLO_" + e.first + "=" + e.second + "'";
  cmd += " python3 '" + tool() + "' " + args + " >tool.log 2>&1";
  return system(cmd.c_str());
}
std::vector<std::string> lines(const std::string &f) {
  std::vector<std::string> o;
  std::istringstream i(read_file(f));
  for (std::string l; std::getline(i, l);) o.push_back(l);
  return o;
}

std::string kept(const Env &e) {
  std::string s;
  for (auto *o : OTHERS) s += (e.count(o) ? e.at(o) : "") + "|";
  return s;
}

// Many policies.
void numbers(Ctx &c) {
  int n = c.pick(std::vector<int>{9, 10, 11, 12, 19, 20, 21, 22, 33, 64, 99, 100, 101, 110, 128, 130, 256, 257}, "policies");
  remove("runs");
  write_file("prog.sh", "echo \"$APOLLO_POLICY_MODEL\" >>runs\n");
  int rc = run_tool({}, fmt("-x 'sh prog.sh' -n %d", n));
  c.step(n + 1);
  c.check(rc == 0, "status", fmt("%d policies: ", n) + read_file("tool.log").substr(0, 400));
  auto got = lines("runs");
  std::string d;
  for (auto &l : got) d += " " + l;
  c.check((int)got.size() == n + 1, "runs", fmt("%d policies, %zu runs:", n, got.size()) + d);
  for (int i = 0; i <= n; i++) c.check(got[i] == (i < n ? fmt("Static,policy=%d", i) : std::string("RoundRobin")), "runs", fmt("%d policies, run %d is %s", n, i, got[i].c_str()));
  c.state(n);
  c.obs(n);
  c.validated();
}

// Every number of policies x the run that fails x settings given by the user
// x the ways to write the program and its arguments.
void runs(Ctx &c, int N) {
  int n = c.choose(N + 1, "policies");
  int bad = c.choose(n + 2, "failing run");  // n+1: none
  int status = bad <= n ? c.pick(std::vector<int>{1, 7}, "status") : 0;
  int preset = c.choose(5, "settings"), form = c.choose(3, "form");
  Env e;
  if (preset == 1) e = {{"POLICY_MODEL", "DecisionTree,explore=Random"}, {"TRACE_CSV", "0"}, {"RETRAIN_ENABLE", "1"}};
  if (preset == 2) e = {{"POLICY_MODEL", "Static,policy=3"}, {"OUTPUT_DIR", "my out"}, {"RETRAIN_ENABLE", "0"}};
  if (preset == 3) e = {{"TRACE_CSV", "1"}, {"COLLECTIVE_TRAINING", "0"}, {"SINGLE_MODEL", "1"}};
  if (preset == 4) {
    int i = 0;
    for (auto *o : OTHERS) e[o] = fmt("value %d", ++i);
  }
  remove("runs");
  remove("count");
  std::string others;
  for (auto *o : OTHERS) others += std::string("$APOLLO_") + o + "|";
  write_file("prog.sh",
             "k=$(cat count 2>/dev/null || echo 0)\necho $((k+1)) >count\n"
             "echo \"$APOLLO_POLICY_MODEL|$APOLLO_TRACE_CSV|$APOLLO_RETRAIN_ENABLE|" + others + "$*\" >>runs\n" +
                 fmt("[ $k -ne %d ] || exit %d\n", bad <= n ? bad : -1, status));
  const char *exe[] = {"sh prog.sh", "sh prog.sh -n \"a  b\" 3", "X=1; sh ./prog.sh $X && true"};
  const char *argv[] = {"", "-n a  b 3", "1"};
  std::string o = form == 1 ? fmt("--npolicies %d --exe='%s'", n, exe[form]) : fmt("-x '%s' -n %d", exe[form], n);
  int rc = run_tool(e, o);
  c.step(n + 1);
  auto got = lines("runs");
  std::vector<std::string> want;
  for (int i = 0; i <= n && i <= bad; i++)
    want.push_back((i < n ? fmt("Static,policy=%d", i) : std::string("RoundRobin")) + "|1|0|" + kept(e) + argv[form]);
  std::string d;
  for (auto &l : got) d += "\n  " + l;
  c.check(got == want, "runs", fmt("%d policies, run %d fails: the runs were:", n, bad) + d);
  c.check((rc != 0) == (bad <= n), "status", fmt("%d policies, run %d fails with %d: the driver ends with %d: ", n, bad, status, rc) + read_file("tool.log").substr(0, 400));
  c.state(mix(mix(n, bad), mix(preset, form)));
  c.obs(d + fmt("%d", rc != 0));
  c.validated();
}

// All small programs, end to end: the traces hold every policy of every region.
void traces(Ctx &c, int N) {
  int n = c.choose(N + 1, "policies"), p0 = 1 + c.choose(N, "first region"), p1 = 1 + c.choose(N, "second region"), execs = c.pick(std::vector<int>{0, 1, 4}, "executions");
  if (system("rm -rf .apollo out")) c.fail("setup", "rm");
  char self[4096];
  ssize_t k = readlink("/proc/self/exe", self, sizeof(self) - 1);
  self[k] = 0;
  bool dir = c.flip("directory");
  Env e;
  if (dir) e["OUTPUT_DIR"] = "out";
  int rc = run_tool(e, fmt("-n %d -x 'MC_PROGRAM=1 C29_EXECS=%d C29_P0=%d C29_P1=%d %s'", n, execs, p0, p1, self));
  c.check(rc == 0, "status", "the driver fails: " + read_file("tool.log").substr(0, 900));
  std::set<std::string> want;
  std::string base = std::string(dir ? "out" : ".apollo") + "/traces/";
  for (int i = 0; i <= n; i++)
    for (int q = 0; q < 2; q++) {
      int P = q ? p1 : p0;
      std::string f = "trace-" + (i < n ? fmt("Static,policy=%d", i) : std::string("RoundRobin")) + "-region-" + (q ? "y" : "x") + "-rank-0.csv";
      auto l = lines(base + f);
      c.check(l.size() == (size_t)execs + 1, "trace", f + fmt(": %zu lines for %d executions", l.size(), execs));
      for (int j = 0; j < execs; j++) {
        int pol = i < n ? (i < P ? i : 0) : j % P;
        std::string s = fmt("0 %s %s %d %d %s%d %d", i < n ? fmt("Static,%d", pol).c_str() : "RoundRobin", q ? "y" : "x", j, j, q ? "2 " : "", pol, (q ? 5 : 1) + j);
        c.check(l[j + 1] == s, "trace", f + ": line " + l[j + 1] + ", expected " + s);
        c.step();
      }
    }
  c.state(mix(mix(n, p0), mix(p1, execs)));
  c.obs(fmt("%d %d %d %d", n, p0, p1, execs));
  c.validated();
}

// Requests without a meaning are refused and run nothing.
void refused(Ctx &c) {
  const char *args[] = {"", "-n 2", "-x 'sh prog.sh'", "-n two -x 'sh prog.sh'", "-n 1.5 -x 'sh prog.sh'", "-n '' -x 'sh prog.sh'", "-n 1 -x 'sh prog.sh' more"};
  int k = c.choose(7, "request");
  remove("runs");
  write_file("prog.sh", "echo x >>runs\n");
  int rc = run_tool({}, args[k]);
  c.step();
  c.check(rc != 0, "refused", std::string("accepted: ") + args[k]);
  c.check(!exists("runs"), "refused", std::string("ran the program: ") + args[k]);
  c.state(k);
  c.obs(k);
  c.validated();
}
}  // namespace

void mc::scenarios(std::vector<Scenario> &out) {
  bool T = thorough;
  out.push_back({"runs", [=](Ctx &c) { runs(c, T ? 7 : 5); }});
  out.push_back({"numbers", numbers});
  out.push_back({"traces", [=](Ctx &c) { traces(c, T ? 4 : 3); }});
  out.push_back({"refused", refused});
}

// A program that uses the library (run in place of the explorer).
void mc::program() {
  Apollo *a = Apollo::instance();
  int execs = atoi(getenv("C29_EXECS"));
  {
    auto *x = new Apollo::Region(1, "x", atoi(getenv("C29_P0")));
    auto *y = new Apollo::Region(2, "y", atoi(getenv("C29_P1")));
    for (int i = 0; i < execs; i++) {
      x->begin();
      x->setFeature((float)i);
      x->getPolicyIndex();
      x->end(1.0 + i);
      y->begin();
      y->setFeature((float)i);
      y->setFeature(2.f);
      y->getPolicyIndex();
      y->end(5.0 + i);
    }
    delete x;
    delete y;
  }
  (void)a;
  _exit(0);
}
