// C22: the C interface behaves as the C++ interface. Every call sequence is run
// through both; everything observable must be the same.
#include "world.h"
using namespace mc;
using namespace w;

namespace {
struct Spec {
  std::string name, info;
  int F, P, min;
};
struct Step {
  char kind;  // b(egin) f(eature) p(olicy) e(nd) t(rain)
  int region;
  float v = 0;
  int64_t dt = 0;  // passes before
  std::string str() const { return fmt("%s: %s %g", region == 0 ? "first" : "second", kind == 'b' ? "begin" : kind == 'f' ? "feature" : kind == 'p' ? "policy" : kind == 'e' ? "end" : "train", v); }
};

std::string run(bool c_interface, const std::vector<Spec> &specs, const std::vector<Step> &steps, const Env &env) {
  clean_scratch();
  std::string log;
  vclock_ns = 5000000000ll;
  {
    World w(env);
    std::vector<Apollo::Region *> r;
    std::vector<Apollo::RegionContext *> x(specs.size());
    for (auto &s : specs) {
      set_random({21, 22, 23});
      if (c_interface) r.push_back((Apollo::Region *)__apollo_region_create(s.F, s.name.c_str(), s.P, s.min, s.info.c_str()));
      else r.push_back(new Apollo::Region(s.F, s.name.c_str(), s.P, s.min, s.info));
    }
    int n = 0;
    for (auto &s : steps) {
      vclock_ns += s.dt;
      auto *q = r[s.region];
      auto *&y = x[s.region];
      n++;
      switch (s.kind) {
        case 'b': c_interface ? __apollo_region_begin(q) : (void)(y = q->begin()); break;
        case 'f': c_interface ? __apollo_region_set_feature(q, s.v) : q->setFeature(y, s.v); break;
        case 'p': log += fmt("select %d\n", c_interface ? __apollo_region_get_policy(q) : q->getPolicyIndex(y)); break;
        case 'e': c_interface ? __apollo_region_end(q) : q->end(y); break;
        case 't': c_interface ? __apollo_region_train(q, (int)s.v) : q->train((int)s.v); break;
      }
      for (auto *k : r) log += fmt("%s %d measurements, %s\n", k->name, (int)k->dataset.size(), k->model->isTrainable() ? "training" : "trained");
    }
    for (size_t i = 0; i < r.size(); i++) {
      log += std::string(r[i]->name) + " " + to_ref(r[i]->dataset).str() + " selects";
      for (float v : {0.f, 1.f, 1.5f, 2.f, 9.f}) {
        Feat f(specs[i].F, v);
        log += fmt(" %d", r[i]->model->getIndex(f));
      }
      log += "\n";
    }
  }
  for (auto &f : tree(".")) {
    std::string s = read_file(f);
    if (f.find("trace-rank-0") != std::string::npos) {  // without the time stamps
      std::istringstream is(s);
      s.clear();
      for (std::string l; std::getline(is, l);) s += l.substr(l.find(' ')) + "\n";
    }
    log += f + fmt(" %016llx\n", (unsigned long long)hash_str(s));
  }
  return log;
}

void both(Ctx &c, const std::vector<Spec> &specs, const std::vector<Step> &steps, const Env &env) {
  for (auto &s : steps) c.note(s.str());
  std::string want = run(false, specs, steps, env), got = run(true, specs, steps, env);
  c.step(2 * (int)steps.size());
  if (got != want) {
    size_t d = 0;
    while (d < got.size() && d < want.size() && got[d] == want[d]) d++;
    size_t b = want.rfind('\n', d ? d - 1 : 0);
    b = b == std::string::npos ? 0 : b + 1;
    c.fail("differs", "C++: ..." + want.substr(b, 200) + " C: ..." + got.substr(b, 200));
  }
  c.validated();
  c.state(hash_str(got));
  c.obs(got);
}

const std::vector<std::string> INFOS{"DecisionTree,max_depth=4", "RoundRobin", "", "RandomForest,num_trees=2,explore=Random", "PolicyNet,lr=0.2", "Static,policy=1"};
Env env(int k) {
  Env e;
  if (k >= 1) e = {{"STORE_MODELS", "1"}, {"POLICY_MODEL", "DecisionTree,max_depth=2,explore=Random"}};
  if (k >= 2) e["PERSISTENT_DATASETS"] = e["TRACE_CSV"] = e["STORE_EXEC_INFO"] = "1", e["PER_REGION_TRAIN_PERIOD"] = "3";
  return e;
}

// Calls of two regions in every interleaving.
void interleaved(Ctx &c) {
  std::vector<Spec> sp{{"one", c.pick(INFOS, "model"), 1, 2, 0}, {"two", "DecisionTree,max_depth=3", 2, 3, 1}};
  int k = c.choose(2, "settings");
  int phase[2] = {0, 0}, count[2] = {0, 0};
  std::vector<Step> st;
  int n = thorough ? 10 : 8;
  for (int i = 0; i < n; i++) {
    int op = c.choose(3, "op");
    if (op == 2) {
      st.push_back({'t', i % 2, (float)(40 + i), 1000});
      continue;
    }
    int F = sp[op].F;
    Step s{'b', op, 0, 1000000 + i * 777};
    if (phase[op] == 0) s.kind = 'b';
    else if (phase[op] <= F) s.kind = 'f', s.v = (float)(phase[op] + count[op] % 2);
    else if (phase[op] == F + 1) s.kind = 'p';
    else s.kind = 'e', count[op]++;
    phase[op] = s.kind == 'e' ? 0 : phase[op] + 1;
    st.push_back(s);
  }
  both(c, sp, st, env(k));
}

// Sequences of whole executions and trainings.
void executions(Ctx &c) {
  std::vector<Spec> sp{{"one", c.pick(INFOS, "model"), 2, 3, 0}, {"one1", c.pick(std::vector<std::string>{"", "RandomForest,num_trees=2"}, "model 2"), 1, 2, 2}};
  int k = c.choose(3, "settings");
  std::vector<Step> st;
  int n = thorough ? 6 : 4;
  for (int i = 0; i < n; i++) {
    int op = c.choose(5, "op");
    if (op == 4) {
      st.push_back({'t', i % 2, (float)(7 * i + 1), 10});
      continue;
    }
    int r = op / 2;
    st.push_back({'b', r, 0, 5});
    for (int j = 0; j < sp[r].F; j++) st.push_back({'f', r, (float)(op % 2 + j), 5});
    st.push_back({'p', r, 0, 5});
    st.push_back({'e', r, 0, 1000000ll * (3 + (i * 5 + op) % 4)});
  }
  both(c, sp, st, env(k));
}

// All creation arguments.
void arguments(Ctx &c) {
  Spec s;
  s.name = c.pick(std::vector<std::string>{"r", "a name", "x-y_z.1", std::string(63, 'n')}, "name");
  s.F = 1 + c.choose(3, "features");
  s.P = 1 + c.choose(4, "policies");
  s.min = c.choose(5, "minimum");
  s.info = c.pick(INFOS, "model");
  int k = c.choose(3, "settings");
  std::vector<Step> st;
  for (int i = 0; i < 7; i++) {
    st.push_back({'b', 0, 0, 5});
    for (int j = 0; j < s.F; j++) st.push_back({'f', 0, (float)(i % 3) + 0.25f * j, 5});
    st.push_back({'p', 0, 0, 5});
    st.push_back({'e', 0, 0, 1000000ll * (3 + (i * 5) % 4)});
  }
  both(c, {s}, st, env(k));
}
// Large arguments.
void large(Ctx &c) {
  Spec s;
  s.name = "r";
  s.F = c.pick(std::vector<int>{1, 12}, "features");
  s.P = c.pick(std::vector<int>{2, 130}, "policies");
  s.min = c.pick(std::vector<int>{100, 257, 1001}, "minimum");
  s.info = c.pick(std::vector<std::string>{"DecisionTree,max_depth=4", ""}, "model");
  int k = c.choose(2, "settings");
  std::vector<Step> st;
  for (int i = 0; i < s.min + 3; i++) {
    st.push_back({'b', 0, 0, 5});
    for (int j = 0; j < s.F; j++) st.push_back({'f', 0, (float)(i / 2) + 0.25f * j, 5});
    st.push_back({'p', 0, 0, 5});
    st.push_back({'e', 0, 0, 1000000ll * (3 + (i * 5) % 4)});
  }
  both(c, {s}, st, env(k));
}
// Fewer or more features given than declared, none declared, features after
// the query and executions without any.
void arities(Ctx &c) {
  Spec s;
  s.name = "r";
  s.F = c.choose(3, "features");
  s.P = 2 + c.choose(2, "policies");
  s.min = 0;
  s.info = c.pick(std::vector<std::string>{"RoundRobin", "", "Static,policy=1", "Random"}, "model");
  int k = c.choose(3, "settings");
  std::vector<Step> st;
  int n = thorough ? 5 : 4;
  for (int i = 0; i < n; i++) {
    int give = c.choose(4, "given");
    st.push_back({'b', 0, 0, 5});
    for (int j = 0; j < give; j++) st.push_back({'f', 0, (float)(i % 2) + 0.25f * j, 5});
    st.push_back({'p', 0, 0, 5});
    st.push_back({'e', 0, 0, 1000000ll * (3 + (i * 5) % 4)});
  }
  // the other one only tells what the environment says
  Env e = env(k);
  if (k) e["POLICY_MODEL"] = "RoundRobin";
  both(c, {s}, st, e);
}
}  // namespace

void mc::scenarios(std::vector<Scenario> &out) {
  out.push_back({"interleaved", interleaved});
  out.push_back({"executions", executions});
  out.push_back({"arguments", arguments});
  out.push_back({"arities", arities});
  out.push_back({"large", large});
}
