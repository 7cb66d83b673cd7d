// C01: every selected policy is one of the region's policies, at every stage of
// the life of every model.
#include "world.h"
using namespace mc;
using namespace w;

namespace {
void probe(Ctx &c, Apollo::Region *r, int F, int P, const char *stage) {
  for (auto &f : probes(F)) {
    auto *x = r->begin(f);
    int p = r->getPolicyIndex(x);
    c.step();
    c.check(0 <= p && p < P, "out-of-range", fmt("%s: policy %d of %d for %s", stage, p, P, str(f).c_str()));
    c.check(x->policy == p, "context-policy", fmt("%s: the context holds %d, returned %d", stage, x->policy, p));
    c.obs(p);
    r->end(x, 1.0);
  }
}

// The models that learn: explore, train, force another training, store, reload.
struct M { const char *info, *name; };
void life(Ctx &c, bool net) {
  std::vector<M> models{{"DecisionTree", "DecisionTree"},
                        {"DecisionTree,max_depth=0", "DecisionTree"},
                        {"DecisionTree,max_depth=9,explore=Random", "DecisionTree"},
                        {"RandomForest", "RandomForest"},
                        {"RandomForest,num_trees=1,max_depth=5,explore=Random", "RandomForest"},
                        {"RandomForest,num_trees=4,max_depth=1", "RandomForest"}};
  if (thorough) models.push_back({"RandomForest,num_trees=33,max_depth=9", "RandomForest"});
  if (net) {
    models = {{"PolicyNet", "PolicyNet"}, {"PolicyNet,threshold=0.9", "PolicyNet"}};
    if (thorough) models.push_back({"PolicyNet,lr=5,beta=0.9", "PolicyNet"});
  }
  M m = c.pick(models, "model");
  // a network of arity 0 has no input layer
  int F = net ? 1 + c.choose(thorough ? 3 : 2, "F") : c.choose(4, "F");
  int P = c.pick(net && !thorough ? std::vector<int>{1, 3, 8} : std::vector<int>{1, 2, 3, 8, 70}, "P");
  // which policy is measured as the best one: low, middle, high, all equal
  int win = c.choose(4, "winner");
  int best = win == 0 ? 0 : win == 1 ? P / 2 : P - 1;
  int nf = 1 + c.choose(3, "distinct");
  unsigned seed = c.pick(net && !thorough ? std::vector<unsigned>{1} : std::vector<unsigned>{0, 1, 0xffffffffu}, "seed");
  set_random({seed, seed * 7 + 1, seed ^ 0x55555555u});
  bool scale = c.flip("metric scale");
  Env env{{"STORE_MODELS", "1"}};
  const std::vector<float> vals{0.f, -3.5f, 1e6f};
  {
    World w(env);
    auto *r = new Apollo::Region(F, "r", P, 0, m.info);
    for (int round = 0; round < 2; round++) {
      for (int i = 0; i < nf * P; i++) {
        Feat f(F, vals[(i / P + round) % 3]);
        auto *x = r->begin(f);
        int p = r->getPolicyIndex(x);
        c.step();
        c.check(0 <= p && p < P, "out-of-range", fmt("exploring: policy %d of %d", p, P));
        double t = win == 3 ? 1.0 : (p == (best + i / P) % P ? 0.5 : 1.0 + p);
        r->end(x, scale ? t * 1e9 : t);
      }
      probe(c, r, F, P, round ? "after training, before the second" : "exploring");
      r->train(round, true, /*force*/ true);
      probe(c, r, F, P, round ? "retrained" : "trained");
    }
    // The C++ interface also loads into a live region.
    r->model->load(fmt(".apollo/models/%s-step-0-rank-0-r.yaml", m.name));
    probe(c, r, F, P, "reloaded in place");
  }
  {
    World w(env);
    auto *r = new Apollo::Region(F, "r", P, 0, std::string(m.info) + (strchr(m.info, ',') ? ",load" : ",load"));
    probe(c, r, F, P, "loaded");
  }
  c.state(mix(mix(hash_str(m.info), F * 100 + P), win * 64 + nf * 8 + scale));
  c.validated();
}

// Fixed, cyclic and random selection; every number of policies.
void simple(Ctx &c) {
  const char *info = c.pick(std::vector<const char *>{"RoundRobin", "Random", "Static", "DecisionTree,explore=Random", "RandomForest"}, "model");
  int P = 1 + c.choose(thorough ? 200 : 66, "P");
  int F = c.choose(3, "F");
  unsigned seed = c.pick(std::vector<unsigned>{0, 1, 12345, 0x7fffffff, 0xffffffffu}, "seed");
  set_random({seed});
  World w({});
  auto *r = new Apollo::Region(F, "r", P, 0, info);
  probe(c, r, F, P, info);
  for (int i = 0; i < 2 * P + 2; i++) {
    int p = exec(r, Feat(F, (float)i), 1.0);
    c.step();
    c.check(0 <= p && p < P, "out-of-range", fmt("%s: policy %d of %d", info, p, P));
    c.obs(p);
  }
  c.state(mix(hash_str(info), P * 8 + F));
  c.validated();
}

// Fixed policies beyond the end fall back to 0, negative ones are rejected.
void fixed(Ctx &c) {
  int P = 1 + c.choose(6, "P");
  int pol = c.pick(std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 100, 2147483647, -1, -2, -2147483647 - 1}, "policy");
  int how = c.choose(3, "how");  // argument, environment, per-region list
  Env env;
  std::string info = (how == 2 ? "StaticRegion,q=0,r=" : "Static,policy=") + std::to_string(pol);
  if (how == 1) env["POLICY_MODEL"] = info, info = "";
  bool threw = false;
  std::string err;
  int got = -7;
  {
    World w(env);
    try {
      auto *r = new Apollo::Region(1, "r", P, 0, info);
      for (auto &f : probes(1)) {
        got = exec(r, f, 1.0);
        c.step();
        c.check(got == (pol < P && pol >= 0 ? pol : 0), "fixed", fmt("policy=%d of %d: selected %d", pol, P, got));
      }
    } catch (std::exception &e) {
      threw = true;
      err = e.what();
    }
  }
  c.check(threw == (pol < 0), "fixed-reject", fmt("policy=%d: %s", pol, threw ? err.c_str() : "accepted"));
  c.state(mix(pol, P * 4 + how));
  c.obs(got);
  c.validated();
}

// Many policies and few samples: leaves only know the classes they have seen.
void sparse(Ctx &c) {
  const char *info = c.pick(std::vector<const char *>{"DecisionTree,max_depth=4", "RandomForest,num_trees=3,max_depth=4", "RandomForest,num_trees=40,max_depth=4"}, "model");
  int P = c.pick(std::vector<int>{2, 5, 9}, "P");
  int n = 1 + c.choose(4, "samples");
  World w({});
  auto *r = new Apollo::Region(2, "r", P, 0, info);
  std::map<Feat, int> best;
  for (int i = 0; i < n; i++) {
    Feat f{(float)c.choose(2, "x") * 4 - 1, (float)i / 2};
    int p = c.choose(3, "p") * (P - 1) / 2;
    Feat g = f;
    r->dataset.insert(g, p, 1.0);
    best[f] = p;
  }
  r->train(0);
  probe(c, r, 2, P, "trained");
  for (auto &b : best) {
    int p = exec(r, b.first, 1);
    c.check(0 <= p && p < P, "out-of-range", fmt("policy %d of %d", p, P));
  }
  c.state(mix(hash_str(info), P));
  c.validated();
}
}  // namespace

void mc::scenarios(std::vector<Scenario> &out) {
  out.push_back({"tree-and-forest-lives", [](Ctx &c) { life(c, false); }});
  out.push_back({"network-lives", [](Ctx &c) { life(c, true); }});
  out.push_back({"simple-models", simple});
  out.push_back({"fixed-policies", fixed});
  out.push_back({"sparse-training", sparse});
}
