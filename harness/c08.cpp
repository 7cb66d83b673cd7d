// C08: a torn model or dataset file is never silently used. Every prefix of
// every kind of stored file is loaded in every way, each in its own process.
#include "world.h"
using namespace mc;
using namespace w;

namespace {
const int BLOCKS = 64;

struct Case {
  std::string file, content;      // the complete file
  std::function<std::string()> load;  // what a region loading it looks like
};

// Prefix lengths of this block: all k with k % BLOCKS == block.
void prefixes(Ctx &c, const std::string &what, const Case &k, int block, const std::string &whole, size_t stride = 1) {
  size_t n = k.content.size();
  u64 h = 0;
  for (size_t len = block; len <= n; len += BLOCKS) {
    if (stride > 1 && len + 70 < n && len > 70 && (len / BLOCKS) % stride != (size_t)block % stride) continue;
    clean_scratch();
    size_t s = k.file.find_last_of('/');
    if (s != std::string::npos) mkdirs(k.file.substr(0, s));
    write_file(k.file, k.content.substr(0, len));
    Outcome o = forked([&](std::string &out) { out = k.load(); });
    c.step();
    c.state(mix(hash_str(what), len));
    c.validated();
    h = mix(h, o.kind);
    if (o.loud()) {
      c.check(len < n, "complete-rejected", what + ": the complete file is rejected: " + o.str());
      continue;
    }
    c.check(o.ok(), "torn-crash", fmt("%s: with %zu of %zu bytes: %s", what.c_str(), len, n, o.str().c_str()));
    c.check(o.out == whole, "torn-used", fmt("%s: %zu of %zu bytes were silently used: %s instead of %s", what.c_str(), len, n, o.out.c_str(), whole.c_str()));
  }
  c.obs(h);
}

std::string look(Apollo::Region *r, int F, int P, bool data) {
  std::string s = data ? to_ref(r->dataset).str() : "";
  s += " select";
  std::vector<Feat> q = F == 1 ? product({-5, 0.05f, 0.15f, 0.35f, 0.7f, 3, 1e6f}, 1) : F == 2 ? product({-5, 0.15f, 0.35f, 3}, 2) : probes(F);
  for (auto &f : q) s += " " + std::to_string(exec(r, f, 1));
  return s;
}

void fill(Apollo::Region *r, int F, int P, int n) {
  for (int i = 0; i < n; i++)
    for (int p = 0; p < P; p++) {
      Feat f;
      for (int j = 0; j < F; j++) f.push_back(0.1f * (i + 1) * (j % 2 ? -1 : 1));
      r->dataset.insert(f, p, p == (i * 2 + 1) % P ? 0.125 + i / 3.0 : 10 + p / 7.0);
    }
}

void dataset(Ctx &c) {
  int how = c.choose(3, "how");
  int F = c.choose(3, "F");
  int n = F == 0 ? 1 : 1 + c.choose(thorough ? 3 : 2, "entries");
  int block = c.choose(BLOCKS, "block");
  int P = 2;
  {
    World w({{"PERSISTENT_DATASETS", "1"}});
    fill(new Apollo::Region(F, "r", P, 0, "RoundRobin"), F, P, n);
  }
  Case k;
  k.file = ".apollo/datasets/Dataset-r.yaml";
  k.content = read_file(k.file);
  c.check(!k.content.empty(), "no-file", "no dataset was stored");
  std::string whole;
  k.load = [=]() {
    Env env;
    if (how == 0) env["PERSISTENT_DATASETS"] = "1";
    World w(env);
    auto *r = new Apollo::Region(F, "r", P, 0, how == 0 ? "Static" : how == 1 ? "DecisionTree,load-dataset" : "DatasetMap");
    std::string s = to_ref(r->dataset).str();
    if (how == 1) s += look(r, F, P, false);
    if (how == 2)
      for (auto &e : to_ref(r->dataset).best()) s += std::to_string(exec(r, e.first, 1));
    return s;
  };
  prefixes(c, fmt("dataset, way %d, %d features, %d entries", how, F, n), k, block, k.load());
}

void model(Ctx &c) {
  struct M { const char *info, *name; int F, P, n; };
  std::vector<M> ms{{"DecisionTree,max_depth=0", "DecisionTree", 1, 2, 2},
                    {"DecisionTree,max_depth=3", "DecisionTree", 2, 3, 3},
                    {"RandomForest,num_trees=1,max_depth=1", "RandomForest", 1, 2, 2},
                    {"RandomForest,num_trees=2,max_depth=3", "RandomForest", 1, 3, 3}};
  if (thorough) {
    ms.push_back({"DecisionTree,max_depth=6", "DecisionTree", 3, 4, 7});
    ms.push_back({"RandomForest,num_trees=4,max_depth=3", "RandomForest", 2, 3, 4});
  }
  M m = c.pick(ms, "model");
  int how = c.choose(3, "how");
  int block = c.choose(BLOCKS, "block");
  std::string dir = ".apollo/models/";
  {
    World w({{"STORE_MODELS", "1"}});
    auto *r = new Apollo::Region(m.F, "r", m.P, 0, m.info);
    fill(r, m.F, m.P, m.n);
    r->train(0);
  }
  Case k;
  k.file = how == 0 ? dir + m.name + "-latest-rank-0-r.yaml" : dir + m.name + "-step-0-rank-0-r.yaml";
  k.content = read_file(k.file);
  c.check(!k.content.empty(), "no-file", "no model was stored");
  k.load = [=]() {
    World w({{"STORE_MODELS", "1"}});
    Apollo::Region *r;
    if (how == 0) r = new Apollo::Region(m.F, "r", m.P, 0, std::string(m.info) + ",load");
    else if (how == 1) r = new Apollo::Region(m.F, "q", m.P, 0, m.info, k.file);
    else {
      r = new Apollo::Region(m.F, "q", m.P, 0, m.info);
      fill(r, m.F, m.P, 1);
      r->train(1);
      r->model->load(k.file);
    }
    std::string s = look(r, m.F, m.P, false);
    // all of it: what it stores is what the whole file's model stores
    r->model->store("copy");
    return s + std::to_string(hash_str(read_file("copy")));
  };
  prefixes(c, fmt("%s, way %d", m.info, how), k, block, k.load());
}

void network(Ctx &c) {
  int how = c.choose(2, "how");
  int P = 2, trainings = c.pick(std::vector<int>{1, 260}, "trainings");
  int block = c.choose(BLOCKS, "block");
  std::string dir = ".apollo/models/";
  set_random({3});
  {
    World w({{"STORE_MODELS", "1"}});
    auto *r = new Apollo::Region(1, "r", P, 0, "PolicyNet");
    fill(r, 1, P, 2);
    // how often it was trained is part of the file
    for (int i = 0; i < trainings; i++) r->train(i < trainings - 1 ? 1 : 0);
  }
  Case k;
  k.file = dir + (how == 0 ? "PolicyNet-latest-rank-0-r.yaml" : "PolicyNet-step-0-rank-0-r.yaml");
  k.content = read_file(k.file);
  c.check(!k.content.empty(), "no-file", "no model was stored");
  k.load = [=]() {
    set_random({11});
    World w({});
    auto *r = how == 0 ? new Apollo::Region(1, "r", P, 0, "PolicyNet,load") : new Apollo::Region(1, "q", P, 0, "PolicyNet", k.file);
    std::string s;
    for (int i = 0; i < 40; i++) s += std::to_string(exec(r, {(float)(i % 5)}, 1));
    r->model->store("copy");
    return s + std::to_string(hash_str(read_file("copy")));
  };
  prefixes(c, fmt("PolicyNet, way %d", how), k, block, k.load(), thorough ? 1 : 40);
}
}  // namespace

void mc::scenarios(std::vector<Scenario> &out) {
  out.push_back({"torn-datasets", dataset});
  out.push_back({"torn-trees-and-forests", model});
  out.push_back({"torn-networks", network});
}
