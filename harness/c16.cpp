// C16: a model description is honoured exactly or rejected loudly.
#include "refnet.h"
using namespace mc;
using namespace w;

namespace {
// What a description means.
struct Meaning {
  bool ok = true;
  std::string why;  // of the rejection
  std::string model;
  std::map<std::string, std::string> p;
  std::string get(const char *k, const char *def) const {
    auto it = p.find(k);
    return it == p.end() ? def : it->second;
  }
};
bool whole_number(const std::string &s) { return !s.empty() && s.find_first_not_of("0123456789") == std::string::npos; }
bool number(const std::string &s) {
  char *e;
  if (s.empty()) return false;
  strtod(s.c_str(), &e);
  return !*e;
}
Meaning parse(const std::string &d, const std::string &region, const std::set<std::string> &files) {
  Meaning m;
  auto bad = [&](const std::string &w) {
    m.ok = false;
    m.why = w;
    return m;
  };
  size_t at = d.find(',');
  m.model = d.substr(0, at);
  while (at != std::string::npos) {
    size_t e = d.find(',', at + 1);
    std::string t = d.substr(at + 1, e == std::string::npos ? e : e - at - 1);
    size_t q = t.find('=');
    m.p.emplace(t.substr(0, q), q == std::string::npos ? "" : t.substr(q + 1));
    at = e;
  }
  static const std::map<std::string, std::set<std::string>> keys{
      {"Static", {"policy"}},
      {"RoundRobin", {}},
      {"Random", {}},
      {"DecisionTree", {"max_depth", "explore", "load", "load-dataset"}},
      {"RandomForest", {"max_depth", "num_trees", "explore", "load", "load-dataset"}},
      {"PolicyNet", {"lr", "beta", "beta1", "beta2", "threshold", "load", "load-dataset"}},
  };
  if (m.model == "StaticRegion") {
    if (!m.p.count(region)) return bad("the region is not listed");
    m.model = "Static";
    m.p = {{"policy", m.p[region]}};
  }
  if (!keys.count(m.model)) return bad("unknown model");
  for (auto &e : m.p) {
    if (!keys.at(m.model).count(e.first)) return bad("unknown parameter " + e.first);
    if (e.first == "policy" || e.first == "max_depth" || e.first == "num_trees") {
      if (!whole_number(e.second) || e.second.size() > 12 || atoll(e.second.c_str()) > (e.first == "policy" ? 2147483647ll : 4294967295ll)) return bad("invalid value of " + e.first);
    } else if (e.first == "explore") {
      if (e.second != "RoundRobin" && e.second != "Random") return bad("unknown exploration");
    } else if (e.first == "load") {
      if (!files.count(e.second)) return bad("missing model file");
    } else if (e.first == "load-dataset") return bad("missing dataset file");
    else if (!number(e.second)) return bad("invalid value of " + e.first);
  }
  return m;
}

const int P = 3;
std::string stored[2];  // tree and forest for load=
void prepare() {
  if (stored[0].empty()) {
    World w({});
    for (int k = 0; k < 2; k++) {
      auto *r = new Apollo::Region(1, k ? "f" : "t", P, 0, k ? "RandomForest,num_trees=5" : "DecisionTree,max_depth=7");
      for (int i = 0; i < 4; i++) {
        Feat f{(float)i};
        r->dataset.insert(f, (i * 2) % P, 1);
      }
      r->train(0);
      r->model->store(k ? "f.yaml" : "t.yaml");
      stored[k] = read_file(k ? "f.yaml" : "t.yaml");
    }
  }
  clean_scratch();
  write_file("t.yaml", stored[0]);
  write_file("f.yaml", stored[1]);
  for (const char *f : {"x=1.yaml", "a model.yaml"}) write_file(f, stored[0]);
  write_file("y=2=.yaml", stored[1]);
}

bool cyclic(const std::vector<int> &s) {
  for (size_t i = 0; i < s.size(); i++)
    if (s[i] != (int)(i % P)) return false;
  return true;
}
// Exploration, on a region nothing was measured in.
void exploration(Ctx &c, Apollo::Region *r, bool random, const std::string &d) {
  std::vector<int> s;
  std::set<int> seen;
  std::string t;
  for (int i = 0; i < 60; i++) {
    Feat f{(float)(i % 4)};
    s.push_back(r->model->getIndex(f));
    seen.insert(s.back());
    t += fmt("%d ", s.back());
  }
  c.check(seen == std::set<int>{0, 1, 2}, "exploration", d + ": selections " + t);
  c.check(cyclic(s) == !random, "exploration", d + (random ? ": explores cyclically: " : ": does not explore cyclically: ") + t);
}

// Does the region behave as the meaning says?
void behaves(Ctx &c, Apollo::Region *r, const Meaning &m, const std::string &d) {
  c.step();
  if (m.model == "Static") {
    long p = atol(m.get("policy", "0").c_str());
    if (p >= P) p = 0;
    for (float v : {0.f, 1.f, -5.f, 1e9f}) {
      Feat f{v};
      int s = r->model->getIndex(f);
      c.check(s == p, "static", fmt("%s: selects %d", d.c_str(), s));
    }
    return;
  }
  if (m.model == "RoundRobin") return exploration(c, r, false, d);
  if (m.model == "Random") return exploration(c, r, true, d);
  if (m.model == "PolicyNet") {
    RefNet ref(1, P);
    ref.lr = atof(m.get("lr", "1e-2").c_str());
    ref.beta = atof(m.get("beta", "0.5").c_str());
    ref.beta1 = atof(m.get("beta1", "0.5").c_str());
    ref.beta2 = atof(m.get("beta2", "0.9").c_str());
    ref.threshold = atof(m.get("threshold", "0").c_str());
    r->model->store("net");
    if (!ref.read("net")) return;
    for (int i = 0; i < 3; i++) {
      RefData data;
      data.insert({1}, i, 0.2 + i * 0.4);
      data.insert({6}, 1, 1.5 - i * 0.6);
      Apollo::Dataset ds;
      for (auto &e : data.d) {
        Feat f = e.first.first;
        ds.insert(f, e.first.second, e.second);
      }
      ref.train(data);
      r->model->train(ds);
      r->model->store("net");
      RefNet got = ref;
      if (!got.read("net")) return;
      double e = got.distance(ref); 
      c.check(e < 1e-9 && std::fabs(got.avg - ref.avg) < 1e-12, "hyper-parameters", fmt("%s: after %d trainings the parameters differ from the reference by %g", d.c_str(), i + 1, e));
      if (ref.off())
        for (int k = 0; k < 10; k++) {
          Feat f{6};
          int s = r->model->getIndex(f);
          c.check(s == 0, "threshold", d + ": not below the threshold");
        }
    }
    return;
  }
  bool forest = m.model == "RandomForest";
  if (m.p.count("load")) {
    // The loaded model, not to be trained.
    c.check(!r->model->isTrainable(), "load", d + ": the loaded model is trainable");
    auto same = apollo::ModelFactory::createPolicyModel(m.model, P, forest ? "f.yaml" : "t.yaml");
    for (float v = -1; v < 5; v += 0.25f) {
      Feat f{v}, g{v};
      int a = r->model->getIndex(f), b = same->getIndex(g);
      c.check(a == b, "load", fmt("%s: selects %d for %g, the file %d", d.c_str(), a, v, b));
    }
    return;
  }
  exploration(c, r, m.get("explore", "RoundRobin") == "Random", d);
  c.check(r->model->isTrainable(), "untrained", d + ": trained at creation");
  unsigned depth = strtoul(m.get("max_depth", "2").c_str(), nullptr, 10), trees = strtoul(m.get("num_trees", "10").c_str(), nullptr, 10);
  Apollo::Dataset ds;
  std::vector<std::pair<Feat, int>> samples;
  for (int i = 0; i < 12; i++) {
    Feat f{(float)i};
    ds.insert(f, (i * 7 + i / 4) % P, 1.0);
    samples.push_back({{(float)i}, (i * 7 + i / 4) % P});
  }
  r->model->train(ds);
  r->model->store("model");
  if (!forest) {
    TTree t;
    if (!read_tree_file("model", t)) return;
    std::string e = check_tree(t, samples, depth);
    c.check(e.empty(), "max_depth", d + ": " + e);
  } else {
    std::vector<TTree> ts;
    int nt, md;
    if (!read_forest_file("model", ts, nt, md)) return;
    c.check(ts.size() == trees, "num_trees", fmt("%s: %zu trees", d.c_str(), ts.size()));
    for (auto &t : ts) {
      std::string e = check_tree(t, t.data, depth);
      c.check(e.empty(), "max_depth", d + ": " + e);
    }
  }
}

// d: the description; where: argument, environment, or argument with another
// description in the environment.
void judge(Ctx &c, const std::string &d, int where) {
  prepare();
  c.note(fmt("description \"%s\" as %s", d.c_str(), where == 0 ? "argument" : where == 1 ? "environment" : "argument, RoundRobin in the environment"));
  std::string kind = d.substr(0, d.find(','));
  Meaning m = parse(d, "reg", kind == "DecisionTree" ? std::set<std::string>{"t.yaml", "x=1.yaml", "a model.yaml"} : kind == "RandomForest" ? std::set<std::string>{"f.yaml", "y=2=.yaml"} : std::set<std::string>{});
  Env e;
  if (where == 1) e["POLICY_MODEL"] = d;
  if (where == 2) e["POLICY_MODEL"] = "RoundRobin";
  std::string arg = where == 1 ? "" : d;
  set_random({3, 1, 4, 1, 5});
  if (m.ok) {
    World w(e);
    auto *r = new Apollo::Region(1, "reg", P, 0, arg);
    behaves(c, r, m, d);
    if (where == 2) {
      auto *q = new Apollo::Region(1, "other", P, 0);
      Meaning rr;
      rr.model = "RoundRobin";
      behaves(c, q, rr, "RoundRobin in the environment");
    }
  } else {
    Outcome o = forked([&](std::string &out) {
      World w(e);
      new Apollo::Region(1, "reg", P, 0, arg);
      out = "created";
    });
    c.step();
    c.check(o.loud() || (o.kind == Outcome::EXIT && o.code != 0), "accepted", "\"" + d + "\" (" + m.why + "): " + o.str());
  }
  c.state(hash_str(d));
  c.obs(m.ok);
  c.validated();
}

void sequences(Ctx &c, const std::string &model, const std::vector<std::string> &tokens, int len) {
  int where = c.choose(3, "where");
  std::string d = model;
  int n = c.choose((where == 0 ? 3 : len) + 1, "parameters");
  for (int i = 0; i < n; i++) d += "," + c.pick(tokens, "parameter");
  judge(c, d, where);
}

void names(Ctx &c) {
  int where = c.choose(3, "where");
  judge(c, c.pick(std::vector<std::string>{"RoundRobin", "Random", "Static", "DecisionTree", "RandomForest", "PolicyNet", "decisiontree", "decision_tree", "Foo", "DecisionTre", "DecisionTreee", "STATIC", "Round-Robin", "RegressionTree", "Static;policy=1", "policy=1", "RoundRobin,policy=1", "Random,seed=3", "Random,explore=Random", "RoundRobin,max_depth=1",
                        "Optimal,policy=1", "DatasetMap,load", "StaticRegion", "StaticRegion,reg=1", "StaticRegion,reg=2,other=1", "StaticRegion,a=1,reg=2", "StaticRegion,other=1", "StaticRegion,regx=1", "StaticRegion,re=1", "StaticRegion,reg=1,reg=2", "StaticRegion,reg=9", "StaticRegion,reg", "StaticRegion,reg=x", "Static,reg=1",
                        "RoundRobin ", " RoundRobin", "Static ,policy=1", " Static", "Random\n", "roundrobin", "static,policy=1", "Static, policy=1", "Static,policy =1", "RoundRobin=1", "DecisionTree,DecisionTree", "Foo,max_depth=2", "PolicyNet,PolicyNet", "x", "1"},
                    "description"),
        where);
}

// Models of measured data take no parameters.
void data_models(Ctx &c) {
  bool opt = c.flip("optimal");
  std::string d = opt ? "Optimal" : "DatasetMap";
  d += c.pick(std::vector<std::string>{"", ",policy=1", ",x=1", ",explore=Random", ",max_depth=2", ",reg=1", ",file=opt-reg-rank-0.txt", ",lr=0.1"}, "parameter");
  bool ok = d.find(',') == std::string::npos;
  int where = c.choose(3, "where");
  prepare();
  write_file("opt-reg-rank-0.txt", "2,1,0,1");
  {
    World w({});
    Apollo::Dataset ds;
    for (int i = 0; i < 3; i++) {
      Feat f{(float)i};
      ds.insert(f, 2 - i, 1);
    }
    mkdirs(".apollo/datasets");
    std::ofstream o(".apollo/datasets/Dataset-reg.yaml");
    ds.store(o);
  }
  Env e;
  if (where == 1) e["POLICY_MODEL"] = d;
  if (where == 2) e["POLICY_MODEL"] = "RoundRobin";
  Outcome o = forked([&](std::string &out) {
    World w(e);
    auto *r = new Apollo::Region(1, "reg", P, 0, where == 1 ? "" : d);
    for (int i = 0; i < 3; i++) out += fmt("%d ", exec(r, {(float)i}, 1));
  });
  c.step();
  if (ok) c.check(o.str() == "ok" && o.out == "2 1 0 ", "data-model", d + ": " + o.str());
  else c.check(o.loud() || (o.kind == Outcome::EXIT && o.code != 0), "accepted", "\"" + d + "\" (unknown parameter): " + o.str());
  c.state(hash_str(d));
  c.obs(ok);
  c.validated();
}

// Nothing given at all.
void defaults(Ctx &c) {
  prepare();
  World w({});
  int n = 1 + c.choose(4, "policies");
  auto *r = new Apollo::Region(1, "reg", n, 0);
  for (int i = 0; i < 8; i++) {
    int p = exec(r, {(float)(i * i - 3)}, 1 + i);
    c.check(p == 0, "default", fmt("without a description policy %d is selected", p));
    c.step();
  }
  c.validated();
  c.obs(n);
}

// Parameter names close to the known ones: parts, other case, additions.
void near(Ctx &c) {
  static const std::map<std::string, std::vector<std::string>> keys{{"Static", {"policy"}}, {"DecisionTree", {"max_depth", "explore", "load-dataset", "load"}}, {"RandomForest", {"num_trees", "max_depth", "explore"}}, {"PolicyNet", {"lr", "beta", "beta1", "beta2", "threshold"}}, {"RoundRobin", {"max_depth", "policy"}}, {"Random", {"explore", "seed"}}};
  static std::vector<std::string> all;
  if (all.empty())
    for (auto &m : keys) {
      std::set<std::string> v;
      for (auto &k : m.second) {
        for (size_t i = 0; i < k.size(); i++) {
          v.insert(k.substr(0, i)), v.insert(k.substr(i));
          std::string x = k;
          x.erase(i, 1), v.insert(x);
          x = k, x[i] = (char)toupper(x[i]), v.insert(x);
          x = k, x[i]++, v.insert(x);
        }
        for (const char *a : {" ", "s", "_", "0", "1", "3", "-"}) v.insert(k + a), v.insert(a + k);
        std::string x = k;
        for (char &ch : x) ch = (char)(ch == '_' ? '-' : toupper(ch));
        v.insert(x);
      }
      for (auto &o : keys)
        for (auto &k : o.second) v.insert(k);
      for (const char *k : {"depth", "trees", "n", "maxdepth", "max-depth", "numtrees", "num-trees", "explorer", "exploration", "learning_rate", "learn_rate", "rate", "alpha", "gamma", "beta3", "thresh", "index", "idx", "default", "model", "name", "file", "path", "store", "save", "train", "seed", "min_training_data", "period", "verbose", "debug"}) v.insert(k);
      for (auto &k : v)
        for (const char *val : {m.first == "PolicyNet" ? "=0.25" : "=1", "=Random", ""}) all.push_back(m.first + "," + k + val);
    }
  std::string d = c.pick(all, "description");
  judge(c, d, thorough ? c.choose(3, "where") : 0);
}
}  // namespace

void mc::scenarios(std::vector<Scenario> &out) {
  out.push_back({"names", names});
  out.push_back({"near-names", near});
  out.push_back({"defaults", defaults});
  out.push_back({"data-models", data_models});
  out.push_back({"fixed", [](Ctx &c) { sequences(c, "Static", {"policy=0", "policy=1", "policy=2", "policy=3", "policy=77", "policy=-1", "policy=x", "policy", "policy=", "Policy=1", "index=1", "explore=Random", "max_depth=1"}, 2); }});
  out.push_back({"tree", [](Ctx &c) { sequences(c, "DecisionTree", {"max_depth=1", "max_depth=3", "max_depth=12", "explore=Random", "explore=RoundRobin", "load=t.yaml", "num_trees=3", "maxdepth=3", "policy=1", "lr=0.1", "max_depth=x", "max_depth", "explore=Foo", "explore", "load=missing.yaml", "load", "load-dataset"}, thorough ? 3 : 2); }});
  out.push_back({"forest", [](Ctx &c) { sequences(c, "RandomForest", {"num_trees=1", "num_trees=4", "num_trees=17", "max_depth=1", "max_depth=4", "explore=Random", "explore=RoundRobin", "load=f.yaml", "trees=3", "Num_trees=3", "policy=1", "beta=0.1", "num_trees=x", "num_trees", "explore=Best", "load=missing.yaml", "load", "load-dataset"}, thorough ? 3 : 2); }});
  out.push_back({"network", [](Ctx &c) { sequences(c, "PolicyNet", {"lr=0.3", "lr=1e-3", "beta=0.9", "beta1=0.8", "beta2=0.99", "threshold=0.45", "threshold=0.9", "beta3=0.5", "gamma=1", "max_depth=2", "explore=Random", "lr=fast", "lr", "load=missing.yaml", "load", "load-dataset"}, thorough ? 3 : 2); }});
  // numbers that need more than one or two bytes, or many digits
  out.push_back({"wide", [](Ctx &c) {
                   int where = c.choose(3, "where");
                   judge(c, c.pick(std::vector<std::string>{"Static,policy=256", "Static,policy=257", "Static,policy=65537", "Static,policy=2147483647", "StaticRegion,reg=258", "DecisionTree,max_depth=0", "DecisionTree,max_depth=11", "DecisionTree,max_depth=127", "DecisionTree,max_depth=128", "DecisionTree,max_depth=255", "DecisionTree,max_depth=256", "DecisionTree,max_depth=257", "DecisionTree,max_depth=1000", "DecisionTree,max_depth=32768", "DecisionTree,max_depth=65535", "DecisionTree,max_depth=65536", "DecisionTree,max_depth=65537", "DecisionTree,max_depth=2147483648", "DecisionTree,max_depth=4294967295", "RandomForest,num_trees=100", "RandomForest,num_trees=127", "RandomForest,num_trees=128", "RandomForest,num_trees=255", "RandomForest,num_trees=256", "RandomForest,num_trees=257", "RandomForest,num_trees=300", "RandomForest,num_trees=1000", "RandomForest,num_trees=3,max_depth=256", "RandomForest,num_trees=3,max_depth=65536", "RandomForest,num_trees=3,max_depth=4294967295", "PolicyNet,lr=0.123456789012", "PolicyNet,lr=1.23456789e-5", "PolicyNet,lr=1e-9", "PolicyNet,lr=1e-12", "PolicyNet,lr=7", "PolicyNet,lr=0", "PolicyNet,beta=0", "PolicyNet,beta1=0", "PolicyNet,beta2=0.999999", "PolicyNet,beta=0.123456789012", "PolicyNet,beta1=0.987654321098", "PolicyNet,beta2=0.987654321098", "PolicyNet,threshold=0.3000000001", "PolicyNet,lr=0.7,beta=0.3,beta1=0.1,beta2=0.6,threshold=0.1"}, "description"), where);
                 }});
  // values with separators in them
  out.push_back({"values", [](Ctx &c) {
                   int where = c.choose(3, "where");
                   judge(c, c.pick(std::vector<std::string>{"DecisionTree,load=x=1.yaml", "DecisionTree,max_depth=3,load=x=1.yaml", "DecisionTree,load=x=1.yaml,max_depth=3", "DecisionTree,load=a model.yaml", "DecisionTree,load=x=2.yaml", "DecisionTree,load=x", "DecisionTree,load=1.yaml", "DecisionTree,load==t.yaml", "DecisionTree,load=x=t.yaml", "RandomForest,load=y=2=.yaml", "RandomForest,load=y=2=.yaml,num_trees=3", "RandomForest,load=y=f.yaml", "RandomForest,load=2=.yaml", "RandomForest,load==f.yaml", "Static,policy=1=2", "Static,policy==1", "DecisionTree,max_depth=2=3", "DecisionTree,max_depth==3", "DecisionTree,explore=x=Random", "RandomForest,num_trees=1=3", "PolicyNet,lr=1=0.1", "PolicyNet,lr==0.1", "StaticRegion,reg=1=2", "StaticRegion,reg==1", "StaticRegion,=1", "Static,policy=1x", "Static,policy=1.5", "Static,policy=1e1", "Static,policy=99999999999", "Static,policy=2147483648", "StaticRegion,reg=1x", "StaticRegion,reg=-1", "DecisionTree,max_depth=3x", "DecisionTree,max_depth=2.5", "DecisionTree,max_depth=1e1", "DecisionTree,max_depth=-1", "DecisionTree,max_depth=0x2", "DecisionTree,max_depth=4294967296", "DecisionTree,max_depth=4294967299", "DecisionTree,max_depth=99999999999999999999", "RandomForest,num_trees=-1", "RandomForest,num_trees=2x", "RandomForest,num_trees=2.9", "RandomForest,num_trees=4294967297", "RandomForest,max_depth=-2", "RandomForest,max_depth=3d", "PolicyNet,lr=0.1x", "PolicyNet,beta=0.5.5", "PolicyNet,beta1=0,5", "PolicyNet,beta2=0.9%", "PolicyNet,threshold=0.1f", "PolicyNet,lr=1e-3e", "StaticRegion,reg=x=1"}, "description"), where);
                 }});
  // three valid parameters in every order
  out.push_back({"orders", [](Ctx &c) {
                   std::vector<std::string> v = c.pick(std::vector<std::vector<std::string>>{{"RandomForest", "num_trees=5", "max_depth=3", "explore=Random", "num_trees=2"}, {"PolicyNet", "lr=0.2", "beta=0.25", "beta2=0.5", "beta1=0.75", "lr=0.4", "threshold=0.4"}, {"DecisionTree", "max_depth=3", "explore=Random", "max_depth=1", "explore=RoundRobin"}}, "set");
                   std::string d = v[0];
                   v.erase(v.begin());
                   while (!v.empty()) {
                     int k = c.choose((int)v.size(), "next");
                     d += "," + v[k];
                     v.erase(v.begin() + k);
                   }
                   judge(c, d, 0);
                 }});
}
