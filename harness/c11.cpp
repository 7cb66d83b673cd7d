// C11: training happens exactly when it is due, on exactly the data recorded,
// and then the model is frozen. The reference is the trigger rule; it drives
// shadow models of the same kind that nothing else touches.
#include "world.h"
using namespace mc;
using namespace w;

namespace {
struct Conf {
  int gp = 0, prp = 0, min = 0;
};

struct Sim {
  Ctx &c;
  World &w;
  Conf k;
  bool persistent;
  std::string kind;
  struct R {
    Apollo::Region *r;
    std::unique_ptr<apollo::PolicyModel> shadow;
    RefData data;
    int begun = 0;
    bool trainable = true;
    int trainings = 0;
    std::string name;
  };
  std::vector<R> rs;
  int E = 0;
  std::set<std::string> files;

  Sim(Ctx &c, World &w, Conf k, bool persistent) : c(c), w(w), k(k), persistent(persistent) {}

  void add(const std::string &name, const std::string &info, int P, const std::string &file = "") {
    kind = info.substr(0, info.find(','));
    R x;
    x.name = name;
    set_random({17});
    x.r = new Apollo::Region(1, name.c_str(), P, k.min, info, file);
    set_random({17});
    std::unordered_map<std::string, std::string> pm;
    size_t p = info.find(',');
    while (p != std::string::npos) {
      size_t q = info.find(',', p + 1);
      std::string kv = info.substr(p + 1, q == std::string::npos ? q : q - p - 1);
      pm.emplace(kv.substr(0, kv.find('=')), kv.substr(kv.find('=') + 1));
      p = q;
    }
    x.shadow = apollo::ModelFactory::createPolicyModel(kind, 1, P, pm);
    if (!file.empty()) {
      x.shadow->load(file);
      if (kind != "PolicyNet") x.trainable = false;
    }
    rs.push_back(std::move(x));
  }
  void ref_train(R &x, int step, bool force = false) {
    if (!x.trainable && !force) return;
    if (x.data.d.empty()) return;
    Apollo::Dataset d;
    for (auto &e : x.data.d) {
      Feat f = e.first.first;
      d.insert(f, e.first.second, e.second);
    }
    x.shadow->train(d);
    x.trainings++;
    if (kind != "PolicyNet") x.trainable = false;
    files.insert(kind + "-step-" + std::to_string(step) + "-rank-0-" + x.name + ".yaml");
    files.insert(kind + "-latest-rank-0-" + x.name + ".yaml");
  }
  void ref_train_all(int step) {
    std::map<std::string, R *> byname;
    for (auto &x : rs) byname[x.name] = &x;
    for (auto &e : byname) ref_train(*e.second, step);
  }
  void exec(int i, float f, int metric) {
    R &x = rs[i];
    auto *ctx = x.r->begin({f});
    x.begun++;
    int p = x.r->getPolicyIndex(ctx);
    Feat g{f};
    int e = x.shadow->getIndex(g);
    c.check(p == e, "selection", fmt("region %s, execution %d: selected %d, expected %d (%s, %d trainings)", x.name.c_str(), x.begun, p, e, x.trainable ? "still training" : "trained", x.trainings));
    double m = metric == 0 ? 1.0 + p : metric == 1 ? 4.0 - p : metric == 3 ? (p + (int)f) % 2 : 1.0 + (p + (int)f) % 2;
    x.r->end(ctx, m);
    if (persistent || x.trainable) x.data.insert({f}, p, m);
    E++;
    if (x.trainable) {
      if (k.gp && E % k.gp == 0) ref_train_all(E);
      else if (k.prp && x.begun % k.prp == 0) ref_train(x, x.begun);
      else if (k.min > 0 && k.min <= (int)x.data.d.size()) ref_train(x, x.begun);
    }
    c.step();
  }
  void compare(const std::string &when) {
    for (auto &x : rs) {
      std::string e = diff_tol(x.data, x.r->dataset, 1e-12);
      c.check(e.empty(), "dataset", when + ", region " + x.name + ": " + e);
      c.check(x.r->model->isTrainable() == x.trainable, "trained", fmt("%s: region %s is %s", when.c_str(), x.name.c_str(), x.trainable ? "trained too early" : "not trained"));
    }
    auto t = tree(".apollo/models");
    std::set<std::string> got(t.begin(), t.end());
    if (got != files) {
      std::string s;
      for (auto &f : got)
        if (!files.count(f)) s += " unexpected " + f;
      for (auto &f : files)
        if (!got.count(f)) s += " missing " + f;
      c.fail("model-files", when + ":" + s);
    }
    c.validated();
    u64 h = E;
    for (auto &x : rs) h = mix(mix(h, x.data.hash()), x.trainable * 64 + x.begun);
    c.state(h);
  }
  // Everything the regions select from now on, without side effects on them.
  void probe() {
    u64 h = 0;
    for (auto &x : rs)
      if (!x.trainable || kind == "PolicyNet")
        for (float f : {-1.f, 0.f, 0.5f, 1.f, 1.5f, 2.f, 9.f}) {
          Feat a{f}, b{f};
          int p = x.r->model->getIndex(a), e = x.shadow->getIndex(b);
          c.check(p == e, "selection", fmt("region %s: %g selects %d, expected %d", x.name.c_str(), f, p, e));
          h = mix(h, p);
        }
    c.obs(h);
  }
};

Env env(Conf k, bool persistent) {
  Env e{{"STORE_MODELS", "1"}};
  if (k.gp) e["GLOBAL_TRAIN_PERIOD"] = std::to_string(k.gp);
  if (k.prp) e["PER_REGION_TRAIN_PERIOD"] = std::to_string(k.prp);
  if (persistent) e["PERSISTENT_DATASETS"] = "1";
  return e;
}

// Every history of executions and training requests of two regions.
void histories(Ctx &c, const std::vector<std::string> &models, int depth) {
  std::string info = c.pick(models, "model");
  Conf k = c.pick(std::vector<Conf>{{0, 0, 0}, {2, 0, 0}, {3, 0, 0}, {0, 2, 0}, {0, 3, 0}, {0, 0, 1}, {0, 0, 2}, {3, 2, 2}, {0, 3, 2}, {2, 3, 3}}, "rules");
  bool persistent = c.flip("persistent");
  int metric = c.choose(2, "metric");
  World w(env(k, persistent));
  Sim s(c, w, k, persistent);
  s.add("a", info, 2);
  s.add("b", info, 3);
  for (int i = 0; i < depth; i++) {
    int op = c.choose(7, "op");
    std::string what;
    if (op == 0) s.exec(0, 0, metric), what = "execute a [0]";
    else if (op == 1) s.exec(0, 1, metric), what = "execute a [1]";
    else if (op == 2) s.exec(1, 1, metric + 1), what = "execute b [1]";
    else if (op == 3) {
      s.rs[0].r->train(100 + i);
      s.ref_train(s.rs[0], 100 + i);
      what = "train a";
    } else if (op == 4) {
      c.flip("deprecated name") ? w->flushAllRegionMeasurements(200 + i) : w->train(200 + i);
      s.ref_train_all(200 + i);
      what = "train all";
    } else if (op == 5) {
      s.rs[1].r->train(300 + i, true, true);
      s.ref_train(s.rs[1], 300 + i, true);
      what = "force training of b";
    } else {
      s.rs[0].r->begin({1.f});  // begun and given up
      s.rs[0].begun++;
      what = "begin a, give up";
    }
    c.step();
    c.note(what);
    s.compare(fmt("step %d, %s", i, what.c_str()));
  }
  s.probe();
}

// Periods and sizes over long runs.
void periods(Ctx &c) {
  std::string info = c.pick(std::vector<std::string>{"DecisionTree,max_depth=9", "RandomForest,num_trees=3,max_depth=9", "PolicyNet"}, "model");
  int N = info == "PolicyNet" ? 3 : thorough ? 9 : 7;
  Conf k;
  k.gp = c.choose(N, "global period");
  k.prp = c.choose(N, "region period");
  k.min = c.choose(N, "minimum");
  int pattern = c.choose(3, "pattern");
  bool persistent = c.flip("persistent");
  World w(env(k, persistent));
  Sim s(c, w, k, persistent);
  s.add("a", info, 2);
  s.add("b", info, 2);
  s.add("c", info, 3);
  int n = info == "PolicyNet" ? 12 : 26;
  for (int i = 0; i < n; i++) {
    int r = pattern == 0 ? 0 : pattern == 1 ? i % 3 : (i / 5) % 2;
    s.exec(r, (float)(i % (pattern == 2 ? 7 : 3)), pattern == 1 ? 3 : 2);
    s.compare(fmt("execution %d", i));
  }
  s.probe();
}

// Many regions count together.
void crowd(Ctx &c) {
  std::string info = c.pick(std::vector<std::string>{"DecisionTree", "RandomForest,num_trees=2"}, "model");
  int n = c.pick(std::vector<int>{5, 17, 33, 70}, "regions");
  Conf k;
  k.gp = c.pick(std::vector<int>{0, 4, 18, 41, 90}, "global period");
  k.prp = c.pick(std::vector<int>{0, 2}, "region period");
  k.min = c.pick(std::vector<int>{0, 2}, "minimum");
  int stride = c.pick(std::vector<int>{1, 3}, "stride");
  World w(env(k, false));
  Sim s(c, w, k, false);
  for (int i = 0; i < n; i++) s.add(fmt("region %d", i), info, 2 + i % 3);
  for (int i = 0; i < 2 * n + 25; i++) {
    s.exec(i * stride % n, (float)(i % 3), 2);
    if (i % 7 == 6 || i > 2 * n + 20) s.compare(fmt("execution %d", i));
  }
  s.probe();
}

// Steps of many digits: periods reached late, counted over every execution.
void late(Ctx &c) {
  std::string info = c.pick(std::vector<std::string>{"DecisionTree,max_depth=9", "RandomForest,num_trees=3,max_depth=9"}, "model");
  int n = c.pick(std::vector<int>{255, 256, 257, 32767, 32768, 32769, 65536, 65537, 70000}, "period");
  bool global = c.flip("global"), persistent = c.flip("persistent");
  Conf k;
  (global ? k.gp : k.prp) = n;
  World w(env(k, persistent));
  Sim s(c, w, k, persistent);
  s.add("a", info, 2);
  s.add("b", info, 2);
  for (int i = 0; i < n - 1; i++) s.exec(0, (float)(i % 3), 2);
  s.compare(fmt("execution %d", n - 1));
  if (!global) s.exec(1, 1, 2);
  s.compare(fmt("execution %d", n));
  s.exec(0, 1, 2);
  s.compare(fmt("execution %d", n + 1));
  for (int i = 0; i < 3; i++) s.exec(i % 2, 1, 2);
  s.compare("the end");
  s.probe();
}

// Datasets of an earlier run count: what is due at the creation happens there.
void restarts(Ctx &c) {
  std::string info = c.pick(std::vector<std::string>{"DecisionTree,max_depth=9", "RandomForest,num_trees=3,max_depth=9", "PolicyNet"}, "model");
  int n = c.choose(thorough ? 6 : 5, "executions before"), m = c.choose(thorough ? 7 : 6, "minimum"), after = c.choose(4, "executions after");
  bool same = c.flip("same minimum before");
  bool net = info == "PolicyNet";
  RefData before;
  {
    World w({{"PERSISTENT_DATASETS", "1"}});
    auto *r = new Apollo::Region(1, "a", 2, same ? m : 0, "RoundRobin");
    for (int i = 0; i < n; i++) {
      Feat f{(float)(i / 2)};
      int p = w::exec(r, f, 1.0 + (i + i / 2) % 2);
      before.insert({(float)(i / 2)}, p, 1.0 + (i + i / 2) % 2);
      c.step();
    }
  }
  Conf k{0, 0, m};
  World w(env(k, true));
  set_random({17});
  auto *r = new Apollo::Region(1, "a", 2, m, info);
  std::string e = diff_tol(before, r->dataset, 1e-12);
  c.check(e.empty(), "dataset", "after the restart: " + e);
  bool due = m > 0 && (int)before.d.size() >= m;
  auto check = [&](const std::string &when) {
    if (!net) c.check(r->model->isTrainable() == !due, "trained", when + fmt(": %zu measurements, minimum %d, %s", before.d.size(), m, due ? "not trained" : "trained"));
    std::string f = info.substr(0, info.find(',')) + "-latest-rank-0-a.yaml";
    c.check(exists(".apollo/models/" + f) == due, "model-files", when + (due ? ": no model" : ": an unexpected model"));
    c.validated();
  };
  check("after the restart");
  for (int i = 0; i < after; i++) {
    Feat f{(float)(10 + i)};
    int p = w::exec(r, f, 1.0);
    before.insert({(float)(10 + i)}, p, 1.0);
    if (m > 0 && (int)before.d.size() >= m) due = true;
    check(fmt("after execution %d", i));
    c.step();
  }
  c.state(mix(mix(n, m), mix(after, due)));
  c.obs(due);
}

// A network is trained whenever it is due, however often it was before.
void often(Ctx &c) {
  int prp = 1 + c.choose(2, "period"), P = 2 + c.choose(2, "policies");
  bool persistent = c.flip("persistent");
  Conf k{0, prp, 0};
  Env e = env(k, persistent);
  e.erase("STORE_MODELS");
  World w(e);
  Sim s(c, w, k, persistent);
  s.add("a", "PolicyNet", P);
  int n = thorough ? 600 : 150;
  s.files.clear();
  for (int i = 0; i < n; i++) {
    s.exec(0, (float)(i % 3), 2);
    s.files.clear();
    s.compare(fmt("execution %d", i));
    if (i % 10 == 9) {
      s.rs[0].r->model->store("a.net"), s.rs[0].shadow->store("b.net");
      c.check(read_file("a.net") == read_file("b.net"), "training", fmt("after %d executions the network is not the one of %d trainings", i + 1, s.rs[0].trainings));
    }
  }
  s.probe();
}

// Loaded models are frozen from the start.
void loaded(Ctx &c) {
  std::string info = c.pick(std::vector<std::string>{"DecisionTree,max_depth=9", "RandomForest,num_trees=3,max_depth=9"}, "model");
  std::string kind = info.substr(0, 12);
  Conf k{c.choose(3, "gp"), c.choose(3, "prp"), c.choose(3, "min")};
  bool persistent = c.flip("persistent");
  {
    World w({{"STORE_MODELS", "1"}});
    auto *r = new Apollo::Region(1, "m", 2, 0, info);
    for (int i = 0; i < 4; i++) {
      Feat f{(float)(i / 2)};
      r->dataset.insert(f, i % 2, 1 + (i / 2 + i) % 2);
    }
    r->train(0);
  }
  std::string file = "../" + kind + ".yaml";
  std::string keep = read_file(".apollo/models/" + kind + "-latest-rank-0-m.yaml");
  clean_scratch();
  write_file("stored.yaml", keep);
  World w(env(k, persistent));
  Sim s(c, w, k, persistent);
  s.add("a", info, 2, "stored.yaml");
  s.add("b", info, 2);
  for (int i = 0; i < (thorough ? 5 : 4); i++) {
    int op = c.choose(4, "op");
    if (op == 0) s.exec(0, (float)i, 0);
    if (op == 1) s.exec(1, (float)i, 0);
    if (op == 2) {
      s.rs[0].r->train(50 + i);
      s.ref_train(s.rs[0], 50 + i);
    }
    if (op == 3) {
      w->train(60 + i);
      s.ref_train_all(60 + i);
    }
    s.compare(fmt("step %d", i));
  }
  s.probe();
}
}  // namespace

void mc::scenarios(std::vector<Scenario> &out) {
  out.push_back({"histories-tree", [](Ctx &c) { histories(c, {"DecisionTree,max_depth=9"}, thorough ? 5 : 4); }});
  out.push_back({"histories-forest", [](Ctx &c) { histories(c, {"RandomForest,num_trees=3,max_depth=9"}, thorough ? 5 : 4); }});
  out.push_back({"histories-network", [](Ctx &c) { histories(c, {"PolicyNet"}, thorough ? 4 : 3); }});
  out.push_back({"periods", periods});
  out.push_back({"crowd", crowd});
  out.push_back({"late", late});
  out.push_back({"restarts", restarts});
  out.push_back({"often", often});
  out.push_back({"loaded", loaded});
}
