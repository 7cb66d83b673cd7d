// C06: a stored model reloads to identical selections.
#include "world.h"
using namespace mc;
using namespace w;

namespace {
struct M { const char *info, *name; };
const std::string LONG(63, 'n');

std::vector<Feat> questions(int F, bool net, const std::set<float> &vals) {
  if (net) return product({0, 1, 3, 8, 1000}, F);
  if (F == 1) {
    std::vector<Feat> o;
    for (float x : around(vals)) o.push_back({x});
    return o;
  }
  std::vector<Feat> o = probes(F);
  if (F == 2)
    for (auto &f : product(around(vals), 2)) o.push_back(f);
  return o;
}

std::vector<int> ask(Ctx &c, Apollo::Region *r, const std::vector<Feat> &q, int times) {
  std::vector<int> o;
  for (int i = 0; i < times; i++)
    for (auto &f : q) {
      auto *x = r->begin(f);
      o.push_back(r->getPolicyIndex(x));
      r->end(x, 1.0);
      c.step();
    }
  return o;
}
std::vector<int> ask(Ctx &c, apollo::PolicyModel *m, const std::vector<Feat> &q, int times) {
  std::vector<int> o;
  for (int i = 0; i < times; i++)
    for (auto f : q) o.push_back(m->getIndex(f)), c.step();
  return o;
}
void same(Ctx &c, const std::vector<int> &a, const std::vector<int> &b, const std::vector<Feat> &q, const std::string &what) {
  for (size_t i = 0; i < a.size(); i++)
    c.check(a[i] == b[i], "reload", fmt("%s: %s selects %d, trained %d", what.c_str(), str(q[i % q.size()]).c_str(), b[i], a[i]));
}

// The file of a region: names of more than 63 characters may be cut to that.
std::string stored(const std::string &prefix, const std::string &name) {
  std::string f = prefix + name + ".yaml";
  if (name.size() > 63 && !exists(f)) f = prefix + name.substr(0, 63) + ".yaml";
  return f;
}

// Train (several times), then reload every stored file in every way.
void store_load(Ctx &c, const std::vector<M> &models, const std::vector<int> &Fs, bool names) {
  M m = c.pick(models, "model");
  bool net = !strcmp(m.name, "PolicyNet");
  int F = c.pick(Fs, "F");
  int P = net ? 3 : c.pick(std::vector<int>{2, 5}, "P");
  int table = c.choose(net ? 2 : 6, "table");
  int trainings = net ? c.pick(std::vector<int>{1, 2, 5}, "trainings") : 1 + c.choose(2, "trainings");
  int second = trainings > 1 && !names && !net ? c.choose(2, "second step") : 0;
  std::string name = names ? c.pick(std::vector<std::string>{"r", "a-latest-rank-0-b", "with.dots.yaml", "x@0x1f,y", LONG, LONG + "n", LONG + std::string(37, 'm')}, "name") : "r";
  bool dirs = names && c.flip("dirs");
  unsigned seed = net ? c.pick(std::vector<unsigned>{1, 77}, "seed") : 5;
  Env env{{"STORE_MODELS", "1"}};
  std::string dir = ".apollo/models/";
  if (dirs) {
    env["OUTPUT_DIR"] = "out put";
    env["MODELS_DIR"] = "m.d";
    dir = "out put/m.d/";
  }
  // features with awkward decimal expansions
  std::vector<float> vals = table % 2 ? std::vector<float>{0.1f, 0.7f, 1.f / 3, 1000001.f, -2.7182817f} : std::vector<float>{1, 2, 4, 8, 16};
  if (net) vals = {0, 1, 3, 6, 1000};
  auto q = questions(F, net, std::set<float>(vals.begin(), vals.end()));
  int times = net ? 3 : 1;
  std::vector<std::vector<int>> expect;
  std::vector<std::string> stepfile;
  // other region with the same kind of model, to be kept apart
  set_random({seed});
  {
    World w(env);
    auto *r = new Apollo::Region(F, name.c_str(), P, 0, m.info);
    auto *o = new Apollo::Region(F, (name.size() > 63 ? "2" + name : name.substr(0, 61) + "2").c_str(), P, 0, m.info);
    for (int t = 0; t < trainings; t++) {
      for (int i = 0; i < 5; i++) {
        Feat f;
        for (int j = 0; j < F; j++) f.push_back(vals[(i + j * 2) % 5]);
        int best = table < 2 ? i % P : table < 4 ? (i + t) % 2 * (P - 1) : (i * i + 1 + t) % P;
        for (int p = 0; p < P; p++) {
          Feat g = f;
          r->dataset.insert(g, p, (p == best ? 0.3 : 0.9 + p) * (1 + 99 * t));
          g = f;
          o->dataset.insert(g, p, p == 0 ? 0.1 : 3.0);
        }
      }
      int step = t == 0 ? second : second ? 0 : 1234566 + t;
      // trees and forests are frozen after their first training
      bool force = t > 0 && !net;
      r->train(step, true, force);
      o->train(step, true, force);
      c.step();
      stepfile.push_back(stored(dir + m.name + "-step-" + std::to_string(step) + "-rank-0-", name));
      c.check(exists(stepfile.back()), "step-file", stepfile.back() + " was not stored");
      if (!net) expect.push_back(ask(c, r, q, times));
    }
    if (net) {
      // Only one sequence of draws can be taken from the live network.
      expect.resize(trainings);
      expect.back() = ask(c, r, q, times);
      for (int t = 0; t + 1 < trainings; t++) {
        set_random({seed});
        Apollo::Region *x = new Apollo::Region(F, fmt("z%d", t).c_str(), P, 0, m.info);
        x->model->load(stepfile[t]);
        expect[t] = ask(c, x, q, times);
      }
    }
  }
  std::string latest = stored(dir + m.name + "-latest-rank-0-", name);
  c.check(exists(latest), "latest-file", latest + " was not stored");
  c.check(read_file(latest) == read_file(stepfile.back()), "latest-file", "the latest file is not the last step file");
  std::string plain = std::string(m.info).substr(0, std::string(m.info).find(','));
  for (int how = 0; how < 8; how++) {
    Env en = env;
    if (how > 5) en["OUTPUT_DIR"] = "elsewhere", en["MODELS_DIR"] = "else";
    World w(en);
    set_random({seed});
    std::vector<int> got;
    std::string what;
    int t = trainings - 1;
    auto info = [&](const std::string &p) { return std::string(m.info) + "," + p; };
    if (how == 0) {
      auto *r = new Apollo::Region(F, name.c_str(), P, 0, info("load"));
      got = ask(c, r, q, times);
      what = "load";
    } else if (how == 1) {
      if (latest.find(',') != std::string::npos) continue;
      auto *r = new Apollo::Region(F, "other", P, 0, info("load=" + latest));
      got = ask(c, r, q, times);
      what = "load=latest";
    } else if (how == 2) {
      t = 0;
      auto *r = new Apollo::Region(F, name.c_str(), P, 0, m.info, stepfile[0]);
      got = ask(c, r, q, times);
      what = "model file argument";
    } else if (how == 3) {
      auto *r = new Apollo::Region(F, "other", P, 0, m.info);
      r->model->load(stepfile[t]);
      got = ask(c, r, q, times);
      what = "direct";
    } else if (how == 4) {
      if (net) continue;
      auto pm = apollo::ModelFactory::createPolicyModel(m.name, P, stepfile[0]);
      t = 0;
      c.check(!pm->isTrainable(), "loaded-trainable", "a loaded model still wants training");
      got = ask(c, pm.get(), q, times);
      what = "factory";
    } else if (how > 5) {
      // moved to where another run has a model of that name, or has none
      std::string base = latest.substr(latest.rfind('/') + 1), moved = "moved/" + base;
      if (latest.find(',') != std::string::npos) continue;
      mkdirs("moved"), mkdirs("elsewhere/else");
      write_file(moved, read_file(latest));
      if (how == 6) write_file("elsewhere/else/" + base, read_file(stored(dir + m.name + "-latest-rank-0-", name.size() > 63 ? "2" + name : name.substr(0, 61) + "2")));
      auto *r = new Apollo::Region(F, name.c_str(), P, 0, info("load=" + moved));
      got = ask(c, r, q, times);
      what = "load=moved";
    } else {
      // loaded, stored, loaded
      auto *r = new Apollo::Region(F, "o1", P, 0, m.info, stepfile[t]);
      r->model->store("again.yaml");
      auto *s = new Apollo::Region(F, "o2", P, 0, plain, "again.yaml");
      c.check(read_file("again.yaml") == read_file(stepfile[t]), "restore", "a loaded model is stored differently");
      got = ask(c, s, q, times);
      what = "loaded, stored and loaded again";
      // hyper-parameters that the file does not hold
      if (net && strchr(m.info, ',')) continue;
    }
    same(c, expect[t], got, q, what);
    c.validated();
  }
  u64 h = 0;
  for (auto &e : expect)
    for (int p : e) h = mix(h, p);
  c.obs(h);
  c.state(mix(mix(hash_str(m.info), h), hash_str(name)));
}

// All small tables: trees of every shape survive.
void shapes(Ctx &c) {
  const std::vector<Feat> pts{{0.1f, -1}, {0.2f, 1e-3f}, {0.3f, 1e6f + 1}, {1.f / 3, 0}, {0.34f, 0.5f}};
  const char *info = c.pick(std::vector<const char *>{"DecisionTree,max_depth=5", "DecisionTree,max_depth=1", "DecisionTree,max_depth=0", "RandomForest,num_trees=3,max_depth=4"}, "model");
  std::string kind = std::string(info).substr(0, 12);
  Env env{{"STORE_MODELS", "1"}};
  std::vector<int> best;
  for (size_t i = 0; i < pts.size(); i++) best.push_back(c.choose(3, "best") * 4);
  std::vector<int> e, g;
  std::vector<Feat> q;
  std::set<float> v0, v1;
  for (auto &f : pts) v0.insert(f[0]), v1.insert(f[1]);
  for (float x : around(v0)) q.push_back({x, 0.1f}), q.push_back({x, 1e6f});
  for (float y : around(v1)) q.push_back({0.25f, y}), q.push_back({0.335f, y});
  {
    World w(env);
    auto *r = new Apollo::Region(2, "r", 9, 0, info);
    for (size_t i = 0; i < pts.size(); i++) {
      Feat f = pts[i];
      r->dataset.insert(f, best[i], 1.0);
    }
    r->train(3);
    e = ask(c, r, q, 1);
  }
  {
    World w(env);
    auto *r = new Apollo::Region(2, "r", 9, 0, std::string(info) + ",load");
    g = ask(c, r, q, 1);
    // frozen: forget about exploring
    r->train(4);
    c.check(!exists(".apollo/models/" + kind + "-step-4-rank-0-r.yaml"), "loaded-retrains", "a loaded model was trained again");
  }
  same(c, e, g, q, "load");
  u64 h = 0;
  for (int p : e) h = mix(h, p);
  c.obs(h);
  c.state(mix(hash_str(info), h));
  c.validated();
}

// Neighbouring numbers of every magnitude.
void digits(Ctx &c) {
  const char *info = c.pick(std::vector<const char *>{"DecisionTree,max_depth=9", "RandomForest,num_trees=4,max_depth=9"}, "model");
  int ex = c.choose(83, "magnitude") - 45;
  int first = c.choose(3, "first");
  Env env{{"STORE_MODELS", "1"}};
  std::vector<Feat> q;
  float x = std::pow(10.0, ex) * (first == 0 ? 1 : first == 1 ? -7.0 / 3 : 1.7);
  for (int i = 0; i < 24; i++) q.push_back({x}), x = nextafterf(x, INFINITY);
  std::vector<int> e, g;
  {
    World w(env);
    auto *r = new Apollo::Region(1, "r", 3, 0, info);
    for (int i = 0; i < 12; i++) {
      Feat f = q[2 * i];
      r->dataset.insert(f, i % 3, 1.0);
    }
    r->train(3);
    e = ask(c, r, q, 1);
  }
  World w(env);
  g = ask(c, new Apollo::Region(1, "r", 3, 0, std::string(info) + ",load"), q, 1);
  same(c, e, g, q, "load");
  u64 h = 0;
  for (int p : e) h = mix(h, p);
  c.obs(h);
  c.state(mix(mix(hash_str(info), h), ex * 3 + first));
  c.validated();
}

// A stored model replaces the one a region has, whatever that was.
void replace(Ctx &c) {
  const char *info = c.pick(std::vector<const char *>{"DecisionTree", "RandomForest,num_trees=3", "PolicyNet", "PolicyNet,threshold=0.4"}, "model");
  bool net = strncmp(info, "PolicyNet", 9) == 0;
  int from = c.choose(net ? 4 : 2, "trainings of the stored model") + (net ? 0 : 1);
  int to = c.choose(5, "trainings of the replaced model");
  int P = 2 + c.choose(2, "policies");
  World w({});
  auto q = questions(1, net, {1, 2, 3, 4});
  auto grow = [&](const char *name, int trainings, int shift) {
    auto *r = new Apollo::Region(1, name, P, 0, info);
    for (int t = 0; t < trainings; t++) {
      for (int i = 0; i < 4; i++) {
        Feat f{(float)(i + 1)};
        r->dataset.insert(f, (i + shift + t) % P, 0.7 / (1 + t));
      }
      r->train(t, true, t > 0 && !net);
      c.step();
    }
    return r;
  };
  set_random({11});
  auto *a = grow("a", from, 0);
  a->model->store("a.yaml");
  set_random({12});
  auto *b = grow("b", to, 1);
  ask(c, b, q, 1);
  b->model->load("a.yaml");
  b->model->store("b.yaml");
  c.check(read_file("a.yaml") == read_file("b.yaml"), "replaced", fmt("%s: a model of %d trainings was loaded over one of %d and is stored differently", info, from, to));
  if (!net) same(c, ask(c, a, q, 1), ask(c, b, q, 1), q, "loaded over another");
  else {
    // A new region gets the same model, and draws alike from it.
    set_random({12});
    auto *x = new Apollo::Region(1, "x", P, 0, info, "a.yaml");
    set_random({12});
    auto *y = grow("y", to, 1);
    y->model->load("a.yaml");
    same(c, ask(c, x, q, 2), ask(c, y, q, 2), q, "loaded over another");
  }
  c.state(mix(mix(hash_str(info), from * 8 + to), P));
  c.obs(hash_str(read_file("a.yaml")));
  c.validated();
}

// Files that do not exist.
void missing(Ctx &c) {
  M m = c.pick(std::vector<M>{{"DecisionTree", "DecisionTree"}, {"RandomForest,num_trees=2", "RandomForest"}, {"PolicyNet", "PolicyNet"}}, "model");
  int how = c.choose(5, "how");
  Outcome o = forked([&](std::string &) {
    World w({{"STORE_MODELS", "1"}});
    std::string other = std::string(".apollo/models/") + m.name + "-latest-rank-0-other.yaml";
    if (how == 0) new Apollo::Region(1, "r", 2, 0, std::string(m.info) + ",load");
    if (how == 1) new Apollo::Region(1, "r", 2, 0, std::string(m.info) + ",load=none.yaml");
    if (how == 2) new Apollo::Region(1, "r", 2, 0, m.info, "none.yaml");
    if (how == 3) (new Apollo::Region(1, "r", 2, 0, m.info))->model->load("none.yaml");
    if (how == 4) apollo::ModelFactory::createPolicyModel(m.name, 2, "none.yaml");
  });
  c.step();
  c.check(o.loud(), "missing-file", fmt("%s, way %d: a missing model file gave: %s", m.info, how, o.str().c_str()));
  c.state(mix(hash_str(m.info), how));
  c.obs(o.kind);
  c.validated();
}

// Many steps: each step's file holds that step's model, the latest file the
// last one, also when another run continues.
void steps(Ctx &c) {
  const char *kind = c.pick(std::vector<const char *>{"DecisionTree", "RandomForest"}, "model");
  int n = 2 + c.choose(3, "trainings");
  std::vector<int> cls;
  for (int i = 0; i < n; i++) cls.push_back(c.choose(3, "best"));
  int cut = c.choose(n, "restart before");
  Env env{{"STORE_MODELS", "1"}};
  auto train = [&](int from, int to) {
    World w(env);
    auto *r = new Apollo::Region(1, "r", 3, 0, kind);
    for (int i = from; i < to; i++) {
      r->dataset.clear();
      Feat f{1};
      r->dataset.insert(f, cls[i], 1);
      r->train(i, true, i > from);
      c.step();
    }
  };
  train(0, cut);
  train(cut, n);
  World w(env);
  for (int i = 0; i <= n; i++) {
    std::string file = std::string(".apollo/models/") + kind + (i == n ? std::string("-latest") : "-step-" + std::to_string(i)) + "-rank-0-r.yaml";
    auto *r = new Apollo::Region(1, fmt("q%d", i).c_str(), 3, 0, kind, file);
    int p = exec(r, {1}, 1), e = cls[i == n ? n - 1 : i];
    c.check(p == e, "step-file", fmt("%s selects %d, that training gave %d", file.c_str(), p, e));
  }
  u64 h = cut;
  for (int x : cls) h = mix(h, x);
  c.state(h);
  c.obs(h);
  c.validated();
}
}  // namespace

void mc::scenarios(std::vector<Scenario> &out) {
  const std::vector<M> trees{{"DecisionTree", "DecisionTree"}, {"DecisionTree,max_depth=7", "DecisionTree"}, {"RandomForest,num_trees=3,max_depth=6", "RandomForest"}, {"RandomForest", "RandomForest"}, {"RandomForest,num_trees=70,max_depth=3", "RandomForest"}, {"RandomForest,num_trees=300,max_depth=1", "RandomForest"}};
  const std::vector<M> nets{{"PolicyNet", "PolicyNet"}, {"PolicyNet,threshold=0.5", "PolicyNet"}, {"PolicyNet,threshold=0.99,beta=0.9", "PolicyNet"}, {"PolicyNet,lr=2", "PolicyNet"}};
  out.push_back({"trees-and-forests", [=](Ctx &c) { store_load(c, trees, {1, 2, 3}, false); }});
  out.push_back({"names-and-directories", [=](Ctx &c) { store_load(c, {trees[0], trees[2]}, {1}, true); }});
  out.push_back({"networks", [=](Ctx &c) { store_load(c, nets, thorough ? std::vector<int>{1, 2} : std::vector<int>{1}, false); }});
  out.push_back({"shapes", shapes});
  out.push_back({"digits", digits});
  out.push_back({"replace", replace});
  out.push_back({"missing", missing});
  out.push_back({"steps", steps});
}
