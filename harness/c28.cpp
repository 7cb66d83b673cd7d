// C28: the OpenCV-backed trees, forests and timing models.
#include <opencv2/ml.hpp>

#include "world.h"
using namespace mc;
using namespace w;

namespace {
using Table = std::map<Feat, int>;

void seed() { cv::theRNG().state = 12345; }  // OpenCV's forests draw from it
void measure(Apollo::Region *r, const Table &t, int P, double scale) {
  for (auto &e : t)
    for (int p = 0; p < P; p++) {
      Feat f = e.first;
      r->dataset.insert(f, p, scale * (p == e.second ? 1.0 : 2.0 + p));
    }
}
std::vector<Feat> queries(const Table &t) {
  std::vector<Feat> q;
  for (auto &e : t) q.push_back(e.first);
  int F = (int)t.begin()->first.size();
  if (F == 1) {
    std::set<float> v;
    for (auto &e : t) v.insert(e.first[0]);
    for (float x : around(v))
      if (std::fabs(x) < 1e30) q.push_back({x});
  } else
    for (auto &f : probes(F)) {
      bool ok = true;
      for (float x : f) ok = ok && std::fabs(x) < 1e30;
      if (ok) q.push_back(f);
    }
  return q;
}
std::string selections(Ctx &c, Apollo::Region *r, const std::vector<Feat> &q) {
  std::string s;
  for (auto f : q) s += fmt("%d ", r->model->getIndex(f));
  c.step((int)q.size());
  return s;
}
int file_int(const std::string &text, const char *key, bool max) {
  int v = -1;
  for (size_t p = text.find(key); p != std::string::npos; p = text.find(key, p + 1)) {
    int k = atoi(text.c_str() + p + strlen(key));
    if (v < 0 || (max && k > v)) v = k;
  }
  return v;
}

struct Kind {
  bool forest;
  int trees, depth;
  std::string name() const { return forest ? "RandomForest" : "DecisionTree"; }
  std::string info() const { return forest ? fmt("RandomForest,num_trees=%d,max_depth=%d", trees, depth) : fmt("DecisionTree,max_depth=%d", depth); }
};

// What any trained model of the table must do; returns its selections.
std::string check_model(Ctx &c, Apollo::Region *r, const Table &t, const Kind &k, int step, bool stored = true) {
  auto q = queries(t);
  std::set<int> cls;
  for (auto &e : t) cls.insert(e.second);
  for (auto f : q) {
    int p = r->model->getIndex(f);
    c.check(cls.count(p), "class", fmt("%s: selected %d, never the best", str(f).c_str(), p));
  }
  if (!k.forest && k.depth >= (int)t.size())
    for (auto &e : t) {
      Feat f = e.first;
      int p = r->model->getIndex(f);
      c.check(p == e.second, "reproduces", fmt("%s: selected %d, the best is %d", str(f).c_str(), p, e.second));
    }
  if (!k.forest && t.begin()->first.size() == 1 && k.depth < 20) {  // at most 2^depth leaves
    std::set<float> v;
    for (auto &e : t) v.insert(e.first[0]);
    int changes = 0, last = -1;
    for (float x : v) {
      Feat f{x};
      int p = r->model->getIndex(f);
      changes += p != last;
      last = p;
    }
    c.check(changes <= (1 << k.depth), "depth", fmt("%d intervals from depth %d", changes, k.depth));
  }
  std::string s = selections(c, r, q);
  if (stored) {
    std::string latest = ".apollo/models/" + k.name() + "-latest-rank-0-" + r->name + ".yaml", f = fmt(".apollo/models/%s-step-%d-rank-0-%s.yaml", k.name().c_str(), step, r->name);
    c.check(exists(latest) && exists(f), "stored", "no model file");
    c.check(read_file(latest) == read_file(f), "stored", "the latest model is not the last one");
    std::string text = read_file(f);
    if (text.find("%YAML") == 0) {
      int d = file_int(text, " depth: ", true);
      c.check(d <= k.depth, "max-depth", fmt("depth %d, configured %d", d, k.depth));
      if (k.forest) {
        int n = file_int(text, " ntrees: ", false);
        c.check(n <= k.trees && n >= 1, "num-trees", fmt("%d trees, configured %d", n, k.trees));
      }
    }
  }
  c.obs(s);
  c.state(hash_str(s + k.info()));
  c.validated();
  return s;
}

void tables(Ctx &c, bool forest, const std::vector<Feat> &pts, const std::vector<int> &pol, const std::vector<int> &trees, const std::vector<int> &depths) {
  Kind k{forest, forest ? c.pick(trees, "trees") : 0, c.pick(depths, "depth")};
  Table t;
  for (auto &f : pts) {
    int x = c.choose((int)pol.size() + 1, "best");
    if (x < (int)pol.size()) t[f] = pol[x];
  }
  if (t.empty()) return;
  int P = *std::max_element(pol.begin(), pol.end()) + 1, F = (int)pts[0].size();
  auto q = queries(t);
  std::string s;
  {
    World w({{"STORE_MODELS", "1"}});
    auto *r = new Apollo::Region(F, "r", P, 0, k.info());
    c.check(r->model->isTrainable(), "explores", "a new region does not explore");
    measure(r, t, P, 1.0);
    seed();
    r->train(3);
    c.check(!r->model->isTrainable(), "frozen", "still exploring after training");
    s = check_model(c, r, t, k, 3);
    auto *o = new Apollo::Region(F, "other", P, 0, k.info());
    measure(o, t, P, 1.0);
    seed();
    w->train(3);
    c.check(check_model(c, o, t, k, 3) == s, "deterministic", "the same measurements gave another model");
    c.check(selections(c, r, q) == s, "influence", "the model of another region changed this one");
  }
  World w({});
  std::string file = ".apollo/models/" + k.name() + "-step-3-rank-0-r.yaml";
  auto *a = new Apollo::Region(F, "r", P, 0, k.info() + ",load");
  auto *b = new Apollo::Region(F, "b", P, 0, k.info() + ",load=" + file);
  auto *d = new Apollo::Region(F, "d", P, 0, k.info(), file);
  auto *n = new Apollo::Region(F, "n", P, 0, k.info());
  n->model->load(file);
  int i = 0;
  for (auto *x : {a, b, d, n}) {
    c.check(!x->model->isTrainable(), "loaded", fmt("way %d: still exploring with a loaded model", i));
    std::string g = selections(c, x, q);
    c.check(g == s, "reload", fmt("way %d of loading: selects ", i) + g + " instead of " + s);
    i++;
  }
  n->model->store("again");
  auto *m = new Apollo::Region(F, "m", P, 0, k.info(), "again");
  c.check(selections(c, m, q) == s, "reload", "stored and loaded again it selects otherwise");
}

// Tables that need the whole depth.
void deep(Ctx &c) {
  int n = c.pick(std::vector<int>{5, 9, 12, 17, 24}, "samples"), P = 2 + c.choose(2, "policies"), step = 1 + c.choose(3, "pattern");
  Kind k{false, 0, n};
  bool load = c.flip("load");
  Table t;
  for (int i = 0; i < n; i++) t[{(float)(i * i)}] = (i * step) % P;
  std::string s;
  {
    World w({{"STORE_MODELS", "1"}});
    auto *r = new Apollo::Region(1, "r", P, 0, k.info());
    measure(r, t, P, 1.0);
    seed();
    r->train(3);
    s = check_model(c, r, t, k, 3);
  }
  if (!load) return;
  World w({});
  auto *a = new Apollo::Region(1, "r", P, 0, k.info() + ",load");
  c.check(selections(c, a, queries(t)) == s, "reload", "the loaded tree selects otherwise");
}

// Retraining forgets: the same as a new region with the same data.
void retrain(Ctx &c) {
  Kind k{c.flip("forest"), 10, 5};
  const std::vector<Feat> pts{{0}, {1}, {5}};
  int P = 3;
  Table a, b;
  for (auto &f : pts) a[f] = c.choose(P, "first");
  for (auto &f : pts) b[f] = c.choose(P, "second");
  World w({{"STORE_MODELS", "1"}});
  auto *r = new Apollo::Region(1, "r", P, 0, k.info());
  measure(r, a, P, 1);
  seed();
  w->train(0);
  std::string s = check_model(c, r, a, k, 0);
  measure(r, b, P, 1e-3);
  w->train(1);
  c.check(selections(c, r, queries(a)) == s, "frozen", "an unforced training changed a trained model");
  seed();
  r->train(2, true, true);
  std::map<Feat, std::pair<int, double>> best;
  std::vector<Feat> fs;
  std::vector<int> rs;
  RefData ref = to_ref(r->dataset);
  Table t = ref.best();
  std::string u = check_model(c, r, t, k, 2);
  auto *o = new Apollo::Region(1, "o", P, 0, k.info());
  o->dataset.insert(r->dataset);
  seed();
  o->train(2);
  c.check(selections(c, o, queries(t)) == u, "retrain", "the retrained model is not that of a new region");
}

// Exploration until the training, all policies.
void exploring(Ctx &c) {
  int kind = c.choose(4, "model");
  const char *info[] = {"DecisionTree", "RandomForest", "DecisionTree,explore=RoundRobin", "RandomForest,explore=RoundRobin"};
  int P = 1 + c.choose(4, "policies"), n = c.choose(8, "executions"), min = c.choose(5, "minimum");
  seed();
  World w({});
  auto *r = new Apollo::Region(1, "r", P, min, info[kind]);
  std::set<std::pair<float, int>> seen;
  bool trained = false;
  for (int i = 0; i < n; i++) {
    float x = (float)(i % 2);
    bool t = trained;
    int p = exec(r, {x}, 1.0 + (i * 3) % 4);
    c.step();
    c.check(p >= 0 && p < P, "range", fmt("selected %d of %d", p, P));
    if (!t) c.check(p == i % P, "explores", fmt("execution %d selects %d of %d", i, p, P));
    if (!t) seen.insert({x, p});
    if (min && (int)seen.size() >= min) trained = true;
    c.check(r->model->isTrainable() == !trained, "due", fmt("after execution %d with %zu measurements, minimum %d", i, seen.size(), min));
    c.check(r->dataset.size() == seen.size(), "recorded", fmt("%zu measurements, expected %zu", r->dataset.size(), seen.size()));
  }
  c.state(mix(mix(kind, P), mix(n, min)));
  c.obs(trained);
  c.validated();
}

// The timing model: predictions of the best measured times.
void timing(Ctx &c, const std::vector<Feat> &pts) {
  const double times[] = {0.5, 1.0, 8.0};
  std::map<Feat, double> best;
  for (auto &f : pts) {
    int k = c.choose(4, "time");
    if (k < 3) best[f] = times[k];
  }
  if (best.empty()) return;
  int P = 1 + c.choose(3, "policies"), F = (int)pts[0].size();
  bool store = c.flip("store");
  Env e{{"RETRAIN_ENABLE", "1"}};
  if (store) e["STORE_MODELS"] = "1";
  World w(e);
  auto *r = new Apollo::Region(F, "r", P, 0, "DecisionTree,max_depth=3");
  double lo = 1e9, hi = 0, x0 = 1e9, x1 = -1e9;
  int i = 0;
  for (auto &b : best) {
    for (int p = 0; p < P; p++) {
      Feat f = b.first;
      r->dataset.insert(f, p, b.second + 3.0 * ((p + P - i % P) % P));
    }
    i++;
    lo = std::min(lo, b.second), hi = std::max(hi, b.second);
  }
  (void)x0, (void)x1;
  Apollo::Dataset copy;
  copy.insert(r->dataset);
  seed();
  r->train(4);
  c.check((bool)r->time_model, "built", "no timing model");
  seed();
  auto again = apollo::ModelFactory::createRegressionTree(copy);
  cv::Ptr<cv::ml::RTrees> read;
  if (store) {
    c.check(exists("regtree-step-4-rank-0-r.yaml") && exists("regtree-latest-rank-0-r.yaml"), "stored", "no timing model file");
    read = cv::ml::RTrees::load("regtree-latest-rank-0-r.yaml");
  } else
    c.check(!exists("regtree-step-4-rank-0-r.yaml") && !exists("regtree-latest-rank-0-r.yaml"), "stored", "an unrequested timing model file");
  Table keys;
  for (auto &b : best) keys[b.first] = 0;
  std::string s;
  for (auto f : queries(keys)) {
    double p = r->time_model->getTimePrediction(f);
    c.step();
    c.check(p >= lo - 1e-5 && p <= hi + 1e-5, "range", fmt("%s: predicted %g, the best measured times lie in %g .. %g", str(f).c_str(), p, lo, hi));
    double q = again->getTimePrediction(f);
    c.check(p == q, "deterministic", fmt("%s: predicted %g, by another model of the same data %g", str(f).c_str(), p, q));
    if (read) {
      double z = read->predict(f);
      c.check(std::fabs(z - p) < 1e-4, "stored", fmt("%s: predicted %g, by the stored model %g", str(f).c_str(), p, z));
    }
    s += fmt("%.3f ", p);
  }
  // Two groups that one feature separates keep their order.
  for (int j = 0; j < F; j++) {
    std::map<float, std::pair<double, double>> by;
    for (auto &b : best) {
      auto it = by.emplace(b.first[j], std::make_pair(b.second, b.second)).first;
      it->second.first = std::min(it->second.first, b.second);
      it->second.second = std::max(it->second.second, b.second);
    }
    if (by.size() < 2 || F > 1) continue;
    bool up = true, down = true;
    std::vector<std::pair<float, std::pair<double, double>>> v(by.begin(), by.end());
    for (size_t k = 1; k < v.size(); k++) up = up && v[k - 1].second.first <= v[k].second.first, down = down && v[k - 1].second.first >= v[k].second.first;
    if (up == down) continue;
    Feat a{v.front().first}, b{v.back().first};
    double pa = r->time_model->getTimePrediction(a), pb = r->time_model->getTimePrediction(b);
    c.check(up ? pa < pb : pa > pb, "order", fmt("best times go %s but %g is predicted at one end and %g at the other", up ? "up" : "down", pa, pb));
  }
  c.obs(s);
  c.state(hash_str(s));
  c.validated();
}

// Another training with other measurements: another timing model, as that of
// a new region.
void retiming(Ctx &c) {
  std::string info = c.pick(std::vector<std::string>{"DecisionTree,max_depth=3", "RandomForest,num_trees=3", "PolicyNet"}, "model");
  const double times[] = {0.5, 1.0, 8.0};
  std::vector<double> a, b;
  for (int i = 0; i < 3; i++) a.push_back(times[c.choose(3, "first")]);
  for (int i = 0; i < 3; i++) b.push_back(times[c.choose(3, "second")]);
  bool cleared = c.flip("cleared");
  int N = 3 * c.pick(std::vector<int>{1, 12}, "size");
  World w({{"RETRAIN_ENABLE", "1"}, {"STORE_MODELS", "1"}});
  auto *r = new Apollo::Region(1, "r", 2, 0, info);
  auto put = [&](const std::vector<double> &v) {
    for (int i = 0; i < N; i++) {
      Feat f{(float)i * 2}, g = f;
      r->dataset.insert(f, i % 2, v[i % 3]);
      r->dataset.insert(g, 1 - i % 2, v[i % 3] + 2);
    }
  };
  put(a);
  seed();
  r->train(1, true, true);
  if (cleared) r->dataset.clear();
  put(b);
  seed();
  r->train(2, true, true);
  c.check((bool)r->time_model, "built", "no timing model");
  seed();
  double lo = 1e9, hi = 0;
  {
    std::map<Feat, double> m;
    for (auto &e : to_ref(r->dataset).d) {
      auto it = m.emplace(e.first.first, e.second).first;
      it->second = std::min(it->second, e.second);
    }
    for (auto &e : m) lo = std::min(lo, e.second), hi = std::max(hi, e.second);
  }
  auto fresh = apollo::ModelFactory::createRegressionTree(r->dataset);
  auto read = cv::ml::RTrees::load("regtree-latest-rank-0-r.yaml");
  std::string s;
  for (float x : {-1.f, 0.f, 0.9f, 1.1f, 2.f, 2.9f, 3.1f, 4.f, 9.f}) {
    Feat f{x};
    double p = r->time_model->getTimePrediction(f), q = fresh->getTimePrediction(f), z = read->predict(f);
    c.step();
    c.check(p >= lo - 1e-5 && p <= hi + 1e-5, "range", fmt("%s, %g: predicted %g, the best measured times lie in %g .. %g", info.c_str(), x, p, lo, hi));
    // The other models draw from the same generator before.
    if (info[0] == 'D') c.check(p == q, "retrained", fmt("%s, %g: the timing model predicts %g, that of the same data %g", info.c_str(), x, p, q));
    c.check(std::fabs(p - z) < 1e-4, "stored", fmt("%s, %g: the timing model predicts %g, the latest stored one %g", info.c_str(), x, p, z));
    s += fmt("%.3f ", p);
  }
  c.obs(s);
  c.state(hash_str(s));
  c.validated();
}

// Files that are not there.
void missing(Ctx &c) {
  bool forest = c.flip("forest");
  int way = c.choose(3, "way");
  std::string name = forest ? "RandomForest" : "DecisionTree";
  Outcome o = forked([&](std::string &out) {
    World w({});
    Apollo::Region *r;
    if (way == 0) r = new Apollo::Region(1, "r", 2, 0, name + ",load");
    if (way == 1) r = new Apollo::Region(1, "r", 2, 0, name + ",load=nothing");
    if (way == 2) r = new Apollo::Region(1, "r", 2, 0, name, "nothing");
    Feat f{1};
    out = fmt("%d", r->model->getIndex(f));
  });
  c.check(o.loud() || (o.kind == Outcome::EXIT && o.code != 0), "missing", "a model file that does not exist: " + o.str());
  c.state(way);
  c.validated();
}
}  // namespace

void mc::scenarios(std::vector<Scenario> &out) {
  cv::setNumThreads(0);
  std::vector<Feat> p1{{-1.5f}, {0}, {1}, {7}};
  if (thorough) p1.push_back({8});
  out.push_back({"trees-1d", [p1](Ctx &c) { tables(c, false, p1, {0, 1, 4}, {}, {1, 2, 6}); }});
  out.push_back({"trees-2d", [](Ctx &c) { tables(c, false, product({0, 2}, 2), {0, 2, 3}, {}, {1, 6}); }});
  out.push_back({"forests-1d", [p1](Ctx &c) { tables(c, true, p1, {0, 2}, {1, 5, 10}, {1, 6}); }});
  out.push_back({"forests-2d", [](Ctx &c) { tables(c, true, product({0, 2}, 2), {1, 2}, {4}, {2, 6}); }});
  // values close together, and many of them
  out.push_back({"close", [](Ctx &c) {
                   float d = c.pick(std::vector<float>{0.001f, 0.01f, 0.5f, 100000.f}, "distance"), b = c.pick(std::vector<float>{0, -3, 1}, "base");
                   tables(c, c.flip("forest"), {{b}, {b + d}, {b + 2 * d}, {b + 3 * d}}, {0, 2}, {5}, {6});
                 }});
  out.push_back({"deep", deep});
  out.push_back({"retrain", retrain});
  out.push_back({"exploring", exploring});
  out.push_back({"timing-1d", [p1](Ctx &c) { timing(c, p1); }});
  out.push_back({"timing-2d", [](Ctx &c) { timing(c, product({0, 2}, 2)); }});
  out.push_back({"retiming", retiming});
  out.push_back({"missing", missing});
}
