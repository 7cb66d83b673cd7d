// C09: each execution is recorded exactly once, with its own data.
#include "world.h"
using namespace mc;
using namespace w;

namespace {
// The reference of one region: what has been completed, what is in progress.
struct RefRegion {
  RefData data;
  int begun = 0, completed = 0;
  bool open = false;
  Feat f;
  int policy = 0;
  double begin_s = 0;
};

void compare(Ctx &c, const RefData &ref, Apollo::Region *r, const std::string &when) {
  std::string e = diff_tol(ref, r->dataset, 1e-7);
  c.check(e.empty(), "recorded", when + ": " + e);
  c.validated();
}

// The run summary and the execution info file.
void counts(Ctx &c, World &w, const std::vector<std::pair<std::string, int>> &exp, int total, const std::string &dir) {
  std::string err = w.end();
  size_t p = err.find("total region executions: ");
  c.check(p != std::string::npos && atoi(err.c_str() + p + 25) == total, "summary", fmt("%d executions completed, the summary says: %s", total, err.c_str()));
  std::string s = read_file(dir + "/apollo_exec_info.csv");
  std::map<std::string, int> got;
  std::istringstream is(s);
  std::string l;
  int lines = 0;
  while (std::getline(is, l)) {
    size_t k = l.rfind(',');
    if (k == std::string::npos) continue;
    got[l.substr(0, k)] = atoi(l.c_str() + k + 1);
    lines++;
  }
  c.check(lines == (int)exp.size(), "exec-info", "execution info: " + s);
  for (auto &e : exp) c.check(got.count(e.first) && got[e.first] == e.second, "exec-info", fmt("%s was executed %d times, the execution info says: %s", e.first.c_str(), e.second, s.c_str()));
}

const double clocks[4] = {1.0, 0.999999999, 86400.5, 4000000.25};

// Steps of two regions in every interleaving: begin, features, query, end.
void interleave(Ctx &c) {
  bool persistent = c.flip("persistent");
  const char *model = persistent ? "RoundRobin" : "DecisionTree";
  Env env{{"STORE_EXEC_INFO", "1"}};
  if (persistent) env["PERSISTENT_DATASETS"] = "1";
  int style[2] = {c.choose(2, "interface a"), c.choose(2, "interface b")};  // contexts or none
  vclock_ns = (int64_t)(1.5e9);
  World w(env);
  Apollo::Region *r[2] = {new Apollo::Region(2, "a", 3, 0, model), new Apollo::Region(1, "b", 2, 0, model)};
  RefRegion q[2];
  Apollo::RegionContext *x[2] = {nullptr, nullptr};
  int phase[2] = {0, 0}, next[2] = {0, 0};
  int NF[2] = {2, 1}, P[2] = {3, 2};
  int n = thorough ? 15 : 12;
  for (int i = 0; i < n; i++) {
    int k = c.choose(2, "region");
    vclock_ns += 1000000 * (7 + 13 * k + i);
    double t = vclock_ns / 1e9;
    bool ctx = style[k];
    // phases: begin, set features one by one, query, end
    if (phase[k] == 0) {
      x[k] = r[k]->begin();
      q[k].open = true;
      q[k].f.clear();
      q[k].begin_s = t;
      q[k].begun++;
      phase[k]++;
    } else if (phase[k] <= NF[k]) {
      float v = (float)((q[k].begun % 2) + 10 * phase[k]);
      ctx ? r[k]->setFeature(x[k], v) : r[k]->setFeature(v);
      q[k].f.push_back(v);
      phase[k]++;
    } else if (phase[k] == NF[k] + 1) {
      int p = ctx ? r[k]->getPolicyIndex(x[k]) : r[k]->getPolicyIndex();
      c.check(p == next[k], "selection", fmt("selected %d, expected %d", p, next[k]));
      next[k] = (next[k] + 1) % P[k];
      q[k].policy = p;
      phase[k]++;
    } else {
      bool given = q[k].begun % 2;
      double m = given ? 0.25 * q[k].begun : t - q[k].begin_s;
      if (given) ctx ? r[k]->end(x[k], m) : r[k]->end(m);
      else ctx ? r[k]->end(x[k]) : r[k]->end();
      q[k].data.insert(q[k].f, q[k].policy, m);
      q[k].completed++;
      q[k].open = false;
      phase[k] = 0;
    }
    c.step();
    for (int j = 0; j < 2; j++) compare(c, q[j].data, r[j], fmt("after step %d, region %d", i, j));
    c.state(mix(mix(q[0].data.hash(), q[1].data.hash()), phase[0] * 8 + phase[1]));
  }
  c.obs(mix(q[0].data.hash(), q[1].data.hash()));
  counts(c, w, {{"a", q[0].begun}, {"b", q[1].begun}}, q[0].completed + q[1].completed, ".apollo");
}

// One region: every sequence of executions by interface, arity and metric.
void sequence(Ctx &c) {
  int F = c.choose(3, "F");
  const char *model = c.pick(std::vector<const char *>{"DecisionTree", "PolicyNet"}, "model");
  if (F == 0) model = "DecisionTree";
  set_random({1});
  World w({{"STORE_EXEC_INFO", "1"}, {"OUTPUT_DIR", "elsewhere"}});
  auto *r = new Apollo::Region(F, "r", 2, 0, model);
  RefData ref;
  int n = thorough ? 5 : 4;
  for (int i = 0; i < n; i++) {
    int how = c.choose(6, "how");
    float v = (float)c.choose(2, "v");
    Feat f;
    for (int j = 0; j < F; j++) f.push_back(v + j * 3);
    vclock_ns = (int64_t)(clocks[i % 4] * 1e9);
    int64_t b = vclock_ns;
    int p;
    double m = 0.5 + i;
    int64_t dt = i % 2 ? 3 : 2000000007;
    if (how == 0) {  // features at the start, metric given
      auto *x = r->begin(f);
      p = r->getPolicyIndex(x);
      r->end(x, m);
    } else if (how == 1) {  // features at the start, timed
      auto *x = r->begin(f);
      p = r->getPolicyIndex(x);
      vclock_ns += dt;
      r->end(x);
      m = dt / 1e9;
    } else if (how == 2) {  // one by one, context-less
      r->begin();
      for (float y : f) r->setFeature(y);
      p = r->getPolicyIndex();
      r->end(m);
    } else if (how == 3) {  // one by one, timed, context-less
      r->begin();
      vclock_ns += dt;
      for (float y : f) r->setFeature(y);
      p = r->getPolicyIndex();
      vclock_ns += dt;
      r->end();
      m = 2 * dt / 1e9;
    } else if (how == 4) {  // mixed: context from begin, context-less end
      auto *x = r->begin(Apollo::Region::TIMING_SYNC);
      for (float y : f) r->setFeature(x, y);
      p = r->getPolicyIndex();
      r->end(m);
    } else {  // asked twice: the last answer counts
      auto *x = r->begin(f);
      r->getPolicyIndex(x);
      p = r->getPolicyIndex(x);
      vclock_ns += dt;
      r->end(x);
      m = dt / 1e9;
    }
    (void)b;
    c.step();
    ref.insert(f, p, m);
    // near the resolution of the clock the elapsed time is rounded
    RefData got = to_ref(r->dataset);
    c.check(got.d.size() == ref.d.size() && r->dataset.size() == ref.d.size(), "recorded", fmt("execution %d (way %d): expected %s got %s", i, how, ref.str().c_str(), got.str().c_str()));
    for (auto &e : ref.d) {
      auto it = got.d.find(e.first);
      c.check(it != got.d.end() && std::fabs(it->second - e.second) <= 1e-7 * std::fabs(e.second) + 5e-9, "recorded", fmt("execution %d (way %d): expected %s got %s", i, how, ref.str().c_str(), got.str().c_str()));
    }
    c.validated();
    c.state(mix(ref.hash(), i));
  }
  c.obs(ref.hash());
  counts(c, w, {{"r", n}}, n, "elsewhere");
}

// Models that no longer record (trained, or not trainable at all), recording
// or not: every execution is still one of its own features, however the one
// before it was given or given up.
void frozen(Ctx &c) {
  int F = 1 + c.choose(2, "F");
  int kind = c.pick(thorough ? std::vector<int>{0, 1, 2} : std::vector<int>{0, 2}, "model");
  const char *info[] = {"DecisionTree,max_depth=9", "RandomForest,num_trees=3,max_depth=9", "Static,policy=1"};
  bool persistent = c.flip("persistent");
  vclock_ns = (int64_t)5e9;
  Env env{{"STORE_EXEC_INFO", "1"}};
  if (persistent) env["PERSISTENT_DATASETS"] = "1";
  World w(env);
  auto *r = new Apollo::Region(F, "r", 3, 0, info[kind]);
  RefData ref;
  std::map<Feat, int> expect;
  if (kind < 2) {
    for (auto &f : product({0, 1, 2}, F)) {
      int best = ((int)f[0] + (F > 1 ? 2 * (int)f[1] : 0)) % 3;
      for (int p = 0; p < 3; p++) {
        Feat g = f;
        ref.insert(f, p, p == best ? 1.0 : 2.0);
        r->dataset.insert(g, p, p == best ? 1.0 : 2.0);
      }
    }
    w->train(0);
    if (r->model->isTrainable()) return;
    compare(c, ref, r, "after the training");
    for (auto &f : product({0, 1, 2}, F)) {
      Feat g = f;
      expect[f] = r->model->getIndex(g);
      if (kind == 0) c.check(expect[f] == ((int)f[0] + (F > 1 ? 2 * (int)f[1] : 0)) % 3, "learned", str(f) + fmt(" -> %d", expect[f]));
    }
  } else
    for (auto &f : product({0, 1, 2}, F)) expect[f] = 1;
  int begun = 0, completed = 0;
  int n = (F == 1 ? 3 : 2) + (thorough ? 1 : 0);
  for (int i = 0; i < n; i++) {
    int how = c.choose(7, "how");
    Feat f;
    for (int j = 0; j < F; j++) f.push_back((float)c.choose(j == 0 ? 3 : 2, "v"));
    double m = 3 + i;
    Apollo::RegionContext *x = nullptr;
    begun++;
    bool done = true;
    if (how == 0) x = r->begin(f);
    else if (how == 1) {
      x = r->begin();
      for (float v : f) r->setFeature(x, v);
    } else if (how == 2) {
      r->begin();
      for (float v : f) r->setFeature(v);
    } else if (how == 3) {  // given up before the end, then again
      x = r->begin(f);
      r->getPolicyIndex(x);
      begun++;
      x = r->begin();
      for (float v : f) r->setFeature(x, v);
    } else if (how == 4) {  // given up half way through the features
      r->begin();
      if (F > 1) r->setFeature(9);
      begun++;
      r->begin();
      for (float v : f) r->setFeature(v);
    } else if (how == 5) {  // nothing is selected
      x = r->begin(f);
      done = false;
    } else {  // the timed end
      r->begin();
      for (float v : f) r->setFeature(v);
    }
    Apollo::RegionContext *cur = x;
    if (!done) continue;
    if (cur) c.check(cur->features == f, "features", fmt("execution %d (way %d) of %s has the features %s", i, how, str(f).c_str(), str(cur->features).c_str()));
    int p = x ? r->getPolicyIndex(x) : r->getPolicyIndex();
    c.step();
    c.check(p == expect[f], "selection", fmt("execution %d (way %d) of %s: selected %d, the model says %d", i, how, str(f).c_str(), p, expect[f]));
    if (how == 6) {
      int64_t dt = 250000000;
      vclock_ns += dt;
      m = dt / 1e9;
      r->end();
    } else if (x) r->end(x, m);
    else r->end(m);
    completed++;
    if (persistent || r->model->isTrainable()) ref.insert(f, p, m);
    compare(c, ref, r, fmt("execution %d (way %d)", i, how));
    c.state(mix(ref.hash(), mix(i, how)));
  }
  c.obs(mix(begun, completed));
  counts(c, w, {{"r", begun}}, completed, ".apollo");
}

// Any metric and any features are recorded as they are.
void values(Ctx &c) {
  const std::vector<double> M{0.0, -0.0, 1.0, -1.5, 5e-324, 1e-300, 1e-12, 1e-9, 0.1, 1.0 / 3, 16777217.0, 1e12, 1e300, 1.7976931348623157e308, INFINITY};
  const std::vector<float> V{0.f, -1.f, 1e-45f, 1.17549435e-38f, 0.1f, 16777216.f, 4294967296.f, 3.4028234e38f, -3.4028234e38f, INFINITY, -INFINITY};
  int a = c.choose((int)M.size(), "first metric");
  int b = c.choose((int)M.size(), "second metric");
  int v = c.choose((int)V.size(), "features");
  int how = c.choose(3, "how");
  int kind = c.choose(2, "model");
  World w(kind ? Env{{"PERSISTENT_DATASETS", "1"}} : Env{});
  auto *r = new Apollo::Region(2, "r", 1, 0, kind ? "Static" : "DecisionTree");
  RefData ref;
  for (int i = 0; i < 4; i++) {
    Feat f{V[(v + i / 2) % V.size()], V[v]};
    double m = M[i % 2 ? b : a];
    Apollo::RegionContext *x = nullptr;
    if (how == 0) x = r->begin(f);
    else {
      x = r->begin();
      for (float y : f) how == 1 ? r->setFeature(x, y) : r->setFeature(y);
    }
    int p = how == 2 ? r->getPolicyIndex() : r->getPolicyIndex(x);
    c.check(p == 0, "selection", fmt("selected %d of one policy", p));
    vclock_ns += 1500000000;
    how == 2 ? r->end(m) : r->end(x, m);
    ref.insert(f, 0, m);
    c.step();
    RefData got = to_ref(r->dataset);
    bool ok = got.d.size() == ref.d.size() && r->dataset.size() == ref.d.size();
    for (auto &e : ref.d) {
      auto it = got.d.find(e.first);
      // the same up to the rounding of one average
      ok = ok && it != got.d.end() && (it->second == e.second || (std::isnan(it->second) && std::isnan(e.second)) || std::fabs(it->second - e.second) <= 1e-14 * std::fabs(e.second) + 5e-324);
    }
    c.check(ok, "recorded", fmt("metrics %.17g and %.17g, execution %d: expected %s got %s", M[a], M[b], i, ref.str().c_str(), got.str().c_str()));
    c.validated();
    c.state(ref.hash());
  }
  c.obs(ref.hash());
}

// Any number of features: all are recorded, in order, whichever way given.
void wide(Ctx &c) {
  int F = 1 + c.choose(thorough ? 260 : 70, "F");
  int how = c.choose(4, "how");
  bool timed = c.flip("timed");
  int kind = c.choose(2, "model");
  vclock_ns = (int64_t)2e9;
  World w(kind ? Env{{"PERSISTENT_DATASETS", "1"}} : Env{});
  auto *r = new Apollo::Region(F, "r", 2, 0, kind ? "RoundRobin" : "DecisionTree");
  RefData ref;
  for (int i = 0; i < 4; i++) {
    Feat f;
    for (int j = 0; j < F; j++) f.push_back((float)j * 0.1f + (j == F - 1 ? (float)(i / 2) : 0.f));
    double m = 0.1 + i / 3.0;
    Apollo::RegionContext *x = how == 0 ? r->begin(f) : how == 1 ? r->begin(Apollo::Region::TIMING_SYNC) : r->begin();
    if (how)
      for (float y : f) how == 2 ? r->setFeature(y) : r->setFeature(x, y);
    int p = how == 2 ? r->getPolicyIndex() : r->getPolicyIndex(x);
    c.check(p == i % 2, "selection", fmt("selected %d", p));
    if (timed) {
      vclock_ns += 123456789 * (i + 1);
      m = 123456789 * (i + 1) / 1e9;
      how == 2 ? r->end() : r->end(x);
    } else
      how == 2 ? r->end(m) : r->end(x, m);
    ref.insert(f, p, m);
    c.step();
    std::string e = diff_tol(ref, r->dataset, timed ? 1e-8 : 1e-14);
    c.check(e.empty(), "recorded", fmt("%d features, execution %d: ", F, i) + e);
    c.validated();
  }
  c.state(ref.hash());
  c.obs(ref.hash());
}

// Counters over many executions and regions; begun but unfinished ones.
void many(Ctx &c) {
  int R = 1 + c.choose(4, "regions");
  int n = c.pick(std::vector<int>{0, 1, 2, 33, 300, 70000}, "executions");
  bool open = c.flip("leave one open");
  const char *model = c.pick(std::vector<const char *>{"Static", "RoundRobin", "DecisionTree"}, "model");
  bool train = c.flip("train half way");
  World w({{"STORE_EXEC_INFO", "1"}});
  std::vector<Apollo::Region *> r;
  std::vector<std::pair<std::string, int>> exp;
  for (int i = 0; i < R; i++) {
    std::string nm = fmt("region %d", i);
    r.push_back(new Apollo::Region(1, nm.c_str(), 2, 0, model));
    exp.push_back({nm, 0});
  }
  int total = 0;
  for (int i = 0; i < n; i++) {
    int k = (int)((long)i * i % R);
    exec(r[k], {(float)(i % 5)}, 1.0 + i);
    c.step();
    exp[k].second++;
    total++;
    if (train && i == n / 2) w->train(i);
  }
  if (open) {
    r[0]->begin({1.f});
    exp[0].second++;
  }
  c.state(mix(R, n));
  c.validated();
  counts(c, w, exp, total, ".apollo");
}
}  // namespace

void mc::scenarios(std::vector<Scenario> &out) {
  out.push_back({"interleaved-steps", interleave});
  out.push_back({"sequences", sequence});
  out.push_back({"frozen", frozen});
  out.push_back({"counters", many});
  out.push_back({"values", values});
  out.push_back({"many-features", wide});
}
