// C07: persistent datasets survive restarts exactly.
#include "world.h"
using namespace mc;
using namespace w;

namespace {
std::string file(const std::string &n, const std::string &dir = ".apollo/datasets") { return dir + "/Dataset-" + n + ".yaml"; }

// What the next run sees of a region, without running anything in it.
void compare(Ctx &c, const RefData &ref, Apollo::Region *r, const char *when) {
  std::string e = diff(ref, r->dataset);
  c.check(e.empty(), "dataset", std::string(when) + ": " + e);
  c.validated();
}

// Runs with executions in one or two regions, restarts in between.
void runs(Ctx &c) {
  const std::vector<const char *> models{"RoundRobin", "DecisionTree", "Static"};
  const char *info = c.pick(models, "model");
  int R = thorough ? 4 : 3;
  std::map<std::string, RefData> ref;
  const std::vector<Feat> F{{0.1f}, {1e6f + 1}};
  const std::vector<double> M{0.1, 1.0 / 3};
  for (int run = 0; run < R; run++) {
    World w({{"PERSISTENT_DATASETS", "1"}});
    Apollo::Region *r[2] = {nullptr, nullptr};
    int k = c.choose(4, "regions");  // none, a, b, both
    const char *names[2] = {"a", "a-b"};
    for (int i = 0; i < 2; i++)
      if (k & (1 << i)) {
        r[i] = new Apollo::Region(1, names[i], 2, 0, info);
        compare(c, ref[names[i]], r[i], "at creation");
      }
    if (!k) continue;
    int n = c.choose(3, "executions");
    for (int j = 0; j < n; j++) {
      int i = k == 3 ? j % 2 : k - 1;
      Feat f = c.pick(F, "f");
      double m = M[(j + run) % 2] * (run + 1);
      int p = exec(r[i], f, m);
      c.step();
      ref[names[i]].insert(f, p, m);
      c.note(fmt("run %d: execute %s %s policy %d metric %.17g", run, names[i], str(f).c_str(), p, m));
    }
    for (int i = 0; i < 2; i++)
      if (r[i]) compare(c, ref[names[i]], r[i], "at the end");
    c.state(mix(ref["a"].hash(), ref["a-b"].hash()));
  }
  World w({{"PERSISTENT_DATASETS", "1"}});
  for (const char *n : {"a", "a-b", "a-b-c"}) compare(c, ref[n], new Apollo::Region(1, n, 2, 0, info), "in the last run");
  c.obs(mix(ref["a"].hash(), ref["a-b"].hash()));
}

// Values: any features, any metric, any arity come back bit for bit.
void values(Ctx &c) {
  const float e = std::nextafterf(1.f, 2);
  const std::vector<float> V{0.f, -0.1f, e, 1000001.f, 16777216.f, 3.4028234e38f, -1.17549435e-38f, 123456.789f, 1e10f, 0.33333334f, 1e-40f};
  const std::vector<double> M{0.0, 0.1, 1e-300, 1.7976931348623157e308, 1234567.8901234567, 1.0 / 3, 5e-7, std::nextafter(1.0, 2), 5e-324};
  int F = c.choose(6, "F");
  int n = 1 + c.choose(3, "entries");
  int v0 = c.choose((int)V.size(), "v"), stride = 1 + c.choose(3, "stride");
  int m0 = c.choose((int)M.size(), "m");
  int P = c.pick(std::vector<int>{1, 100000}, "P");
  int restarts = 1 + c.choose(3, "restarts");
  RefData ref;
  {
    World w({{"PERSISTENT_DATASETS", "1"}});
    auto *r = new Apollo::Region(F, "r", P, 0, "Static,policy=" + std::to_string(P - 1));
    for (int i = 0; i < n; i++) {
      Feat f;
      for (int j = 0; j < F; j++) f.push_back(V[(v0 + i + j * stride) % V.size()]);
      double m = M[(m0 + i) % M.size()];
      int p = exec(r, f, m);
      c.step();
      ref.insert(f, p, m);
    }
  }
  for (int i = 0; i < restarts; i++) {
    World w({{"PERSISTENT_DATASETS", "1"}});
    auto *r = new Apollo::Region(F, "r", P, 0, "Static");
    compare(c, ref, r, "after the restart");
  }
  c.state(ref.hash());
  c.obs(ref.hash());
}

// Neighbouring numbers of every magnitude.
void digits(Ctx &c) {
  int e = c.choose(83, "magnitude") - 45;
  int first = c.choose(3, "first");
  RefData ref;
  float x = std::pow(10.0, e) * (first == 0 ? 1 : first == 1 ? -7.0 / 3 : 1.7);
  double m = (double)x * 1.1 * (x < 1 && first ? std::pow(10.0, 7 * std::min(e, 0)) : 1);
  {
    World w({{"PERSISTENT_DATASETS", "1"}});
    auto *r = new Apollo::Region(1, "r", 2, 0, "RoundRobin");
    for (int i = 0; i < 24; i++) {
      ref.insert({x}, exec(r, {x}, m), m);
      c.step();
      x = nextafterf(x, INFINITY);
      m = nextafter(m, INFINITY);
    }
  }
  World w({{"PERSISTENT_DATASETS", "1"}});
  compare(c, ref, new Apollo::Region(1, "r", 2, 0, "RoundRobin"), "after the restart");
  c.state(ref.hash());
  c.obs(ref.hash());
}

// Region names and directories.
void names(Ctx &c) {
  const std::string L(62, 'k');
  const std::vector<std::string> N{"a", "A", "a.yaml", "Dataset-a", "a b", "a,b", L + "1", L + "2", "3" + L + "44", "4" + L + std::string(40, 'z')};
  int i = c.choose((int)N.size(), "first"), j = c.choose((int)N.size(), "second");
  int dirs = c.choose(3, "dirs");
  Env env{{"PERSISTENT_DATASETS", "1"}};
  std::string d = ".apollo/datasets";
  if (dirs == 1) env["OUTPUT_DIR"] = "o u t", d = "o u t/datasets";
  if (dirs == 2) env["OUTPUT_DIR"] = "x", env["DATASETS_DIR"] = "data", d = "x/data";
  RefData a, b;
  auto fill = [&](Apollo::Region *r, RefData &ref, float v) {
    for (int k = 0; k < 3; k++) {
      Feat f{v + k};
      ref.insert(f, exec(r, f, v * 2 + k), v * 2 + k);
      c.step();
    }
  };
  {
    World w(env);
    fill(new Apollo::Region(1, N[i].c_str(), 2, 0, "RoundRobin"), a, 1);
    if (i != j) fill(new Apollo::Region(1, N[j].c_str(), 2, 0, "RoundRobin"), b, 100);
  }
  if (N[i].size() <= 63) c.check(exists(file(N[i], d)), "file", file(N[i], d) + " was not written");
  {
    World w(env);
    compare(c, a, new Apollo::Region(1, N[i].c_str(), 2, 0, "RoundRobin"), "first region");
    if (i != j) compare(c, b, new Apollo::Region(1, N[j].c_str(), 2, 0, "RoundRobin"), "second region");
  }
  c.state(mix(mix(i, j), dirs));
}

// Training at creation from what an earlier run measured.
void train_at_creation(Ctx &c) {
  const char *kind = c.pick(std::vector<const char *>{"DecisionTree,max_depth=9", "RandomForest,num_trees=3,max_depth=9"}, "model");
  int P = 2 + c.choose(2, "P");
  int how = c.choose(4, "how");  // min size reached, not reached, load-dataset with and without persistence
  int pts = 1 + c.choose(3, "points");
  std::vector<int> best;
  for (int i = 0; i < pts; i++) best.push_back(c.choose(P, "best"));
  RefData ref;
  const float vals[3] = {0.1f, 0.30000001f, 1000001.f};
  std::vector<int> e, g;
  auto q = around({vals[0], vals[1], vals[2]});
  {
    World w({{"PERSISTENT_DATASETS", "1"}});
    auto *r = new Apollo::Region(1, "r", P, 0, kind);
    for (int i = 0; i < pts; i++)
      for (int p = 0; p < P; p++) {
        Feat f{vals[i]};
        double m = p == best[i] ? 0.1 : 0.1000001;
        int got = exec(r, f, m);
        c.step();
        ref.insert(f, got, m);
      }
    // the original measurements, trained directly
    auto *x = new Apollo::Region(1, "x", P, 0, kind);
    x->dataset.insert(r->dataset);
    x->train(0);
    for (float v : q) e.push_back(exec(x, {v}, 1));
  }
  Env env;
  if (how <= 2) env["PERSISTENT_DATASETS"] = "1";
  int min = how == 0 ? pts * P : how == 1 ? pts * P + 1 : 0;
  World w(env);
  auto *r = new Apollo::Region(1, "r", P, min, std::string(kind) + (how >= 2 ? ",load-dataset" : ""));
  compare(c, ref, r, "at creation");
  if (how == 1) {
    c.check(r->model->isTrainable(), "trained", "trained below the minimum size");
  } else {
    for (float v : q) g.push_back(query(r, {v}));
    for (size_t i = 0; i < q.size(); i++)
      c.check(e[i] == g[i], "trained", fmt("%.9g: trained from the stored dataset selects %d, from the measurements %d", q[i], g[i], e[i]));
  }
  c.state(mix(ref.hash(), how));
  c.obs(ref.hash());
}

// Many entries, long histories, and trained (frozen) models go on recording.
void long_lived(Ctx &c) {
  int n = c.pick(thorough ? std::vector<int>{1, 7, 50, 300, 2000} : std::vector<int>{1, 7, 60, 400}, "executions");
  int F = 1 + c.choose(4, "F");
  int runs = 2 + c.choose(3, "runs");
  bool train = c.flip("train");
  RefData ref;
  for (int run = 0; run < runs; run++) {
    World w({{"PERSISTENT_DATASETS", "1"}});
    auto *r = new Apollo::Region(F, "r", 3, 0, train ? "DecisionTree" : "RoundRobin");
    compare(c, ref, r, "at creation");
    for (int i = 0; i < n; i++) {
      Feat f;
      for (int j = 0; j < F; j++) f.push_back((i * 37 % 101) * 0.1f + j + run % 2);
      double m = 1.0 / (1 + i + run);
      ref.insert(f, exec(r, f, m), m);
      c.step();
      if (train && i == n / 2) r->train(i);
    }
    compare(c, ref, r, "at the end");
  }
  World w({{"PERSISTENT_DATASETS", "1"}});
  compare(c, ref, new Apollo::Region(F, "r", 3, 0, "RoundRobin"), "in the last run");
  c.state(ref.hash());
  c.obs(ref.hash());
}

// A moving average that decays towards zero, through all magnitudes.
void decay(Ctx &c) {
  int n = c.choose(thorough ? 1100 : 110, "zeros") * (thorough ? 1 : 10), runs = 1 + c.choose(2, "runs");
  double m = c.pick(std::vector<double>{1.0, 0.1, 1e300}, "first");
  RefData ref;
  for (int run = 0; run < runs; run++) {
    World w({{"PERSISTENT_DATASETS", "1"}});
    auto *r = new Apollo::Region(1, "r", 1, 0, "Static");
    compare(c, ref, r, "at creation");
    for (int i = 0; i <= n; i++) ref.insert({2}, exec(r, {2}, i || run ? 0.0 : m), i || run ? 0.0 : m);
    c.step();
  }
  World w({{"PERSISTENT_DATASETS", "1"}});
  compare(c, ref, new Apollo::Region(1, "r", 1, 0, "Static"), "after the restart");
  c.state(ref.hash());
  c.obs(ref.hash());
}
}  // namespace

void mc::scenarios(std::vector<Scenario> &out) {
  out.push_back({"runs", runs});
  out.push_back({"values", values});
  out.push_back({"digits", digits});
  out.push_back({"names", names});
  out.push_back({"train-at-creation", train_at_creation});
  out.push_back({"long-lived", long_lived});
  out.push_back({"decay", decay});
}
