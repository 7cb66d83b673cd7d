// C02: exploration visits every policy in the documented way.
#include "world.h"
using namespace mc;
using namespace w;

namespace {
const std::vector<const char *> cyclic{"RoundRobin", "DecisionTree", "DecisionTree,explore=RoundRobin", "RandomForest",
                                       "RandomForest,explore=RoundRobin,num_trees=2", "DecisionTree,max_depth=1"};

// Two regions, all interleavings of their executions and all features.
void interleaved(Ctx &c) {
  const char *ia = c.pick(cyclic, "model a"), *ib = c.pick(std::vector<const char *>{"RoundRobin", "RandomForest"}, "model b");
  int P[2] = {1 + c.choose(4, "Pa"), 2 + c.choose(2, "Pb")};
  bool trace = c.flip("persistent");
  World w(trace ? Env{{"PERSISTENT_DATASETS", "1"}} : Env{});
  Apollo::Region *r[2] = {new Apollo::Region(1, "a", P[0], 0, ia), new Apollo::Region(2, "b", P[1], 0, ib)};
  int next[2] = {0, 0};
  int n = thorough ? 9 : 7;
  for (int i = 0; i < n; i++) {
    int k = c.choose(2, "region");
    // features follow the step: distinct, repeated and alternating
    Feat f = k ? Feat{(float)(i % 2), -1.f} : Feat{(float)(i % 3)};
    int p = exec(r[k], f, 1.0 + i % 2);
    c.step();
    c.check(p == next[k], "cyclic", fmt("execution %d, region %d of %d policies: selected %d, expected %d", i, k, P[k], p, next[k]));
    next[k] = (next[k] + 1) % P[k];
    c.state(mix(mix(next[0], next[1]), P[0] * 8 + P[1]));
  }
  c.validated();
}

// One region, all feature sequences; selections of an execution may be asked
// for more than once, executions may overlap with queries of other contexts.
void features(Ctx &c) {
  const char *info = c.pick(cyclic, "model");
  int P = 2 + c.choose(3, "P");
  World w({});
  auto *r = new Apollo::Region(1, "r", P, 0, info);
  int next = 0;
  const std::vector<float> V{0.f, 1.f, -2.5f};
  for (int i = 0; i < (thorough ? 7 : 5); i++) {
    float f = c.pick(V, "f");
    int q = c.choose(3, "style");
    auto *x = q == 0 ? r->begin({f}) : r->begin();
    if (q) r->setFeature(x, f);
    int n = q == 2 ? 2 : 1;
    for (int j = 0; j < n; j++) {
      int p = q == 1 ? r->getPolicyIndex() : r->getPolicyIndex(x);
      c.step();
      c.check(p == next, "cyclic", fmt("selection of execution %d: %d, expected %d", i, p, next));
      next = (next + 1) % P;
    }
    r->end(x, (double)f + 4);
    c.state(mix(next, P));
  }
  c.validated();
}

// Every number of policies, several full cycles.
void cycles(Ctx &c) {
  const char *info = c.pick(cyclic, "model");
  int P = 1 + c.choose(thorough ? 300 : 130, "P");
  int feat = c.choose(5, "features");
  World w({});
  auto *r = new Apollo::Region(feat == 3 ? 0 : feat == 4 ? 20 : 1, "r", P, 0, info);
  for (int i = 0; i < 3 * P + 3; i++) {
    Feat f{feat == 0 ? 1.f : feat == 1 ? (float)i : (float)(i % 2)};
    if (feat >= 3) f.resize(feat == 3 ? 0 : 20, -3.f);
    int p = exec(r, f, 1.0);
    c.step();
    c.check(p == i % P, "cyclic", fmt("selection %d of %d policies: %d", i, P, p));
  }
  c.state(P);
  c.validated();
}

// Many selections of one run, of one region or of several.
void lengthy(Ctx &c) {
  const char *info = c.pick(cyclic, "model");
  int P = c.pick(std::vector<int>{2, 3, 7, 20}, "P"), R = c.pick(std::vector<int>{1, 3, 12}, "regions");
  World w({});
  std::vector<Apollo::Region *> r;
  for (int k = 0; k < R; k++) r.push_back(new Apollo::Region(1, ("r" + std::to_string(k)).c_str(), P, 0, info));
  for (int i = 0; i < (thorough ? 70000 : 4500); i++)
    for (int k = 0; k < R; k++) {
      int p = exec(r[k], {(float)(i % 5)}, 1.0);
      c.step();
      c.check(p == i % P, "cyclic", fmt("region %d, selection %d of %d policies: %d", k, i, P, p));
    }
  c.state(mix(P, R));
  c.validated();
}

// Exploration goes on until the first training, also when a training finds
// nothing to learn from, and across many executions.
void until_trained(Ctx &c) {
  const char *info = c.pick(std::vector<const char *>{"DecisionTree,max_depth=8", "RandomForest,max_depth=8"}, "model");
  int P = 2 + c.choose(3, "P");
  int n = c.choose(3 * P + 2, "executions before training");
  bool early = c.flip("empty training first");
  World w({});
  auto *r = new Apollo::Region(1, "r", P, 0, info);
  if (early) {
    c.flip("whole runtime") ? w->train(0) : r->train(0);
  }
  for (int i = 0; i < n; i++) {
    int p = exec(r, {(float)(i % 2)}, 1.0 + i % 2);
    c.step();
    c.check(p == i % P, "cyclic", fmt("selection %d of %d policies: %d", i, P, p));
  }
  r->train(1);
  if (n == 0)
    for (int i = 0; i < 2 * P; i++) c.check(exec(r, {0}, 1) == i % P, "cyclic", "stopped exploring without any training data");
  c.state(mix(P, n));
  c.validated();
}

// Selections of executions that never complete count; training requests that
// find no measurements, and trainings of other regions, change nothing.
void unfinished(Ctx &c) {
  const char *info = c.pick(std::vector<const char *>{"RoundRobin", "DecisionTree", "RandomForest,num_trees=2", "DecisionTree,explore=RoundRobin"}, "model");
  int P = 2 + c.choose(2, "P");
  World w(c.flip("store") ? Env{{"STORE_MODELS", "1"}} : Env{});
  auto *r = new Apollo::Region(1, "r", P, 0, info);
  auto *o = new Apollo::Region(1, "o", 2, 0, "DecisionTree");
  int next = 0;
  bool measured = false;
  for (int i = 0; i < (thorough ? 7 : 5); i++) {
    int op = c.choose(6, "op");
    if (op == 0) {
      r->begin({(float)i});
      c.check(r->getPolicyIndex() == next, "cyclic", fmt("step %d: an execution that is given up did not select %d", i, next));
      next = (next + 1) % P;
    } else if (op == 1) {
      int p = exec(r, {(float)i}, 1.0);
      c.check(p == next, "cyclic", fmt("step %d: selected %d, expected %d", i, p, next));
      next = (next + 1) % P;
      measured = true;
    } else if (op == 2 || op == 3) {
      if (measured) continue;
      op == 2 ? r->train(i) : r->train(i, true, true);
    } else if (op == 4) {
      if (measured) continue;
      w->train(i);
    } else {
      exec(o, {1}, 1.0);
      o->train(i);
    }
    c.step();
    c.state(mix(mix(hash_str(info), next), measured));
  }
  int p = exec(r, {5}, 1.0);
  c.check(p == next, "cyclic", fmt("at the end: selected %d, expected %d", p, next));
  c.validated();
}

// Random exploration: over all seeds of the enumerated range, every policy is
// selected, about equally often, at each position, whatever the features.
void random_explorer(Ctx &c) {
  const char *info = c.pick(std::vector<const char *>{"Random", "DecisionTree,explore=Random", "RandomForest,explore=Random"}, "model");
  int P = c.pick(std::vector<int>{1, 2, 3, 4, 7, 10, 33, 70, 129}, "P");
  int fs = c.choose(2, "features");
  int block = c.choose(4, "seed block");
  const int N = 400, L = 6;
  std::vector<std::vector<int>> cnt(L, std::vector<int>(P));
  std::vector<std::vector<int>> pair(P, std::vector<int>(P));
  std::vector<int> again(L), before(L);
  for (int s = 0; s < N; s++) {
    unsigned seed = (unsigned)(block * N + s) * 2654435761u;
    set_random({seed, seed ^ 0x1234567u, seed + 99});
    World w({});
    auto *r = new Apollo::Region(1, "r", P, 0, info);
    int last = -1;
    for (int i = 0; i < L; i++) {
      int p = exec(r, {fs ? (float)i : 1.f}, 1.0);
      c.step();
      c.check(0 <= p && p < P, "range", fmt("%d", p));
      cnt[i][p]++;
      if (last >= 0) pair[last][p]++;
      for (int d = 1; d <= i; d++) again[d] += before[i - d] == p;
      before[i] = last = p;
    }
  }
  for (int i = 0; i < L; i++)
    for (int p = 0; p < P; p++) {
      double e = (double)N / P, sd = std::sqrt(e * (1 - 1.0 / P));
      c.check(std::fabs(cnt[i][p] - e) <= 6.5 * sd + 4, "equal-chance", fmt("position %d: policy %d of %d selected %d times of %d", i, p, P, cnt[i][p], N));
    }
  for (int p = 0; p < P; p++) {
    int n = 0;
    for (int i = 0; i < L; i++) n += cnt[i][p];
    double e = (double)N * L / P, sd = std::sqrt(e * (1 - 1.0 / P));
    c.check(n > 0 && std::fabs(n - e) <= 6.5 * sd + 4, "equal-chance", fmt("policy %d of %d selected %d times of %d", p, P, n, N * L));
  }
  for (int p = 0; p < P && P <= 10; p++)
    for (int q = 0; q < P; q++) {
      double e = (double)N * (L - 1) / P / P, sd = std::sqrt(e);
      c.check(std::fabs(pair[p][q] - e) <= 7 * sd + 4, "independent", fmt("policy %d followed by %d %d times of %d", p, q, pair[p][q], N * (L - 1)));
    }
  for (int d = 1; d < L; d++) {
    double e = (double)N * (L - d) / P, sd = std::sqrt(e * (1 - 1.0 / P));
    c.check(std::fabs(again[d] - e) <= 6.5 * sd + 4, "independent", fmt("of %d policies, the one selected %d selections before came up again %d times of %d", P, d, again[d], N * (L - d)));
  }
  c.state(mix(P, block * 2 + fs));
  c.validated();
}

// A later run that starts from the measurements of an earlier one explores
// from the beginning until its own training.
void next_run(Ctx &c) {
  const char *info = c.pick(cyclic, "model");
  int P = 2 + c.choose(3, "P"), n = c.choose(2 * P + 1, "first run"), runs = 1 + c.choose(2, "runs before");
  clean_scratch();
  bool persistent = c.flip("persistent");
  for (int k = 0; k < runs; k++) {
    World w(persistent ? Env{{"PERSISTENT_DATASETS", "1"}} : Env{});
    auto *r = new Apollo::Region(1, "r", P, 100, info);
    for (int i = 0; i < n; i++) c.check(exec(r, {(float)(i % 2)}, 1.0 + i) == i % P, "cyclic", fmt("run %d: selection %d of %d policies", k, i, P));
  }
  World w(persistent ? Env{{"PERSISTENT_DATASETS", "1"}} : Env{});
  auto *r = new Apollo::Region(1, "r", P, 100, info);
  for (int i = 0; i < 2 * P + 1; i++) {
    int p = exec(r, {7}, 1.0);
    c.step();
    c.check(p == i % P, "cyclic", fmt("last run: selection %d of %d policies: %d", i, P, p));
  }
  c.state(mix(mix(P, n), runs * 2 + persistent));
  c.validated();
}

void fixed(Ctx &c) {
  int P = 1 + c.choose(5, "P");
  int k = c.choose(P, "policy");
  World w({});
  auto *a = new Apollo::Region(1, "a", P, 0, "Static,policy=" + std::to_string(k));
  auto *b = new Apollo::Region(1, "b", P, 0, "RoundRobin");
  for (int i = 0; i < 6; i++) {
    if (c.flip("b")) exec(b, {1}, 1);
    int p = exec(a, {(float)i}, 1.0 / (1 + i));
    c.step();
    c.check(p == k, "fixed", fmt("selected %d, configured %d", p, k));
  }
  a->train(0);
  w->train(1);
  c.check(exec(a, {9}, 1) == k, "fixed", "a training changed the fixed policy");
  c.state(mix(P, k));
  c.validated();
}
}  // namespace

void mc::scenarios(std::vector<Scenario> &out) {
  out.push_back({"interleaved", interleaved});
  out.push_back({"feature-sequences", features});
  out.push_back({"cycles", cycles});
  out.push_back({"lengthy", lengthy});
  out.push_back({"until-trained", until_trained});
  out.push_back({"unfinished", unfinished});
  out.push_back({"random", random_explorer});
  out.push_back({"next-run", next_run});
  out.push_back({"fixed", fixed});
}
