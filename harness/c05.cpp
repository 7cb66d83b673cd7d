// C05: a random forest is the majority vote of its bootstrapped trees.
#include "world.h"
using namespace mc;
using namespace w;

namespace {
using Table = std::map<Feat, int>;

void measure(Apollo::Region *r, RefData &ref, const Table &t, int P, double scale) {
  for (auto &e : t)
    for (int p = 0; p < P; p++) {
      Feat f = e.first;
      double m = scale * (p == e.second ? 1.0 : 2.0 + p);
      ref.insert(f, p, m);
      r->dataset.insert(f, p, m);
    }
}

int vote(const std::vector<TTree> &ts, const Feat &f, int P) {
  std::vector<int> n(P);
  for (auto &t : ts) {
    int k = eval(*t.root, f);
    if (k < 0 || k >= P) return -1;
    n[k]++;
  }
  return (int)(std::max_element(n.begin(), n.end()) - n.begin());
}

std::string check_forest(Ctx &c, Apollo::Region *r, const RefData &ref, int trees, int max_depth, int P, int step, std::map<Feat, long> *drawn = nullptr) {
  auto best = ref.best();
  int F = (int)best.begin()->first.size();
  std::string file = fmt(".apollo/models/RandomForest-step-%d-rank-0-%s.yaml", step, r->name);
  std::vector<TTree> ts;
  int nt, md;
  bool have = read_forest_file(file, ts, nt, md);
  if (have) {
    c.check((int)ts.size() == trees && nt == trees, "num-trees", fmt("%zu trees (%d declared), configured %d", ts.size(), nt, trees));
    c.check(md == max_depth, "max-depth", fmt("max_depth %d, configured %d", md, max_depth));
    for (auto &t : ts) {
      c.check(t.data.size() == best.size(), "sample-size", fmt("a tree is trained on %zu samples, the table has %zu", t.data.size(), best.size()));
      for (auto &s : t.data) {
        auto it = best.find(s.first);
        c.check(it != best.end() && it->second == s.second, "sample-of-table", str(s.first) + fmt(" -> %d is not in the table ", s.second) + ref.str());
        if (drawn) (*drawn)[s.first]++;
      }
      auto data = t.data;
      std::string e = check_tree(t, data, max_depth);
      c.check(e.empty(), "tree", e);
    }
  }
  std::vector<Feat> q;
  for (auto &b : best) q.push_back(b.first);
  if (F == 1) {
    std::set<float> v;
    for (auto &b : best) v.insert(b.first[0]);
    for (auto &t : ts) {
      std::map<int, std::set<float>> th;
      thresholds(*t.root, th);
      v.insert(th[0].begin(), th[0].end());
    }
    for (float x : around(v)) q.push_back({x});
  } else
    for (auto &f : probes(F)) q.push_back(f);
  std::string sel;
  for (auto &f : q) {
    int p = exec(r, f, 1);
    c.step();
    if (have) {
      int e = vote(ts, f, P);
      c.check(p == e, "majority", fmt("%s: selected %d, the vote of the stored trees is %d", str(f).c_str(), p, e));
    }
    if (best.size() == 1) c.check(p == best.begin()->second, "single-sample", fmt("%s: selected %d", str(f).c_str(), p));
    std::set<int> cls;
    for (auto &b : best) cls.insert(b.second);
    c.check(cls.count(p), "class", fmt("%s: selected %d, never the best anywhere in %s", str(f).c_str(), p, ref.str().c_str()));
    sel += std::to_string(p) + " ";
  }
  c.obs(sel);
  c.state(mix(ref.hash(), trees * 100 + max_depth));
  c.validated();
  return sel;
}

std::string info(int n, int d) { return fmt("RandomForest,num_trees=%d,max_depth=%d", n, d); }

void tables(Ctx &c, const std::vector<Feat> &pts, int K, const std::vector<int> &pol, const std::vector<int> &trees, const std::vector<int> &depths) {
  Table t;
  for (auto &f : pts) {
    int k = c.choose(K + 1, "best");
    if (k < K) t[f] = pol[k];
  }
  int n = c.pick(trees, "trees"), d = c.pick(depths, "depth");
  if (t.empty()) return;
  int P = *std::max_element(pol.begin(), pol.end()) + 1;
  set_random({(unsigned)c.choose(2, "seed") * 77777u});  // must not matter
  World w({{"STORE_MODELS", "1"}});
  auto *r = new Apollo::Region((int)pts[0].size(), "r", P, 0, info(n, d));
  RefData ref;
  measure(r, ref, t, P, 1.0);
  r->train(0);
  std::string a = check_forest(c, r, ref, n, d, P, 0);
  // The same measurements give the same forest, in another region as well.
  auto *q = new Apollo::Region((int)pts[0].size(), "q", P, 0, info(n, d));
  RefData ref2;
  measure(q, ref2, t, P, 1.0);
  q->train(0);
  std::string b = check_forest(c, q, ref2, n, d, P, 0);
  c.check(a == b, "deterministic", "the same measurements gave another forest for " + ref.str());
  c.check(read_file(".apollo/models/RandomForest-step-0-rank-0-r.yaml") == read_file(".apollo/models/RandomForest-step-0-rank-0-q.yaml"), "deterministic", "the stored forests differ");
}

// Retraining replaces all trees: the result is that of a new region.
void retrain(Ctx &c) {
  const std::vector<Feat> pts{{0}, {1}, {5}};
  int P = 3;
  int n = c.pick(std::vector<int>{1, 3, 10}, "trees"), d = 1 + c.choose(3, "depth");
  Table a, b;
  for (auto &f : pts) a[f] = c.choose(P, "first");
  for (auto &f : pts) b[f] = c.choose(P, "second");
  int rounds = 1 + c.choose(2, "rounds");
  World w({{"STORE_MODELS", "1"}});
  auto *r = new Apollo::Region(1, "r", P, 0, info(n, d));
  RefData ref;
  measure(r, ref, a, P, 1.0);
  r->train(0);
  check_forest(c, r, ref, n, d, P, 0);
  for (int i = 1; i <= rounds; i++) {
    measure(r, ref, i == 1 ? b : a, P, i == 1 ? 1e-3 : 1e-9);
    r->train(i, true, true);
    check_forest(c, r, ref, n, d, P, i);
  }
  auto *q = new Apollo::Region(1, "q", P, 0, info(n, d));
  q->dataset.insert(r->dataset);
  q->train(9);
  for (float x : around({0, 1, 5})) {
    int s = exec(r, {x}, 1), t = exec(q, {x}, 1);
    c.check(s == t, "retrain", fmt("%.9g: the retrained forest selects %d, a new one %d", x, s, t));
  }
}

// With many trees every entry of the table is drawn, first and last included,
// about equally often.
void bootstrap(Ctx &c) {
  int n = c.pick(thorough ? std::vector<int>{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 17, 30, 40, 70, 130, 260} : std::vector<int>{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 40, 70}, "entries");
  int T = (n > 30 ? 60 : 100) + 100 * (n > 30 ? 0 : c.choose(2, "trees"));
  int k = 1 + c.choose(4, "classes");
  Table t;
  for (int i = 0; i < n; i++) t[{(float)i}] = i % k;
  World w({{"STORE_MODELS", "1"}});
  auto *r = new Apollo::Region(1, "r", k, 0, info(T, 3));
  RefData ref;
  measure(r, ref, t, k, 1.0);
  r->train(0);
  std::map<Feat, long> drawn;
  check_forest(c, r, ref, T, 3, k, 0, &drawn);
  if (!drawn.empty())
    for (auto &e : t) {
      double N = (double)T * n, ex = N / n, sd = std::sqrt(ex);
      c.check(drawn[e.first] > 0, "every-entry", str(e.first) + " is never drawn");
      c.check(std::fabs(drawn[e.first] - ex) <= 7 * sd, "equal-draws", str(e.first) + fmt(" is drawn %ld times of %g", drawn[e.first], N));
    }
}

// Enough deep trees reproduce well separated tables.
void learns(Ctx &c) {
  int k = 2 + c.choose(3, "classes");
  int per = 3 + c.choose(3, "per class");
  int T = c.pick(std::vector<int>{30, 60}, "trees");
  Table t;
  for (int i = 0; i < k * per; i++) t[{(float)i + 100 * (i / per)}] = i / per;
  World w({{"STORE_MODELS", "1"}});
  auto *r = new Apollo::Region(1, "r", k, 0, info(T, 10));
  RefData ref;
  measure(r, ref, t, k, 1.0);
  r->train(0);
  check_forest(c, r, ref, T, 10, k, 0);
  for (auto &e : t) {
    int p = exec(r, e.first, 1);
    c.check(p == e.second, "learns", fmt("%s: selected %d, best is %d", str(e.first).c_str(), p, e.second));
  }
}
}  // namespace

void mc::scenarios(std::vector<Scenario> &out) {
  out.push_back({"tables-1d", [](Ctx &c) { tables(c, {{-1.5f}, {0}, {1}, {7}}, 3, {0, 1, 2}, thorough ? std::vector<int>{1, 2, 3, 4, 10, 25} : std::vector<int>{1, 2, 5, 10}, {0, 1, 2, 4}); }});
  out.push_back({"tables-2d", [](Ctx &c) { tables(c, product({0, 2}, 2), 3, {0, 2, 5}, thorough ? std::vector<int>{1, 2, 3, 4, 10, 25} : std::vector<int>{2, 7}, {0, 1, 3}); }});
  out.push_back({"tables-3d", [](Ctx &c) { tables(c, {{0, 0, 0}, {0, 0, 1}, {1, 0, 0}, {1, 1, 1}, {-4, 0.5f, 2}}, 2, {0, 1}, {1, 4}, {1, 5}); }});
  out.push_back({"many-trees", [](Ctx &c) { tables(c, {{0}, {1}}, 3, {0, 1, 2}, thorough ? std::vector<int>{127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 768, 1024} : std::vector<int>{128, 256, 257, 300, 512}, {2}); }});
  out.push_back({"many-policies", [](Ctx &c) { tables(c, {{0}, {1}, {2}}, 7, {0, 31, 32, 40, 63, 64, 300}, thorough ? std::vector<int>{1, 3, 10} : std::vector<int>{3, 10}, thorough ? std::vector<int>{1, 2} : std::vector<int>{2}); }});
  out.push_back({"retrain", retrain});
  out.push_back({"bootstrap", bootstrap});
  out.push_back({"learns", learns});
}
