// C04: a decision tree reproduces the measured best policies it was trained on.
#include "world.h"
using namespace mc;
using namespace w;

namespace {
using Table = std::map<Feat, int>;

// Inserts measurements that make best[f] the best policy of each f.
void measure(Apollo::Region *r, RefData &ref, const Table &t, int P, double scale, int order = 0) {
  std::vector<std::tuple<Feat, int, double>> m;
  for (auto &e : t)
    for (int p = 0; p < P; p++) m.push_back(std::make_tuple(e.first, p, scale * (p == e.second ? 1.0 : 2.0 + p)));
  if (order == 1) std::reverse(m.begin(), m.end());
  if (order == 2) std::rotate(m.begin(), m.begin() + m.size() / 2, m.end());
  for (auto &x : m) {
    Feat f = std::get<0>(x);
    ref.insert(f, std::get<1>(x), std::get<2>(x));
    r->dataset.insert(f, std::get<1>(x), std::get<2>(x));
  }
}

void check_region(Ctx &c, Apollo::Region *r, const RefData &ref, unsigned depth_limit, int step) {
  auto best = ref.best();
  std::vector<std::pair<Feat, int>> samples(best.begin(), best.end());
  int F = (int)samples[0].first.size();
  std::string file = fmt(".apollo/models/DecisionTree-step-%d-rank-0-%s.yaml", step, r->name);
  TTree t;
  bool have = read_tree_file(file, t);
  if (have) {
    std::string e = check_tree(t, samples, depth_limit);
    c.check(e.empty(), "tree", e + " for " + ref.str());
    c.check(depth(*t.root) <= (int)depth_limit, "depth", fmt("depth %d, limit %u", depth(*t.root), depth_limit));
  }
  // n samples never need more than n-1 levels.
  bool full = depth_limit + 1 >= samples.size();
  u64 h = 0;
  for (auto &s : samples) {
    int p = exec(r, s.first, 1);
    c.step();
    if (full) c.check(p == s.second, "best-policy", fmt("%s: selected %d, best measured is %d in %s", str(s.first).c_str(), p, s.second, ref.str().c_str()));
    if (have) c.check(p == eval(*t.root, s.first), "stored-tree", fmt("%s: selected %d, the stored tree says %d", str(s.first).c_str(), p, eval(*t.root, s.first)));
    h = mix(h, p);
  }
  // Everywhere else: the region agrees with the tree that was verified above.
  std::vector<Feat> other;
  if (F == 1) {
    std::set<float> v;
    for (auto &s : samples) v.insert(s.first[0]);
    for (float x : around(v)) other.push_back({x});
  } else if (F <= 3)
    other = probes(F);
  else
    for (auto &s : samples)
      for (int j = 0; j < F; j++)
        for (float x : {s.first[j] - 0.5f, s.first[j] + 0.5f, -100.f, 100.f}) {
          Feat f = s.first;
          f[j] = x;
          other.push_back(f);
        }
  for (auto &f : other) {
    int p = exec(r, f, 1);
    c.step();
    if (have) c.check(p == eval(*t.root, f), "stored-tree", fmt("%s: selected %d, the stored tree says %d", str(f).c_str(), p, eval(*t.root, f)));
    if (full && F == 1) c.check(p == nearest(best, f[0]), "interpolation", fmt("%s: selected %d, the nearest sample has %d in %s", str(f).c_str(), p, nearest(best, f[0]), ref.str().c_str()));
    h = mix(h, p);
  }
  c.obs(h);
  c.state(mix(ref.hash(), depth_limit));
  c.validated();
}

std::string info(unsigned d) { return "DecisionTree,max_depth=" + std::to_string(d); }

// All best-policy tables over a set of points, all depth limits.
void tables(Ctx &c, const std::vector<Feat> &pts, int K, const std::vector<int> &pol, const std::vector<unsigned> &depths, bool optional) {
  Table t;
  for (auto &f : pts) {
    int k = c.choose(K + (optional ? 1 : 0), "best");
    if (k < K) t[f] = pol[k];
  }
  unsigned d = c.pick(depths, "depth");
  if (t.empty()) return;
  int P = *std::max_element(pol.begin(), pol.end()) + 1;
  World w({{"STORE_MODELS", "1"}});
  auto *r = new Apollo::Region((int)pts[0].size(), "r", P, 0, info(d));
  RefData ref;
  measure(r, ref, t, P, 1.0);
  r->train(0);
  check_region(c, r, ref, d, 0);
}

// The order of arrival does not matter; retraining forgets the old tree.
void retrain(Ctx &c) {
  const std::vector<Feat> pts{{-1, 0}, {0, 2}, {2, 1}, {3, 3}};
  int P = 2 + c.choose(2, "P");
  Table a, b;
  for (auto &f : pts) a[f] = c.choose(P, "first");
  int n2 = 1 + c.choose(3, "n2");
  for (int i = 0; i < n2; i++) b[pts[(i * 2 + 1) % 4]] = c.choose(P, "second");
  bool extra = c.flip("new point");
  if (extra) b[{7, -7}] = P - 1;
  unsigned d = c.pick(std::vector<unsigned>{1, 4}, "depth");
  int how = c.choose(3, "how");  // same region forced; data replaced; twice the same
  World w({{"STORE_MODELS", "1"}});
  auto *r = new Apollo::Region(2, "r", P, 0, info(d));
  RefData ref;
  measure(r, ref, a, P, 1.0);
  r->train(0);
  check_region(c, r, ref, d, 0);
  if (how == 1) {
    r->dataset.clear();
    ref.d.clear();
  }
  if (how != 2) measure(r, ref, b, P, 1e-3);
  r->train(1, true, true);
  check_region(c, r, ref, d, 1);
  // A tree trained from scratch on the same measurements selects the same.
  auto *q = new Apollo::Region(2, "q", P, 0, info(d));
  q->dataset.insert(r->dataset);
  q->train(2);
  for (auto &f : probes(2)) {
    int x = exec(r, f, 1), y = exec(q, f, 1);
    c.check(x == y, "retrain", fmt("%s: the retrained tree selects %d, a new one %d", str(f).c_str(), x, y));
  }
}

void arrival(Ctx &c) {
  const std::vector<Feat> pts{{5}, {1}, {3}, {2}};
  int P = 3;
  std::vector<int> best;
  for (size_t i = 0; i < pts.size(); i++) best.push_back(c.choose(P, "best"));
  std::vector<int> perm{0, 1, 2, 3};
  for (int k = c.choose(24, "order"); k > 0; k--) std::next_permutation(perm.begin(), perm.end());
  int po = c.choose(2, "policy order");
  unsigned d = c.pick(std::vector<unsigned>{1, 2, 3}, "depth");
  World w({{"STORE_MODELS", "1"}});
  auto *r = new Apollo::Region(1, "r", P, 0, info(d));
  auto *q = new Apollo::Region(1, "q", P, 0, info(d));
  RefData ref;
  for (int i : perm)
    for (int k = 0; k < P; k++) {
      int p = po ? P - 1 - k : k;
      Feat f = pts[i];
      ref.insert(f, p, p == best[i] ? 1 : 2);
      r->dataset.insert(f, p, p == best[i] ? 1 : 2);
    }
  for (size_t i = 0; i < pts.size(); i++)
    for (int p = 0; p < P; p++) {
      Feat f = pts[i];
      q->dataset.insert(f, p, p == best[i] ? 1 : 2);
    }
  r->train(0);
  q->train(0);
  check_region(c, r, ref, d, 0);
  for (float x : around({5, 1, 3, 2})) c.check(exec(r, {x}, 1) == exec(q, {x}, 1), "order", fmt("the arrival order matters at %.9g", x));
}

// Through whole executions: explorer, timing-free metrics, explicit training.
void executed(Ctx &c) {
  int P = 2 + c.choose(2, "P");
  int n = P * (1 + c.choose(3, "points"));
  std::vector<double> m;
  World w({{"STORE_MODELS", "1"}});
  auto *r = new Apollo::Region(1, "r", P, 0, info(8));
  RefData ref;
  for (int i = 0; i < n; i++) {
    double x = c.pick(std::vector<double>{1.0, 0.5}, "metric");
    Feat f{(float)(i / P) * 1.5f - 1};
    int p = exec(r, f, x);
    c.step();
    ref.insert(f, p, x);
  }
  w->train(0);
  check_region(c, r, ref, 8, 0);
}

// Larger tables: all regular class patterns over n points.
void large(Ctx &c) {
  int n = c.pick(thorough ? std::vector<int>{12, 25, 60, 150} : std::vector<int>{12, 40}, "n");
  int k = 2 + c.choose(6, "classes");
  int pat = c.choose(5, "pattern");
  int F = 1 + c.choose(3, "F");
  unsigned d = c.pick(std::vector<unsigned>{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 200}, "depth");
  Table t;
  for (int i = 0; i < n; i++) {
    Feat f;
    for (int j = 0; j < F; j++) f.push_back(j == 0 ? i * 0.75f - 3 : j == 1 ? (float)((i * 7) % 5) : (float)-(i % 3));
    int cl = pat == 0 ? i % k : pat == 1 ? i * k / n : pat == 2 ? (i * i) % k : pat == 3 ? (i / 3) % k : (i % 7 == 3 ? k - 1 : 0);
    t[f] = cl;
  }
  World w({{"STORE_MODELS", "1"}});
  auto *r = new Apollo::Region(F, "r", k, 0, info(d));
  RefData ref;
  measure(r, ref, t, k, 1.0);
  r->train(0);
  check_region(c, r, ref, d, 0);
}

// Many features, of which one or two (anywhere) tell the samples apart.
void wide(Ctx &c) {
  int F = c.pick(std::vector<int>{8, 9, 16, 17, 33, 70}, "F");
  int a = c.pick(std::vector<int>{0, 1, F / 2, F - 2, F - 1}, "first"), b = c.pick(std::vector<int>{0, 7, F / 2 + 1, F - 1}, "second");
  int code = c.choose(16, "classes");
  unsigned d = c.pick(std::vector<unsigned>{1, 2, 9}, "depth");
  Table t;
  for (int i = 0; i < 4; i++) {
    Feat f(F, 1.5f);
    f[a] = (float)(i / 2);
    f[b] = (float)(a == b ? i : i % 2);
    t[f] = code >> i & 1;
  }
  World w({{"STORE_MODELS", "1"}});
  auto *r = new Apollo::Region(F, "r", 2, 0, info(d));
  RefData ref;
  measure(r, ref, t, 2, 1.0);
  r->train(0);
  check_region(c, r, ref, d, 0);
}

// More samples than fit a byte (or two) of any counter.
void huge(Ctx &c) {
  int n = c.pick(thorough ? std::vector<int>{255, 256, 257, 300, 512, 520, 1030} : std::vector<int>{257, 300}, "n");
  int k = 2 + c.choose(2, "classes");
  int pat = c.choose(4, "pattern");
  unsigned d = c.pick(std::vector<unsigned>{0, 1, 3, 4096}, "depth");
  Table t;
  for (int i = 0; i < n; i++) t[{(float)i}] = pat == 0 ? (i < n - 3 ? 0 : k - 1) : pat == 1 ? (i < 40 ? k - 1 : 0) : pat == 2 ? (i < 257 ? 1 : 0) : i * k / n;
  World w({{"STORE_MODELS", "1"}});
  auto *r = new Apollo::Region(1, "r", k, 0, info(d));
  RefData ref;
  measure(r, ref, t, k, 1.0);
  r->train(0);
  check_region(c, r, ref, d, 0);
}
// The best class of a table of n samples, of which m belong to class 1.
void stump(Ctx &c) {
  long n = c.pick(std::vector<long>{65535, 65536, 65540, 70000}, "n");
  long m = c.pick(std::vector<long>{3, 30000, 34000, 40000}, "ones");
  World w({{"STORE_MODELS", "1"}});
  auto *r = new Apollo::Region(1, "r", 2, 0, info(0));
  for (long i = 0; i < n; i++) {
    Feat f{(float)i};
    r->dataset.insert(f, i < m, 1.0);
  }
  r->train(0);
  int p = exec(r, {1}, 1), e = 2 * m > n;
  c.step();
  c.check(p == e, "best-policy", fmt("%ld of %ld samples are of class 1, a tree without splits selects %d", m, n, p));
  c.state(mix(n, m));
  c.obs(p);
  c.validated();
}
}  // namespace

void mc::scenarios(std::vector<Scenario> &out) {
  const float e = std::nextafterf(1.f, 2);
  out.push_back({"tables-1d", [](Ctx &c) {
                   std::vector<Feat> p{{-2.5f}, {0}, {1}, {2}, {3.5f}, {10}};
                   if (thorough) p.push_back({11});
                   tables(c, p, 3, {0, 1, 2}, {0, 1, 2, 3, 6}, false);
                 }});
  out.push_back({"tables-1d-partial", [](Ctx &c) { tables(c, {{-1}, {0}, {1}, {4}, {5}}, 3, {1, 4, 7}, {0, 1, 2, 5}, true); }});
  out.push_back({"tables-1d-close", [=](Ctx &c) {
                   tables(c, {{1.f}, {e}, {std::nextafterf(e, 2)}, {1000001.f}, {1000002.f}, {16777216.f}, {16777218.f}}, 2, {0, 1}, {1, 3, 7}, false);
                 }});
  out.push_back({"tables-1d-extreme", [](Ctx &c) {
                   tables(c, {{-3e38f}, {-1e-30f}, {1e-30f}, {0.1f}, {0.3f}, {2e38f}, {3e38f}}, 2, {0, 1}, {1, 3, 7}, true);
                 }});
  out.push_back({"tables-1d-tiny", [](Ctx &c) {
                   tables(c, {{-2e-36f}, {0.f}, {2e-38f}, {2.1e-38f}, {1e-33f}, {1.5e-31f}}, 2, {0, 1}, {1, 3, 7}, true);
                 }});
  out.push_back({"tables-2d", [](Ctx &c) {
                   std::vector<Feat> p = product({0, 1, 3}, 2);
                   if (!thorough) p.pop_back();
                   tables(c, p, 2, {0, 1}, {0, 1, 2, 3, 9}, !true);
                 }});
  out.push_back({"tables-2d-partial", [](Ctx &c) { tables(c, product({-1, 2.5f}, 2), 3, {0, 2, 3}, {0, 1, 2, 4}, true); }});
  out.push_back({"tables-3d", [](Ctx &c) { tables(c, product({0, 1}, 3), 2, {0, 1}, {1, 2, 3, 8}, false); }});
  out.push_back({"retrain", retrain});
  out.push_back({"arrival-order", arrival});
  out.push_back({"executed", executed});
  out.push_back({"large-tables", large});
  out.push_back({"many-features", wide});
  out.push_back({"huge-tables", huge});
  out.push_back({"sample-counts", stump});
}
