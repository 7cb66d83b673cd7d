// C03: measurements are averaged per (features, policy); the best policy is the
// minimum. Direct exploration of the dataset with an independent reference.
#include "world.h"
using namespace mc;
using namespace w;

namespace {
struct Raw {  // reference kept independently of RefData: the full history
  std::vector<std::tuple<Feat, int, double>> h;
};

void compare(Ctx &c, const RefData &ref, Apollo::Dataset &ds) {
  std::string e = diff_tol(ref, ds, 1e-13);
  c.check(e.empty(), "dataset-content", e);
  std::vector<Feat> fs;
  std::vector<int> ps;
  std::map<Feat, std::pair<int, double>> mm;
  mm[Feat{99.f}] = {7, 7.0};  // stale content must not matter
  ds.findMinMetricPolicyByFeatures(fs, ps, mm);
  auto best = ref.best();
  c.check(fs.size() == best.size() && ps.size() == best.size() && mm.size() == best.size(), "best-size",
          fmt("%zu/%zu/%zu best entries, expected %zu for %s", fs.size(), ps.size(), mm.size(), best.size(), ref.str().c_str()));
  for (size_t i = 0; i < fs.size(); i++) {
    auto it = best.find(fs[i]);
    c.check(it != best.end(), "best-feature", "unexpected features " + str(fs[i]) + " for " + ref.str());
    c.check(it->second == ps[i], "best-policy", fmt("best policy of %s is %d, expected %d for %s", str(fs[i]).c_str(), ps[i], it->second, ref.str().c_str()));
    auto m = mm.find(fs[i]);
    c.check(m != mm.end() && m->second.first == ps[i] && std::fabs(m->second.second - ref.d.at({fs[i], ps[i]})) <= 1e-13 * std::fabs(m->second.second), "best-table",
            "best table disagrees for " + str(fs[i]));
  }
  c.state(ref.hash());
  c.obs(ref.hash());
  c.validated();
}

// Sequences of insertions over a colliding alphabet.
void seq(Ctx &c, const std::vector<Feat> &F, const std::vector<int> &P, const std::vector<double> &M, int n) {
  Apollo::Dataset ds;
  RefData ref;
  int len = n;
  for (int i = 0; i < len; i++) {
    Feat f = c.pick(F, "f");
    int p = c.pick(P, "p");
    double m = c.pick(M, "m");
    Feat arg = f;
    ds.insert(arg, p, m);
    ref.insert(f, p, m);
    c.step();
    c.note("insert " + str(f) + " policy " + std::to_string(p) + " metric " + fmt("%.17g", m));
    compare(c, ref, ds);
  }
}

// Long vectors that differ in one component, or in length.
void many(Ctx &c) {
  int F = c.pick(std::vector<int>{4, 7, 8, 9, 16, 17, 32, 33, 64, 65, 130}, "F");
  int k = c.choose(F + 1, "component");
  int order = c.choose(2, "order");
  int merge = c.choose(2, "merge");
  Apollo::Dataset ds, other;
  RefData ref, oref;
  Feat a(F, 0.5f), b(F, 0.5f);
  if (k < F) b[k] = 0.75f;
  else b.push_back(0.5f);
  for (int i = 0; i < 4; i++) {
    Feat f = (i + order) % 2 ? a : b, g = f;
    bool into = merge && i >= 2;
    (into ? other : ds).insert(g, i / 3, 1.0 + 0.5 * i);
    (into ? oref : ref).insert(f, i / 3, 1.0 + 0.5 * i);
    c.step();
  }
  ds.insert(other);
  ref.merge(oref);
  compare(c, ref, ds);
}

// Sequences over two datasets: insert into a or b, merge b into a, clear.
void merge(Ctx &c, int n) {
  const std::vector<Feat> F = {{1}, {1, 0}, {}};
  const std::vector<double> M = {1.0, 0.3};
  Apollo::Dataset d[2];
  RefData r[2];
  for (int i = 0; i < n; i++) {
    int op = c.choose(5, "op");
    if (op <= 1) {
      Feat f = c.pick(F, "f");
      int p = c.choose(2, "p");
      double m = c.pick(M, "m") * (i + 1);
      Feat a = f;
      d[op].insert(a, p, m);
      r[op].insert(f, p, m);
      c.note(fmt("d%d.insert ", op) + str(f) + fmt(" %d %g", p, m));
    } else if (op == 2) {
      d[0].insert(d[1]);
      r[0].merge(r[1]);
      c.note("d0.insert(d1)");
    } else if (op == 3) {
      d[1].insert(d[0]);
      r[1].merge(r[0]);
      c.note("d1.insert(d0)");
    } else {
      d[0].clear();
      r[0].d.clear();
      c.note("d0.clear");
    }
    c.step();
    compare(c, r[0], d[0]);
    compare(c, r[1], d[1]);
  }
}

// One table of P policies: all metric assignments (ties included).
void argmin(Ctx &c) {
  int P = 2 + c.choose(thorough ? 4 : 3, "P");
  const std::vector<double> M = {1.0, 1.0000000001, 0.5, 1e-9, 0.0, -0.5, -2.0};
  Apollo::Dataset ds;
  RefData ref;
  // Insertion order rotates, the result may not depend on it.
  int rot = c.choose(P, "rot");
  std::vector<double> m(P);
  for (int i = 0; i < P; i++) m[i] = c.pick(M, "m");
  for (int i = 0; i < P; i++) {
    int p = (i + rot) % P;
    Feat f{3.5f, -1};
    ds.insert(f, p, m[p]);
    ref.insert({3.5f, -1}, p, m[p]);
    c.step();
  }
  compare(c, ref, ds);
  c.obs(ref.best().begin()->second);
}

// Long histories: n measurements of one pair, interleaved with another.
void longrun(Ctx &c) {
  int n = 1 + c.choose(thorough ? 400 : 150, "n");
  int pat = c.choose(4, "pattern");
  int np = c.pick(std::vector<int>{1, 2, 5, 40}, "np");
  Apollo::Dataset ds;
  RefData ref;
  for (int i = 0; i < n; i++) {
    double m = pat == 0 ? 1.0 + i : pat == 1 ? 1.0 / (1 + i) : pat == 2 ? (i % 7) * 1e-3 : 1e6 + 0.1 * i;
    int p = i % np;
    Feat f{(float)(i % 3), (float)(pat == 3 ? i : 0)};
    Feat g = f;
    ds.insert(g, p, m);
    ref.insert(f, p, m);
    c.step();
  }
  compare(c, ref, ds);
}

// Merging and clearing datasets of every size; a cleared one starts afresh.
void sizes(Ctx &c) {
  int n = c.choose(thorough ? 100 : 36, "n") * (thorough ? 3 : 4), k = c.pick(std::vector<int>{0, 1, 50, 130}, "other"), op = c.choose(4, "op");
  Apollo::Dataset ds, other;
  RefData ref, oref;
  for (int i = 0; i < n; i++) {
    Feat f{(float)(i / 3)}, g = f;
    ds.insert(g, i % 3, 1.0 + i), ref.insert(f, i % 3, 1.0 + i);
  }
  for (int i = 0; i < k; i++) {
    Feat f{(float)(i / 2)}, g = f;
    other.insert(g, i % 2, 2.0 + i), oref.insert(f, i % 2, 2.0 + i);
  }
  if (op & 1) ds.insert(other), ref.merge(oref);
  if (op & 2) ds.clear(), ref.d.clear();
  c.step();
  compare(c, ref, ds);
  Feat f{1}, g = f;
  ds.insert(g, 1, 3.0), ref.insert(f, 1, 3.0);
  compare(c, ref, ds);
  ds.insert(other), ref.merge(oref);
  compare(c, ref, ds);
}
}  // namespace

void mc::scenarios(std::vector<Scenario> &out) {
  const float big = 16777216.f;
  out.push_back({"insert-sequences", [](Ctx &c) {
                   seq(c, {{1}, {1, 0}, {0, 1}}, {0, 1}, {1.0, 0.3}, thorough ? 5 : 4);
                 }});
  out.push_back({"close-values", [=](Ctx &c) {
                   seq(c, {{1.0f}, {std::nextafterf(1.f, 2)}, {1000001.f}, {1000002.f}, {-1.5f}, {big}, {big + 2}, {0.f}, {1e-31f}, {-2e-36f}, {1e30f}}, {0, 1, 63}, {1.0, 1e-7}, thorough ? 3 : 2);
                 }});
  out.push_back({"lengths", [](Ctx &c) {
                   seq(c, {{}, {0}, {0, 0}, {0, 0, 0}, {1, 2, 3}, {3, 2, 1}, {1, 2}}, {0, 2}, {0.25, 5e5}, thorough ? 4 : 3);
                 }});
  out.push_back({"many-features", many});
  out.push_back({"merge-clear", [](Ctx &c) { merge(c, thorough ? 4 : 3); }});
  out.push_back({"sizes", sizes});
  out.push_back({"argmin", argmin});
  out.push_back({"long-histories", longrun});
}
