// C24: exported diagrams describe the stored model.
#include <float.h>
#include <unistd.h>

#include "dot.h"
#include "world.h"
using namespace mc;
using namespace w;

namespace {
struct Graph {
  std::map<std::string, std::string> label;
  std::map<std::string, std::vector<std::string>> kids;
  std::vector<std::string> roots;  // of trees
};

bool ends(const std::string &s, const char *e) {
  size_t n = strlen(e);
  return s.size() >= n && s.compare(s.size() - n, n, e) == 0;
}

// Compares the shown node with the stored one.
void same(Ctx &c, const Graph &g, const std::string &n, const TNode &t, const std::string &what) {
  const std::string &l = g.label.at(n);
  auto num = [&](const char *k, double want) {
    std::string v;
    c.check(field(l, k, v), "label", what + ": node " + n + " does not show " + k);
    char *e;
    double x = strtod(v.c_str(), &e);
    c.check(e != v.c_str() && x == want, "label", what + fmt(": node %s shows %s %s, stored is %.9g", n.c_str(), k, v.c_str(), want));
  };
  num("gini", t.gini);
  num("num_samples", t.num_samples);
  num("predicted_class", t.cls);
  std::string v;
  c.check(field(l, "count_per_class", v), "label", what + ": node " + n + " does not show the counts");
  std::vector<long> got, want;
  bool keyed = v.find(':') != std::string::npos;
  for (size_t i = 0; i < v.size();) {
    if (isdigit((unsigned char)v[i])) {
      char *e;
      got.push_back(strtol(&v[i], &e, 10));
      i = e - v.c_str();
    } else
      i++;
  }
  for (auto &e : t.counts) {
    if (keyed) want.push_back(e.first);
    want.push_back(e.second);
  }
  c.check(got == want, "label", what + ": node " + n + " shows the counts " + v);
  auto it = g.kids.find(n);
  size_t kids = it == g.kids.end() ? 0 : it->second.size();
  if (!t.l && !t.r) {
    c.check(kids == 0, "structure", what + ": the leaf " + n + " has children");
    return;
  }
  c.check(kids == 2, "structure", what + fmt(": the inner node %s has %zu children", n.c_str(), kids));
  num("feature_idx", t.feat);
  c.check(field(l, "threshold", v), "label", what + ": node " + n + " does not show a threshold");
  c.check((float)strtod(v.c_str(), nullptr) == t.thr, "label", what + fmt(": node %s shows the threshold %s, stored is %.9g", n.c_str(), v.c_str(), t.thr));
  std::string a = it->second[0], b = it->second[1];
  if (ends(a, "right") && ends(b, "left")) std::swap(a, b);
  same(c, g, a, *t.l, what);
  same(c, g, b, *t.r, what);
}
// Follows the diagram.
int follow(Ctx &c, const Graph &g, std::string n, const Feat &f) {
  for (int i = 0; i < 100; i++) {
    const std::string &l = g.label.at(n);
    auto it = g.kids.find(n);
    std::string v;
    if (it == g.kids.end() || it->second.empty()) {
      c.check(field(l, "predicted_class", v), "label", "leaf " + n + " does not show its class");
      return atoi(v.c_str());
    }
    c.check(it->second.size() == 2, "structure", "node " + n + " does not have two children");
    std::string a = it->second[0], b = it->second[1], th;
    if (ends(a, "right") && ends(b, "left")) std::swap(a, b);
    c.check(field(l, "feature_idx", v) && field(l, "threshold", th), "label", "node " + n + " does not show its split");
    size_t k = (size_t)atoi(v.c_str());
    c.check(k < f.size(), "label", "node " + n + " splits on feature " + v);
    n = f[k] < (float)strtod(th.c_str(), nullptr) ? a : b;
  }
  c.fail("structure", "the diagram has a cycle");
}

int count(const TNode &t) { return 1 + (t.l ? count(*t.l) : 0) + (t.r ? count(*t.r) : 0); }

void export_and_check(Ctx &c, Apollo::Region *r, const std::string &file, bool forest, int trees, int P, const std::vector<Feat> &pr, const std::string &what) {
  std::string tool = std::string(getenv("VERIF_REPO") ? getenv("VERIF_REPO") : "/repo") + "/src/python/analysis/" + (forest ? "rfc2dot.py" : "dtree2dot.py");
  // the input must stay as it is
  std::string before = read_file(file);
  int rc = system(("python3 '" + tool + "' -i '" + file + "' -o out.dot >tool.log 2>&1").c_str());
  c.step();
  c.check(rc == 0, "tool", what + ": the tool fails: " + read_file("tool.log").substr(0, 600));
  c.check(read_file(file) == before, "tool", what + ": the tool changed the model");
  Dot d = read_dot(read_file("out.dot"));
  c.check(d.err.empty(), "dot", what + ": not a graph: " + d.err);
  Graph g;
  std::set<std::string> tn;
  std::vector<std::string> order;
  for (auto &n : d.nodes) {
    c.check(g.label.emplace(n.first, n.second).second, "dot", what + ": node " + n.first + " is given twice");
    if (n.second.find("predicted_class") != std::string::npos) tn.insert(n.first), order.push_back(n.first);
  }
  std::map<std::string, int> parents;
  std::map<std::string, std::string> above;  // header of a root
  for (auto &e : d.edges) {
    c.check(g.label.count(e.first) && g.label.count(e.second), "dot", what + ": edge " + e.first + " -> " + e.second + " between unknown nodes");
    if (tn.count(e.first)) {
      g.kids[e.first].push_back(e.second);
      parents[e.second]++;
    } else if (tn.count(e.second))
      above[e.second] = e.first;
  }
  for (auto &n : order) {
    c.check(parents[n] <= 1, "structure", what + ": node " + n + " has several parents");
    if (!parents[n]) g.roots.push_back(n);
  }
  std::vector<TTree> ts(forest ? 0 : 1);
  int nt = 0, md = 0;
  bool have = forest ? read_forest_file(file, ts, nt, md) : read_tree_file(file, ts[0]);
  c.check((int)g.roots.size() == trees, "structure", what + fmt(": %zu trees instead of %d", g.roots.size(), trees));
  if (forest) {
    std::set<std::string> hs;
    for (auto &n : g.roots) hs.insert(above.count(n) ? above[n] : n);
    c.check((int)hs.size() == trees, "structure", what + ": trees of the forest are joined");
  }
  if (have) {
    int total = 0;
    for (auto &t : ts) total += count(*t.root);
    c.check((int)order.size() == total, "structure", what + fmt(": %zu nodes, the model has %d", order.size(), total));
    // In the order of the file (the order of the diagram may be another).
    std::vector<std::string> roots = g.roots;
    for (size_t i = 0; i < ts.size(); i++) {
      std::string first;
      bool ok = false;
      Violation v;
      for (auto &n : roots) {
        try {
          same(c, g, n, *ts[i].root, what);
          ok = true;
          roots.erase(std::find(roots.begin(), roots.end(), n));
          break;
        } catch (Violation &x) {
          if (first.empty()) first = n, v = x;
        }
      }
      if (!ok) throw v;
    }
  }
  // Followed by hand it selects what the model selects.
  std::vector<Feat> probe = pr;
  if (have) {
    std::map<int, std::set<float>> th;
    for (auto &t : ts) thresholds(*t.root, th);
    for (auto &e : th)
      for (float x : e.second)
        for (float y : {nextafterf(x, -INFINITY), x, nextafterf(x, INFINITY)}) {
          probe.push_back(pr[0]);
          probe.back()[e.first] = y;
        }
  }
  u64 h = 0;
  for (auto &f : probe) {
    std::map<int, int> votes;
    for (auto &n : g.roots) votes[follow(c, g, n, f)]++;
    int got = query(r, f), top = 0;
    for (auto &e : votes) top = std::max(top, e.second);
    c.check(votes.count(got) && votes[got] == top, "selection", what + fmt(": %s: the model selects %d, the diagram says otherwise", str(f).c_str(), got));
    h = mix(h, got);
    c.step();
  }
  c.obs(h);
  c.validated();
}

using Table = std::map<Feat, int>;
void measure(Apollo::Region *r, const Table &t, int P) {
  for (auto &e : t)
    for (int p = 0; p < P; p++) {
      Feat f = e.first;
      r->dataset.insert(f, p, p == e.second ? 1.0 : 2.0 + p);
    }
}

void run(Ctx &c, const std::vector<Feat> &pts, int K, int P, bool forest, const std::vector<int> &trees, const std::vector<int> &depths) {
  int n = (int)pts.size(), code = c.choose((int)lround(pow(K, n)), "best");
  Table t;
  for (auto &f : pts) t[f] = (code % K) * (P - 1) / std::max(1, K - 1), code /= K;
  int k = forest ? c.pick(trees, "trees") : 1, d = c.pick(depths, "depth");
  int stored = c.choose(2, "file");
  World w({{"STORE_MODELS", "1"}});
  std::string kind = forest ? "RandomForest" : "DecisionTree";
  auto *r = new Apollo::Region((int)pts[0].size(), "r", P, 0, forest ? fmt("RandomForest,num_trees=%d,max_depth=%d", k, d) : fmt("DecisionTree,max_depth=%d", d));
  measure(r, t, P);
  r->train(3);
  std::string file = ".apollo/models/" + kind + (stored ? "-latest" : "-step-3") + "-rank-0-r.yaml", s;
  for (auto &e : t) s += str(e.first) + fmt("->%d ", e.second);
  std::vector<Feat> pr = pts;
  for (auto &f : probes((int)pts[0].size()))
    if (pr.size() < 30) pr.push_back(f);
  export_and_check(c, r, file, forest, k, P, pr, s + fmt("trees %d depth %d", k, d));
  c.state(mix(hash_str(s), k * 100 + d));
}
std::vector<Feat> line(std::vector<float> v) {
  std::vector<Feat> o;
  for (float x : v) o.push_back({x});
  return o;
}
}  // namespace

void mc::scenarios(std::vector<Scenario> &out) {
  std::vector<Feat> sq{{0.1f, 1e20f}, {0.1f, -3e20f}, {7.f, 1e20f}, {7.f, -3e20f}};
  bool T = thorough;
  out.push_back({"tree-line", [=](Ctx &c) { run(c, line(T ? std::vector<float>{-1e30f, -0.1f, 0.f, 0.3f, 16777216.f} : std::vector<float>{-0.1f, 0.f, 0.3f, 16777216.f}), 3, 3, false, {}, {1, 4}); }});
  out.push_back({"tree-square", [=](Ctx &c) { run(c, sq, T ? 3 : 2, 3, false, {}, {2, 3}); }});
  out.push_back({"tree-deep", [=](Ctx &c) { run(c, line({1e-20f, 2e-20f, 1.f, 1.0000001f, 2.f, 3e10f, 3e30f}), 2, 2, false, {}, {8}); }});
  out.push_back({"forest", [=](Ctx &c) { run(c, line({-0.1f, 0.3f, 1e7f}), T ? 4 : 2, T ? 4 : 3, true, {1, 2, 12}, {1, 3}); }});
  out.push_back({"forest-many", [=](Ctx &c) { run(c, line({-0.1f, 0.3f}), 2, 3, true, T ? std::vector<int>{65, 100, 130, 300} : std::vector<int>{70, 130}, {2}); }});
  out.push_back({"forest-square", [=](Ctx &c) { run(c, sq, 2, 2, true, {3}, {4}); }});
}
