// C24, models stored by builds with OpenCV.
#include <float.h>
#include <opencv2/ml.hpp>

#include "dot.h"
#include "world.h"
using namespace mc;
using namespace w;

namespace {
struct CNode {
  int depth = 0, cls = 0, var = -1;
  double value = 0, thr = 0, quality = 0;
  bool inv = false;
  int kid[2] = {-1, -1};
};
using CTree = std::vector<CNode>;

// The stored trees (nodes are in pre-order).
std::vector<CTree> read_stored(Ctx &c, const std::string &file) {
  cv::FileStorage fs(file, cv::FileStorage::READ);
  c.check(fs.isOpened(), "stored", "no stored model");
  cv::FileNode top = fs.getFirstTopLevelNode();
  std::vector<CTree> out;
  for (auto t : top["trees"]) {
    CTree tr;
    std::vector<int> up;
    for (auto n : t["nodes"]) {
      CNode x;
      x.depth = (int)n["depth"];
      x.value = (double)n["value"];
      x.cls = (int)n["norm_class_idx"];
      if (!n["splits"].empty()) {
        cv::FileNode s = n["splits"][0];
        x.var = (int)s["var"];
        x.quality = (double)s["quality"];
        x.inv = s["le"].empty();
        x.thr = x.inv ? (double)s["gt"] : (double)s["le"];
      }
      up.resize(x.depth + 1, -1);
      int me = (int)tr.size();
      if (x.depth > 0) {
        CNode &p = tr[up[x.depth - 1]];
        p.kid[p.kid[0] < 0 ? 0 : 1] = me;
      }
      up[x.depth] = me;
      tr.push_back(x);
    }
    out.push_back(tr);
  }
  return out;
}

struct Graph {
  std::map<std::string, std::string> label;
  std::map<std::string, std::vector<std::string>> kids;
};

void same(Ctx &c, const Graph &g, const std::string &n, const CTree &t, int i) {
  const std::string &l = g.label.at(n);
  auto num = [&](const char *k, double want) {
    std::string v;
    c.check(field(l, k, v), "label", "node " + n + " does not show " + k);
    char *e;
    double x = strtod(v.c_str(), &e);
    c.check(e != v.c_str() && x == want, "label", fmt("node %s shows %s %s, stored is %.17g", n.c_str(), k, v.c_str(), want));
  };
  num("depth", t[i].depth);
  num("value", t[i].value);
  num("norm_class_idx", t[i].cls);
  auto it = g.kids.find(n);
  size_t kids = it == g.kids.end() ? 0 : it->second.size();
  if (t[i].kid[0] < 0) {
    c.check(kids == 0, "structure", "the leaf " + n + " has children");
    return;
  }
  c.check(kids == 2, "structure", fmt("the inner node %s has %zu children", n.c_str(), kids));
  num("var", t[i].var);
  num("quality", t[i].quality);
  num(t[i].inv ? "gt" : "le", t[i].thr);
  for (int k = 0; k < 2; k++) same(c, g, it->second[k], t, t[i].kid[k]);
}

int follow(Ctx &c, const Graph &g, std::string n, const Feat &f) {
  for (int i = 0; i < 100; i++) {
    const std::string &l = g.label.at(n);
    auto it = g.kids.find(n);
    std::string v, th;
    if (it == g.kids.end()) {
      c.check(field(l, "value", v), "label", "leaf " + n + " does not show its class");
      return atoi(v.c_str());
    }
    c.check(it->second.size() == 2, "structure", "node " + n + " does not have two children");
    bool inv = !field(l, "le", th);
    c.check(field(l, "var", v) && (!inv || field(l, "gt", th)), "label", "node " + n + " does not show its split");
    size_t k = (size_t)atoi(v.c_str());
    c.check(k < f.size(), "label", "node " + n + " splits on feature " + v);
    bool left = f[k] <= (float)strtod(th.c_str(), nullptr);
    n = it->second[left != inv ? 0 : 1];
  }
  c.fail("structure", "the diagram has a cycle");
}

void run(Ctx &c, const std::vector<Feat> &pts, int P, const std::vector<int> &trees, const std::vector<int> &depths) {
  std::map<Feat, int> best;
  for (auto &f : pts) best[f] = c.choose(P, "best");
  int k = c.pick(trees, "trees"), d = c.pick(depths, "depth");
  World w({{"STORE_MODELS", "1"}});
  auto *r = new Apollo::Region((int)pts[0].size(), "r", P, 0, fmt("RandomForest,num_trees=%d,max_depth=%d", k, d));
  for (auto &e : best)
    for (int p = 0; p < P; p++) {
      Feat f = e.first;
      r->dataset.insert(f, p, p == e.second ? 1.0 : 2.0 + p);
    }
  cv::theRNG().state = 12345;
  r->train(3);
  std::string file = std::string(".apollo/models/RandomForest") + (c.flip("file") ? "-latest" : "-step-3") + "-rank-0-r.yaml";
  auto ts = read_stored(c, file);
  std::string before = read_file(file);
  std::string tool = std::string(getenv("VERIF_REPO") ? getenv("VERIF_REPO") : "/repo") + "/src/python/analysis/rfc2dot_opencv.py";
  int rc = system(("PYTHONPATH='" HARNESS_DIR "/fakecv' python3 '" + tool + "' -i '" + file + "' -o out.dot >tool.log 2>&1").c_str());
  c.step();
  c.check(rc == 0, "tool", "the tool fails: " + read_file("tool.log").substr(0, 900));
  c.check(read_file(file) == before, "tool", "the tool changed the model");
  Dot dt = read_dot(read_file("out.dot"));
  c.check(dt.err.empty(), "dot", "not a graph: " + dt.err);
  Graph g;
  std::vector<std::string> order, roots;
  std::set<std::string> tn;
  for (auto &n : dt.nodes) {
    c.check(g.label.emplace(n.first, n.second).second, "dot", "node " + n.first + " is given twice");
    if (n.second.find("norm_class_idx") != std::string::npos) tn.insert(n.first), order.push_back(n.first);
  }
  std::map<std::string, int> parents;
  for (auto &e : dt.edges) {
    c.check(g.label.count(e.first) && g.label.count(e.second), "dot", "edge " + e.first + " -> " + e.second + " between unknown nodes");
    if (tn.count(e.first)) {
      g.kids[e.first].push_back(e.second);
      parents[e.second]++;
    }
  }
  size_t total = 0;
  for (auto &t : ts) total += t.size();
  c.check(order.size() == total, "structure", fmt("%zu nodes, the model has %zu", order.size(), total));
  for (auto &n : order) {
    c.check(parents[n] <= 1, "structure", "node " + n + " has several parents");
    if (!parents[n]) roots.push_back(n);
  }
  c.check(roots.size() == ts.size(), "structure", fmt("%zu trees instead of %zu", roots.size(), ts.size()));
  std::vector<std::string> left = roots;
  for (auto &t : ts) {
    bool ok = false;
    Violation v;
    bool have = false;
    for (auto &n : left) try {
        same(c, g, n, t, 0);
        left.erase(std::find(left.begin(), left.end(), n));
        ok = true;
        break;
      } catch (Violation &x) {
        if (!have) v = x, have = true;
      }
    if (!ok) throw v;
  }
  std::vector<Feat> probe = pts;
  for (auto &t : ts)
    for (auto &n : t)
      if (n.var >= 0)
        for (float x : {nextafterf((float)n.thr, -INFINITY), (float)n.thr, nextafterf((float)n.thr, INFINITY)}) {
          probe.push_back(pts[0]);
          probe.back()[n.var] = x;
        }
  u64 h = 0;
  for (auto &f : probe) {
    std::map<int, int> votes;
    for (auto &n : roots) votes[follow(c, g, n, f)]++;
    Feat q = f;
    int got = r->model->getIndex(q), top = 0;
    for (auto &e : votes) top = std::max(top, e.second);
    c.check(votes.count(got) && votes[got] == top, "selection", fmt("%s: the model selects %d, the diagram says otherwise", str(f).c_str(), got));
    h = mix(h, got);
    c.step();
  }
  c.obs(h);
  c.state(mix(h, total * 100 + k * 10 + d));
  c.validated();
}
}  // namespace

void mc::scenarios(std::vector<Scenario> &out) {
  cv::setNumThreads(0);
  bool T = thorough;
  std::vector<Feat> line{{-0.1f}, {0.f}, {1e-9f}, {0.3f}, {16777216.f}};
  if (T) line.push_back({2e7f});
  out.push_back({"opencv-line", [=](Ctx &c) { run(c, line, 2, {1, 3}, {1, 6}); }});
  out.push_back({"opencv-square", [=](Ctx &c) { run(c, product({0.1f, 7.f}, 2), T ? 3 : 2, {4}, {6}); }});
}
