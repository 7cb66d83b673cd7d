// C20: a JIT-compiled decision tree selects as the interpreted one.
#include <dlfcn.h>
#include <float.h>
#include <glob.h>
#include <sys/wait.h>
#include <unistd.h>

#include "world.h"
using namespace mc;
using namespace w;

// Where a process can be stopped while it compiles a tree: 0 before the
// compiler runs, 1 after it (or before the result is opened), 2 after that.
static int stop_at = -1, stop_in = -1, stop_out = -1;
static void stop_point(int k) {
  if (k != stop_at) return;
  stop_at = -1;
  char b = 'p';
  if (write(stop_out, &b, 1) != 1 || read(stop_in, &b, 1) != 1) _exit(1);
}
extern "C" int system(const char *cmd) {
  static auto real = (int (*)(const char *))dlsym(RTLD_NEXT, "system");
  stop_point(0);
  int r = real(cmd);
  stop_point(1);
  return r;
}
extern "C" void *dlopen(const char *file, int flags) {
  static auto real = (void *(*)(const char *, int))dlsym(RTLD_NEXT, "dlopen");
  stop_point(1);
  void *r = real(file, flags);
  stop_point(2);
  return r;
}

namespace {
// The library leaves the sources it compiles in /tmp.
void cleanup(pid_t pid) {
  glob_t g;
  if (glob(fmt("/tmp/_jit_eval_%d_*", (int)pid).c_str(), GLOB_NOSORT, nullptr, &g) == 0)
    for (size_t i = 0; i < g.gl_pathc; i++) unlink(g.gl_pathv[i]);
  globfree(&g);
}
struct Cleanup {
  ~Cleanup() { cleanup(getpid()); }
};

using Table = std::map<Feat, int>;

void measure(Apollo::Region *r, const Table &t, int P) {
  r->dataset.clear();
  for (auto &e : t)
    for (int p = 0; p < P; p++) {
      Feat f = e.first;
      r->dataset.insert(f, p, p == e.second ? 1.0 : 2.0 + p);
    }
}
std::string show(const Table &t) {
  std::string s;
  for (auto &e : t) s += str(e.first) + fmt("->%d ", e.second);
  return s;
}

// All vectors with each component at, next to and between the thresholds.
std::vector<Feat> vectors(const std::vector<const TNode *> &roots, int F) {
  std::map<int, std::set<float>> th;
  for (auto *r : roots) thresholds(*r, th);
  std::vector<std::vector<float>> per(F);
  for (int i = 0; i < F; i++) {
    std::set<float> s;
    for (float t : th[i]) s.insert(t), s.insert(nextafterf(t, -INFINITY)), s.insert(nextafterf(t, INFINITY));
    s.insert(-FLT_MAX), s.insert(FLT_MAX), s.insert(0.f);
    if (F == 1) s.insert(-INFINITY), s.insert(INFINITY);
    per[i].assign(s.begin(), s.end());
  }
  std::vector<Feat> out{{}};
  for (int i = 0; i < F; i++) {
    std::vector<Feat> n;
    for (auto &f : out)
      for (float x : per[i]) {
        n.push_back(f);
        n.back().push_back(x);
      }
    out = n;
    if (out.size() > 4000) break;
  }
  for (auto &f : out) f.resize(F, 0.5f);
  return out;
}

int vote(const std::vector<TTree> &ts, const Feat &f, int &tied) {
  std::map<int, int> n;
  for (auto &t : ts) n[eval(*t.root, f)]++;
  int best = -1;
  tied = 0;
  for (auto &e : n)
    if (best < 0 || e.second > n[best]) best = e.first, tied = 0;
    else if (e.second == n[best]) tied = 1;
  return best;
}

// What the tree that the region stored last selects must be what it selects.
// Decision trees that were grown fully are also compared with their samples.
void check(Ctx &c, Apollo::Region *r, const std::string &file, const Table &t, bool full, const std::string &what, bool forest = false) {
  int F = (int)t.begin()->first.size();
  u64 h = 0;
  std::vector<TTree> ts(forest ? 0 : 1);
  int nt = 0, md = 0;
  bool have = forest ? read_forest_file(file, ts, nt, md) : read_tree_file(file, ts[0]);
  if (have) {
    std::vector<const TNode *> roots;
    for (auto &x : ts) roots.push_back(x.root.get());
    for (auto &f : vectors(roots, F)) {
      int tied = 0, want = vote(ts, f, tied), got = query(r, f);
      if (tied) {
        bool any = false;
        for (auto &x : ts)
          if (eval(*x.root, f) == got) any = true;
        c.check(any, "jit", what + fmt(": %s selects %d, no interpreted tree does", str(f).c_str(), got));
      } else
        c.check(got == want, "jit", what + fmt(": %s selects %d, the interpreted model %d", str(f).c_str(), got, want) + " (" + show(t) + ")");
      h = mix(h, got);
      c.step();
    }
  }
  if (full && !forest) {
    for (auto &e : t) {
      int got = query(r, e.first);
      c.check(got == e.second, "jit-sample", what + fmt(": the sample %s selects %d instead of %d", str(e.first).c_str(), got, e.second));
      c.step();
    }
    if (F == 1) {
      std::set<float> v;
      for (auto &e : t) v.insert(e.first[0]);
      for (float x : around(v)) {
        int got = query(r, {x}), want = nearest(t, x);
        c.check(got == want, "jit-nearest", what + fmt(": %.9g selects %d, the nearest sample has %d", x, got, want) + " (" + show(t) + ")");
        h = mix(h, got);
        c.step();
      }
    }
  }
  c.obs(h);
  c.state(mix(h, hash_str(show(t))));
  c.validated();
}
std::string tree_file(const Apollo::Region *r, int step, const char *kind = "DecisionTree") { return fmt(".apollo/models/%s-step-%d-rank-0-%s.yaml", kind, step, r->name); }

// Subsets of values whose midpoints need every digit.
void values(Ctx &c) {
  Cleanup cl;
  static const float n1 = nextafterf(1.f, 2.f);
  static const std::vector<float> quick{-1e30f, -0.1f, 0.f, 0.1f, 1.f, n1, 16777216.f}, all{-1e30f, -123456.789f, -1.f / 3, -0.1f, 0.f, 1e-30f, 0.1f, 1.f, n1, 1234567.25f, 16777216.f, 3e38f};
  auto &v = thorough ? all : quick;
  static std::vector<unsigned> subsets;
  if (subsets.empty())
    for (unsigned m = 0; m < 1u << v.size(); m++)
      if (__builtin_popcount(m) >= 2 && __builtin_popcount(m) <= 4) subsets.push_back(m);
  unsigned m = c.pick(subsets, "values");
  Table t;
  int k = 0;
  for (size_t i = 0; i < v.size(); i++)
    if (m >> i & 1) t[{v[i]}] = k++ % 3;
  World w({{"STORE_MODELS", "1"}});
  auto *r = new Apollo::Region(1, "r", 3, 0, "DecisionTree,max_depth=6");
  measure(r, t, 3);
  r->train(0);
  check(c, r, tree_file(r, 0), t, true, "trained");
}

// Neighbouring numbers of every magnitude.
void digits(Ctx &c) {
  Cleanup cl;
  int e = c.choose(28, "magnitude") - 12;
  int first = c.choose(2, "first");
  float x = std::pow(10.0, e) * (first ? 1 : -7.0 / 3);
  Table t;
  for (int i = 0; i < 6; i++) {
    t[{x}] = i % 2;
    x = nextafterf(x, INFINITY);
  }
  World w({{"STORE_MODELS", "1"}});
  auto *r = new Apollo::Region(1, "r", 3, 0, "DecisionTree,max_depth=6");
  measure(r, t, 3);
  r->train(0);
  check(c, r, tree_file(r, 0), t, true, "trained");
}

// Two features, all tables, all depths.
void tables(Ctx &c) {
  Cleanup cl;
  int K = thorough ? 3 : 2;
  unsigned d = c.pick(std::vector<unsigned>{1, 2, 4}, "depth");
  Table t;
  const std::vector<Feat> pts{{0.1f, 0.7f}, {0.1f, 1000001.f}, {1.f / 3, 0.7f}, {1.f / 3, 1000001.f}, {-7.3f, 5.f}};
  int code = c.choose((int)pow(K, 5), "best");
  for (auto &f : pts) t[f] = code % K, code /= K;
  World w({{"STORE_MODELS", "1"}});
  auto *r = new Apollo::Region(2, "r", K, 0, fmt("DecisionTree,max_depth=%u", d));
  measure(r, t, K);
  r->train(0);
  check(c, r, tree_file(r, 0), t, d == 4, "trained");
}

// Nodes of any number of samples.
void sizes(Ctx &c) {
  Cleanup cl;
  int n = c.pick(std::vector<int>{1, 2, 8, 13, 16, 17, 40, 100, 300}, "samples"), K = 2 + c.choose(2, "classes"), run = c.pick(std::vector<int>{1, 5}, "run");
  Table t;
  for (int i = 0; i < n; i++) t[{(float)i + (i % 2 ? 0.3f : 0)}] = i / run % K;
  World w({{"STORE_MODELS", "1"}});
  auto *r = new Apollo::Region(1, "r", K, 0, run == 1 && n > 40 ? "DecisionTree,max_depth=5" : "DecisionTree,max_depth=60");
  measure(r, t, K);
  r->train(0);
  check(c, r, tree_file(r, 0), t, !(run == 1 && n > 40), "trained");
}

// Many features: the one that decides is at any position.
void positions(Ctx &c) {
  Cleanup cl;
  int F = c.pick(std::vector<int>{10, 17, 40}, "features"), a = c.choose(thorough ? F : 4, "position");
  if (!thorough) a = (int[]){0, 9, F / 2, F - 1}[a];
  Table t;
  for (int i = 0; i < 3; i++) {
    Feat f(F, 1.f);
    f[a] = i * 2.5f - 1;
    t[f] = i;
  }
  World w({{"STORE_MODELS", "1"}});
  auto *r = new Apollo::Region(F, "r", 3, 0, "DecisionTree,max_depth=6");
  measure(r, t, 3);
  r->train(0);
  check(c, r, tree_file(r, 0), t, true, "trained");
}

// A tree loaded into a model that has one already; trees of a single leaf.
void replaced(Ctx &c) {
  Cleanup cl;
  static const std::vector<Table> T{{{{0.1f}, 0}, {{0.3f}, 1}}, {{{0.1f}, 2}, {{0.3f}, 2}}, {{{0.2f}, 1}}, {{{-2.f}, 2}, {{0.2f}, 0}, {{5.f}, 1}}};
  int code = c.choose(16, "trees"), a = code % 4, b = code / 4;
  World w({{"STORE_MODELS", "1"}});
  Apollo::Region *r[2];
  for (int i = 0; i < 2; i++) {
    r[i] = new Apollo::Region(1, i ? "r1" : "r0", 3, 0, "DecisionTree,max_depth=4");
    measure(r[i], T[i ? b : a], 3);
    r[i]->train(0);
  }
  check(c, r[0], tree_file(r[0], 0), T[a], true, "trained");
  r[0]->model->load(tree_file(r[1], 0));
  check(c, r[0], tree_file(r[1], 0), T[b], true, "the tree of another region loaded");
  check(c, r[1], tree_file(r[1], 0), T[b], true, "the other region");
  r[0]->model->load(tree_file(r[0], 0));
  check(c, r[0], tree_file(r[0], 0), T[a], true, "its own tree loaded again");
}

void forest(Ctx &c) {
  Cleanup cl;
  int K = 3;
  Table t;
  int B = thorough ? 3 : 2, code = c.choose(B * B * B * B, "best");
  for (float x : {-0.3f, 0.1f, 0.7f, 1e7f}) t[{x}] = code % B, code /= B;
  int how = c.choose(2, "how");
  World w({{"STORE_MODELS", "1"}});
  auto *r = new Apollo::Region(1, "r", K, 0, "RandomForest,num_trees=3,max_depth=3");
  measure(r, t, K);
  r->train(0);
  check(c, r, tree_file(r, 0, "RandomForest"), t, false, "trained", true);
  if (how == 1) {
    Table u;
    for (auto &e : t) u[{e.first[0] + 1}] = (e.second + 1) % K;
    measure(r, u, K);
    r->train(1, true, true);
    check(c, r, tree_file(r, 1, "RandomForest"), u, false, "retrained", true);
    auto *q = new Apollo::Region(1, "q", K, 0, "RandomForest,load=" + tree_file(r, 0, "RandomForest"));
    check(c, q, tree_file(r, 0, "RandomForest"), t, false, "loaded", true);
    check(c, r, tree_file(r, 1, "RandomForest"), u, false, "retrained, another one loaded", true);
  }
}

const std::vector<Table> hist{{{{0.1f}, 0}, {{0.3f}, 1}}, {{{0.1f}, 1}, {{0.3f}, 0}, {{0.6f}, 2}}, {{{-2.f}, 2}, {{5.f}, 0}}};

// Histories of two regions: train, retrain, load, and a region that is gone.
void histories(Ctx &c) {
  Cleanup cl;
  int depth = thorough ? 5 : 4;
  int per = thorough ? 6 : 4, code = c.choose((int)lround(pow(per, depth - 1)), "history");
  World w({{"STORE_MODELS", "1"}});
  struct R {
    Apollo::Region *r = nullptr;
    std::string file;
    Table t;
  } rs[2];
  std::vector<std::pair<std::string, Table>> stored;
  std::string log;
  int step = 0, made = 0, mark = 0;
  for (int i = 0; i < depth; i++) {
    int o = i == 0 ? 0 : code % per;
    if (i > 0) code /= per;
    int k = o % 2, op = o / 2;
    R &x = rs[k];
    if (op == 0) {  // train (again)
      const Table &t = hist[(mark++ + k) % hist.size()];
      if (!x.r) x.r = new Apollo::Region(1, fmt("r%d", made++).c_str(), 3, 0, "DecisionTree,max_depth=4");
      measure(x.r, t, 3);
      x.r->train(step, true, true);
      x.file = tree_file(x.r, step++);
      x.t = t;
      stored.push_back({x.file, t});
      log += fmt(" train(%d)", k);
    } else {  // a new region from a stored tree; the first or the last one stored
      auto s = op == 2 ? stored.front() : stored.back();
      x.r = new Apollo::Region(1, fmt("r%d", made++).c_str(), 3, 0, "DecisionTree,load=" + s.first);
      x.file = s.first;
      x.t = s.second;
      log += fmt(" load(%d)", k);
    }
    for (int q = 0; q < 2; q++)
      if (rs[q].r) check(c, rs[q].r, rs[q].file, rs[q].t, true, fmt("after%s, region %d", log.c_str(), q));
  }
}

// Many compiled trees in one run.
void many(Ctx &c) {
  Cleanup cl;
  int how = c.choose(5, "how"), n = thorough ? 140 : 30;
  World w({{"STORE_MODELS", "1"}});
  if (how == 4) {
    auto *r = new Apollo::Region(1, "f", 3, 0, fmt("RandomForest,num_trees=%d,max_depth=3", n / 2));
    for (int i = 0; i < 2; i++) {
      Table t{{{0.f}, i}, {{1.f}, 2 - i}, {{2.f}, 1}, {{3.f}, i * 2}};
      measure(r, t, 3);
      r->train(i, true, i > 0);
      check(c, r, tree_file(r, i, "RandomForest"), t, false, fmt("training %d of a large forest", i), true);
    }
    return;
  }
  int regions = how == 0 ? 1 : how == 1 ? 2 : how == 2 ? 5 : n;
  std::vector<Apollo::Region *> rs(regions);
  std::vector<Table> ts(regions);
  std::vector<std::string> files(regions);
  for (int i = 0; i < n; i++) {
    int k = i % regions;
    if (!rs[k]) rs[k] = new Apollo::Region(1, fmt("r%d", k).c_str(), 7, 0, "DecisionTree,max_depth=4");
    ts[k] = {{{0.1f}, i % 7}, {{0.3f}, (i / 7 + 1) % 7}, {{0.5f}, (i * 3 + 2) % 7}};
    measure(rs[k], ts[k], 7);
    rs[k]->train(i, true, true);
    files[k] = tree_file(rs[k], i);
    for (int q = 0; q < regions; q++)
      if (rs[q] && (q == k || i == n - 1 || i % 9 == 8)) check(c, rs[q], files[q], ts[q], true, fmt("training %d of %d regions, region %d", i, regions, q));
  }
}

// A model of its own can be destroyed while others are in use.
void lifetimes(Ctx &c) {
  Cleanup cl;
  int code = c.choose(12, "order and again"), order = code / 2, again = code % 2;
  static const int perms[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  World w({});
  std::unordered_map<std::string, std::string> par{{"max_depth", "4"}};
  std::unique_ptr<apollo::PolicyModel> m[3];
  auto train = [&](int i, int t) {
    Apollo::Dataset ds;
    for (auto &e : hist[t])
      for (int p = 0; p < 3; p++) {
        Feat f = e.first;
        ds.insert(f, p, p == e.second ? 1.0 : 2.0);
      }
    if (!m[i]) m[i] = apollo::ModelFactory::createPolicyModel("DecisionTree", 1, 3, par);
    m[i]->train(ds);
  };
  int has[3] = {0, 1, 2};
  auto probe = [&](const char *when) {
    for (int i = 0; i < 3; i++)
      if (m[i])
        for (auto &e : hist[has[i]]) {
          Feat f = e.first;
          int p = m[i]->getIndex(f);
          c.check(p == e.second, "jit-lifetime", fmt("%s: tree %d selects %d for %s instead of %d", when, i, p, str(f).c_str(), e.second));
          c.step();
        }
  };
  for (int i = 0; i < 3; i++) train(i, i), probe("created");
  for (int k = 0; k < 3; k++) {
    int i = perms[order][k];
    m[i].reset();
    probe("one destroyed");
    if (again) {
      has[i] = (has[i] + 1) % 3;
      train(i, has[i]);
      probe("one replaced");
    }
  }
  c.validated();
  c.state(order * 2 + again);
  c.obs(order * 2 + again);
}

// Two processes, forked from one that may have trained already.
struct Pair {
  Ctx &c;
  Apollo::Region *common = nullptr;
  int cmd[2][2], ans[2][2];
  pid_t pid[2];
  std::string bad, log;

  Pair(Ctx &c, bool before) : c(c) {
    if (before) {
      common = new Apollo::Region(1, "common", 3, 0, "DecisionTree,max_depth=4");
      measure(common, hist[2], 3);
      common->train(0, true, true);
    }
    for (int p = 0; p < 2; p++) {
      if (pipe(cmd[p]) || pipe(ans[p])) c.fail("harness", "pipe");
      pid[p] = fork();
      if (pid[p] == 0) child(p);
      close(cmd[p][0]);
      close(ans[p][1]);
    }
  }
  // Commands: t train, 0-2 train and stop at that point, ? select, q quit.
  [[noreturn]] void child(int p) {
    int step = 0;
    char b;
    Apollo::Region *r = new Apollo::Region(1, fmt("p%d", p).c_str(), 3, 0, "DecisionTree,max_depth=4");
    const Table *cur = nullptr;
    while (read(cmd[p][0], &b, 1) == 1 && b != 'q') {
      if (b != '?') {
        cur = &hist[(p + step++) % 2];
        measure(r, *cur, 3);
        stop_in = cmd[p][0];
        stop_out = ans[p][1];
        stop_at = b == 't' ? -1 : b - '0';
        r->train(step, true, true);
        stop_at = -1;
      }
      char res = '1';
      if (cur)
        for (auto &e : *cur)
          if (query(r, e.first) != e.second) res = '0';
      if (common)
        for (auto &e : hist[2])
          if (query(common, e.first) != e.second) res = '2';
      if (write(ans[p][1], &res, 1) != 1) break;
    }
    cleanup(getpid());
    _exit(0);
  }
  // Returns whether the process is stopped in the middle of a training.
  bool ask(int p, char b) {
    char r = 0;
    if (write(cmd[p][1], &b, 1) != 1 || read(ans[p][0], &r, 1) != 1) r = 'x';
    c.step();
    if (r == 'p') return true;
    if (r != '1' && bad.empty()) bad = fmt("after%s, process %d: %s", log.c_str(), p, r == '0' ? "its tree selects wrongly" : r == '2' ? "the tree trained before the fork selects wrongly" : "it died");
    return false;
  }
  void finish() {
    for (int p = 0; p < 2; p++) {
      if (write(cmd[p][1], "q", 1) < 0) {}
      close(cmd[p][1]);
      close(ans[p][0]);
      waitpid(pid[p], nullptr, 0);
      cleanup(pid[p]);
    }
    c.check(bad.empty(), "jit-processes", bad);
    c.validated();
    c.state(hash_str(log) + (common != nullptr));
    c.obs(hash_str(log));
  }
};

// Every order of their trainings.
void processes(Ctx &c) {
  Cleanup cl;
  int code = c.choose(12, "trained before the fork, order");
  static const std::vector<std::vector<int>> orders{{0, 0, 1, 1}, {0, 1, 0, 1}, {0, 1, 1, 0}, {1, 0, 0, 1}, {1, 0, 1, 0}, {1, 1, 0, 0}};
  World w({{"STORE_MODELS", "1"}});
  Pair x(c, code % 2);
  for (int p : orders[code / 2]) {
    x.ask(p, 't');
    x.log += fmt(" train(%d)", p);
    x.ask(0, '?');
    x.ask(1, '?');
  }
  x.finish();
}

// Trainings that overlap: one process is stopped at a point of its training
// while the other one trains, up to a point or to the end.
void overlaps(Ctx &c) {
  Cleanup cl;
  int code = c.choose(24, "points");
  int i = code % 3, j = code / 3 % 4;
  World w({{"STORE_MODELS", "1"}});
  Pair x(c, code / 12);
  bool a = x.ask(0, '0' + i);
  x.log += fmt(" train(0) stopped at %d", i);
  bool b = x.ask(1, j == 3 ? 't' : '0' + j);
  x.log += j == 3 ? " train(1)" : fmt(" train(1) stopped at %d", j);
  if (a) x.ask(0, 'c');
  x.log += " continue(0)";
  if (b) x.ask(1, 'c');
  x.log += " continue(1)";
  x.ask(0, '?');
  x.ask(1, '?');
  x.finish();
}
}  // namespace

void mc::scenarios(std::vector<Scenario> &out) {
  out.push_back({"values", values});
  out.push_back({"digits", digits});
  out.push_back({"tables", tables});
  out.push_back({"sizes", sizes});
  out.push_back({"forest", forest});
  out.push_back({"positions", positions});
  out.push_back({"replaced", replaced});
  out.push_back({"many", many});
  out.push_back({"histories", histories});
  out.push_back({"lifetimes", lifetimes});
  out.push_back({"processes", processes});
  out.push_back({"overlaps", overlaps});
}
