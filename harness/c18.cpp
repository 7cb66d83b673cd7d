// C18: Kokkos tuning contexts map to regions and are learned from.
#include "kokkos.h"
using namespace mc;
using namespace w;
using kk::Var;

namespace {
std::vector<uint32_t> fences;
void fence(const uint32_t d) { fences.push_back(d); }

struct Vars {
  std::map<std::string, std::unique_ptr<Var>> v;
  size_t id = 1;
  Var *out(const std::string &n, std::vector<int64_t> is) {
    auto &p = v[n];
    p.reset(new Var);
    p->kind = Var::SET_INT;
    p->is = is;
    p->declare(id++, n);
    return p.get();
  }
  Var *outs(const std::string &n, std::vector<std::string> ss) {
    auto &p = v[n];
    p.reset(new Var);
    p->kind = Var::SET_STR;
    p->ss = ss;
    p->declare(id++, n);
    return p.get();
  }
  Var *in(const std::string &n, ValueType t) {
    auto &p = v[n];
    p.reset(new Var);
    p->type = t;
    p->declare(id++, n, false);
    return p.get();
  }
};

struct Reg {
  std::string label;
  std::vector<Var *> in, tune;
  std::vector<std::vector<VariableValue>> given;  // the inputs, if not the usual ones
  bool known = false;    // requested at least once
  bool loaded = false;   // a stored model was there
  bool trained = false;
  bool since_flush = false;  // created since the last training
  // (features, combination) -> metric
  std::map<std::pair<Feat, std::string>, double> data, at_training;
  // the open context
  bool open = false;
  size_t ctx = 0;
  int64_t began = 0;
  Feat feat;
  std::string combo;
};

Feat input(const Reg &r, int x, std::vector<VariableValue> *vals) {
  Feat f;
  if (!r.given.empty()) {
    for (auto &v : r.given[x]) {
      if (vals) vals->push_back(v);
      auto t = v.metadata->type;
      f.push_back(t == ValueType::kokkos_value_int64 ? (float)v.value.int_value : t == ValueType::kokkos_value_double ? (float)v.value.double_value : (float)x);
    }
    return f;
  }
  for (size_t i = 0; i < r.in.size(); i++) {
    VariableValue v = r.in[i]->def();
    int q = (int)i == 1 ? 3 - x : x;
    if (r.in[i]->info.type == ValueType::kokkos_value_int64) v.value.int_value = 1000 * q + 7, f.push_back((float)(1000 * q + 7));
    else v.value.double_value = q + .25, f.push_back((float)(q + .25));
    if (vals) vals->push_back(v);
  }
  return f;
}

struct Driver {
  Vars vars;
  std::vector<Reg> regs;
  int flush = 1000000000;
  long ended = 0, steps = 0, kernels = 0;
  size_t next_ctx = 100;
  std::vector<size_t> fixed;  // context numbers used again and again
  bool tree = false;  // a decision tree deep enough for all inputs
  bool noise = false;
  std::string log;
  Var *none = nullptr, *one = nullptr;

  [[noreturn]] void fail(const char *key, const std::string &m) { throw Violation{key, m + "; after" + log}; }

  std::set<std::string> combos(const Reg &r) {
    std::set<std::string> s{""};
    for (auto *v : r.tune) {
      std::set<std::string> t;
      for (auto &a : s)
        for (auto &b : kk::candidates(*v).must) t.insert(a + b + "|");
      s = t;
    }
    return s;
  }
  // The best combinations of an input (several if too close to tell).
  std::set<std::string> best(const Reg &r, const Feat &f) {
    double m = INFINITY;
    for (auto &e : r.at_training)
      if (e.first.first == f) m = std::min(m, e.second);
    std::set<std::string> s;
    for (auto &e : r.at_training)
      if (e.first.first == f && e.second < m + 1e-6) s.insert(e.first.second);
    return s;
  }
  void kernel() {
    fences.clear();
    uint32_t dev = 3 + kernels % 5;
    uint64_t k = 0;
    bool must = false, may = false;
    for (auto &r : regs) {
      if (r.known && !r.loaded && !r.trained) may = true;
      if (r.known && !r.loaded && r.since_flush) must = true;
    }
    size_t at_begin;
    switch (kernels++ % 3) {
      case 0: kokkosp_begin_parallel_for("k", dev, &k); at_begin = fences.size(); kokkosp_end_parallel_for(k); break;
      case 1: kokkosp_begin_parallel_scan("k", dev, &k); at_begin = fences.size(); kokkosp_end_parallel_scan(k); break;
      default: kokkosp_begin_parallel_reduce("k", dev, &k); at_begin = fences.size(); kokkosp_end_parallel_reduce(k); break;
    }
    if (!may && !fences.empty()) fail("fence", "a fence is requested around a kernel, but no region is exploring");
    if (must && (at_begin < 1 || fences.size() - at_begin < 1)) fail("fence", "no fence before and after a kernel while a region is exploring");
    for (auto d : fences)
      if (d != dev) fail("fence", fmt("a fence of device %u around a kernel of device %u", d, dev));
  }
  void do_noise() {
    if (!noise) return;
    kokkosp_end_context(5);  // never requested anything
    kokkosp_end_context(next_ctx - 1 == 99 ? 6 : 7);
    VariableValue v = none->def();
    size_t id = next_ctx++;
    kokkosp_request_values(id, 0, nullptr, 0, nullptr);
    kokkosp_end_context(id);
    id = next_ctx++;
    kokkosp_request_values(id, 0, nullptr, 1, &v);
    if (!none->is_def(v)) fail("no-candidates", "a variable without candidates was changed");
    kokkosp_end_context(id);
  }
  std::string request(int i, int x) {
    Reg &r = regs[i];
    log += fmt(" request(%s,%d)", r.label.c_str(), x);
    std::vector<VariableValue> cv, tv;
    r.feat = input(r, x, &cv);
    for (auto *v : r.tune) tv.push_back(v->def());
    r.ctx = fixed.empty() ? next_ctx++ : fixed[i];
    kokkosp_request_values(r.ctx, cv.size(), cv.data(), tv.size(), tv.data());
    r.began = vclock_ns;
    r.open = true;
    if (!r.known && !r.loaded) r.since_flush = true;
    r.known = true;
    r.combo.clear();
    for (size_t k = 0; k < tv.size(); k++) r.combo += r.tune[k]->text(tv[k]) + "|";
    if (!combos(r).count(r.combo)) fail("no-candidate", r.label + ": " + r.combo + " is no combination of candidates");
    if (r.trained) {
      std::set<std::string> all;
      bool one = true;
      for (auto &e : r.at_training) {
        auto b = best(r, e.first.first);
        if (b.size() != 1) one = false;
        all.insert(b.begin(), b.end());
      }
      auto b = best(r, r.feat);
      if (one && all.size() == 1) b = all;  // the same answer for all inputs
      else if (!tree) b.clear();
      if (!b.empty() && !b.count(r.combo)) fail("not-best", fmt("%s, input %d: %s is handed out, the best measured one is %s", r.label.c_str(), x, r.combo.c_str(), b.begin()->c_str()));
    }
    steps++;
    do_noise();
    kernel();
    return r.combo;
  }
  void end(int i) {
    Reg &r = regs[i];
    log += fmt(" end(%s)", r.label.c_str());
    double m = (vclock_ns - r.began) / 1e9;
    auto k = std::make_pair(r.feat, r.combo);
    auto it = r.data.find(k);
    if (it == r.data.end()) r.data[k] = m;
    else it->second = .5 * it->second + .5 * m;
    kokkosp_end_context(r.ctx);
    if (noise) kokkosp_end_context(r.ctx);  // a second time: nothing to end
    r.open = false;
    ended++;
    if (ended % flush == 0) {
      log += " [flush]";
      for (auto &q : regs) {
        q.since_flush = false;
        if (!q.data.empty() && !q.trained && !q.loaded) q.trained = true, q.at_training = q.data;
      }
    }
    steps++;
    do_noise();
    kernel();
  }
  std::string exec(int i, int x, int64_t dt) {
    std::string s = request(i, x);
    vclock_ns += dt;
    end(i);
    return s;
  }
  void setup(const Env &env, int flush_, int pair, bool args_first) {
    flush = flush_;
    vclock_ns = 1000000000ll;
    fences.clear();
    kk::init(env, {fmt("--flush-rate=%d", flush)}, args_first);
    ToolProgrammingInterface t;
    memset(&t, 0, sizeof t);
    t.fence = fence;
    kokkosp_provide_tool_programming_interface(1, t);
    Var *i0 = vars.in("i0", ValueType::kokkos_value_int64), *i1 = vars.in("i1", ValueType::kokkos_value_double);
    Var *a = vars.out("a", {10, -20}), *b = vars.outs("b", {"red", "green", "blue"});
    std::string p(60, 'p');
    Var *la = vars.out(p + "-first", {1, 2}), *lb = vars.out(p + "-second", {5, 6, 7});
    std::string pp(80, 'p');
    Var *ma = vars.out(pp + "1", {1, 2}), *mb = vars.out(pp + "2", {5, 6, 7});
    Var *uv = vars.in("u_v", ValueType::kokkos_value_int64), *u = vars.in("u", ValueType::kokkos_value_int64), *x = vars.in("x", ValueType::kokkos_value_int64);
    Var *ow = vars.out("w", {1, 2}), *vw = vars.out("v_w", {5, 6, 7}), *xy = vars.out("x_y", {1, 2}), *y = vars.out("y", {5, 6, 7});
    none = vars.out("none", {});
    auto add = [&](const char *l, std::vector<Var *> in, std::vector<Var *> tune) {
      regs.emplace_back();
      regs.back().label = l;
      regs.back().in = in;
      regs.back().tune = tune;
    };
    switch (pair) {
      case 0: add("i0:a", {i0}, {a}), add("i0:b", {i0}, {b}); break;
      case 1: add("i0:a", {i0}, {a}), add("i1:a", {i1}, {a}); break;
      case 2: add("i0i1:a", {i0, i1}, {a}), add("i0:a", {i0}, {a}); break;
      case 3: add("i0:ab", {i0}, {a, b}), add("i0:ba", {i0}, {b, a}); break;
      case 4: add("i0:long1", {i0}, {la}), add("i0:long2", {i0}, {lb}); break;
      case 6: add("i0:longer1", {i0}, {ma}), add("i0:longer2", {i0}, {mb}); break;
      case 7: add("u_v:w", {uv}, {ow}), add("u:v_w", {u}, {vw}); break;
      case 8: add("x_y", {}, {xy}), add("x:y", {x}, {y}); break;
      case 9:
      case 10: {
        // many variables, of which the last ones differ
        std::vector<Var *> in, tune;
        for (int k = 0; k < 7; k++) in.push_back(vars.in(fmt("m%d", k), k % 2 ? ValueType::kokkos_value_double : ValueType::kokkos_value_int64));
        if (pair == 9) {
          auto in2 = in;
          in.pop_back();
          in2.erase(in2.begin() + 5);
          add("m012345:a", in, {a}), add("m012346:a", in2, {a});
        } else {
          for (int k = 0; k < 6; k++) tune.push_back(vars.out(fmt("t%d", k), {k * 100}));
          auto tune2 = tune;
          tune.push_back(a);
          tune2.push_back(b);
          add("i0:t012345a", {i0}, tune), add("i0:t012345b", {i0}, tune2);
        }
        break;
      }
      case -1: break;
      case 5: add(":a", {}, {a}), add("i1:b", {i1}, {b}); break;
    }
    kernel();
  }
  // Ends the run and compares what was measured with the stored datasets.
  void finish(const std::string &dir) {
    Apollo::instance()->~Apollo();
    // Each region's measurements in one file, whatever its name and the order
    // of the combinations.
    std::vector<RefData> files;
    for (auto &f : tree_files(dir)) {
      Apollo::Dataset ds;
      std::ifstream i(dir + "/" + f);
      ds.load(i);
      RefData r = to_ref(ds);
      if (!r.d.empty()) files.push_back(r);
    }
    std::vector<const Reg *> want;
    for (auto &r : regs)
      if (!r.data.empty()) want.push_back(&r);
    if (files.size() != want.size()) fail("regions", fmt("measurements of %zu regions are stored instead of %zu", files.size(), want.size()));
    std::vector<int> perm(files.size());
    for (size_t i = 0; i < perm.size(); i++) perm[i] = i;
    do {
      bool ok = true;
      for (size_t i = 0; i < perm.size() && ok; i++) ok = same(*want[i], files[perm[i]]);
      if (ok) return;
    } while (std::next_permutation(perm.begin(), perm.end()));
    std::string s;
    for (auto *r : want) {
      s += " " + r->label + ":";
      for (auto &e : r->data) s += " " + str(e.first.first) + " " + e.first.second + fmt("=%.9g", e.second);
    }
    s += "; stored:";
    for (auto &f : files) s += " " + f.str();
    fail("measurements", "the stored measurements are not those of the contexts:" + s);
  }
  static std::vector<std::string> tree_files(const std::string &d) { return w::tree(d); }
  bool same(const Reg &r, const RefData &f) {
    if (r.data.size() != f.d.size()) return false;
    // the combination of each policy index, found by matching
    std::map<int, std::set<std::string>> maybe;
    for (auto &e : f.d) {
      std::set<std::string> m;
      for (auto &q : r.data)
        if (q.first.first == e.first.first && fabs(q.second - e.second) <= 1e-7) m.insert(q.first.second);
      auto it = maybe.find(e.first.second);
      if (it == maybe.end()) maybe[e.first.second] = m;
      else {
        std::set<std::string> x;
        for (auto &s : m)
          if (it->second.count(s)) x.insert(s);
        it->second = x;
      }
    }
    // a system of distinct combinations
    std::vector<std::set<std::string>> sets;
    for (auto &e : maybe) sets.push_back(e.second);
    std::set<std::string> used;
    std::function<bool(size_t)> rec = [&](size_t i) {
      if (i == sets.size()) return true;
      for (auto &s : sets[i])
        if (used.insert(s).second) {
          if (rec(i + 1)) return true;
          used.erase(s);
        }
      return false;
    };
    return rec(0);
  }
};

const Env base{{"PERSISTENT_DATASETS", "1"}, {"DATASETS_DIR", "ds"}};
Env with(const char *model) {
  Env e = base;
  e["POLICY_MODEL"] = model;
  return e;
}

void absorb(Ctx &c, const std::string &out) {
  std::istringstream i(out);
  long n = 0;
  unsigned long long h = 0;
  i >> n >> h;
  c.step((int)n);
  c.state(h);
  c.obs(h);
  c.validated();
}

// All interleavings of requests and ends of two regions.
void interleavings(Ctx &c, bool forest) {
  int pair = c.choose(thorough ? 9 : 6, "regions");
  int flush = c.pick(forest ? std::vector<int>{3} : thorough ? std::vector<int>{1, 2, 3, 4} : std::vector<int>{1, 2, 3}, "flush interval");
  bool noise = thorough ? c.flip("noise") : true;
  int depth = thorough ? (forest ? 8 : 8) : 6;
  struct Op { int r, x; };  // x < 0: end
  std::vector<Op> ops;
  bool open[2] = {false, false};
  for (int i = 0; i < depth; i++) {
    std::vector<Op> can;
    for (int r = 0; r < 2; r++)
      if (open[r]) can.push_back({r, -1});
      else {
        can.push_back({r, 1});
        if (!((pair == 5 || pair == 8) && r == 0) && (r == 0 || thorough)) can.push_back({r, 2});
      }
    Op o = can[c.choose((int)can.size(), "operation")];
    open[o.r] = o.x >= 0;
    ops.push_back(o);
  }
  std::string out;
  kk::run(c, fmt("pair %d", pair), [&](std::string &o) {
    Driver d;
    d.tree = !forest;
    d.noise = noise;
    d.setup(with(forest ? "RandomForest,num_trees=3" : "DecisionTree,max_depth=6"), flush, pair, false);
    int k = 0;
    auto tick = [&] { vclock_ns += 1000000ll * (3 + (k++ * 7) % 11); };
    for (auto &op : ops) {
      tick();
      if (op.x < 0) d.end(op.r);
      else d.request(op.r, op.x);
    }
    for (int r = 0; r < 2; r++)
      if (d.regs[r].open) tick(), d.end(r);
    // up to the next training, and each input afterwards
    for (int i = 0; i < 2 * flush || i < 4; i++) {
      tick();
      d.request(i % 2, 1 + (i / 2) % 2);
      tick();
      d.end(i % 2);
    }
    d.finish(".apollo/ds");
    u64 h = pair;
    for (auto &r : d.regs)
      for (auto &e : r.data) h = mix(mix(h, hash_d(e.second)), hash_str(e.first.second));
    o = fmt("%ld %llu", d.steps, (unsigned long long)h);
  }, &out);
  absorb(c, out);
}

// Context numbers of every size, used again for later contexts.
void numbers(Ctx &c) {
  static const std::vector<std::vector<size_t>> N{{0, 1}, {1, 0}, {0, (size_t)-1}, {1ull << 32, 0}, {1, 1 + (1ull << 32)}, {(size_t)-1, (size_t)-2}, {1ull << 31, 1ull << 63}, {256, 512}};
  auto ids = c.pick(N, "numbers");
  int pair = c.pick(std::vector<int>{0, 1, 9, 10}, "regions"), flush = 1 + c.choose(3, "flush interval");
  int depth = thorough ? 8 : 6;
  std::vector<int> ops;
  for (int i = 0; i < depth; i++) ops.push_back(c.choose(2, "region"));
  std::string out;
  kk::run(c, fmt("contexts %zu and %zu", ids[0], ids[1]), [&](std::string &o) {
    Driver d;
    d.tree = d.noise = true;
    d.fixed = ids;
    d.setup(with("DecisionTree,max_depth=6"), flush, pair, false);
    int k = 0;
    auto tick = [&] { vclock_ns += 1000000ll * (3 + (k++ * 7) % 11); };
    for (int r : ops) {
      tick();
      if (d.regs[r].open) d.end(r);
      else d.request(r, 1 + k % 2);
    }
    for (int r = 0; r < 2; r++)
      if (d.regs[r].open) tick(), d.end(r);
    for (int i = 0; i < 4; i++) {
      tick();
      d.request(i % 2, 1 + (i / 2) % 2);
      tick();
      d.end(i % 2);
    }
    d.finish(".apollo/ds");
    u64 h = pair;
    for (auto &r : d.regs)
      for (auto &e : r.data) h = mix(mix(h, hash_d(e.second)), hash_str(e.first.second));
    o = fmt("%ld %llu", d.steps, (unsigned long long)h);
  }, &out);
  absorb(c, out);
}

// All orders of the costs of the candidates, learned in one run, used there
// and by a second run.
void learned(Ctx &c) {
  int pair = c.pick(std::vector<int>{0, 1, 2, 4, 5, 6, 7, 8, 9, 10}, "regions");
  int model = c.choose(2, "model");
  bool two = c.flip("inputs");
  bool first = model == 1 && thorough && c.flip("arguments before the start");
  int n1 = pair == 0 || (pair >= 4 && pair != 9) ? 3 : 2;
  std::vector<std::vector<int>> p2{{1, 2}, {2, 1}}, p3{{1, 2, 3}, {1, 3, 2}, {2, 1, 3}, {2, 3, 1}, {3, 1, 2}, {3, 2, 1}};
  std::vector<int> cost[2][2];
  for (int x = 0; x < 2; x++) {
    cost[0][x] = c.pick(p2, "costs of the first region");
    if (x == 0 || two) cost[1][x] = c.pick(n1 == 3 ? p3 : p2, "costs of the second region");
    if (!two) {
      cost[0][1] = cost[0][0];
      cost[1][1] = cost[1][0];
      break;
    }
  }
  std::map<std::string, std::string> chosen;
  std::string out;
  bool forest = model == 1;
  Env env = with(forest ? "RandomForest,num_trees=5" : "DecisionTree,max_depth=6");
  int inputs = two ? 2 : 1;
  int rounds = 3;
  int flush = 2 * inputs * rounds;
  auto dt = [&](Driver &d, int r, int x, const std::string &combo) {
    auto all = d.combos(d.regs[r]);
    int k = (int)std::distance(all.begin(), all.find(combo));
    bool noin = d.regs[r].in.empty();
    return (int64_t)(1000000ll * cost[r][noin ? 0 : x][k]);
  };
  kk::run(c, "first run", [&](std::string &o) {
    Driver d;
    d.tree = !forest;
    d.setup(env, flush, pair, first);
    for (int k = 0; k < rounds; k++)
      for (int x = 0; x < inputs; x++)
        for (int r = 0; r < 2; r++) {
          std::string s = d.request(r, x + 1);
          vclock_ns += dt(d, r, x, s);
          d.end(r);
        }
    std::string sel;
    u64 h = pair;
    for (int r = 0; r < 2; r++) {
      if (!d.regs[r].trained) d.fail("untrained", "bad harness");
      for (int x = 0; x < 2; x++) {
        std::string s = d.exec(r, x + 1, 500000000), t = d.exec(r, x + 1, 500000000);
        if (s != t) d.fail("unstable", d.regs[r].label + ": " + s + " and then " + t + " is handed out after training");
        sel += s + "\n";
        h = mix(h, hash_str(s));
      }
    }
    d.finish(".apollo/ds");
    o = fmt("%ld %llu\n", d.steps, (unsigned long long)h) + sel;
  }, &out);
  absorb(c, out);
  if (!forest) return;
  std::string first_sel = out.substr(out.find('\n') + 1);
  // The second run keeps no datasets, so that the stored models are all there
  // is; its regions come up in either order.
  bool rev = c.flip("order of the second run");
  kk::run(c, "second run", [&](std::string &o) {
    Driver d;
    Env e;
    e["POLICY_MODEL"] = env["POLICY_MODEL"];
    d.setup(e, 1000000000, pair, first);
    for (auto &r : d.regs) r.loaded = true;
    std::string sel[2];
    for (int i = 0; i < 2; i++) {
      int r = rev ? 1 - i : i;
      for (int x = 0; x < 2; x++) sel[r] += d.exec(r, x + 1, 1000000) + "\n";
    }
    if (sel[0] + sel[1] != first_sel) d.fail("second-run", "the second run hands out " + sel[0] + sel[1] + " but the first run had learned " + first_sel);
    o = fmt("%ld %llu", d.steps, (unsigned long long)hash_str(first_sel));
  }, &out);
  absorb(c, out);
}

// A run of many contexts with a flush interval, new regions between.
void periods(Ctx &c) {
  int flush = c.choose(thorough ? 12 : 7, "flush interval") + 1;
  int late = c.choose(thorough ? 16 : 9, "second region from");
  int pair = c.choose(thorough ? 9 : 6, "regions");
  bool first = c.flip("arguments before the start");
  int skew = c.choose(3, "skew");
  std::string out;
  kk::run(c, fmt("flush interval %d", flush), [&](std::string &o) {
    Driver d;
    d.noise = true;
    Env e = with(first ? "" : "RandomForest");
    if (first) e.erase("POLICY_MODEL");
    d.setup(e, flush, pair, first);
    for (int i = 0; i < 3 * flush + late + 2; i++) {
      int r = i >= late && (i + skew) % 3 ? 1 : 0;
      d.exec(r, 1 + (i / 2) % 2, 1000000ll * (1 + (i * 5 + skew) % 7));
    }
    d.finish(".apollo/ds");
    o = fmt("%ld %llu", d.steps, (unsigned long long)mix(mix(flush, late), pair * 8 + skew));
  }, &out);
  absorb(c, out);
}

// Inputs of every type are told apart, in every position.
void inputs(Ctx &c) {
  int type = c.choose(3, "type");
  const std::vector<int64_t> ints{0, 7, -5, 1ll << 24, (1ll << 31) - 128, 1ll << 31, 1ll << 32, 1ll << 33, -(1ll << 31), -(1ll << 32), 1ll << 40, 1ll << 53, 1ll << 62, INT64_MIN};
  const std::vector<double> dbls{0, 0.25, -0.25, 0.5, 1.0, 1e-10, 1e-30, 3e9, 4.5e9, 1e19, 1e30, -1e30, 0.1, 0.1000001};
  const std::vector<std::string> strs{"", "a", "b", "aa", "ab", "ba", "abc", "cab", std::string(40, 'x') + "1", std::string(40, 'x') + "2", std::string(63, 'y'), std::string(62, 'y') + "z", "1", "2"};
  int n = 14, i = c.choose(n, "first"), j = c.choose(n - 1, "second");
  if (j >= i) j++;
  int F = 1 + c.choose(thorough ? 3 : 2, "inputs"), pos = c.choose(F, "position");
  int turn = thorough ? c.choose(2, "best") : 0;
  std::string out;
  kk::run(c, "inputs", [&](std::string &o) {
    Driver d;
    d.tree = true;
    d.setup(with("DecisionTree,max_depth=6"), 4, -1, false);
    Reg r;
    r.label = "r";
    for (int k = 0; k < F; k++) {
      int t = (type + (k == pos ? 0 : k + 1)) % 2 + (k == pos && type == 2 ? 2 : 0);
      r.in.push_back(d.vars.in("v" + std::to_string(k), k != pos ? (t ? ValueType::kokkos_value_double : ValueType::kokkos_value_int64) : type == 0 ? ValueType::kokkos_value_int64 : type == 1 ? ValueType::kokkos_value_double : ValueType::kokkos_value_string));
    }
    r.tune = {d.vars.v["a"].get()};
    for (int x : {i, j}) {
      std::vector<VariableValue> vs;
      for (int k = 0; k < F; k++) {
        VariableValue v = r.in[k]->def();
        if (k == pos) {
          if (type == 0) v.value.int_value = ints[x];
          else if (type == 1) v.value.double_value = dbls[x];
          else memset(v.value.string_value, 0, sizeof v.value.string_value), strcpy(v.value.string_value, strs[x].c_str());
        }
        vs.push_back(v);
      }
      r.given.push_back(vs);
    }
    d.regs.push_back(r);
    // every candidate for each input, each input with another best one
    for (int x = 0; x < 2; x++)
      for (int k = 0; k < 2; k++) {
        std::string s = d.request(0, x);
        bool best = (s == "10|") == ((x + turn) % 2 == 0);
        vclock_ns += best ? 1000000 : 50000000;
        d.end(0);
      }
    if (!d.regs[0].trained) d.fail("untrained", "bad harness");
    for (int x : {0, 1, 0}) {
      std::string s = d.exec(0, x, 70000000);
      if ((s == "10|") != ((x + turn) % 2 == 0)) d.fail("not-best", fmt("inputs %d and %d of type %d at position %d: %s is handed out for the %s one, which is the best for the other", i, j, type, pos, s.c_str(), x ? "second" : "first"));
    }
    if (type != 2) d.finish(".apollo/ds");
    o = fmt("%ld %llu", d.steps, (unsigned long long)mix(mix(type, i), j));
  }, &out);
  absorb(c, out);
}
}  // namespace

void mc::scenarios(std::vector<Scenario> &out) {
  out.push_back({"interleavings", [](Ctx &c) { interleavings(c, false); }});
  out.push_back({"interleavings-forest", [](Ctx &c) { interleavings(c, true); }});
  out.push_back({"numbers", numbers});
  out.push_back({"learned", learned});
  out.push_back({"periods", periods});
  out.push_back({"inputs", inputs});
}
