// C17: Kokkos tuning values come from the declared candidates.
#include "kokkos.h"
using namespace mc;
using namespace w;
using kk::Var;

namespace {
struct Report {
  long steps = 0;
  std::vector<u64> states;
  std::string str() const {
    std::string s = fmt("%ld", steps);
    for (auto x : states) s += fmt(" %llu", (unsigned long long)x);
    return s;
  }
};
void absorb(Ctx &c, const std::string &out, int validated) {
  std::istringstream i(out);
  long n = 0;
  i >> n;
  c.step((int)n);
  unsigned long long x;
  while (i >> x) c.state(x), c.obs(x);
  c.validated(validated);
}

size_t next_ctx = 1;

// One request and its end; returns the values as text.
std::vector<std::string> request(const std::vector<Var *> &in, const std::vector<int64_t> &inv, const std::vector<Var *> &vars, const std::string &what) {
  std::vector<VariableValue> cv, tv;
  for (size_t i = 0; i < in.size(); i++) {
    VariableValue v = in[i]->def();
    if (in[i]->info.type == ValueType::kokkos_value_int64) v.value.int_value = inv[i];
    if (in[i]->info.type == ValueType::kokkos_value_double) v.value.double_value = inv[i] + .5;
    if (in[i]->info.type == ValueType::kokkos_value_string) snprintf(v.value.string_value, 64, "s%d", (int)inv[i]);
    cv.push_back(v);
  }
  for (auto *v : vars) tv.push_back(v->def());
  auto cv0 = cv;
  size_t id = next_ctx++;
  kokkosp_request_values(id, cv.size(), cv.data(), tv.size(), tv.data());
  std::vector<std::string> r;
  for (size_t i = 0; i < vars.size(); i++) {
    if (tv[i].type_id != vars[i]->id) throw Violation{"mixed-id", what + fmt(": variable %zu comes back with the identifier %zu instead of %zu", i, tv[i].type_id, vars[i]->id)};
    if (tv[i].metadata != &vars[i]->info) throw Violation{"mixed-metadata", what + fmt(": variable %zu comes back with other metadata", i)};
    r.push_back(vars[i]->text(tv[i]));
  }
  for (size_t i = 0; i < in.size(); i++)
    if (cv[i].type_id != cv0[i].type_id || cv[i].metadata != cv0[i].metadata || in[i]->text(cv[i]) != in[i]->text(cv0[i])) throw Violation{"input-changed", what + ": the request changed a context variable"};
  kokkosp_end_context(id);
  return r;
}

std::string show(const std::vector<std::string> &v) {
  std::string s;
  for (auto &x : v) s += "'" + x + "' ";
  return s;
}

// A value handed out for a variable that has candidates.
void check_value(Var &v, const std::set<std::string> &cands, const std::string &t, const std::string &what) {
  if (v.kind == Var::RNG_DBL) {
    long k;
    double x = strtod(t.c_str(), nullptr);
    if (!kk::on_grid(v, x, k)) throw Violation{"no-candidate", what + ": " + t + " is not a candidate of " + v.desc()};
    return;
  }
  if (!cands.count(t)) throw Violation{"no-candidate", what + ": '" + t + "' is not a candidate of " + v.desc()};
}

// Explores the first repetition and one more cycle.
struct Explorer {
  std::vector<Var *> vars, in;
  std::string what;
  std::vector<std::vector<std::string>> seen;
  std::set<std::vector<std::string>> index;
  size_t limit = 20000;
  std::vector<std::set<std::string>> cands;  // of vars
  std::vector<bool> maybe_none;
  long steps = 0;
  bool empty = false, done = false;
  size_t period = 0;
  Explorer(std::vector<Var *> v, std::vector<Var *> i = {}) : vars(std::move(v)), in(std::move(i)) {
    for (auto *x : vars) {
      cands.push_back(x->kind == Var::UNBOUNDED || x->kind == Var::RNG_DBL ? std::set<std::string>{} : kk::candidates(*x).must);
      maybe_none.push_back(x->kind == Var::RNG_DBL && x->dst != 0 && kk::grid_must(*x).empty());
      what += x->desc() + "; ";
      if (x->kind == Var::UNBOUNDED) empty = true;
      else if (x->kind == Var::RNG_DBL ? (x->dst != 0 && x->dlo + x->dst * (x->olo ? 1e-12 : 0) > x->dup) : cands.back().empty()) empty = true;
    }
  }
  // Returns false when there is nothing more to do.
  bool go(int64_t input) {
    if (done) return false;
    std::vector<int64_t> iv(in.size(), input);
    auto r = request(in, iv, vars, what);
    steps++;
    if (empty) {
      for (size_t i = 0; i < vars.size(); i++) {
        auto d = vars[i]->def();
        bool isdef = r[i] == vars[i]->text(d);
        bool none = vars[i]->kind == Var::UNBOUNDED || (vars[i]->kind != Var::RNG_DBL && cands[i].empty());
        if (!isdef) {
          if (none) throw Violation{"no-candidates", what + ": variable " + fmt("%zu", i) + " has no candidates, but the value " + r[i] + " was handed out"};
          check_value(*vars[i], cands[i], r[i], what);
        }
      }
      if (steps >= 4) done = true;
      return !done;
    }
    // Ranges that may have no value are settled by what comes back.
    for (size_t i = 0; i < vars.size(); i++) {
      Var &v = *vars[i];
      if (maybe_none[i] && r[i] == v.text(v.def())) {
        done = true;
        return false;
      }
      check_value(v, cands[i], r[i], what);
    }
    seen.push_back(r);
    if (!period) {
      if (!index.insert(r).second) {
        if (seen[0] != r) throw Violation{"repeats", what + ": the exploration repeats " + show(r) + " before the cycle is complete"};
        period = seen.size() - 1;
      }
      if (seen.size() > limit) throw Violation{"no-cycle", what + fmt(": no combination repeats within %zu requests", limit)};
    } else if (seen.size() == 2 * period) {
      finish();
      done = true;
      return false;
    }
    if (period == 1 && seen.size() == 2) {
      finish();
      done = true;
    }
    return !done;
  }
  void finish() {
    std::set<std::vector<std::string>> a(seen.begin(), seen.begin() + period), b(seen.begin() + period, seen.end());
    if (a.size() != period) throw Violation{"repeats", what + ": a combination is handed out twice in a cycle"};
    if (a != b) throw Violation{"cycles-differ", what + ": the second cycle does not hand out each combination once"};
    size_t prod = 1;
    for (size_t i = 0; i < vars.size(); i++) {
      Var &v = *vars[i];
      std::set<std::string> vals;
      for (auto &x : a) vals.insert(x[i]);
      prod *= vals.size();
      if (v.kind == Var::RNG_DBL) {
        std::set<long> ks;
        for (auto &t : vals) {
          long k;
          if (kk::on_grid(v, strtod(t.c_str(), nullptr), k)) ks.insert(k);
        }
        if (v.dst != 0 && ks.size() != vals.size()) throw Violation{"grid", what + ": two values for one grid position of " + v.desc()};
        for (long k : kk::grid_must(v))
          if (!ks.count(k)) throw Violation{"missing", what + fmt(": the grid value %.17g of ", v.dlo + k * v.dst) + v.desc() + " is never handed out"};
        if (v.dst == 0 && v.dup > v.dlo && vals.size() < 2) throw Violation{"missing", what + ": a continuous range with a single value"};
      } else if (vals != cands[i])
        throw Violation{"missing", what + ": " + fmt("%zu of %zu candidates of ", vals.size(), cands[i].size()) + v.desc() + " are handed out"};
    }
    if (prod != period) throw Violation{"combinations", what + fmt(": %zu of %zu combinations are handed out in a cycle", period, prod)};
  }
};

const std::vector<std::string> models{"RoundRobin", "RandomForest,explore=RoundRobin", "DecisionTree,explore=RoundRobin"};

// Integer ranges with steps and bounds beyond 32 bits.
void int_steps(Ctx &c) {
  int64_t st = 1ll << c.pick(std::vector<int>{10, 15, 16, 20, 21, 30, 31, 32, 33, 40, 50, 59}, "step");
  int off = c.choose(3, "step offset") - 1;
  st += off;
  int64_t lo = c.pick(std::vector<int64_t>{0, 5, -3, -(1ll << 31), 1ll << 31, -(1ll << 40), 1ll << 53}, "lower");
  std::string out;
  kk::run(c, fmt("integer ranges from %lld, step %lld", (long long)lo, (long long)st), [&](std::string &o) {
    kk::init({{"POLICY_MODEL", models[0]}}, {"--flush-rate=1000000000"}, false);
    Report r;
    std::vector<std::unique_ptr<Var>> vs;
    size_t id = 10;
    for (int n = 1; n <= 5; n++)
      for (int d = -1; d <= 1; d++)
        for (int open = 0; open < 4; open++) {
          vs.emplace_back(new Var);
          Var &v = *vs.back();
          v.kind = Var::RNG_INT;
          v.lo = lo;
          v.up = lo + n * st + d;
          v.st = st;
          v.olo = open & 1;
          v.oup = open & 2;
          v.declare(id++, fmt("v%zu", id));
          Explorer e({&v});
          while (e.go(0)) ;
          r.steps += e.steps;
          r.states.push_back(mix(hash_str(v.desc()), e.period));
        }
    o = r.str();
  }, &out);
  absorb(c, out, 1);
}

// Sets, ranges and products of many candidates.
void many(Ctx &c) {
  int n = c.pick(std::vector<int>{127, 128, 129, 255, 256, 257, 1000, 32767, 32768, 32769, 40000, 65535, 65536, 65537}, "candidates");
  int how = c.choose(4, "kind");
  if (how == 3 && n > 300 && !thorough) n = 300;
  std::string out;
  kk::run(c, fmt("%d candidates", n), [&](std::string &o) {
    kk::init({{"POLICY_MODEL", models[0]}}, {"--flush-rate=1000000000"}, false);
    Report r;
    Var a, b;
    std::vector<Var *> vs{&a};
    if (how == 0) {
      a.kind = Var::SET_INT;
      for (int i = 0; i < n; i++) a.is.push_back((i * 7ll) % n * 1000003ll - 5);
    } else if (how == 1) {
      a.kind = Var::RNG_INT;
      a.lo = -3;
      a.up = -3 + (n - 1) * 2;
      a.st = 2;
    } else if (how == 2) {
      a.kind = Var::RNG_DBL;
      a.dlo = 1;
      a.dup = 1 + (n - 1) * 0.5;
      a.dst = 0.5;
    } else {
      a.kind = Var::SET_STR;
      for (int i = 0; i < n; i++) a.ss.push_back(fmt("s%d", i));
      b.kind = Var::SET_INT;
      for (int i = 0; i < (n > 1000 ? 3 : 200); i++) b.is.push_back(i);
      b.declare(2, "b");
      vs.push_back(&b);
    }
    a.declare(1, "a");
    Explorer e(vs);
    e.limit = 300000;
    e.what = fmt("%d candidates; ", n);
    while (e.go(0)) ;
    r.steps = e.steps;
    r.states.push_back(mix(n * 4 + how, e.period));
    o = r.str();
  }, &out);
  absorb(c, out, 1);
}

// Every integer range over the alphabet.
void int_ranges(Ctx &c) {
  int m = c.choose(thorough ? 3 : 1, "model");
  int64_t lo = c.pick(thorough ? std::vector<int64_t>{-7, -3, -1, 0, 1, 2, 1000000007, 3000000000ll, -3000000000ll} : std::vector<int64_t>{-3, 0, 1, 3000000000ll}, "lower");
  int64_t st = c.pick(thorough ? std::vector<int64_t>{1, 2, 3, 4, 5, 7, 100} : std::vector<int64_t>{1, 2, 3, 5}, "step");
  std::string out;
  kk::run(c, fmt("integer ranges from %lld, step %lld", (long long)lo, (long long)st), [&](std::string &o) {
    kk::init({{"POLICY_MODEL", models[m]}}, {"--flush-rate=1000000000"}, false);
    Report r;
    std::vector<std::unique_ptr<Var>> vs;
    size_t id = 10;
    for (int64_t wd = -1; wd <= (thorough ? 13 : 9); wd++)
      for (int open = 0; open < 4; open++) {
        vs.emplace_back(new Var);
        Var &v = *vs.back();
        v.kind = Var::RNG_INT;
        v.lo = lo;
        v.up = lo + wd * (st > 20 ? st / 3 : 1);
        v.st = st;
        v.olo = open & 1;
        v.oup = open & 2;
        v.declare(id++, fmt("v%zu", id));
        Explorer e({&v});
        while (e.go(0)) ;
        r.steps += e.steps;
        r.states.push_back(mix(hash_str(v.desc()), e.period));
      }
    o = r.str();
  }, &out);
  absorb(c, out, 1);
}

// The same ranges in very small and very large units (powers of two: the
// values are those of the unit scale exactly).
void dbl_scales(Ctx &c) {
  double u = std::ldexp(1., c.pick(std::vector<int>{-300, -60, -45, -35, -25, -15, 20, 40, 60, 300}, "unit"));
  double lo = c.pick(std::vector<double>{-4, 0, 1, 7}, "lower");
  std::string out;
  kk::run(c, fmt("floating point ranges from %g in units of %g", lo, u), [&](std::string &o) {
    kk::init({{"POLICY_MODEL", models[0]}}, {"--flush-rate=1000000000"}, false);
    Report r;
    std::vector<std::unique_ptr<Var>> vs;
    size_t id = 10;
    for (double st : {1., 2., 3.})
      for (double wd : {1., 2., 3., 4., 6., 7.})
        for (int open = 0; open < 4; open++) {
          vs.emplace_back(new Var);
          Var &v = *vs.back();
          v.kind = Var::RNG_DBL;
          v.dlo = lo * u;
          v.dup = (lo + wd) * u;
          v.dst = st * u;
          v.olo = open & 1;
          v.oup = open & 2;
          v.declare(id++, fmt("v%zu", id));
          Explorer e({&v});
          while (e.go(0)) ;
          r.steps += e.steps;
          r.states.push_back(mix(hash_str(v.desc()), e.period));
        }
    o = r.str();
  }, &out);
  absorb(c, out, 1);
}

void dbl_ranges(Ctx &c) {
  int m = c.choose(thorough ? 3 : 1, "model");
  double lo = c.pick(thorough ? std::vector<double>{-1, -.1, 0, .1, .5, 1, 3, 1e6} : std::vector<double>{-1, 0, .1, 1}, "lower");
  double st = c.pick(thorough ? std::vector<double>{0, .1, .2, .25, .3, .5, .7, 1, 1. / 3} : std::vector<double>{0, .1, .25, .5, .3}, "step");
  std::string out;
  kk::run(c, fmt("floating point ranges from %g, step %g", lo, st), [&](std::string &o) {
    kk::init({{"POLICY_MODEL", models[m]}}, {"--flush-rate=1000000000"}, false);
    Report r;
    std::vector<std::unique_ptr<Var>> vs;
    size_t id = 10;
    for (double wd : thorough ? std::vector<double>{0, .05, .1, .25, .3, .5, .6, .7, .75, .9, 1, 1.25, 1.9, 2, 3} : std::vector<double>{0, .1, .25, .3, .5, .6, 1, 1.9})
      for (int open = 0; open < 4; open++) {
        if (st == 0 && wd == 0) continue;
        vs.emplace_back(new Var);
        Var &v = *vs.back();
        v.kind = Var::RNG_DBL;
        v.dlo = lo;
        v.dup = lo + wd;
        v.dst = st;
        v.olo = open & 1;
        v.oup = open & 2;
        v.declare(id++, fmt("v%zu", id));
        Explorer e({&v});
        while (e.go(0)) ;
        r.steps += e.steps;
        r.states.push_back(mix(hash_str(v.desc()), e.period));
      }
    o = r.str();
  }, &out);
  absorb(c, out, 1);
}

std::unique_ptr<Var> menu(int k) {
  std::unique_ptr<Var> v(new Var);
  auto ri = [&](int64_t a, int64_t b, int64_t s, bool ol, bool ou) { v->kind = Var::RNG_INT, v->lo = a, v->up = b, v->st = s, v->olo = ol, v->oup = ou; };
  auto rd = [&](double a, double b, double s, bool ol, bool ou) { v->kind = Var::RNG_DBL, v->dlo = a, v->dup = b, v->dst = s, v->olo = ol, v->oup = ou; };
  auto si = [&](std::vector<int64_t> x) { v->kind = Var::SET_INT, v->is = x; };
  auto sd = [&](std::vector<double> x) { v->kind = Var::SET_DBL, v->ds = x; };
  auto ss = [&](std::vector<std::string> x) { v->kind = Var::SET_STR, v->ss = x; };
  switch (k) {
    case 0: si({7}); break;
    case 1: si({5, -3, 900000000000ll}); break;
    case 2: sd({.1, 2.5}); break;
    case 3: ss({"red", std::string(63, 'x'), ""}); break;
    case 4: ri(2, 9, 3, false, true); break;
    case 5: rd(0, 1, .25, true, false); break;
    case 6: v->kind = Var::UNBOUNDED; break;
    case 7: si({1, 0}); break;
    case 8: ri(-4, 4, 2, true, true); break;
    case 9: ss({"a", "b"}); break;
    case 10: rd(1, 2, 0, false, false); break;
    case 11: si({}); break;
    case 12: sd({-0.5, 1e300, 3e-300, 4}); break;
    case 13: ri(3, 3, 1, true, false); break;
    case 14: ri(0, 0, 1, false, false); break;
    case 15: si({0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}); break;
    case 16: v->kind = Var::UNBOUNDED, v->type = ValueType::kokkos_value_string; break;
    case 17: ss({std::string(64, 'y'), std::string(63, 'y') + "z"}); break;  // no room for the NUL
    default: break;
  }
  return v;
}
const int MENU = 18;

// All ordered combinations of up to three (quick: two, three of a small menu).
void combos(Ctx &c) {
  int m = c.choose(thorough ? 3 : 2, "model");
  int nin = c.choose(thorough ? 3 : 2, "inputs");
  int a = c.choose(MENU, "first");
  std::string out;
  kk::run(c, fmt("combinations starting with declaration %d, %s", a, models[m].c_str()), [&](std::string &o) {
    kk::init({{"POLICY_MODEL", models[m]}}, {"--flush-rate=1000000000"}, false);
    Report r;
    size_t id = 10;
    std::vector<std::unique_ptr<Var>> keep;
    auto mk = [&](int k) {
      keep.push_back(menu(k));
      keep.back()->declare(id++, fmt("v%zu", id));
      return keep.back().get();
    };
    std::vector<Var *> in;
    for (int i = 0; i < nin; i++) {
      keep.emplace_back(new Var);
      keep.back()->type = i == 0 ? ValueType::kokkos_value_int64 : i == 1 ? ValueType::kokkos_value_double : ValueType::kokkos_value_string;
      keep.back()->declare(id++, fmt("in%d", i), false);
      in.push_back(keep.back().get());
    }
    auto run = [&](std::vector<Var *> vars) {
      Explorer e(vars, in);
      int64_t k = 0;
      while (e.go(k++ % 3)) ;
      r.steps += e.steps;
      u64 h = nin;
      for (auto *v : vars) h = mix(h, hash_str(v->desc()));
      r.states.push_back(mix(h, e.period));
    };
    run({mk(a)});
    for (int b = 0; b < MENU; b++) {
      Var *x = mk(a), *y = mk(b);
      run({x, y});
      if (a == 10 || b == 10 || b > (thorough ? MENU : 9)) continue;
      for (int d = 0; d < (thorough ? MENU : 10); d++) {
        if (d == 10 || (a == 15) + (b == 15) + (d == 15) > 1) continue;
        run({mk(a), mk(b), mk(d)});
      }
    }
    o = r.str();
  }, &out);
  absorb(c, out, 1);
}

// Regions that share variables, requested in every interleaving.
void shared(Ctx &c) {
  static const std::vector<std::vector<int>> shapes{{0, 1}, {1, 0}, {0}, {1}, {0, 1, 2}, {2, 0}};
  int s1 = c.choose((int)shapes.size(), "first"), s2 = c.choose((int)shapes.size(), "second");
  int n = thorough ? 11 : 7;
  std::vector<int> order;
  if (s1 == s2) return;
  for (int i = 0; i < n; i++) order.push_back(c.choose(2, "region"));
  std::string out;
  kk::run(c, fmt("regions %d and %d with common variables", s1, s2), [&](std::string &o) {
    kk::init({{"POLICY_MODEL", "RandomForest,explore=RoundRobin"}}, {"--flush-rate=1000000000"}, false);
    Report r;
    std::vector<std::unique_ptr<Var>> v;
    for (int k : {7, 9, 4}) v.push_back(menu(k)), v.back()->declare(v.size(), fmt("w%zu", v.size()));
    std::vector<Var *> a, b;
    for (int k : shapes[s1]) a.push_back(v[k].get());
    for (int k : shapes[s2]) b.push_back(v[k].get());
    Explorer ea(a), eb(b);
    for (int k : order) k ? eb.go(0) : ea.go(0);
    while (ea.go(0)) ;
    while (eb.go(0)) ;
    r.steps = ea.steps + eb.steps;
    r.states.push_back(mix(mix(s1, s2), ea.steps));
    o = r.str();
  }, &out);
  absorb(c, out, 1);
}

// Names of any length.
void names(Ctx &c) {
  int la = c.pick(std::vector<int>{1, 20, 62, 63, 64, 65, 200}, "name length"), lb = c.pick(std::vector<int>{1, 40, 63, 64, 65, 200}, "second name length");
  std::string out;
  kk::run(c, fmt("names of %d and %d characters", la, lb), [&](std::string &o) {
    kk::init({{"POLICY_MODEL", "RandomForest,explore=RoundRobin"}}, {"--flush-rate=1000000000"}, false);
    Report r;
    auto a = menu(1), b = menu(9), d = menu(4);
    a->declare(1, std::string(la, 'n'));
    b->declare(2, std::string(lb, 'm'));
    d->declare(3, std::string(lb, 'm') + "x");
    Explorer ea({a.get(), b.get()}), eb({b.get(), a.get()}), ed({a.get(), d.get()});
    while (ea.go(0) | eb.go(0) | ed.go(0)) ;
    r.steps = ea.steps + eb.steps + ed.steps;
    r.states.push_back(mix(la, lb));
    o = r.str();
  }, &out);
  absorb(c, out, 1);
}
}  // namespace

void mc::scenarios(std::vector<Scenario> &out) {
  out.push_back({"int-ranges", int_ranges});
  out.push_back({"int-steps", int_steps});
  out.push_back({"many", many});
  out.push_back({"double-ranges", dbl_ranges});
  out.push_back({"double-scales", dbl_scales});
  out.push_back({"combinations", combos});
  out.push_back({"shared", shared});
  out.push_back({"names", names});
}
