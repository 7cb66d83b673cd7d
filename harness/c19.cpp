// C19: the policy network follows its reference learning rule.
#include "refnet.h"
using namespace mc;
using namespace w;

namespace {
struct Hyper {
  double lr = 1e-2, beta = .5, beta1 = .5, beta2 = .9, threshold = 0;
};
std::vector<Hyper> hypers() {
  std::vector<Hyper> v(10);
  v[1].lr = 0.2;
  v[2].beta = 0.9;
  v[3].beta1 = 0.9;
  v[4].beta2 = 0.99;
  v[5].threshold = 0.3;
  v[6].threshold = 0.6, v[6].lr = 0.1;
  v[7].beta = 0, v[7].beta1 = 0, v[7].beta2 = 0;
  v[8] = {0.05, 0.25, 0.7, 0.95, 0.1};
  v[9].threshold = 2;
  return v;
}
// Datasets with rewards near 1, near 0 and mixed.
RefData menu(int F, int P, int i) {
  RefData d;
  auto f = [&](double a) {
    Feat x;
    for (int k = 0; k < F; k++) x.push_back((float)(a + 3 * k));
    return x;
  };
  int last = P - 1;
  if (i == 0) d.insert(f(1), 0, 0.1), d.insert(f(1), last, 2.0);
  if (i == 1) d.insert(f(1), last, 0.05), d.insert(f(6), 0, 0.7), d.insert(f(1023), last, 3.5);
  if (i == 2) d.insert(f(2), last, 5.0), d.insert(f(2), 0, 8.0);
  if (i == 3)
    for (int k = 0; k < 7; k++) d.insert(f(k + 1), k % P, 0.2 + ((k * 5) % 7) * 0.3);
  if (i == 5) d.insert(f(1), last, 0.05);
  if (i == 6) d.insert(f(4), 0, 4.0);
  if (i == 4) d.insert(f(1099511627776.0), last, 0.4), d.insert(f(7), 0, 0.4);
  return d;
}
std::vector<Feat> queries(int F) {
  std::vector<Feat> q;
  for (double a : {1.0, 1099511627776.0, 4.0}) {
    Feat x;
    for (int k = 0; k < F; k++) x.push_back((float)(a + 3 * k));
    q.push_back(x);
  }
  return q;
}
Apollo::Dataset dataset(const RefData &d) {
  Apollo::Dataset o;
  for (auto &e : d.d) {
    Feat f = e.first.first;
    o.insert(f, e.first.second, e.second);
  }
  return o;
}

// How far rounding errors reach: the same network with parameters that are off
// by much more than rounding changes a sum, trained alike. What it differs by
// is no sign of another learning rule.
RefNet nudged(const RefNet &r) {
  RefNet t = r;
  unsigned k = 1;
  for (auto &l : t.L)
    for (auto *v : {&l.w, &l.b})
      for (double &x : *v) k = k * 1664525u + 1013904223u, x += (k >> 31 ? 1e-13 : -1e-13) * (1 + 9 * std::fabs(x));
  return t;
}

struct Sim {
  Ctx &c;
  RefNet ref, twin;
  std::unique_ptr<apollo::PolicyModel> m;
  bool known;
  Sim(Ctx &c, int F, int P, const Hyper &h, unsigned seed) : c(c), ref(F, P), twin(F, P) {
    set_random({seed, seed + 1, seed + 2, seed + 3});
    std::unordered_map<std::string, std::string> pm;
    Hyper def;
    if (h.lr != def.lr) pm["lr"] = fmt("%g", h.lr);
    if (h.beta != def.beta) pm["beta"] = fmt("%g", h.beta);
    if (h.beta1 != def.beta1) pm["beta1"] = fmt("%g", h.beta1);
    if (h.beta2 != def.beta2) pm["beta2"] = fmt("%g", h.beta2);
    if (h.threshold != def.threshold) pm["threshold"] = fmt("%g", h.threshold);
    m = apollo::ModelFactory::createPolicyModel("PolicyNet", F, P, pm);
    ref.lr = h.lr;
    ref.beta = h.beta;
    ref.beta1 = h.beta1;
    ref.beta2 = h.beta2;
    ref.threshold = h.threshold;
    m->store("net");
    known = ref.read("net");
    twin = nudged(ref);
    c.check(ref.count == 0 && ref.avg == 0, "fresh", "a new network has been trained");
  }
  void train(const RefData &d) {
    Apollo::Dataset ds = dataset(d);
    m->train(ds);
    ref.train(d);
    twin.train(d);
    c.step();
  }
  void compare(const std::string &when, double tol = 1e-6) {
    if (!known) return;
    m->store("net");
    RefNet got = ref;
    if (!got.read("net")) return;
    double e = got.distance(ref);
    tol += 3 * twin.distance(ref);
    c.check(e < tol, "parameters", fmt("%s: the parameters differ from the reference by %g", when.c_str(), e));
    c.check(got.count == ref.count && std::fabs(got.avg - ref.avg) < 1e-9, "baseline", fmt("%s: moving average %g after %d trainings, expected %g after %d", when.c_str(), got.avg, got.count, ref.avg, ref.count));
    c.validated();
    c.state(mix(hash_d(std::round(ref.L[2].w[0] * 1e6)), mix(ref.count, hash_d(std::round(ref.L[0].w[3] * 1e6)))));
  }
  void touch() {  // so that old results could be reused
    for (auto &q : queries(ref.F)) {
      Feat f = q;
      m->getIndex(f);
    }
  }
  void draws(const std::string &when, int n) {
    if (!known) return;
    for (auto &q : queries(ref.F)) {
      if (ref.off()) {
        for (int i = 0; i < 20; i++) {
          Feat f = q;
          int p = m->getIndex(f);
          c.check(p == 0, "threshold", fmt("%s: below the threshold policy %d is selected", when.c_str(), p));
        }
        continue;
      }
      auto p = ref.probs(q);
      std::string e = frequencies(p, n, [&] {
        Feat f = q;
        return m->getIndex(f);
      });
      c.check(e.empty(), "selection", when + ", features " + str(q) + ": " + e);
      c.step(n);
      c.validated();
      u64 h = ref.count;
      for (double x : p) h = mix(h, (u64)std::llround(x * 1000));
      c.obs(h);
      c.state(h);
    }
  }
};

// Every sequence of trainings, hyper-parameters and shapes.
void trainings(Ctx &c) {
  Hyper h = c.pick(hypers(), "hyper-parameters");
  int F = 1 + c.choose(2, "features");
  int P = 1 + c.choose(3, "policies");
  int n = c.choose(thorough && F == 1 ? 5 : F == 1 ? 4 : 3, "trainings");
  Sim s(c, F, P, h, 77);
  s.compare("at the start");
  for (int i = 0; i < n; i++) {
    s.train(menu(F, P, c.choose(thorough ? 7 : 6, "dataset")));
    if (i + 1 < n) s.touch();
    s.compare(fmt("after training %d", i + 1));
  }
}

// Times of every size: rewards from one to (almost) none.
void extremes(Ctx &c) {
  Hyper h = c.pick(hypers(), "hyper-parameters");
  static const std::vector<double> ms{0, 1e-12, 1e-6, 10, 15, 19, 21, 25, 30, 36, 40, 100, 700, 740, 800, 1e6};
  double m = c.pick(ms, "time");
  int n = 1 + c.choose(3, "trainings"), mixed = c.choose(3, "others");
  Sim s(c, 1, 2, h, 41);
  for (int i = 0; i < n; i++) {
    RefData d;
    d.insert({3}, i % 2, m);
    if (mixed == 1) d.insert({9}, 1, m * 1.25);
    if (mixed == 2) d.insert({9}, 0, 0.5), d.insert({3}, 1 - i % 2, m * 0.75);
    s.train(d);
    s.compare(fmt("time %g, after training %d", m, i + 1));
  }
}

// Datasets of every size.
void batches(Ctx &c) {
  Hyper h = c.pick(hypers(), "hyper-parameters");
  int n = c.pick(std::vector<int>{1, 2, 8, 31, 32, 33, 63, 64, 65, 100, 128, 129, 257, 600}, "measurements"), P = 2 + c.choose(2, "policies"), again = 1 + c.choose(2, "trainings");
  Sim s(c, 1, P, h, 91);
  RefData d;
  for (int i = 0; i < n; i++) d.insert({(float)(i * 3 + i % 2)}, i % P, 0.05 + 0.1 * (i * 7 % 23));
  for (int i = 0; i < again; i++) {
    s.train(d);
    s.compare(fmt("%d measurements, training %d", n, i + 1));
  }
}

// Many trainings.
void lengthy(Ctx &c) {
  auto hs = hypers();
  hs.erase(hs.begin() + 7, hs.end());  // (without averaging, rounding errors grow fast)
  Hyper h = c.pick(hs, "hyper-parameters");
  h.lr = std::min(h.lr, 0.01);
  int P = 2 + c.choose(2, "policies"), kind = c.choose(3, "datasets");
  Sim s(c, 1, P, h, 43);
  int n = thorough ? 700 : 300;
  for (int i = 0; i < n; i++) {
    s.train(menu(1, P, kind == 0 ? 3 : kind == 1 ? i % 4 : i % 2 ? 5 : 6));
    if (i % 3 < 2) continue;
    s.compare(fmt("after training %d", i + 1), 1e-5);
    // rounding errors grow with the trainings: go on from the same parameters
    s.m->store("net");
    if (s.ref.read("net")) {
      RefNet t = nudged(s.ref);  // (with its own moments)
      for (int k = 0; k < 3; k++) s.twin.L[k].w = t.L[k].w, s.twin.L[k].b = t.L[k].b;
    }
  }
}

// Selections have the current probabilities, whatever was asked before.
void selections(Ctx &c) {
  Hyper h = c.pick(hypers(), "hyper-parameters");
  int F = 1 + c.choose(2, "features");
  int P = 2 + c.choose(2, "policies") * 2;
  if (h.threshold == 0) h.lr = 0.3;
  unsigned seed = c.choose(thorough ? 6 : 2, "seed") * 1000 + 5;
  Sim s(c, F, P, h, seed);
  int n = thorough ? 20000 : 2500;
  s.draws("at the start", n);
  for (int i = 0; i < 2; i++) {
    s.train(menu(F, P, c.pick(thorough ? std::vector<int>{0, 1, 2, 3, 5, 6} : std::vector<int>{0, 1, 2, 5, 6}, "dataset")));
    s.draws(fmt("after training %d", i + 1), n);
  }
}

// Any two feature vectors are told apart: one learns one policy, the other
// another, asked in both orders and again after further trainings.
void pairs(Ctx &c) {
  int F = 1 + c.choose(2, "features");
  std::vector<Feat> v;
  if (F == 1)
    for (double x : {0., 1., 2., 3., 255., 256., 65536., 65537., 2147483648., 4294967296., 8589934592., 17179869184., 4503599627370496., 9223372036854775808.}) v.push_back({(float)x});
  else
    for (auto &f : product({0, 1, 2, 256, 4294967296.f, 8589934592.f}, 2)) v.push_back(f);
  int i = c.choose((int)v.size(), "first"), j = c.choose((int)v.size() - 1, "second");
  if (j >= i) j++;
  Hyper h;
  h.lr = 0.1;
  Sim s(c, F, 2, h, 21);
  auto ask = [&](const std::string &when) {
    if (!s.known) return;
    for (auto &q : {v[i], v[j], v[i]}) {
      auto p = s.ref.probs(q);
      std::string e = frequencies(p, 150, [&] {
        Feat f = q;
        return s.m->getIndex(f);
      });
      c.check(e.empty(), "pair", when + ", features " + str(q) + " (of " + str(v[i]) + " and " + str(v[j]) + ")" + ": " + e);
      c.step(150);
      c.validated();
      c.state(mix(mix(i, j), (u64)std::llround(p[0] * 1000)));
    }
  };
  ask("at the start");
  RefData d;
  d.insert(v[i], 0, 0.01), d.insert(v[i], 1, 5), d.insert(v[j], 1, 0.01), d.insert(v[j], 0, 5);
  for (int k = 0; k < 6; k++) s.train(d);
  ask("after training");
  auto p = s.ref.probs(v[i]), q = s.ref.probs(v[j]);
  c.obs(mix((u64)std::llround(p[0] * 10), (u64)std::llround(q[0] * 10)));
}

// Trained through a region, with its own measurements; the stored model is
// that of the reference, before and after a restart.
void regions(Ctx &c) {
  int F = 1 + c.choose(2, "features"), P = 2 + c.choose(2, "policies");
  int prp = c.choose(3, "period");
  Env env{{"STORE_MODELS", "1"}};
  if (prp) env["PER_REGION_TRAIN_PERIOD"] = std::to_string(prp);
  RefNet ref(F, P);
  std::string latest = ".apollo/models/PolicyNet-latest-rank-0-r.yaml";
  bool known;
  RefData data;
  int begun = 0;
  auto run = [&](Apollo::Region *r, int n) {
    for (int i = 0; i < n; i++) {
      int op = c.choose(3, "op");
      if (op == 2) {
        r->train(i);
        ref.train(data);
      } else {
        Feat f;
        for (int k = 0; k < F; k++) f.push_back((float)(op * 4 + 1 + k));
        auto *x = r->begin(f);
        int p = r->getPolicyIndex(x);
        double m = 0.1 + p * 0.5 + op * 0.3;
        begun++;
        r->end(x, m);
        data.insert(f, p, m);
        if (prp && begun % prp == 0) ref.train(data);
      }
      c.step();
      if (ref.count && known && exists(latest)) {
        RefNet got = ref;
        if (!got.read(latest)) continue;
        double e = got.distance(ref);
        c.check(e < 1e-6 && got.count == ref.count && std::fabs(got.avg - ref.avg) < 1e-9, "parameters", fmt("step %d: the stored network differs from the reference by %g, trained %d times, expected %d", i, e, got.count, ref.count));
        c.validated();
        c.state(mix(hash_d(std::round(ref.L[2].w[0] * 1e6)), ref.count));
      }
    }
  };
  {
    World w(env);
    set_random({9, 10, 11, 12});
    auto *r = new Apollo::Region(F, "r", P, 0, "PolicyNet,lr=0.2");
    ref.lr = 0.2;
    r->model->store("net");
    known = ref.read("net");
    run(r, thorough ? 4 : 3);
  }
  if (!ref.count) return;
  World w(env);
  set_random({90, 91});
  auto *r = new Apollo::Region(F, "r", P, 0, "PolicyNet,lr=0.2,load");
  data.d.clear();
  begun = 0;
  // the optimiser starts afresh, the baseline goes on
  ref.adam = 0;
  for (auto &l : ref.L) l.init(l.in, l.out);
  if (known) ref.read(latest);
  run(r, 2);
}
}  // namespace

void mc::scenarios(std::vector<Scenario> &out) {
  out.push_back({"trainings", trainings});
  out.push_back({"extremes", extremes});
  out.push_back({"batches", batches});
  out.push_back({"lengthy", lengthy});
  out.push_back({"selections", selections});
  out.push_back({"pairs", pairs});
  out.push_back({"regions", regions});
}
