// C31: the diagnostic reports tell what happened: the policy log every
// selection, the best-policy report what a training learned from.
#include "world.h"
using namespace mc;
using namespace w;

namespace {
struct Sel {
  std::string region, model;
  std::vector<long> f;
  int policy;
  std::string str() const {
    std::string s = region + " by " + model + " [";
    for (long x : f) s += fmt(" %ld", x);
    return s + fmt(" ] %d", policy);
  }
};
std::vector<long> numbers(const std::string &s) {
  std::vector<long> v;
  std::string t = s;
  for (char &ch : t)
    if (ch == ',' || ch == '[' || ch == ']') ch = ' ';
  std::istringstream is(t);
  for (std::string w; is >> w;) v.push_back(strtol(w.c_str(), nullptr, 10));
  return v;
}
bool parse(const std::string &l, Sel &s, int &rank) {
  size_t a = l.find(" region "), b = l.rfind(" model "), f = l.rfind(" features "), p = l.rfind(" policy ");
  if (l.compare(0, 5, "Rank ") != 0 || a == l.npos || b == l.npos || f == l.npos || p == l.npos || !(a < b && b < f && f < p)) return false;
  rank = atoi(l.c_str() + 5);
  s.region = l.substr(a + 8, b - a - 8);
  s.model = l.substr(b + 7, f - b - 7);
  s.f = numbers(l.substr(f + 10, p - f - 10));
  s.policy = atoi(l.c_str() + p + 8);
  return true;
}
std::vector<std::string> lines(const std::string &file) {
  std::vector<std::string> v;
  std::istringstream is(read_file(file));
  for (std::string l; std::getline(is, l);)
    if (!l.empty()) v.push_back(l);
  return v;
}
void compare(Ctx &c, const std::vector<Sel> &want, const char *when) {
  auto got = lines("rank-0-policies.txt");
  std::string all;
  for (auto &l : got) all += l + "; ";
  c.check(got.size() == want.size(), "count", fmt("%s: %zu lines for %zu selections: ", when, got.size(), want.size()) + all);
  for (size_t i = 0; i < got.size(); i++) {
    Sel s;
    int rank = -1;
    c.check(parse(got[i], s, rank) && rank == 0, "form", got[i]);
    c.check(s.str() == want[i].str(), "content", fmt("%s: line %zu says %s, it was %s", when, i, s.str().c_str(), want[i].str().c_str()));
  }
  c.validated();
}

struct Spec {
  const char *name, *info, *model;
  int F, P;
};
const std::vector<std::vector<Spec>> SPECS{
    {{"a", "RoundRobin", "RoundRobin", 1, 2}, {"b", "Static,policy=1", "Static,1", 2, 3}},
    {{"x y", "DecisionTree", "DecisionTree", 0, 3}, {"x", "RandomForest", "RandomForest", 1, 200}},
    {{"a-name-of-sixty-three-characters-that-goes-on-and-on-until-it-ends", "PolicyNet", "PolicyNet", 3, 2}, {"r", "Random", "Random", 2, 12}},
};
const float VALUES[] = {0, 1, -3, 70000, 16777216};

// All histories of selections: whole executions, repeated queries, executions
// given up, trainings.
void selections(Ctx &c) {
  auto &specs = c.pick(SPECS, "regions");
  int n = thorough ? 5 : 4;
  std::vector<int> ops;
  for (int i = 0; i < n; i++) ops.push_back(c.choose(7, "op"));
  std::vector<Sel> want;
  std::vector<std::string> sel[2];
  for (int traced = 0; traced < 2; traced++) {
    Env e;
    if (traced) e["TRACE_POLICY"] = "1";
    set_random({7, 7, 7});
    World w(e);
    std::vector<Apollo::Region *> r;
    for (auto &s : specs) r.push_back(new Apollo::Region(s.F, s.name, s.P, 0, s.info));
    for (size_t i = 0; i < ops.size(); i++) {
      int op = ops[i];
      if (op == 6) {
        w->train((int)i);
        continue;
      }
      int k = op % 2;
      Feat f;
      for (int j = 0; j < specs[k].F; j++) f.push_back(VALUES[(i + j * 2) % 5]);
      auto *x = r[k]->begin(f);
      for (int q = 0; q < (op / 2 == 1 ? 2 : 1); q++) {
        int p = r[k]->getPolicyIndex(x);
        c.step();
        Sel s{std::string(specs[k].name).substr(0, 63), specs[k].model, {}, p};
        for (float v : f) s.f.push_back((long)v);
        if (traced) want.push_back(s);
        sel[traced].push_back(s.str());
      }
      if (op / 2 != 2) r[k]->end(x, 1.0 + (double)(i % 3));
    }
    if (!traced) c.check(!exists("rank-0-policies.txt"), "unrequested", "a policy log without the setting");
    else if (!want.empty()) compare(c, want, "in the run");
  }
  c.check(sel[0] == sel[1], "influence", "the policy log changes the selections");
  u64 h = 0;
  for (auto &s : want) h = mix(h, hash_str(s.str()));
  c.obs(h);
  c.state(h);
}

// The report of a training against the measurements at that moment.
void check_report(Ctx &c, const std::string &region, int step, const RefData &ref) {
  std::string file = fmt("step-%d-rank-0-%s-best_policies.txt", step, region.c_str());
  c.check(exists(file), "missing", "no report " + file);
  std::map<std::vector<long>, std::map<int, double>> m;
  for (auto &e : ref.d) {
    std::vector<long> f;
    for (float v : e.first.first) f.push_back((long)v);
    m[f][e.first.second] = e.second;
  }
  std::set<std::vector<long>> seen;
  int heads = 0;
  for (auto &l : lines(file)) {
    size_t p = l.find("P:"), t = l.find("T:"), b = l.find('['), e = l.find(']');
    if (b == l.npos) {
      c.check(l.find("ank 0 ") != l.npos && l.find(region) != l.npos, "head", l);
      heads++;
      continue;
    }
    c.check(p != l.npos && t != l.npos && e != l.npos, "form", l);
    auto f = numbers(l.substr(b, e - b));
    int pol = atoi(l.c_str() + p + 2);
    double x = atof(l.c_str() + t + 2), best = INFINITY;
    c.check(m.count(f), "unmeasured", file + ": " + l + " of " + ref.str());
    c.check(seen.insert(f).second, "twice", file + ": " + l);
    for (auto &q : m[f]) best = std::min(best, q.second);
    c.check(m[f].count(pol) && m[f][pol] == best, "best", file + ": " + l + " of " + ref.str());
    c.check(std::fabs(x - best) <= 1e-5 * std::fabs(best), "metric", file + ": " + l + fmt(", measured %.9g", best));
  }
  c.check(heads == 1, "head", file + fmt(": %d headings", heads));
  c.check(seen.size() == m.size(), "complete", file + fmt(": %zu of %zu feature vectors", seen.size(), m.size()) + " of " + ref.str());
  c.validated();
}

// All tables of measurements, then others and another training.
void best(Ctx &c, int F) {
  const std::vector<Feat> pts = F == 0 ? std::vector<Feat>{{}} : F == 1 ? std::vector<Feat>{{2}, {-5}} : std::vector<Feat>{{2, 70000}, {2, -1}};
  const double times[] = {0.25, 8};
  std::string info = c.pick(std::vector<std::string>{"DecisionTree", "RandomForest,num_trees=2", "PolicyNet", "DecisionTree,explore=Random"}, "model");
  int P = 2 + c.choose(2, "policies");
  int step = c.pick(std::vector<int>{0, 31}, "step");
  World w({{"TRACE_BEST_POLICIES", "1"}});
  auto *r = new Apollo::Region(F, "r 1", P, 0, info);
  auto *q = new Apollo::Region(F, "other", P, 0, info);
  RefData a, b;
  for (auto &f : pts)
    for (int p = 0; p < P; p++) {
      int k = c.choose(3, "time");
      if (k == 2) continue;
      Feat g = f;
      r->dataset.insert(g, p, times[k]);
      a.insert(f, p, times[k]);
    }
  bool more = c.flip("other region");
  if (more) {
    Feat g = pts[0];
    q->dataset.insert(g, 1, 3.0000001);
    b.insert(pts[0], 1, 3.0000001);
  }
  w->train(step);
  c.step();
  if (a.d.empty()) c.check(!exists(fmt("step-%d-rank-0-r 1-best_policies.txt", step)), "unrequested", "a report of a training without data");
  else check_report(c, "r 1", step, a);
  if (more) check_report(c, "other", step, b);
  // Again, with a better measurement of the last policy.
  Feat g = pts.back();
  r->dataset.insert(g, P - 1, 1e-3);
  a.insert(pts.back(), P - 1, 1e-3);
  // Also for a step that has a report already.
  int again = step == 31 ? step : step + 1;
  r->train(again, true, true);
  c.step();
  check_report(c, "r 1", again, a);
  c.state(mix(a.hash(), P));
  c.obs(a.hash());
}

// Many feature vectors and policies.
void wide(Ctx &c) {
  int n = c.pick(std::vector<int>{9, 64, 300}, "vectors"), P = c.pick(std::vector<int>{2, 11, 130}, "policies"), F = 1 + c.choose(4, "features");
  World w({{"TRACE_BEST_POLICIES", "1"}});
  auto *r = new Apollo::Region(F, "wide", P, 0, "DecisionTree");
  RefData a;
  for (int i = 0; i < n; i++)
    for (int k = 0; k < 3; k++) {
      Feat f;
      for (int j = 0; j < F; j++) f.push_back((float)(j == 0 ? i : (i * 7 + j) % 4));
      int p = (i * 5 + k * 3) % P;
      double x = 1.0 / (1 + (i + k * k) % 7);
      Feat g = f;
      r->dataset.insert(g, p, x);
      a.insert(f, p, x);
    }
  r->train(1);
  c.step(n);
  check_report(c, "wide", 1, a);
  c.state(mix(n, P));
  c.obs(a.hash());
}
}  // namespace

void mc::scenarios(std::vector<Scenario> &out) {
  out.push_back({"log", selections});
  out.push_back({"best-0d", [](Ctx &c) { best(c, 0); }});
  out.push_back({"best-1d", [](Ctx &c) { best(c, 1); }});
  out.push_back({"best-2d", [](Ctx &c) { best(c, 2); }});
  out.push_back({"wide", wide});
}
