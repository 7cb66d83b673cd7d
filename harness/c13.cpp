// C13: the execution trace has one correct line per completed execution, and
// tracing changes nothing else.
#include "fakegpu/device.h"
#include "world.h"
using namespace mc;
using namespace w;

// A device whose events complete when the exploration says so.
namespace fakegpu {
struct Event {
  bool recorded = false, done = true;
  double t = 0;
};
static bool manual = false;  // recorded events wait for completion
static double now_ms = 0;
Err create(Event **e) { *e = new Event(); return Success; }
Err destroy(Event *e) { delete e; return Success; }
static Event *last = nullptr;
Err record(Event *e) {
  e->recorded = true;
  e->t = now_ms;
  e->done = !manual;
  last = e;
  return Success;
}
Err query(Event *e) { return e->done ? Success : NotReady; }
Err synchronize(Event *e) { e->done = true; return Success; }
Err device_synchronize() { return Success; }
Err elapsed(float *ms, Event *a, Event *b) {
  if (!a->done || !b->done) return NotReady;
  *ms = (float)(b->t - a->t);
  return Success;
}
const char *error_string(Err) { return "error"; }
}  // namespace fakegpu

namespace {
struct Line {
  std::string region, model;
  int idx;
  Feat f;
  int policy;
  double metric;
  int batch = 0;  // completed together: in any order
};
struct Spec {
  const char *name, *info, *model;
  int F, P, min;
};
const double METRICS[] = {2.5, 0.001, 1234567.0, 1e-9, 0.33333333};
const float FEATS[] = {1, 0, -2.5f, 1e9f, 0.1f, 16777216, 3};

struct Result {
  std::vector<Line> lines;
  std::string log;  // selections, data, training
};

// The history ops on the regions, with or without tracing.
Result run(const std::vector<Spec> &specs, const std::vector<int> &ops, const Env &env, int values) {
  Result res;
  fakegpu::manual = false;
  fakegpu::now_ms = 0;
  int batches = 0;
  struct A {
    Apollo::RegionContext *x;
    Line l;
    fakegpu::Event *stop = nullptr;
    double t0 = 0;
  };
  std::vector<A> open, ended;
  {
    World w(env);
    std::vector<Apollo::Region *> r;
    std::vector<int> idx;
    for (auto &s : specs) {
      set_random({3});
      r.push_back(new Apollo::Region(s.F, s.name, s.P, s.min, s.info));
      idx.push_back(0);
    }
    auto feat = [&](int k, int i) {
      Feat f;
      for (int j = 0; j < specs[k].F; j++) f.push_back(FEATS[(i * 3 + j * 2 + values) % 7]);
      return f;
    };
    for (size_t i = 0; i < ops.size(); i++) {
      int op = ops[i];
      double m = METRICS[(i + values) % 5];
      if (op <= 1) {  // a whole execution of region op
        Feat f = feat(op, (int)i);
        auto *x = r[op]->begin(f);
        int p = r[op]->getPolicyIndex(x);
        r[op]->end(x, m);
        res.lines.push_back({specs[op].name, specs[op].model, idx[op]++, f, p, m});
        res.log += fmt("%d ", p);
      } else if (op == 2) {  // begin an asynchronous one
        Feat f = feat(0, (int)i);
        auto *x = r[0]->begin(Apollo::Region::TIMING_CUDA_ASYNC);
        for (float v : f) r[0]->setFeature(x, v);
        int p = r[0]->getPolicyIndex(x);
        A a;
        a.x = x;
        a.t0 = fakegpu::now_ms;
        fakegpu::now_ms += 0.25;
        a.l = {specs[0].name, specs[0].model, idx[0]++, f, p, 0};
        open.push_back(a);
        res.log += fmt("async %d ", p);
      } else if (op == 3 || op == 4) {  // end the oldest, the device is (4: not) done
        if (open.empty()) continue;
        A a = open.front();
        open.erase(open.begin());
        fakegpu::now_ms += 1.5 + (double)i;
        fakegpu::manual = op == 4;
        r[0]->end(a.x);
        fakegpu::manual = false;
        a.stop = fakegpu::last;
        a.l.metric = (fakegpu::now_ms - a.t0) / 1000;
        if (op == 3) res.lines.push_back(a.l);
        else ended.push_back(a);
      } else if (op == 5 || op == 6) {  // the newest (6: all) of the ended complete and are collected
        if (ended.empty()) continue;
        size_t from = op == 5 ? ended.size() - 1 : 0;
        batches++;
        for (size_t k = from; k < ended.size(); k++) ended[k].stop->done = true, ended[k].l.batch = batches, res.lines.push_back(ended[k].l);
        ended.resize(from);
        r[0]->collectPendingContexts();
      } else if (op == 7) {
        w->train((int)i);
      } else {  // begun and given up
        r[1]->begin();
        idx[1]++;
      }
    }
    for (size_t k = 0; k < r.size(); k++) {
      res.log += "\n" + to_ref(r[k]->dataset).str() + (r[k]->model->isTrainable() ? " training" : " trained");
      for (int i = 0; i < 3; i++) {
        Feat f = feat((int)k, i);
        res.log += fmt(" %d", r[k]->model->getIndex(f));
      }
    }
    // The rest is collected at the end, in any order.
    batches++;
    for (auto &a : ended) a.stop->done = true, a.l.batch = batches, res.lines.push_back(a.l);
  }
  return res;
}

std::vector<std::string> lines(const std::string &s) {
  std::vector<std::string> o;
  std::istringstream is(s);
  for (std::string l; std::getline(is, l);) o.push_back(l);
  return o;
}
std::vector<std::string> words(const std::string &s) {
  std::vector<std::string> o;
  std::istringstream is(s);
  for (std::string l; is >> l;) o.push_back(l);
  return o;
}
bool close(const std::string &s, double v) {
  char *e;
  double d = strtod(s.c_str(), &e);
  return !*e && !s.empty() && std::fabs(d - v) <= 1e-5 * std::fabs(v);
}
bool is_int(const std::string &s, long v) {
  char *e;
  long d = strtol(s.c_str(), &e, 10);
  return !*e && !s.empty() && d == v;
}

// Executions that completed together come in any order.
void match(std::vector<Line> &v, size_t k, const std::string &idx) {
  for (size_t j = k; j < v.size() && v[j].batch && v[j].batch == v[k].batch; j++)
    if (is_int(idx, v[j].idx)) {
      std::swap(v[k], v[j]);
      return;
    }
}
// The model, possibly with its parameters.
bool model_is(const std::string &s, const std::string &m) { return s == m || s.compare(0, m.size() + 1, m + ",") == 0; }

void check_traces(Ctx &c, const std::vector<Spec> &specs, const Result &r, const std::string &dir) {
  auto files = tree(dir);
  c.check(files.size() == specs.size() + 1, "files", fmt("%zu trace files for %zu regions", files.size(), specs.size()));
  for (auto &s : specs) {
    std::string want = std::string("-region-") + s.name + "-rank-0.csv", file;
    for (auto &f : files)
      if (f.size() > want.size() && f.compare(f.size() - want.size(), want.size(), want) == 0) file = f;
    c.check(!file.empty(), "files", std::string("no trace of region ") + s.name);
    auto ls = lines(read_file(dir + "/" + file));
    c.check(!ls.empty(), "header", std::string("no header in the trace of ") + s.name);
    std::vector<std::string> h{"rankid", "training", "region", "idx"};
    for (int i = 0; i < s.F; i++) h.push_back(fmt("f%d", i));
    h.push_back("policy");
    h.push_back("xtime");
    c.check(words(ls[0]) == h, "header", "header: " + ls[0]);
    size_t at = 1;
    std::vector<Line> mine;
    for (auto &l : r.lines)
      if (l.region == s.name) mine.push_back(l);
    for (size_t k = 0; k < mine.size(); k++) {
      c.check(at < ls.size(), "missing", fmt("region %s: no line for execution %d", s.name, mine[k].idx));
      auto t = words(ls[at]);
      match(mine, k, t.size() > 3 ? t[3] : "");
      auto &l = mine[k];
      bool ok = t.size() == 6 + l.f.size() && is_int(t[0], 0) && model_is(t[1], l.model) && t[2] == l.region && is_int(t[3], l.idx) && is_int(t[4 + l.f.size()], l.policy);
      for (size_t i = 0; ok && i < l.f.size(); i++) ok = close(t[4 + i], l.f[i]);
      if (ok) ok = close(t.back(), l.metric);
      c.check(ok, "line", fmt("region %s, execution %d %s policy %d metric %g: the trace says: %s", s.name, l.idx, str(l.f).c_str(), l.policy, l.metric, ls[at].c_str()));
      at++;
    }
    c.check(at == ls.size(), "surplus", fmt("region %s: unexpected line %s", s.name, at < ls.size() ? ls[at].c_str() : ""));
    c.validated();
  }
  auto ls = lines(read_file(dir + "/trace-rank-0.csv"));
  std::vector<std::string> body;
  for (auto &l : ls)
    if (l.empty() || l[0] != '#') body.push_back(l);
  auto all = r.lines;
  for (size_t i = 0; i < all.size(); i++) {
    c.check(i < body.size(), "missing", fmt("run-wide trace: no line for execution %d of %s", all[i].idx, all[i].region.c_str()));
    auto t = words(body[i]);
    match(all, i, t.size() > 2 ? t[2] : "");
    auto &l = all[i];
    c.check(t.size() == 5 && t[1] == l.region && is_int(t[2], l.idx) && model_is(t[3], l.model) && is_int(t[4], l.policy), "line", fmt("run-wide trace: execution %d of %s (%s) selected %d: the trace says: %s", l.idx, l.region.c_str(), l.model.c_str(), l.policy, body[i].c_str()));
  }
  c.check(body.size() == r.lines.size(), "surplus", fmt("run-wide trace: %zu lines for %zu executions", body.size(), r.lines.size()));
  c.validated();
}

std::string model_files() {
  std::string s;
  for (auto &f : tree(".apollo/models")) s += f + fmt(" %llx\n", (unsigned long long)hash_str(read_file(".apollo/models/" + f)));
  for (auto &f : tree(".apollo/datasets")) s += f + fmt(" %llx\n", (unsigned long long)hash_str(read_file(".apollo/datasets/" + f)));
  return s;
}

std::vector<std::vector<Spec>> menu() {
  return {
      {{"a", "DecisionTree,max_depth=3", "DecisionTree", 2, 3, 0}, {"b", "RoundRobin", "RoundRobin", 1, 2, 0}},
      {{"a1", "RoundRobin", "RoundRobin", 3, 3, 0}, {"a", "RoundRobin", "RoundRobin", 1, 2, 0}},
      {{"x", "Static,policy=2", "Static", 1, 3, 0}, {"y", "Random", "Random", 2, 4, 0}},
      {{"q", "StaticRegion,q=1,p=0", "Static", 1, 2, 0}, {"p", "StaticRegion,q=1,p=0", "Static", 2, 2, 0}},
      {{"f", "RandomForest,num_trees=2", "RandomForest", 1, 2, 2}, {"n", "PolicyNet", "PolicyNet", 1, 2, 0}},
      {{"z", "RoundRobin", "RoundRobin", 0, 2, 0}, {"t", "DecisionTree,explore=Random", "DecisionTree", 4, 2, 1}},
  };
}

void histories(Ctx &c, int depth, const std::vector<int> &alphabet) {
  auto specs = c.pick(menu(), "regions");
  int setting = c.choose(3, "settings");
  Env e;
  std::string dir = ".apollo/traces";
  if (setting == 1) e = {{"PER_REGION_TRAIN_PERIOD", "3"}, {"STORE_MODELS", "1"}, {"PERSISTENT_DATASETS", "1"}};
  if (setting == 2) e = {{"GLOBAL_TRAIN_PERIOD", "2"}, {"TRACES_DIR", "tt"}}, dir = ".apollo/tt";
  int values = alphabet[1] == 2 && !thorough ? 0 : c.choose(2, "values") * 2;
  std::vector<int> ops;
  static const char *names[] = {"execute 0", "execute 1", "begin asynchronous", "end, done", "end, outstanding", "newest completes", "all complete", "train", "give up"};
  for (int i = 0; i < depth; i++) {
    ops.push_back(c.pick(alphabet, "op"));
    c.note(names[ops.back()]);
  }
  Result plain = run(specs, ops, e, values);
  std::string mf = model_files();
  clean_scratch();
  Env t = e;
  t["TRACE_CSV"] = "1";
  Result traced = run(specs, ops, t, values);
  c.step(2 * depth);
  c.check(plain.log == traced.log, "changes", "untraced: " + plain.log + " traced: " + traced.log);
  c.check(mf == model_files(), "changes", "tracing changes the stored files");
  c.check(plain.lines.size() == traced.lines.size(), "changes", "tracing changes the executions");
  check_traces(c, specs, traced, dir);
  u64 h = 0;
  for (auto &l : traced.lines) h = mix(h, hash_str(l.region) + l.idx * 16 + l.policy);
  c.state(h);
  c.obs(h);
}

// Any number of features, and many executions.
void shapes(Ctx &c) {
  static char names[2][64];
  int F = c.pick(std::vector<int>{0, 1, 9, 10, 11, 12, 20, 33, 101}, "features"), n = c.pick(thorough ? std::vector<int>{1, 12, 300, 1200, 11000} : std::vector<int>{1, 12, 1200}, "executions");
  int kind = c.choose(3, "model");
  bool shared = c.flip("second region");
  if (n > 1000 && F > 20) return;
  int length = n == 12 ? c.pick(std::vector<int>{4, 31, 32, 33, 48, 62, 63}, "length of the name") : 4;
  bool again = n == 12 && c.flip("in a directory with traces");
  strcpy(names[0], ("wide" + std::string(length - 4, 'x')).c_str());
  strcpy(names[1], "w");
  std::vector<Spec> specs{{names[0], kind == 0 ? "RoundRobin" : kind == 1 ? "Static,policy=11" : "DecisionTree", kind == 0 ? "RoundRobin" : kind == 1 ? "Static" : "DecisionTree", F, 12, 0}, {names[1], "RoundRobin", "RoundRobin", 1, 130, 0}};
  std::vector<int> ops;
  for (int i = 0; i < n; i++) ops.push_back(shared && i % 3 == 2);
  if (again) run(specs, ops, {{"TRACE_CSV", "1"}}, 0);
  Result r = run(specs, ops, {{"TRACE_CSV", "1"}}, 0);
  c.step(n);
  check_traces(c, specs, r, ".apollo/traces");
  c.state(mix(mix(F, n), kind * 2 + shared));
}
}  // namespace

void mc::scenarios(std::vector<Scenario> &out) {
  out.push_back({"synchronous", [](Ctx &c) { histories(c, thorough ? 7 : 5, {0, 1, 7, 8}); }});
  out.push_back({"shapes", shapes});
  out.push_back({"asynchronous", [](Ctx &c) { histories(c, thorough ? 6 : 5, {0, 2, 3, 4, 5, 6}); }});
}
