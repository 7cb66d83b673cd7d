// C10: asynchronously timed executions complete in any order without loss.
// The real timers run against a device whose events complete when the
// exploration says so.
#include "fakegpu/device.h"
#include "world.h"
using namespace mc;
using namespace w;

namespace fakegpu {
struct Event {
  int id = 0, exec = -1;
  bool live = true, recorded = false, done = false, stop = false;
  double t = 0;
};
// The execution whose begin or end is being called, and its device times.
static int cur = -1;
static bool cur_stop = false;
static std::vector<double> dur;  // ms, by execution
static std::vector<Event *> all;
static std::vector<int> bad;  // misuse: event ids
static std::string misuse;
static int calls = 0, fail_at = -1;  // fault injection: number of the call
static bool fault_hit = false;
static bool draining = false;
static int drain_polls = 0, drain_style = 0, drain_every = 2;

static void reset() {
  for (auto *e : all) delete e;
  all.clear();
  dur.clear();
  misuse.clear();
  calls = 0;
  fail_at = -1;
  fault_hit = false;
  draining = false;
  drain_polls = 0;
  drain_style = 0;
  drain_every = 2;
  cur = -1;
}
static bool fault() {
  if (calls++ == fail_at) {
    fault_hit = true;
    return true;
  }
  return false;
}
Err create(Event **e) {
  if (fault()) return LaunchFailure;
  Event *x = new Event();
  x->id = (int)all.size();
  all.push_back(x);
  *e = x;
  return Success;
}
static bool known(Event *e) {
  for (auto *x : all)
    if (x == e) return true;
  return false;
}
Err destroy(Event *e) {
  if (fault()) return LaunchFailure;
  if (!known(e) || !e->live) {
    misuse = "an event was destroyed twice";
    return InvalidHandle;
  }
  e->live = false;
  return Success;
}
Err record(Event *e) {
  if (fault()) return LaunchFailure;
  if (!known(e) || !e->live) {
    misuse = "a destroyed event was recorded";
    return InvalidHandle;
  }
  e->recorded = true;
  e->exec = cur;
  e->stop = cur_stop;
  e->t = cur * 1000.0 + (cur_stop ? dur[cur] : 0);
  e->done = !cur_stop;  // the start of the work passes immediately
  return Success;
}
static void progress() {
  if (!draining) return;
  // Outstanding work completes, one event every few polls, oldest or newest
  // first.
  if (++drain_polls % drain_every) return;
  std::vector<Event *> o;
  for (auto *x : all)
    if (x->live && x->recorded && !x->done) o.push_back(x);
  if (!o.empty()) (drain_style ? o.back() : o.front())->done = true;
}
Err query(Event *e) {
  if (fault()) return LaunchFailure;
  if (!known(e) || !e->live) {
    misuse = "a destroyed event was queried";
    return InvalidHandle;
  }
  progress();
  return !e->recorded || e->done ? Success : NotReady;
}
Err synchronize(Event *e) {
  if (fault()) return LaunchFailure;
  if (known(e)) e->done = true;  // waits
  return Success;
}
Err device_synchronize() {
  for (auto *x : all) x->done = true;
  return Success;
}
Err elapsed(float *ms, Event *a, Event *b) {
  if (fault()) return LaunchFailure;
  if (!known(a) || !known(b) || !a->live || !b->live) {
    misuse = "the time of destroyed events was asked for";
    return InvalidHandle;
  }
  if (!a->recorded || !b->recorded) return InvalidHandle;
  progress();
  if (!a->done || !b->done) return NotReady;
  *ms = (float)(b->t - a->t);
  return Success;
}
const char *error_string(Err e) { return e == NotReady ? "not ready" : e == LaunchFailure ? "launch failure" : "error"; }
}  // namespace fakegpu

namespace {
using fakegpu::Event;
#ifdef VARIANT_hip
const auto ASYNC = Apollo::Region::TIMING_HIP_ASYNC;
#else
const auto ASYNC = Apollo::Region::TIMING_CUDA_ASYNC;
#endif

// Lets the device finish its work when a scenario is left early.
struct Drain {
  ~Drain() { fakegpu::draining = true; }
};

struct Ex {  // one execution
  int region = 0;
  bool async = true;
  Apollo::RegionContext *x = nullptr;
  Feat f;
  int policy = -1;
  bool ended = false, complete = false, recorded = false, given = false;
  double metric = 0;
};

struct Sim {
  Ctx &c;
  std::vector<Apollo::Region *> r;
  std::vector<Ex> ex;
  // The context-less interface is about the execution begun last.
  std::map<int, int> last;
  bool contextless(int i) { return !ex[i].async && last[ex[i].region] == i; }
  explicit Sim(Ctx &c) : c(c) {}

  int begin(int region, bool async) {
    int i = (int)ex.size();
    fakegpu::dur.push_back(1.0 + 2.5 * i);
    fakegpu::cur = i;
    fakegpu::cur_stop = false;
    Ex e;
    e.region = region;
    e.async = async;
    e.x = async ? r[region]->begin(ASYNC) : r[region]->begin();
    ex.push_back(e);
    last[region] = i;
    c.step();
    return i;
  }
  // features and policy; context-less for synchronous ones
  void set(int i) {
    features(i);
    ask(i);
  }
  void features(int i) {
    Ex &e = ex[i];
    e.f = {(float)i, (float)(i * i)};
    for (float v : e.f) contextless(i) ? r[e.region]->setFeature(v) : r[e.region]->setFeature(e.x, v);
    c.step();
  }
  void ask(int i) {
    Ex &e = ex[i];
    e.policy = contextless(i) ? r[e.region]->getPolicyIndex() : r[e.region]->getPolicyIndex(e.x);
    c.step();
  }
  void end(int i, bool given) {
    Ex &e = ex[i];
    fakegpu::cur = i;
    fakegpu::cur_stop = true;
    e.ended = true;
    e.given = given || !e.async;
    e.metric = e.given ? 100.0 + i : fakegpu::dur[i] / 1000.0;
    if (e.given) e.complete = true;
    if (e.given) contextless(i) ? r[e.region]->end(e.metric) : r[e.region]->end(e.x, e.metric);
    else r[e.region]->end(e.x);
    c.step();
  }
  void complete(int i) {
    for (auto *e : fakegpu::all)
      if (e->exec == i && e->stop) e->done = true;
    ex[i].complete = true;
  }
  bool device_done(int i) {
    return ex[i].complete;
  }
  // must[region]: the runtime has just looked for completed executions there
  void compare(const std::string &when, const std::vector<bool> &must) {
    c.check(fakegpu::misuse.empty(), "timer-misuse", when + ": " + fakegpu::misuse);
    for (size_t k = 0; k < r.size(); k++) {
      RefData got = to_ref(r[k]->dataset);
      size_t n = 0;
      for (size_t i = 0; i < ex.size(); i++) {
        Ex &e = ex[i];
        if (e.region != (int)k) continue;
        auto it = e.f.empty() ? got.d.end() : got.d.find({e.f, e.policy});
        bool rec = it != got.d.end();
        if (rec) n++;
        c.check(!rec || (e.ended && e.complete), "too-early", fmt("%s: execution %zu was recorded before it completed: %s", when.c_str(), i, got.str().c_str()));
        c.check(rec || !e.recorded, "lost", fmt("%s: execution %zu disappeared", when.c_str(), i));
        c.check(rec || !(e.ended && e.complete && must[k]), "not-recorded", fmt("%s: execution %zu completed but is not recorded: %s", when.c_str(), i, got.str().c_str()));
        if (rec) c.check(std::fabs(it->second - e.metric) <= 1e-6 * e.metric, "metric", fmt("%s: execution %zu took %g, recorded %g", when.c_str(), i, e.metric, it->second));
        e.recorded = rec;
      }
      c.check(n == got.d.size(), "unknown-record", when + ": unexpected records " + got.str());
      c.validated();
    }
  }
  u64 hash() {
    u64 h = 0;
    for (auto &e : ex) h = mix(h, e.region * 32 + e.async * 16 + e.ended * 8 + e.complete * 4 + e.recorded * 2 + e.given);
    return h;
  }
  // timer resources: once the execution is recorded its events are released
  void released(const std::string &when, bool all_ended) {
    for (auto *e : fakegpu::all) {
      if (e->exec < 0) continue;
      const Ex &x = ex[e->exec];
      if (x.async && x.recorded && !x.given) c.check(!e->live, "leak", fmt("%s: the events of execution %d are not released", when.c_str(), e->exec));
      if (x.async && !x.recorded && !(all_ended && x.ended)) c.check(e->live, "released-early", fmt("%s: the events of execution %d were released", when.c_str(), e->exec));
    }
  }
};

// Every schedule of begins, ends and completions of up to three asynchronous
// executions in up to two regions, with a synchronous one in progress, then
// destruction with whatever is outstanding.
void schedules(Ctx &c, int depth, int maxex, int regions) {
  fakegpu::reset();
  std::string model = c.pick(std::vector<std::string>{"RoundRobin", "DecisionTree"}, "model");
  Sim s(c);
  std::vector<Ex> final;
  {
    World w({{"PERSISTENT_DATASETS", "1"}});
    Drain dr;
    for (int i = 0; i < regions; i++) s.r.push_back(new Apollo::Region(2, fmt("r%d", i).c_str(), 3, 0, model));
    int sync = -1;
    for (int d = 0; d < depth; d++) {
      // operations enabled in this state (a function of the choices only)
      struct Op { int kind, i; };
      std::vector<Op> ops;
      if ((int)s.ex.size() < maxex)
        for (int k = 0; k < regions; k++) ops.push_back({0, k});
      for (size_t i = 0; i < s.ex.size(); i++) {
        if (!s.ex[i].async) continue;
        if (!s.ex[i].ended) ops.push_back({1, (int)i});
        else if (!s.ex[i].complete) ops.push_back({2, (int)i});
      }
      if (sync < 0) ops.push_back({3, 0});
      else if (!s.ex[sync].ended) ops.push_back({4, 0});
      ops.push_back({5, 0});
      Op o = ops[c.choose((int)ops.size(), "op")];
      std::vector<bool> must(regions, false);
      std::string what;
      if (o.kind == 0) {
        int i = s.begin(o.i, true);
        s.set(i);
        what = fmt("begin execution %d in region %d", i, o.i);
      } else if (o.kind == 1) {
        s.end(o.i, false);
        must[s.ex[o.i].region] = true;
        what = fmt("end execution %d", o.i);
      } else if (o.kind == 2) {
        s.complete(o.i);
        what = fmt("complete execution %d", o.i);
      } else if (o.kind == 3) {
        sync = s.begin(0, false);
        what = "begin synchronous execution";
      } else if (o.kind == 4) {
        s.set(sync);
        s.end(sync, true);
        must[0] = true;
        what = "end synchronous execution";
      } else {
        for (int k = 0; k < regions; k++) {
          s.r[k]->collectPendingContexts();
          must[k] = true;
        }
        what = "look for completed executions";
      }
      c.note(what);
      s.compare(what, must);
      s.released(what, false);
      c.state(s.hash());
    }
    fakegpu::draining = true;
    fakegpu::drain_style = c.choose(2, "drain");
    final = s.ex;
    s.r.clear();
  }
  c.check(fakegpu::misuse.empty(), "timer-misuse", "destruction: " + fakegpu::misuse);
  for (auto *e : fakegpu::all)
    if (e->exec >= 0 && final[e->exec].async && final[e->exec].ended) c.check(!e->live, "leak", fmt("the events of execution %d are never released", e->exec));
  // Everything that was ended is in the datasets of the next run.
  World w({{"PERSISTENT_DATASETS", "1"}});
  for (int k = 0; k < regions; k++) {
    auto *r = new Apollo::Region(2, fmt("r%d", k).c_str(), 3, 0, model);
    RefData got = to_ref(r->dataset);
    size_t n = 0;
    for (size_t i = 0; i < final.size(); i++) {
      auto &e = final[i];
      if (e.region != k || !e.ended) continue;
      n++;
      auto it = got.d.find({e.f, e.policy});
      c.check(it != got.d.end(), "not-drained", fmt("execution %zu was outstanding at the end and is not recorded: %s", i, got.str().c_str()));
      c.check(std::fabs(it->second - e.metric) <= 1e-6 * e.metric, "metric", fmt("execution %zu took %g, recorded %g", i, e.metric, it->second));
    }
    c.check(n == got.d.size(), "unknown-record", "after the end: unexpected records " + got.str());
  }
  c.obs(s.hash());
}

// Completion orders of many outstanding executions, by permutation.
void orders(Ctx &c) {
  fakegpu::reset();
  int n = thorough ? 6 : 5;
  std::vector<int> left, perm;
  for (int i = 0; i < n; i++) left.push_back(i);
  bool trainable = c.flip("untrained model, not persistent");
  int how = c.choose(3, "look");  // explicit, training, end of another
  for (int i = 0; i < n; i++) {
    int k = c.choose((int)left.size(), "next");
    perm.push_back(left[k]);
    left.erase(left.begin() + k);
  }
  World w(trainable ? Env{} : Env{{"PERSISTENT_DATASETS", "1"}});
  Drain dr;
  Sim s(c);
  s.r.push_back(new Apollo::Region(2, "r", 3, 0, trainable ? "PolicyNet,lr=0.001" : "RoundRobin"));
  set_random({1});
  for (int i = 0; i < n; i++) s.set(s.begin(0, true));
  // ended in reverse order
  for (int i = n - 1; i >= 0; i--) s.end(i, false);
  s.compare("all ended", {true});
  for (int i = 0; i < n; i++) {
    s.complete(perm[i]);
    s.compare("completed", {false});
    if (how == 0) s.r[0]->collectPendingContexts();
    if (how == 1) s.r[0]->train(i);
    if (how == 2) {
      int k = s.begin(0, i % 2);
      s.set(k);
      s.end(k, true);
    }
    // a training that does nothing (the model cannot be trained) need not look
    s.compare(fmt("execution %d completed", perm[i]), {how != 1 || trainable});
    s.released("looked", false);
    c.state(s.hash());
  }
  c.obs(s.hash());
}

// Many in flight: ends and completions in every order, oldest or newest
// completion first.
void waves(Ctx &c) {
  fakegpu::reset();
  int n = thorough ? 7 : 6;
  bool persistent = c.flip("persistent");
  bool reverse = c.flip("ended newest first");
  World w(persistent ? Env{{"PERSISTENT_DATASETS", "1"}} : Env{});
  Drain dr;
  Sim s(c);
  s.r.push_back(new Apollo::Region(2, "r", 3, 0, persistent ? "RoundRobin" : "DecisionTree"));
  for (int i = 0; i < n; i++) s.set(s.begin(0, true));
  int ended = 0;
  std::vector<int> out;
  while (ended < n || !out.empty()) {
    std::vector<int> ops;
    if (ended < n) ops.push_back(0);
    if (out.size()) ops.push_back(1);
    if (out.size() > 1) ops.push_back(2);
    int o = ops[c.choose((int)ops.size(), "op")];
    bool must = true;
    if (o == 0) {
      int i = reverse ? n - 1 - ended : ended;
      ended++;
      s.end(i, false);
      out.push_back(i);
    } else {
      size_t k = o == 1 ? 0 : out.size() - 1;
      s.complete(out[k]);
      out.erase(out.begin() + k);
      if (ended == n) s.r[0]->collectPendingContexts();
      else must = false;
    }
    s.compare(o ? "completed" : "ended", {must});
    s.released("step", false);
    c.state(s.hash());
  }
  c.obs(s.hash());
}

// Executions whose features, query and end are interleaved in every way.
void interleaved(Ctx &c) {
  fakegpu::reset();
  int n = 3, sync = c.choose(3, "synchronous");  // none, the first, the last
  World w({{"PERSISTENT_DATASETS", "1"}});
  Drain dr;
  Sim s(c);
  s.r.push_back(new Apollo::Region(2, "r", 3, 0, "RoundRobin"));
  std::vector<int> pc(n, 0);
  int begun = 0;
  for (int t = 0; t < 4 * n; t++) {
    std::vector<int> en;
    for (int i = 0; i < n; i++)
      if (pc[i] < 4 && (pc[i] || i == begun)) en.push_back(i);
    int i = en[c.choose((int)en.size(), "who")];
    bool a = !(sync == 1 && i == 0) && !(sync == 2 && i == n - 1), must = false;
    if (pc[i] == 0) s.begin(0, a), begun++;
    if (pc[i] == 1) s.features(i);
    if (pc[i] == 2) s.ask(i);
    if (pc[i] == 3) {
      s.end(i, !a);
      if (a) s.complete(i);
      must = true;
      s.r[0]->collectPendingContexts();
    }
    pc[i]++;
    if (must) s.compare(fmt("end of execution %d", i), {true});
    c.state(mix(s.hash(), pc[0] * 25 + pc[1] * 5 + pc[2]));
  }
  c.obs(s.hash());
}

// The end of the program waits for slow devices.
void slow(Ctx &c) {
  fakegpu::reset();
  int n = 1 + c.choose(4, "outstanding"), every = c.pick(std::vector<int>{1, 3, 100, 3000, 200000}, "polls"), style = c.choose(2, "order");
  {
    World w({{"PERSISTENT_DATASETS", "1"}});
    auto *r = new Apollo::Region(2, "r", 3, 0, "RoundRobin");
    Sim s(c);
    s.r.push_back(r);
    for (int i = 0; i < n; i++) s.set(s.begin(0, true));
    for (int i = 0; i < n; i++) s.end(i, false);
    fakegpu::draining = true;
    fakegpu::drain_every = every;
    fakegpu::drain_style = style;
  }
  World w({{"PERSISTENT_DATASETS", "1"}});
  auto *r = new Apollo::Region(2, "r", 3, 0, "RoundRobin");
  c.check(r->dataset.size() == (size_t)n, "not-drained", fmt("%d outstanding at the end, one completed every %d polls: %zu recorded", n, every, (size_t)r->dataset.size()));
  c.validated();
  c.obs(n);
  c.state(mix(n, mix(every, style)));
}

// A device error at any call is loud.
void errors(Ctx &c) {
  int at = c.choose(26, "failing call");
  int style = c.choose(2, "style");
  Outcome o = forked([&](std::string &out) {
    fakegpu::reset();
    fakegpu::fail_at = at;
    World w({{"PERSISTENT_DATASETS", "1"}});
    Sim s(c);
    s.r.push_back(new Apollo::Region(2, "r", 3, 0, "RoundRobin"));
    for (int i = 0; i < 2; i++) s.set(s.begin(0, true));
    s.end(0, false);
    if (style) s.end(1, false);
    s.complete(0);
    s.r[0]->collectPendingContexts();
    if (!style) s.end(1, false);
    s.complete(1);
    s.r[0]->collectPendingContexts();
    out = fakegpu::fault_hit ? "ignored" : fmt("no fault, %d", s.r[0]->dataset.size());
    fakegpu::draining = true;
  });
  c.step();
  c.obs(o.kind);
  c.state(mix(at, style));
  c.validated();
  if (o.ok()) c.check(o.out == "no fault, 2", "error-ignored", fmt("the device error of call %d was ignored", at));
  else c.check(o.loud(), "error-crash", fmt("device error of call %d: %s", at, o.str().c_str()));
}

// Training and tracing with asynchronous executions: one line each, in order
// of collection; the minimum training size counts collected executions only.
void counted(Ctx &c) {
  fakegpu::reset();
  int n = 2 + c.choose(3, "executions"), min = 1 + c.choose(4, "min");
  World w({{"TRACE_CSV", "1"}, {"STORE_EXEC_INFO", "1"}});
  Drain dr;
  Sim s(c);
  auto *r = new Apollo::Region(2, "r", 3, min, "DecisionTree,max_depth=9");
  s.r.push_back(r);
  int collected = 0;
  for (int i = 0; i < n; i++) {
    int k = s.begin(0, true);
    s.set(k);
    s.end(k, false);
    c.check(r->dataset.size() == std::min(collected, min), "too-early", fmt("%d records after %d completions, minimum %d", r->dataset.size(), collected, min));
    c.check(r->model->isTrainable() == (collected < min), "trained", fmt("%d collected, minimum %d, trainable %d", collected, min, r->model->isTrainable()));
    if (c.flip("complete now")) {
      s.complete(k);
      r->collectPendingContexts();
      collected++;
    }
    c.state(mix(mix(n, min), mix(i, collected)));
  }
  for (int i = 0; i < n; i++)
    if (!s.ex[i].complete) {
      s.complete(i);
      r->collectPendingContexts();
      collected++;
      c.check(r->model->isTrainable() == (collected < min), "trained", fmt("%d collected, minimum %d", collected, min));
    }
  std::string err = w.end();
  c.check(err.find(fmt("executions: %d", n)) != std::string::npos, "summary", err);
  std::string t = read_file(".apollo/traces/trace-DecisionTree,max_depth=9-region-r-rank-0.csv");
  int lines = (int)std::count(t.begin(), t.end(), '\n');
  c.check(lines == n + 1, "trace", fmt("%d executions, trace: %s", n, t.c_str()));
  c.obs(t);
  c.validated();
}

// The run ends with executions outstanding in several regions, with periodic
// training on.
void run_ends(Ctx &c) {
  fakegpu::reset();
  std::string info = c.pick(std::vector<std::string>{"DecisionTree", "PolicyNet", "RandomForest,num_trees=2", "RoundRobin"}, "model");
  int period = c.choose(4, "period");
  bool global = c.flip("run-wide period");
  int min = c.choose(3, "min");
  std::vector<int> n{c.choose(3, "first"), c.choose(3, "second"), c.choose(2, "third")};
  Env env{{"PERSISTENT_DATASETS", "1"}, {"TRACE_CSV", "1"}};
  if (period) env[global ? "GLOBAL_TRAIN_PERIOD" : "PER_REGION_TRAIN_PERIOD"] = std::to_string(period);
  set_random({3});
  World w(env);
  Drain dr;
  Sim s(c);
  for (int k = 0; k < 3; k++) s.r.push_back(new Apollo::Region(2, fmt("r%d", 2 - k).c_str(), 3, min, info));
  for (int i = 0; i < 2; i++)
    for (int k = 0; k < 3; k++)
      if (i < n[k]) {
        int x = s.begin(k, true);
        s.set(x);
        s.end(x, false);
      }
  int total = n[0] + n[1] + n[2];
  fakegpu::draining = true;
  std::string err = w.end();
  c.step(total);
  c.check(err.find(fmt("executions: %d", total)) != std::string::npos, "summary", fmt("%d executions: ", total) + err);
  for (int k = 0; k < 3; k++) {
    std::string t = read_file(fmt(".apollo/traces/trace-%s-region-r%d-rank-0.csv", info.c_str(), 2 - k));
    int lines = (int)std::count(t.begin(), t.end(), '\n');
    c.check(lines == n[k] + 1, "trace", fmt("region r%d, %d executions, trace: %s", 2 - k, n[k], t.c_str()));
    std::string d = read_file(fmt(".apollo/datasets/Dataset-r%d.yaml", 2 - k));
    int rec = 0;
    for (size_t p = 0; (p = d.find("xtime:", p)) != d.npos; p++) rec++;
    c.check(rec == n[k], "not-recorded", fmt("region r%d, %d executions: ", 2 - k, n[k]) + d);
  }
  c.check(fakegpu::misuse.empty(), "misuse", fakegpu::misuse);
  for (auto *e : fakegpu::all) c.check(!e->live, "leak", "an event is never released");
  c.state(mix(mix(hash_str(info), period * 2 + global), mix(n[0] * 9 + n[1] * 3 + n[2], min)));
  c.obs(total);
  c.validated();
}
}  // namespace

void mc::scenarios(std::vector<Scenario> &out) {
  out.push_back({"schedules", [](Ctx &c) { schedules(c, thorough ? 9 : 7, 3, 1); }});
  out.push_back({"schedules-two-regions", [](Ctx &c) { schedules(c, thorough ? 7 : 5, 3, 2); }});
  out.push_back({"completion-orders", orders});
  out.push_back({"waves", waves});
  out.push_back({"interleaved", interleaved});
  out.push_back({"slow", slow});
  out.push_back({"device-errors", errors});
  out.push_back({"counted", counted});
  out.push_back({"run-ends", run_ends});
}
