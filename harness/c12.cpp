// C12: regions do not influence each other. Every region's program is run
// alone and in every interleaving with the programs of other regions; what the
// region selects, records, learns and writes must be the same.
#include "world.h"
using namespace mc;
using namespace w;

namespace {
struct Spec {
  std::string name, info;
  int F, P, min;
  std::string load;  // model file argument
};
// A step of a region's program.
enum Op { CREATE, BEGIN0, BEGIN1, BEGIN2, END, EXEC0, EXEC1, EXEC2, TRAIN, FORCE };
using Prog = std::vector<Op>;

Feat feat(const Spec &s, int v) {
  Feat f;
  for (int i = 0; i < s.F; i++) f.push_back((float)(i == 0 ? v : v * i + 1));
  return f;
}
double metric(const Spec &s, const Feat &f, int p) { return 1.0 + ((int)f[0] + p * 3 + s.P) % 4; }

struct Run {
  Spec s;
  Apollo::Region *r = nullptr;
  Apollo::RegionContext *ctx = nullptr;
  Feat cur;
  int pol = 0;
  std::string log;  // everything observable so far
  int n = 0;
  void begin(int v) {
    cur = feat(s, v);
    ctx = r->begin(cur);
    pol = r->getPolicyIndex(ctx);
    log += fmt("select %d\n", pol);
  }
  void end() { r->end(ctx, metric(s, cur, pol)); }
  void step(Op o) {
    n++;
    switch (o) {
      case CREATE:
        set_random({(unsigned)(5 + s.P + hash_str(s.name) % 1000)});
        r = new Apollo::Region(s.F, s.name.c_str(), s.P, s.min, s.info, s.load);
        break;
      case BEGIN0: begin(0); break;
      case BEGIN1: begin(1); break;
      case BEGIN2: begin(2); break;
      case END: end(); break;
      case EXEC0: begin(0); end(); break;
      case EXEC1: begin(1); end(); break;
      case EXEC2: begin(2); end(); break;
      case TRAIN: r->train(100 + n); break;
      case FORCE: r->train(100 + n, true, true); break;
    }
    if (o != CREATE) log += fmt("%d measurements, %s\n", (int)r->dataset.size(), r->model->isTrainable() ? "training" : "trained");
  }
  void finish() {
    log += "data " + to_ref(r->dataset).str() + "\nselects";
    // models that draw are asked often enough for their odds to show
    bool draws = s.info.compare(0, 9, "PolicyNet") == 0 || s.info.compare(0, 6, "Random") == 0;
    for (int v : {-1, 0, 1, 2, 7})
      for (int k = 0; k < (draws ? 12 : 1); k++) {
        Feat f = feat(s, v);
        log += fmt(" %d", r->model->getIndex(f));
      }
    log += "\n";
  }
};

const char *SETTINGS[] = {"plain", "period", "outputs"};
Env env(int k) {
  Env e;
  if (k == 1) e["PER_REGION_TRAIN_PERIOD"] = "2";
  if (k == 2) {
    e["STORE_MODELS"] = e["PERSISTENT_DATASETS"] = e["TRACE_CSV"] = "1";
  }
  return e;
}

// What the region left behind.
std::string files(const Spec &s) {
  std::string out;
  std::string suffix[] = {"-rank-0-" + s.name + ".yaml", "Dataset-" + s.name + ".yaml", "-region-" + s.name + "-rank-0.csv"};
  for (auto &f : tree(".apollo")) {
    std::string b = f.substr(f.rfind('/') + 1);
    bool mine = b == suffix[1];
    for (auto &x : suffix)
      if (&x != &suffix[1] && b.size() > x.size() && b.compare(b.size() - x.size(), x.size(), x) == 0) mine = true;
    if (mine) out += f + ": " + fmt("%016llx", (unsigned long long)hash_str(read_file(".apollo/" + f))) + "\n";
  }
  return out;
}

void reset(const std::string &stored) {
  clean_scratch();
  if (!stored.empty()) write_file("stored.yaml", stored);
}

std::map<std::string, std::string> solo_cache;
std::string solo(const Spec &s, const Prog &p, int k, const std::string &stored) {
  std::string key = s.name + "|" + s.info + fmt("|%d|%d|%d|%d|", s.F, s.P, s.min, k) + s.load + "|";
  for (Op o : p) key += (char)('a' + o);
  auto it = solo_cache.find(key);
  if (it != solo_cache.end()) return it->second;
  reset(stored);
  Run r;
  r.s = s;
  {
    World w(env(k));
    for (Op o : p) r.step(o);
    r.finish();
  }
  std::string out = r.log + files(s);
  reset(stored);
  if (solo_cache.size() > 200000) solo_cache.clear();
  return solo_cache[key] = out;
}

// A model trained by some run, to be loaded.
std::string stored_tree() {
  static std::string s;
  if (!s.empty()) return s;
  {
    World w({{"STORE_MODELS", "1"}});
    auto *r = new Apollo::Region(1, "m", 3, 0, "DecisionTree,max_depth=4");
    for (int i = 0; i < 3; i++) {
      Feat f{(float)i};
      r->dataset.insert(f, 2 - i, 1.0);
    }
    r->train(0);
  }
  s = read_file(".apollo/models/DecisionTree-latest-rank-0-m.yaml");
  clean_scratch();
  return s;
}

void interleave(Ctx &c, const std::vector<Spec> &specs, const std::vector<Prog> &progs, int k, const std::string &stored, int switches = 1000) {
  std::vector<std::string> want;
  for (size_t i = 0; i < specs.size(); i++) want.push_back(solo(specs[i], progs[i], k, stored));
  reset(stored);
  std::vector<Run> rs(specs.size());
  for (size_t i = 0; i < specs.size(); i++) rs[i].s = specs[i];
  {
    World w(env(k));
    std::vector<size_t> at(specs.size());
    int last = -1;  // a switch away from a region that could go on is counted
    for (;;) {
      std::vector<int> live;
      for (size_t i = 0; i < specs.size(); i++)
        if (at[i] < progs[i].size()) live.push_back(i);
      if (live.empty()) break;
      bool go_on = last >= 0 && at[last] < progs[last].size();
      if (go_on && switches == 0) live = {last};
      int i = live[c.choose((int)live.size(), "region")];
      if (go_on && i != last) switches--;
      last = i;
      c.note(fmt("region %s: operation %d", specs[i].name.c_str(), (int)progs[i][at[i]]));
      rs[i].step(progs[i][at[i]++]);
      c.step();
    }
    for (auto &r : rs) r.finish();
  }
  for (size_t i = 0; i < specs.size(); i++) {
    std::string got = rs[i].log + files(specs[i]);
    c.state(hash_str(got));
    c.obs(got);
    if (got != want[i]) {
      size_t d = 0;
      while (d < got.size() && d < want[i].size() && got[d] == want[i][d]) d++;
      size_t b = got.rfind('\n', d ? d - 1 : 0);
      b = b == std::string::npos ? 0 : b + 1;
      c.fail("influence", fmt("region %s (%s) alone: ...%s, next to the others: ...%s", specs[i].name.c_str(), specs[i].info.c_str(), want[i].substr(b, 160).c_str(), got.substr(b, 160).c_str()));
    }
    c.validated();
  }
}

std::string longname(char last) {
  std::string s;
  for (int i = 0; i < 62; i++) s += (char)('a' + i % 26);
  return s + last;
}

std::vector<std::vector<Spec>> pairs() {
  std::string DT = "DecisionTree,max_depth=4", RF = "RandomForest,num_trees=3,max_depth=4", PN = "PolicyNet";
  return {
      {{"a", DT, 1, 2, 0, ""}, {"b", DT, 1, 2, 0, ""}},
      {{"a", DT, 1, 2, 0, ""}, {"a1", DT, 2, 3, 2, ""}},
      {{"r", RF, 1, 3, 0, ""}, {"r-r", RF, 1, 2, 1, ""}},
      {{"x", "RoundRobin", 1, 3, 0, ""}, {"y", "RoundRobin", 3, 2, 0, ""}},
      {{"x", "Random", 1, 3, 0, ""}, {"y", "Random", 1, 4, 0, ""}},
      {{longname('1'), DT, 1, 2, 2, ""}, {longname('2'), RF, 2, 2, 0, ""}},
      {{"n", PN, 1, 2, 0, ""}, {"m", PN, 2, 3, 0, ""}},
      {{"n", "PolicyNet,lr=1", 1, 3, 0, ""}, {"m", "PolicyNet,lr=1", 1, 3, 0, ""}},
      {{"n", PN, 1, 2, 0, ""}, {"t", DT, 1, 2, 1, ""}},
      {{"l", DT, 1, 3, 0, "stored.yaml"}, {"k", DT, 1, 3, 0, ""}},
      {{"s", "Static,policy=1", 1, 2, 0, ""}, {"A", "DecisionTree,max_depth=4,explore=Random", 1, 3, 2, ""}},
      {{"q", "StaticRegion,q=1,q2=2", 1, 3, 0, ""}, {"q2", "StaticRegion,q=1,q2=2", 1, 3, 0, ""}},
  };
}

std::vector<Prog> programs(int tokens, bool fine, bool small) {
  std::vector<std::vector<Op>> tok;
  if (fine) tok = {{BEGIN0, END}, {BEGIN1, END}, {TRAIN}};
  else tok = {{EXEC0}, {EXEC1}, {TRAIN}, {FORCE}};
  if (small) tok = {{EXEC0}, {EXEC1}, {TRAIN}};
  std::vector<Prog> out{{CREATE}};
  for (int i = 0; i < tokens; i++) {
    std::vector<Prog> nx;
    for (auto &p : out)
      for (auto &t : tok) {
        Prog q = p;
        q.insert(q.end(), t.begin(), t.end());
        nx.push_back(q);
      }
    out = nx;
  }
  return out;
}

// Steps within executions interleaved: executions of different regions overlap.
void overlapping(Ctx &c) {
  std::string st = stored_tree();
  auto specs = c.pick(pairs(), "regions");
  int k = c.choose(3, "settings");
  auto ps = programs(2, true, false);
  auto a = c.pick(ps, "program 1"), b = c.pick(ps, "program 2");
  interleave(c, specs, {a, b}, k, st, thorough ? 1000 : 3);
}

// Longer programs, whole executions interleaved.
void sequences(Ctx &c) {
  std::string st = stored_tree();
  auto specs = c.pick(pairs(), "regions");
  int k = c.choose(3, "settings");
  auto ps = programs(3, false, !thorough);
  auto qs = ps;
  if (!thorough) qs = {{CREATE, EXEC0, EXEC1, TRAIN}, {CREATE, EXEC1, TRAIN, EXEC0}, {CREATE, EXEC1, EXEC1, EXEC0}};
  auto a = c.pick(ps, "program 1"), b = c.pick(qs, "program 2");
  interleave(c, specs, {a, b}, k, st, thorough ? 1000 : 2);
}

// Nested and long: programs that train and then go on.
void training(Ctx &c) {
  std::string st = stored_tree();
  auto specs = c.pick(pairs(), "regions");
  int k = c.choose(3, "settings");
  std::vector<Prog> ps{
      {CREATE, EXEC0, EXEC0, EXEC1, EXEC1, TRAIN, EXEC0},
      {CREATE, EXEC2, EXEC1, EXEC2, EXEC1, EXEC0, TRAIN},
      {CREATE, EXEC1, TRAIN, BEGIN0, END, FORCE, EXEC2},
      {CREATE, EXEC0, EXEC2, EXEC0, EXEC2, EXEC0, EXEC2},
  };
  auto a = c.pick(ps, "program 1"), b = c.pick(ps, "program 2");
  interleave(c, specs, {a, b}, k, st, thorough ? 5 : 2);
}

// Many regions, created early or late, executing in turns.
void crowd(Ctx &c) {
  static const char *kinds[] = {"RoundRobin", "DecisionTree,max_depth=4", "RandomForest,num_trees=2", "Static,policy=1", "PolicyNet"};
  int R = c.pick(std::vector<int>{4, 9, 12, 33, 70}, "regions"), k = c.choose(3, "settings"), kind = c.choose(6, "model"), late = c.choose(3, "created");
  std::vector<Spec> specs;
  std::vector<Prog> progs;
  for (int i = 0; i < R; i++) {
    specs.push_back({fmt("%c%d", 'a' + (i * 7) % 26, i), kinds[kind < 5 ? kind : i % 5], 1 + i % 2, 2 + i % 3, i % 4 == 3 ? 2 : 0, ""});
    if (specs.back().info == "PolicyNet" && R > 33) specs.back().info = "RoundRobin";
    progs.push_back(i % 2 ? Prog{CREATE, EXEC0, EXEC1, EXEC2, TRAIN, EXEC0, EXEC1} : Prog{CREATE, EXEC1, EXEC1, EXEC0, EXEC2, TRAIN, EXEC2});
  }
  std::vector<std::string> want;
  for (int i = 0; i < R; i++) want.push_back(solo(specs[i], progs[i], k, ""));
  reset("");
  std::vector<Run> rs(R);
  for (int i = 0; i < R; i++) rs[i].s = specs[i];
  {
    World w(env(k));
    std::vector<size_t> at(R);
    // in turns; in turns, half of them created late; one after the other, all but the last step
    size_t n = progs[0].size();
    auto go = [&](int i, size_t to) {
      for (; at[i] < to; c.step()) rs[i].step(progs[i][at[i]++]);
    };
    if (late == 2)
      for (int i = 0; i < R; i++) go(i, n - 1);
    for (size_t j = 1; j <= n; j++)
      for (int i = 0; i < R; i++) go(i, late == 1 && i >= R / 2 && j < n - 1 ? 0 : j);
    for (auto &r : rs) r.finish();
  }
  for (int i = 0; i < R; i++) {
    std::string got = rs[i].log + files(specs[i]);
    c.check(got == want[i], "influence", fmt("region %s of %d: alone: ", specs[i].name.c_str(), R) + want[i] + " among others: " + got);
    c.state(hash_str(got));
  }
  c.validated();
}

void three(Ctx &c) {
  std::string st = stored_tree();
  int k = c.choose(3, "settings");
  std::vector<Spec> specs{{"a", "DecisionTree,max_depth=4", 1, 2, 0, ""}, {"b", "RandomForest,num_trees=2", 2, 3, 1, ""}, {"c", "RoundRobin", 1, 2, 0, ""}};
  if (c.flip("kinds")) specs = {{"c", "DecisionTree,max_depth=4", 1, 2, 2, ""}, {"b", "DecisionTree", 1, 2, 0, ""}, {"a", "PolicyNet", 1, 2, 0, ""}};
  std::vector<Prog> ps{{CREATE, EXEC0, EXEC1, TRAIN}, {CREATE, EXEC0, TRAIN, EXEC1}, {CREATE, BEGIN1, END, EXEC0}};
  std::vector<Prog> p;
  for (int i = 0; i < 3; i++) p.push_back(c.pick(ps, "program"));
  interleave(c, specs, p, k, st);
}
}  // namespace

void mc::scenarios(std::vector<Scenario> &out) {
  out.push_back({"overlapping", overlapping});
  out.push_back({"sequences", sequences});
  out.push_back({"training", [](Ctx &c) { training(c); }});
  out.push_back({"crowd", crowd});
  if (thorough) out.push_back({"three", three});
}
