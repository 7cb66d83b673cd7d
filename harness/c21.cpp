// C21: replaying models return exactly what was recorded.
#include "world.h"
using namespace mc;
using namespace w;

namespace {
bool loud(const Outcome &o) { return o.loud() || (o.kind == Outcome::EXIT && o.code != 0); }

std::string snapshot() {
  std::string s;
  for (auto &f : tree(".")) s += f + fmt(" %llx\n", (unsigned long long)hash_str(read_file(f)));
  return s;
}

// A recording of an earlier run.
void record(const std::string &name, int F, int P, const RefData &d) {
  World w({{"PERSISTENT_DATASETS", "1"}});
  auto *r = new Apollo::Region(F, name.c_str(), P, 0, "RoundRobin");
  for (auto &e : d.d) {
    Feat f = e.first.first;
    r->dataset.insert(f, e.first.second, e.second);
  }
}

// Every small recording, every sequence of queries.
void datasets(Ctx &c) {
  int shape = c.choose(4, "features");
  std::vector<Feat> fs;
  if (shape == 0) fs = {{0}, {1}};
  if (shape == 1) fs = {{0.1f}, {std::nextafterf(0.1f, 1)}};
  if (shape == 2) fs = {{1, 2}, {2, 1}};
  if (shape == 3) fs = {{-3e9f, 0, 5}, {-3e9f, 1, 5}};
  int F = (int)fs[0].size();
  int P = 2 + c.choose(2, "policies");
  RefData d;
  const double M[] = {0, 1.0, 2.0, 1.0 + 1e-15};
  for (auto &f : fs)
    for (int p = 0; p < P; p++) {
      int v = c.choose(P == 2 || thorough ? 4 : 3, "metric");
      if (v) d.insert(f, p, M[P > 2 && v == 2 && shape ? 3 : v]);
    }
  if (d.d.empty()) return;
  record("r", F, P, d);
  std::string before = snapshot();
  auto best = d.best();
  std::string q;
  {
    World w({});
    auto *r = new Apollo::Region(F, "r", P, 0, "DatasetMap");
    for (int i = 0; i < 5; i++) {
      // queries, and training requests, which have nothing to do here
      int op = i < 2 && P == 2 ? c.choose(4, "operation") : i % 2;
      if (op == 2) w->train(i);
      if (op == 3) r->train(i);
      if (op >= 2) continue;
      const Feat &f = fs[op];
      if (!best.count(f)) continue;
      int p = exec(r, f, 0.01 * i);
      c.check(p == best[f], "replay", fmt("%s selects %d, the best recorded is %d in %s", str(f).c_str(), p, best[f], d.str().c_str()));
      c.step();
      c.validated();
    }
    std::string e = diff(d, r->dataset);
    c.check(e.empty(), "recorded-values", "after replaying: " + e);
  }
  c.check(before == snapshot(), "files", "replaying changed the files: " + before + " -> " + snapshot());
  c.state(d.hash());
  c.obs(d.hash());
}

// Features that were not recorded.
void unrecorded(Ctx &c) {
  int which = c.choose(8, "query");
  int have = c.choose(3, "recorded");
  RefData d;
  d.insert({1}, 1, 1.0);
  if (have >= 1) d.insert({2}, 0, 1.0);
  if (have >= 2) d.insert({-4}, 0, 1.0), d.insert({-4}, 1, 0.5);
  record("r", 1, 2, d);
  std::vector<Feat> qs{{1}, {2}, {0}, {1.0000001f}, {-4}, {1.5f}, {3e38f}, {1, 1}};
  Feat q = qs[which];
  auto best = d.best();
  bool first = c.flip("after another query");
  Outcome o = forked([&](std::string &out) {
    World w({});
    auto *r = new Apollo::Region(1, "r", 2, 0, "DatasetMap");
    if (first) exec(r, {1}, 1);
    Feat f = q;
    out = std::to_string(exec(r, f, 1));
  });
  c.step();
  if (best.count(q)) c.check(o.ok() && o.out == std::to_string(best[q]), "replay", str(q) + ": " + o.str() + " " + o.out);
  else c.check(loud(o), "unrecorded", str(q) + " was not recorded in " + d.str() + " but: " + o.str() + " " + o.out);
  c.validated();
  c.obs(best.count(q));
  c.state(mix(d.hash(), which));
}

// Lists of one or two regions, all interleavings of their queries.
void lists(Ctx &c) {
  int n = c.choose(thorough ? 6 : 5, "length");
  std::vector<int> l[2];
  for (int i = 0; i < n; i++) l[0].push_back(c.choose(3, "policy"));
  l[1] = {2, 0, 1, 1};
  const char *name[2] = {"r", "r2"};
  bool newline = n > 0 && c.flip("newline at the end");
  for (int k = 0; k < 2; k++) {
    std::string s;
    for (size_t i = 0; i < l[k].size(); i++) s += (i ? "," : "") + std::to_string(l[k][i]);
    if (newline) s += "\n";
    write_file(fmt("opt-%s-rank-0.txt", name[k]), s);
  }
  std::string before = snapshot();
  {
    World w({});
    Apollo::Region *r[2];
    for (int k = 0; k < 2; k++) r[k] = new Apollo::Region(1, name[k], 3, 0, "Optimal");
    size_t at[2] = {0, 0};
    for (int i = 0; i < n + 2; i++) {
      int k = at[0] >= l[0].size() ? 1 : at[1] >= l[1].size() ? 0 : n > 3 ? i % 2 : c.choose(2, "region");
      if (at[k] >= l[k].size()) break;
      Feat f{(float)(i % 2)};
      int p = exec(r[k], f, 1 + i);
      c.check(p == l[k][at[k]], "list", fmt("region %s, selection %zu: %d, listed %d", name[k], at[k], p, l[k][at[k]]));
      at[k]++;
      c.step();
      c.validated();
    }
  }
  for (auto &f : tree("."))
    if (f.find("opt-") == 0) c.check(before.find(f + fmt(" %llx\n", (unsigned long long)hash_str(read_file(f)))) != std::string::npos, "files", f + " was changed");
  u64 h = n;
  for (int p : l[0]) h = mix(h, p);
  c.state(h);
  c.obs(h);
}

// Exhausted and missing lists, missing datasets.
void errors(Ctx &c) {
  int what = c.choose(7, "what");
  int n = c.choose(4, "length");
  std::string s;
  for (int i = 0; i < n; i++) s += (i ? "," : "") + std::to_string(i % 2);
  bool other = c.flip("files of another region");
  std::string name = other ? "x" : "r";
  bool by_env = c.flip("environment");
  Outcome o = forked([&](std::string &out) {
    if (what <= 1) write_file("opt-" + name + "-rank-0.txt", s);
    if (what == 3) mkdirs(".apollo/datasets");
    if (what == 4) mkdirs(".apollo/datasets"), write_file(".apollo/datasets/Dataset-r.yaml", "");
    if (what >= 5) {
      RefData d;
      for (int i = 0; i <= n; i++) d.insert({(float)i}, i % 2, 1);
      record(name, 1, 2, d);
    }
    std::string model = what <= 1 ? "Optimal" : "DatasetMap";
    World w(by_env ? Env{{"POLICY_MODEL", model}} : Env{});
    auto *r = new Apollo::Region(1, "r", 2, 0, by_env ? "" : model);
    out = "created";
    int k = what == 0 ? n : what == 1 ? n + 1 : what == 5 ? n + 1 : n + 2;
    for (int i = 0; i < k; i++) exec(r, {(float)i}, 1);
    out = "selected";
  });
  c.step();
  bool good = !other && (what == 0 || what == 5);
  if (good) c.check(o.ok() && o.out == "selected", "rejected", fmt("%d selections: ", n) + o.str());
  else c.check(loud(o), "not-reported", fmt("case %d, length %d%s: ", what, n, other ? ", files of another region" : "") + o.str() + " " + o.out);
  c.validated();
  c.state(what * 16 + n * 4 + other * 2 + by_env);
  c.obs(good);
}

// Per-region fixed assignments.
void assignment(Ctx &c) {
  std::vector<std::string> names{"a", "ab", "b"};
  std::vector<int> order;
  std::vector<int> left{0, 1, 2};
  std::string info = "StaticRegion";
  int pol[3];
  for (int i = 0; i < 3; i++) pol[i] = c.choose(3, "policy");
  while (!left.empty()) {
    int k = c.choose((int)left.size(), "order");
    info += "," + names[left[k]] + "=" + std::to_string(pol[left[k]]);
    left.erase(left.begin() + k);
  }
  bool by_env = c.flip("environment");
  World w(by_env ? Env{{"POLICY_MODEL", info}} : Env{});
  std::vector<Apollo::Region *> r;
  for (auto &n : names) r.push_back(new Apollo::Region(1, n.c_str(), 3, 0, by_env ? "" : info));
  for (int i = 0; i < 6; i++) {
    int k = i % 3;
    int p = exec(r[k], {(float)i}, 1 + i);
    c.check(p == pol[k], "assignment", fmt("%s: region %s selects %d", info.c_str(), names[k].c_str(), p));
    c.step();
  }
  c.validated();
  c.state(hash_str(info));
  c.obs(pol[0] * 9 + pol[1] * 3 + pol[2]);
}

// Policies of several digits.
void wide(Ctx &c) {
  const std::vector<int> pol{0, 5, 9, 10, 12, 99, 100, 105, 255, 256, 300};
  int a = c.pick(pol, "first"), b = c.pick(pol, "second");
  int how = c.choose(5, "how");
  const int P = 301;
  Env env;
  std::string info;
  if (how == 0) info = "Optimal", write_file("opt-r-rank-0.txt", fmt("%d,%d", a, b));
  if (how == 1) info = "Optimal", write_file("opt-r-rank-0.txt", fmt("%d,%d\n", a, b));
  if (how == 2) info = fmt("StaticRegion,q=3,r=%d", a), b = a;
  if (how == 3) env["POLICY_MODEL"] = fmt("StaticRegion,r=%d,q=3", a), b = a;
  if (how == 4) {
    RefData d;
    d.insert({1}, a, 0.5);
    d.insert({2}, b, 0.5);
    d.insert({1}, 7, 0.75);
    d.insert({2}, 7, 0.75);
    record("r", 1, P, d);
    info = "DatasetMap";
  }
  World w(env);
  auto *r = new Apollo::Region(1, "r", P, 0, info);
  for (int i = 0; i < 2; i++) {
    int p = exec(r, {(float)(1 + i)}, 1), e = i ? b : a;
    c.check(p == e, "policy", fmt("way %d: selection %d is %d, recorded %d", how, i, p, e));
    c.step();
  }
  c.validated();
  c.state(mix(mix(a, b), how));
  c.obs(mix(a, b));
}

// Many regions are assigned at once.
void assigned(Ctx &c) {
  int n = c.pick(std::vector<int>{1, 4, 15, 40, 120}, "regions");
  int shift = c.choose(4, "shift");
  bool by_env = c.flip("environment");
  std::string info = "StaticRegion";
  for (int i = 0; i < n; i++) info += fmt(",region-%d=%d", i, (i * 7 + shift) % 40);
  World w(by_env ? Env{{"POLICY_MODEL", info}} : Env{});
  for (int i = n - 1; i >= 0; i--) {
    auto *r = new Apollo::Region(1, fmt("region-%d", i).c_str(), 40, 0, by_env ? "" : info);
    int p = exec(r, {(float)i}, 1), e = (i * 7 + shift) % 40;
    c.check(p == e, "assignment", fmt("region-%d of %d selects %d, assigned %d", i, n, p, e));
    c.step();
  }
  c.validated();
  c.state(mix(n, shift));
  c.obs(mix(n, shift));
}

// Regions that replay different recordings of the same features, in turn.
void recordings(Ctx &c) {
  const std::vector<Feat> fs{{1}, {2}};
  const char *name[2] = {"r", "r2"};
  RefData d[2];
  for (int k = 0; k < 2; k++)
    for (auto &f : fs) {
      int b = c.choose(3, "best");
      d[k].insert(f, b, 1), d[k].insert(f, (b + 1) % 3, 2);
    }
  for (int k = 0; k < 2; k++) record(name[k], 1, 3, d[k]);
  for (int run = 0; run < 2; run++) {
    World w({});
    std::vector<Apollo::Region *> r;
    for (int k = 0; k < 2; k++) r.push_back(new Apollo::Region(1, name[k ^ run], 3, 0, "DatasetMap"));
    for (int i = 0; i < 4; i++) {
      int op = run ? (i * 3 + 1) % 4 : c.choose(4, "query");
      int k = op / 2;
      const Feat &f = fs[op % 2];
      int p = exec(r[k], f, 1 + i), e = d[k ^ run].best()[f];
      c.check(p == e, "replay", fmt("region %s, %s: selects %d, the best recorded is %d", name[k ^ run], str(f).c_str(), p, e));
      c.step();
      c.validated();
    }
  }
  c.state(mix(d[0].hash(), d[1].hash()));
  c.obs(mix(d[0].hash(), d[1].hash()));
}
}  // namespace

void mc::scenarios(std::vector<Scenario> &out) {
  out.push_back({"datasets", datasets});
  out.push_back({"unrecorded", unrecorded});
  out.push_back({"recordings", recordings});
  out.push_back({"lists", lists});
  out.push_back({"errors", errors});
  out.push_back({"assignment", assignment});
  out.push_back({"wide-policies", wide});
  out.push_back({"many-regions", assigned});
}
