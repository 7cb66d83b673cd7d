// C25: datasets made from traces hold exactly the traced executions.
#include <unistd.h>

#include <fstream>

#include "world.h"
using namespace mc;
using namespace w;

namespace {
struct Row {
  std::string region;
  std::vector<double> f;
  int policy;
  double t;
};
using Key = std::pair<std::vector<double>, int>;
using Entry = std::pair<Key, double>;
const char *AGG[] = {"none", "mean", "min", "mean-min"};

std::string trace_text(const std::vector<Row> &rows, int arity) {
  std::string s = "rankid training region idx";
  for (int i = 0; i < arity; i++) s += fmt(" f%d", i);
  s += " policy xtime\n";
  int k = 0;
  for (auto &r : rows) {
    s += fmt("0 Static,%d %s %d", r.policy, r.region.c_str(), k++);
    for (double x : r.f) s += fmt(" %.9g", x);
    s += fmt(" %d %.17g\n", r.policy, r.t);
  }
  return s;
}

// Runs the script once per job (directory to work in and arguments); false if
// the stand-in for pandas lacks something the script uses.
bool run_script(Ctx &c, const std::vector<std::string> &jobs, int version) {
  std::string j;
  for (auto &x : jobs) j += x + "\n";
  write_file("jobs", j);
  std::string script = std::string(getenv("VERIF_REPO") ? getenv("VERIF_REPO") : "/repo") + "/src/python/modeling/create-dataset.py";
  int rc = system((fmt("FAKE_PANDAS=%d PYTHONPATH='" HARNESS_DIR "/fakepd' python3 '" HARNESS_DIR "/fakepd/run.py' '", version) + script + "' jobs >script.log 2>&1").c_str());
  std::string log = read_file("script.log");
  c.check(rc == 0, "script", "the script does not run: " + log.substr(0, 600));
  size_t n = 0;
  std::istringstream is(log);
  for (std::string l; std::getline(is, l);)
    if (l[0] == '@') {
      if (l.compare(0, 3, "@0 ") != 0) {
        bool standin = (l.find("AttributeError") != std::string::npos && (l.find("'Series'") != std::string::npos || l.find("'DataFrame'") != std::string::npos || l.find("GroupBy'") != std::string::npos || l.find("'Index'") != std::string::npos || l.find("'Array'") != std::string::npos || l.find("module 'pandas'") != std::string::npos || l.find("fakepd/pandas.py") != std::string::npos)) ||
                       l.find("unexpected keyword argument") != std::string::npos || l.find("No module named") != std::string::npos || l.find("cannot import name") != std::string::npos;
        if (standin) {
          c.note("the stand-in for pandas lacks: " + l);
          return false;
        }
        c.fail("script", "run " + jobs[n] + " fails: " + l);
      }
      n++;
    }
  c.check(n == jobs.size(), "script", "the script ended early: " + log.substr(0, 600));
  c.step((int)n);
  return true;
}

// What a dataset file says (an independent reader).
std::vector<Entry> read_dataset(Ctx &c, const std::string &file) {
  c.check(exists(file), "written", "no " + file);
  std::string s = read_file(file), t;
  std::istringstream is(s);
  for (std::string l; std::getline(is, l);)
    if (l.empty() || l[0] != '#') t += l + "\n";
  std::vector<Entry> out;
  std::set<long> ids;
  for (size_t p = t.find("features:"); p != std::string::npos; p = t.find("features:", p + 1)) {
    size_t b = t.rfind('\n', p);
    ids.insert(strtol(t.c_str() + (b == std::string::npos ? 0 : b), nullptr, 10));
    Entry e;
    size_t q = t.find('[', p), z = t.find(']', q);
    c.check(q != std::string::npos && z != std::string::npos, "format", file + " is malformed: " + s);
    std::string v = t.substr(q + 1, z - q - 1);
    for (char &ch : v)
      if (ch == ',') ch = ' ';
    std::istringstream vs(v);
    for (std::string w; vs >> w;) {
      char *end;
      e.first.first.push_back(strtod(w.c_str(), &end));
      c.check(*end == 0, "format", file + ": feature " + w);
    }
    size_t a = t.find("policy:", z), x = t.find("xtime:", z);
    c.check(a != std::string::npos && x != std::string::npos, "format", file + " is malformed: " + s);
    e.first.second = atoi(t.c_str() + a + 7);
    e.second = strtod(t.c_str() + x + 6, nullptr);
    out.push_back(e);
  }
  c.check(ids.size() == out.size(), "format", file + ": entries share a number");
  return out;
}

std::string show(const std::vector<Entry> &v) {
  std::string s;
  for (auto &e : v) {
    s += "[";
    for (double x : e.first.first) s += fmt("%g ", x);
    s += fmt("] %d: %g; ", e.first.second, e.second);
  }
  return s;
}
bool close(double a, double b) { return std::fabs(a - b) <= 1e-12 * std::max(std::fabs(a), std::fabs(b)); }

// The dataset of one region against the rows of its traces.
void judge(Ctx &c, const std::string &file, const std::vector<Row> &all, const std::string &region, int agg) {
  std::vector<Entry> got = read_dataset(c, file), want;
  std::map<Key, std::pair<double, int>> sum;
  std::map<std::vector<double>, std::map<int, double>> mean, low;
  for (auto &r : all)
    if (r.region == region) {
      want.push_back({{r.f, r.policy}, r.t});
      auto &s = sum[{r.f, r.policy}];
      s.first += r.t;
      s.second++;
      auto l = low[r.f].emplace(r.policy, r.t).first;
      l->second = std::min(l->second, r.t);
    }
  std::string what = std::string(AGG[agg]) + " of " + show(want) + "gives " + show(got);
  if (agg == 0) {
    auto a = got, b = want;
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    c.check(a == b, "rows", what);
  } else if (agg == 1) {
    c.check(got.size() == sum.size(), "groups", what);
    std::set<Key> seen;
    for (auto &e : got) {
      auto it = sum.find(e.first);
      c.check(it != sum.end() && seen.insert(e.first).second, "groups", what);
      c.check(close(e.second, it->second.first / it->second.second), "mean", what);
    }
  } else {
    for (auto &e : sum) mean[e.first.first][e.first.second] = e.second.first / e.second.second;
    auto &m = agg == 2 ? low : mean;
    c.check(got.size() == m.size(), "groups", what);
    std::set<std::vector<double>> seen;
    for (auto &e : got) {
      auto it = m.find(e.first.first);
      c.check(it != m.end() && seen.insert(e.first.first).second, "groups", what);
      double best = INFINITY;
      for (auto &p : it->second) best = std::min(best, p.second);
      auto p = it->second.find(e.first.second);
      c.check(p != it->second.end() && close(p->second, best), "best", what);
      c.check(close(e.second, best), "best", what);
    }
  }
  // and the library loads it
  std::ifstream in(file);
  Apollo::Dataset d;
  d.load(in);
  RefData ref;
  std::set<Key> keys;
  for (auto &e : got) {
    Feat f(e.first.first.begin(), e.first.first.end());
    ref.insert(f, e.first.second, e.second);
    keys.insert(e.first);
  }
  c.check(d.size() == keys.size(), "loads", file + fmt(": %zu measurements loaded of %zu", d.size(), keys.size()));
  std::string df = diff(ref, d);
  c.check(df.empty(), "loads", file + ": loaded otherwise: " + df);
  c.obs(show(got));
  c.step();
}

// Removes what a run wrote, keeping the traces.
std::set<std::string> datasets(const std::string &dir) {
  std::set<std::string> o;
  for (auto &f : tree(dir))
    if (f.compare(0, 8, "Dataset-") == 0) o.insert(f);
  return o;
}

void judge_all(Ctx &c, const std::vector<Row> &rows, const std::string &dir, int agg) {
  std::set<std::string> want, names;
  for (auto &r : rows) want.insert("Dataset-" + r.region + ".yaml"), names.insert(r.region);
  auto got = datasets(dir);
  std::string s;
  for (auto &f : got) s += f + " ";
  c.check(got == want, "datasets", "written: " + s);
  for (auto &n : names) judge(c, dir + "/Dataset-" + n + ".yaml", rows, n, agg);
}

void all_aggs(Ctx &c, const std::vector<Row> &rows, const std::string &input, int version) {
  std::vector<std::string> jobs;
  for (int a = 0; a < 4; a++) {
    mkdirs(fmt("o%d", a));
    jobs.push_back(fmt("o%d\t--agg\t%s\t", a, AGG[a]) + input);
  }
  if (!run_script(c, jobs, version)) return;
  for (int a = 0; a < 4; a++) judge_all(c, rows, fmt("o%d", a), a);
  c.validated();
}

// All small traces of one region.
void tables(Ctx &c, int L, const std::vector<double> &times) {
  int version = 1 + c.choose(2, "pandas");
  int n = 1 + c.choose(L, "rows");
  std::vector<Row> rows;
  u64 h = version;
  for (int i = 0; i < n; i++) {
    double f = c.choose(2, "feature") ? 1.5 : -2;
    int p = c.choose(2, "policy");
    double t = c.pick(times, "time");
    rows.push_back({"r", {f}, p, t});
    h = mix(h, (u64)(f * 100 + p * 10 + t * 1000));
  }
  write_file("trace-Static-region-r-rank-0.csv", trace_text(rows, 1));
  all_aggs(c, rows, "--tracefiles\t../trace-Static-region-r-rank-0.csv", version);
  c.state(h);
}

// Regions of all arities in separate files, in every order.
void arities(Ctx &c, int R, int A) {
  int version = 1 + c.choose(2, "pandas");
  std::vector<std::string> files;
  std::vector<Row> rows;
  u64 h = version;
  const char *name[] = {"x", "y", "z"};
  for (int r = 0; r < R; r++) {
    int a = 1 + c.choose(A, "arity");
    h = mix(h, a);
    for (int p = 0; p < 2; p++) {
      std::vector<Row> mine;
      for (int i = 0; i < 2; i++) {
        std::vector<double> f;
        for (int k = 0; k < a; k++) f.push_back(10 * r + i + 0.25 * k);
        mine.push_back({name[r], f, p, 1.0 + (i == p) + r});
      }
      std::string fn = fmt("trace-Static,policy=%d-region-%s-rank-0.csv", p, name[r]);
      write_file(fn, trace_text(mine, a));
      files.push_back(fn);
      rows.insert(rows.end(), mine.begin(), mine.end());
    }
  }
  std::string in = "--tracefiles";
  bool dir = c.flip("directory");
  if (dir)
    in = "--tracedirs\t..";
  else
    while (!files.empty()) {
      int k = c.choose((int)files.size(), "next");
      in += "\t../" + files[k];
      files.erase(files.begin() + k);
      h = mix(h, k);
    }
  all_aggs(c, rows, in, version);
  c.state(h);
}

// Many features and many measurements.
void sizes(Ctx &c) {
  int version = 1 + c.choose(2, "pandas");
  int a = c.pick(std::vector<int>{1, 4, 10, 11, 12}, "features"), n = c.pick(std::vector<int>{2, 30, 130}, "feature vectors"), P = 2 + c.choose(2, "policies");
  if (a > 1 && n > 30) return;
  std::vector<Row> rows;
  for (int i = 0; i < n; i++)
    for (int p = 0; p < P; p++) {
      std::vector<double> f(a, 1.0);
      f[a - 1] = i;
      if (a > 10) f[1] = 7 * (i % 3);
      rows.push_back({"r", f, p, 1.0 + (i + p) % P});
    }
  write_file("trace-Static-region-r-rank-0.csv", trace_text(rows, a));
  all_aggs(c, rows, "--tracefiles\t../trace-Static-region-r-rank-0.csv", version);
  c.state(mix(mix(a, n), P * 2 + version));
}

// The same executions in several runs all count.
void repeats(Ctx &c) {
  int version = 1 + c.choose(2, "pandas");
  int D = 1 + c.choose(3, "runs");
  int where = c.choose(3, "files");  // directories, files of directories, files of ranks
  std::vector<Row> rows;
  u64 h = mix(version, where);
  std::string in = where == 0 ? "--tracedirs" : "--tracefiles";
  const Row A{"r", {1}, 0, 1}, B{"r", {1}, 0, 4}, C{"r", {1}, 1, 2}, E{"r", {2}, 0, 1};
  const std::vector<std::vector<Row>> menu{{A, C}, {A, B, C}, {A, A, B}, {B, C, E, E}};
  for (int d = 0; d < D; d++) {
    int k = c.choose((int)menu.size(), "executions");
    h = mix(h, k);
    std::string dir = where == 2 ? "all" : fmt("run%d", d), fn = fmt("trace-Static-region-r-rank-%d.csv", where == 2 ? d : 0);
    mkdirs(dir);
    write_file(dir + "/" + fn, trace_text(menu[k], 1));
    in += "\t../" + dir + (where ? "/" + fn : "");
    rows.insert(rows.end(), menu[k].begin(), menu[k].end());
  }
  all_aggs(c, rows, in, version);
  c.state(h);
}

// Names of regions, and traces without executions.
void names(Ctx &c) {
  int version = 1 + c.choose(2, "pandas");
  const char *n[] = {"r", "123", "007", "1e5", "-5", "a.b", "a-region-b", "x,y", "f0", "policy"};
  std::string name = c.pick(std::vector<std::string>(n, n + 10), "name");
  std::vector<Row> rows{{name, {1}, 0, 2}, {name, {1}, 1, 1}, {name, {3}, 1, 0.5}};
  int empty = c.choose(4, "empty");
  std::string fn = "trace-RoundRobin-region-" + name + "-rank-0.csv", in = "--tracefiles";
  write_file(fn, trace_text(rows, 1));
  if (empty == 1 || empty == 3) {
    write_file("trace-RoundRobin-region-e-rank-0.csv", "");
    in += "\t../trace-RoundRobin-region-e-rank-0.csv";
  }
  if (empty >= 2) {
    write_file("trace-RoundRobin-region-h-rank-0.csv", trace_text({}, 2));
    in += "\t../trace-RoundRobin-region-h-rank-0.csv";
  }
  in += "\t../" + fn;
  if (c.flip("directory")) in = "--tracedirs\t..";
  all_aggs(c, rows, in, version);
  c.state(hash_str(name + fmt("%d%d", empty, version)));
}

// From executions to a model: traces of the real library, datasets from them,
// a region that starts with the datasets and is trained.
void pipeline(Ctx &c) {
  int version = 1 + c.choose(2, "pandas"), P = 2 + c.choose(2, "policies"), agg = c.choose(4, "aggregation");
  bool two = c.flip("directories"), rr = c.flip("cyclic");
  int best[2][2];
  for (int i = 0; i < 2; i++) best[0][i] = c.choose(P, "best"), best[1][i] = thorough ? c.choose(P, "best") : (best[0][i] + 1 + i) % P;
  std::vector<Row> rows;
  std::string in = "--tracedirs";
  for (int p = 0; p < P + rr; p++) {
    Env e{{"TRACE_CSV", "1"}, {"POLICY_MODEL", p < P ? fmt("Static,policy=%d", p) : std::string("RoundRobin")}};
    e["OUTPUT_DIR"] = two ? fmt("run%d", p) : "runs";
    World w(e);
    auto *x = new Apollo::Region(1, "x", P);
    auto *y = new Apollo::Region(2, "y", P);
    for (int i = 0; i < 2 * P; i++) {
      Feat f{(float)(i % 2)}, g{(float)(i % 2), 7.f};
      int q;
      for (auto *r : {x, y}) {
        int k = r == y;
        r->begin();
        for (float v : k ? g : f) r->setFeature(v);
        q = r->getPolicyIndex();
        double t = 1.0 + (q == best[k][i % 2] ? 0 : 1 + q);
        r->end(t);
        std::vector<double> fs{(double)(i % 2)};
        if (k) fs.push_back(7);
        rows.push_back({k ? "y" : "x", fs, q, t});
        c.step();
      }
    }
    if (two || p == 0) in += "\t../" + e["OUTPUT_DIR"] + "/traces";
  }
  mkdirs("o");
  if (!run_script(c, {fmt("o\t--agg\t%s\t", AGG[agg]) + in}, version)) return;
  judge_all(c, rows, "o", agg);
  mkdirs(".apollo");
  mkdirs(".apollo/datasets");
  for (auto *n : {"x", "y"}) write_file(fmt(".apollo/datasets/Dataset-%s.yaml", n), read_file(fmt("o/Dataset-%s.yaml", n)));
  World w({{"PERSISTENT_DATASETS", "1"}});
  for (int k = 0; k < 2; k++) {
    auto *r = new Apollo::Region(k + 1, k ? "y" : "x", P, 0, "DecisionTree,max_depth=3");
    r->train(0);
    for (int i = 0; i < 2; i++) {
      Feat f{(float)i};
      if (k) f.push_back(7);
      int q = query(r, f);
      c.check(q == best[k][i], "model", fmt("region %d, feature %d: selected %d, the best is %d", k, i, q, best[k][i]));
    }
  }
  c.state(mix(mix(mix(P, agg), mix(two, rr)), hash_str(fmt("%d%d%d%d%d", best[0][0], best[0][1], best[1][0], best[1][1], version))));
  c.validated();
}
}  // namespace

namespace {
// Numbers of many digits, policies of several digits.
void digits(Ctx &c) {
  int version = 1 + c.choose(2, "pandas");
  const std::vector<double> fs{0.1234567, 16777216, -1e-7, 123456.7, 3.0000002};
  const std::vector<double> ts{0.123456789012, 1e-9, 1234567.875, 0.1234567890121};
  double a = c.pick(fs, "feature"), b = c.pick(fs, "feature");
  double t = c.pick(ts, "time"), u = c.pick(ts, "time");
  int p = c.pick(std::vector<int>{0, 12, 300}, "policy");
  std::vector<Row> rows{{"r", {a, 1}, p, t}, {"r", {b, 1}, p + 1, u}, {"r", {a, 1}, p, u}};
  write_file("trace-Static-region-r-rank-0.csv", trace_text(rows, 2));
  all_aggs(c, rows, "--tracefiles\t../trace-Static-region-r-rank-0.csv", version);
  c.state(hash_str(trace_text(rows, 2)));
}
}  // namespace

void mc::scenarios(std::vector<Scenario> &out) {
  bool T = thorough;
  out.push_back({"tables", [=](Ctx &c) { tables(c, T ? 4 : 3, T ? std::vector<double>{0, 1, 3} : std::vector<double>{1, 3}); }});
  out.push_back({"arities", [=](Ctx &c) { arities(c, 2, 3); }});
  if (T) out.push_back({"arities-3", [=](Ctx &c) { arities(c, 3, 2); }});
  out.push_back({"names", names});
  out.push_back({"sizes", sizes});
  out.push_back({"repeats", repeats});
  out.push_back({"pipeline", pipeline});
  out.push_back({"digits", digits});
}
