// C30: the reports on an exhaustive experiment, and the lists of optimal
// policies made from it, are those of exactly the traced executions.
// analyze-traces.py runs as it is over stand-ins for pandas and numpy.
#include <math.h>

#include <regex>

#include "world.h"
using namespace mc;
using namespace w;

namespace {
struct Row {
  int rank;
  std::string training, region;
  int idx;
  std::vector<double> f;
  int policy;
  double t;
};
std::string num(double x) { return fmt("%.17g", x); }
std::string trace_text(const std::vector<Row> &rows, int arity) {
  std::string s = "rankid training region idx";
  for (int i = 0; i < arity; i++) s += fmt(" f%d", i);
  s += " policy xtime\n";
  for (auto &r : rows) {
    s += fmt("%d %s %s %d", r.rank, r.training.c_str(), r.region.c_str(), r.idx);
    for (double x : r.f) s += " " + num(x);
    s += fmt(" %d ", r.policy) + num(r.t) + "\n";
  }
  return s;
}

// Runs the script; false if a stand-in lacks something that it uses.
bool run_script(Ctx &c, const std::string &args, std::string &log, int version) {
  write_file("jobs", ".\t" + args + "\n");
  std::string script = std::string(getenv("VERIF_REPO") ? getenv("VERIF_REPO") : "/repo") + "/src/python/analysis/analyze-traces.py";
  int rc = system((fmt("FAKE_PANDAS=%d PYTHONPATH='" HARNESS_DIR "/fakepd' python3 '" HARNESS_DIR "/fakepd/run.py' '", version) + script + "' jobs >script.log 2>&1").c_str());
  log = read_file("script.log");
  c.check(rc == 0, "script", "the script does not run: " + log.substr(0, 600));
  size_t at = log.rfind("\n@");
  c.check(at != log.npos, "script", "the script ended early: " + log.substr(0, 600));
  std::string l = log.substr(at + 1);
  if (l.compare(0, 3, "@0 ") != 0) {
    static const char *lacks[] = {"fakepd/", "'Series'", "'DataFrame'", "GroupBy'", "'Index'", "'Array'", "module 'pandas'", "module 'numpy'", "module 'IPython'", "unexpected keyword argument", "No module named", "cannot import name"};
    for (auto *x : lacks)
      if ((l.find("AttributeError") != l.npos || l.find("unexpected keyword") != l.npos || l.find("Import") != l.npos || l.find("ModuleNotFound") != l.npos) && l.find(x) != l.npos) {
        c.note("a stand-in lacks: " + l);
        return false;
      }
    c.fail("script", "fails: " + l);
  }
  c.step();
  return true;
}

// All numbers after the place that the pattern matches; how often it does.
int match(const std::string &log, const std::string &re, std::vector<std::string> &g) {
  std::regex r(re);
  int n = 0;
  for (std::sregex_iterator i(log.begin(), log.end(), r), e; i != e; ++i) {
    if (!n)
      for (size_t k = 1; k < i->size(); k++) g.push_back((*i)[k]);
    n++;
  }
  return n;
}
bool near(const std::string &shown, double x, double unit) { return fabs(atof(shown.c_str()) - x) <= unit * 0.51 + 1e-9 * fabs(x); }
const char *NUM = "(-?[0-9.]+)";

struct Exp {
  int P = 1, ranks = 1;
  std::vector<Row> rows;                     // of the fixed policies
  std::map<std::string, std::vector<Row>> other;  // RoundRobin, Random, Optimal
  std::vector<Row> of(int rank) const {
    std::vector<Row> v;
    for (auto &r : rows)
      if (r.rank == rank) v.push_back(r);
    return v;
  }
  // per region and execution: time of each policy
  std::map<std::pair<std::string, int>, std::map<int, double>> table(int rank) const {
    std::map<std::pair<std::string, int>, std::map<int, double>> m;
    for (auto &r : rows)
      if (r.rank == rank) m[{r.region, r.idx}][r.policy] = r.t;
    return m;
  }
};

void judge(Ctx &c, const Exp &x, const std::string &log, const std::string &files, bool lists, const std::vector<std::string> &others) {
  std::set<std::string> want;
  for (int rank = 0; rank < x.ranks; rank++) {
    auto tab = x.table(rank);
    std::vector<double> total(x.P);
    std::vector<int> n(x.P);
    for (auto &r : x.rows)
      if (r.rank == rank) total[r.policy] += r.t, n[r.policy]++;
    double opt = 0;
    std::map<std::pair<std::string, int>, double> best;
    for (auto &e : tab) {
      double b = INFINITY;
      for (auto &p : e.second) b = std::min(b, p.second);
      opt += b;
      best[e.first] = b;
    }
    for (int p = 0; p < x.P; p++) {
      std::vector<std::string> g;
      int k = match(log, fmt("len ([0-9]+) Rank %d Static,%d=", rank, p) + NUM + "/\\S+ xtime " + NUM, g);
      c.check(k == 1, "fixed", fmt("%d reports of policy %d on rank %d: ", k, p, rank) + log);
      c.check(atoi(g[0].c_str()) == n[p] && near(g[1], total[p], 1e-6) && near(g[2], total[p], 1e-6), "fixed", fmt("policy %d on rank %d: reported %s executions, %s; traced %d, %.9g", p, rank, g[0].c_str(), g[1].c_str(), n[p], total[p]));
    }
    std::vector<std::string> g;
    c.check(match(log, fmt("opt-rank-%d xtime ", rank) + NUM, g) == 1 && near(g[0], opt, 1e-6), "optimal", fmt("rank %d: the optimal time is %.9g: ", rank, opt) + log);
    double low = *std::min_element(total.begin(), total.end());
    std::map<std::string, double> times{{"Opt", opt}};
    for (auto &o : others) {
      if (o != "RoundRobin" && o != "Random") continue;
      double t = 0;
      for (auto &r : x.other.at(o))
        if (r.rank == rank) t += r.t;
      times[o] = t;
    }
    // one report per rank, in the order of the ranks
    size_t from = 0;
    for (int k = 0; k <= rank; k++) from = log.find("opt-rank-", from + (k > 0));
    std::string mine = log.substr(from, log.find("opt-rank-", from + 1) - from);
    for (auto &t : times) {
      std::vector<std::string> d, b;
      c.check(match(mine, t.first + " speedup vs defaults \\(Static,0 / " + t.first + "\\): " + NUM, d) == 1 && near(d[0], total[0] / t.second, 1e-3), "speedup", fmt("rank %d, %s against policy 0: %.6g: ", rank, t.first.c_str(), total[0] / t.second) + mine);
      c.check(match(mine, t.first + " speedup vs best static \\(Static,([0-9]+) / " + t.first + "\\): " + NUM, b) == 1, "speedup", mine);
      int k = atoi(b[0].c_str());
      c.check(k >= 0 && k < x.P && total[k] <= low * (1 + 1e-12) && near(b[1], low / t.second, 1e-3), "speedup", fmt("rank %d, %s against the best policy: %.6g: ", rank, t.first.c_str(), low / t.second) + mine);
    }
    for (auto &o : others) {
      std::string trained = o == "Optimal" ? "Optimal" : "DecisionTree";
      double t0 = 0, t1 = 0;
      int k = 0, rows = 0, strict = 0, relaxed = 0;
      for (auto &r : x.other.at(o)) {
        if (r.rank != rank) continue;
        k++;
        if (r.training == o) t0 += r.t;
        else t1 += r.t;
        if (r.training != trained) continue;
        rows++;
        double b = best.at({r.region, r.idx});
        if (tab.at({r.region, r.idx}).at(r.policy) == b) strict++, relaxed++;
        else if (fabs(b - r.t) * 100.0 / b <= 10.0) relaxed++;
      }
      std::vector<std::string> g, a, l;
      c.check(match(log, fmt("len ([0-9]+) Rank %d ", rank) + o + "=" + NUM + "/\\w+=" + NUM + " xtime " + NUM, g) == 1, "time", o + ": " + log);
      c.check(atoi(g[0].c_str()) == k && near(g[1], t0, 1e-6) && near(g[2], t1, 1e-6) && near(g[3], t0 + t1, 1e-6), "time", fmt("%s on rank %d: %d executions, %.9g exploring and %.9g trained: ", o.c_str(), rank, k, t0, t1) + log);
      c.check(match(mine, fmt("Rank %d ", rank) + o + "\\|" + trained + " accuracy " + NUM + "%", a) == 1 && near(a[0], strict * 100.0 / rows, 1e-2), "accuracy", fmt("%s on rank %d: %d of %d optimal: ", o.c_str(), rank, strict, rows) + mine);
      c.check(match(mine, fmt("Rank %d ", rank) + o + "\\|" + trained + " relaxed accuracy " + NUM + "%", l) == 1 && near(l[0], relaxed * 100.0 / rows, 1e-2), "relaxed", fmt("%s on rank %d: %d of %d nearly optimal: ", o.c_str(), rank, relaxed, rows) + mine);
    }
    if (lists) {
      std::map<std::string, std::vector<std::pair<int, std::map<int, double>>>> byreg;
      for (auto &e : tab) byreg[e.first.first].push_back({e.first.second, e.second});
      for (auto &e : byreg) {
        std::string f = "opt-" + e.first + fmt("-rank-%d.txt", rank);
        want.insert(f);
        c.check(exists(files + "/" + f), "list", "no list " + f);
        std::string text = read_file(files + "/" + f), t = text;
        std::vector<int> ps;
        for (char &ch : t)
          if (ch == ',') ch = ' ';
        std::istringstream is(t);
        for (int p; is >> p;) ps.push_back(p);
        c.check(is.eof() && ps.size() == e.second.size(), "list", f + ": " + text + fmt(" for %zu executions", e.second.size()));
        std::sort(e.second.begin(), e.second.end());
        for (size_t i = 0; i < ps.size(); i++) {
          auto &m = e.second[i].second;
          c.check(m.count(ps[i]) && m[ps[i]] == best[{e.first, e.second[i].first}], "list", f + ": " + text + fmt(": execution %zu", i));
        }
      }
    }
  }
  std::set<std::string> got;
  for (auto &f : tree(files))
    if (f.compare(0, 4, "opt-") == 0) got.insert(f);
  c.check(got == want, "lists", fmt("%zu lists, expected %zu", got.size(), want.size()));
  c.validated();
}

void write_fixed(const Exp &x, const std::string &dir) {
  std::map<std::string, std::vector<Row>> files;
  for (auto &r : x.rows) files[fmt("trace-Static,policy=%d-region-", r.policy) + r.region + fmt("-rank-%d.csv", r.rank)].push_back(r);
  for (auto &f : files) write_file(dir + "/" + f.first, trace_text(f.second, (int)f.second[0].f.size()));
}
void write_other(const Exp &x, const std::string &dir) {
  std::map<std::string, std::vector<Row>> files;
  for (auto &o : x.other)
    for (auto &r : o.second) files["trace-" + std::string(o.first == "Optimal" ? "" : "DecisionTree,explore=") + o.first + "-region-" + r.region + fmt("-rank-%d.csv", r.rank)].push_back(r);
  for (auto &f : files) write_file(dir + "/" + f.first, trace_text(f.second, (int)f.second[0].f.size()));
}
std::string args(const Exp &x, const std::string &dir) { return fmt("--nstatic\t%d\t--nranks\t%d\t--dir\t", x.P, x.ranks) + dir; }

// All tables of times.
void tables(Ctx &c) {
  struct Shape {
    int P, regions, n, ranks;
  };
  Shape s = c.pick(thorough ? std::vector<Shape>{{2, 1, 2, 1}, {3, 1, 1, 1}, {2, 2, 1, 1}, {2, 1, 1, 2}, {1, 2, 1, 2}, {3, 1, 2, 1}, {2, 1, 3, 1}} : std::vector<Shape>{{2, 1, 2, 1}, {3, 1, 1, 1}, {2, 2, 1, 1}, {2, 1, 1, 2}, {1, 2, 1, 2}}, "shape");
  int version = 1 + c.choose(thorough ? 2 : 1, "pandas");
  bool lists = s.regions == 2 || c.flip("lists");
  const std::vector<double> times = thorough ? std::vector<double>{1, 2.5, 0.125, 10} : std::vector<double>{1, 2.5, 0.125};
  Exp x;
  x.P = s.P;
  x.ranks = s.ranks;
  const char *name[] = {"r", "another.region"};
  for (int k = 0; k < s.ranks; k++)
    for (int r = 0; r < s.regions; r++)
      for (int i = 0; i < s.n; i++)
        for (int p = 0; p < s.P; p++) x.rows.push_back({k, fmt("Static,%d", p), name[r], i, r ? std::vector<double>{1, 2} : std::vector<double>{7.5}, p, c.pick(times, "time")});
  mkdirs("t");
  write_fixed(x, "t");
  std::string log;
  if (!run_script(c, args(x, "t") + (lists ? "\t--write-opt" : ""), log, version)) return;
  judge(c, x, log, ".", lists, {});
  u64 h = lists;
  for (auto &r : x.rows) h = mix(h, (u64)(r.t * 1000));
  c.state(h);
  c.obs(h);
}

// Learning and replaying runs next to the fixed policies.
void learning(Ctx &c) {
  std::string kind = c.pick(std::vector<std::string>{"RoundRobin", "Random", "Optimal"}, "run");
  int ranks = 1 + c.choose(thorough ? 2 : 1, "ranks");
  Exp x;
  x.P = 2;
  x.ranks = ranks;
  const double fixed[3][2] = {{2, 1}, {1, 8}, {4, 4.2}};
  for (int k = 0; k < ranks; k++)
    for (int i = 0; i < 3; i++)
      for (int p = 0; p < 2; p++) x.rows.push_back({k, fmt("Static,%d", p), "r", i, {(double)i}, p, fixed[i][p] * (1 + k)});
  for (int k = 0; k < ranks; k++) {
    int trained = 0;
    for (int i = 0; i < 3; i++) {
      bool t = kind == "Optimal" || c.flip("trained");
      if (i == 2 && !trained) t = true;  // something to judge
      trained += t;
      int p = k ? i % 2 : c.choose(2, "policy");
      double f = k ? 1.5 : kind == "Random" && !thorough ? 1.03 : c.pick(std::vector<double>{1, 1.03, 2}, "factor");
      x.other[kind].push_back({k, kind == "Optimal" ? kind : t ? "DecisionTree" : kind, "r", i, {(double)i}, p, fixed[i][p] * f * (1 + k)});
    }
  }
  mkdirs("t");
  write_fixed(x, "t");
  write_other(x, "t");
  std::string log;
  if (!run_script(c, args(x, "t") + (kind == "RoundRobin" ? "\t--rr" : kind == "Random" ? "\t--random" : "\t--opt"), log, 2)) return;
  judge(c, x, log, ".", false, {kind});
  u64 h = hash_str(kind);
  for (auto &r : x.other[kind]) h = mix(h, (u64)(r.t * 1000) * 4 + r.policy * 2 + (r.training[0] == 'D'));
  c.state(h);
  c.obs(h);
}

// Many executions, policies, regions and ranks; names.
void wide(Ctx &c) {
  int P = c.pick(std::vector<int>{2, 12, 25}, "policies"), n = c.pick(std::vector<int>{1, 11, 120}, "executions"), ranks = c.pick(std::vector<int>{1, 3, 11}, "ranks"), pat = c.choose(3, "pattern");
  std::string name = P != 2 || n != 11 || ranks == 11 ? "r" : c.pick(std::vector<std::string>{"r", "123", "007", "1e5", "a-region-b", "x,y", "policy"}, "name");
  if (P * n * ranks > 3500) return;
  Exp x;
  x.P = P;
  x.ranks = ranks;
  for (int k = 0; k < ranks; k++)
    for (int r = 0; r < 2; r++)
      for (int i = 0; i < n - r * (n > 1); i++)
        for (int p = 0; p < P; p++) x.rows.push_back({k, fmt("Static,%d", p), r ? "z" : name, i, {(double)i, 1.5}, p, 1 + (pat == 0 ? (p + i + k + r) % P : pat == 1 ? (p + P - i % P) % P * 0.25 : (double)((i * 7 + p * 3 + k) % 11) + p * 1e-7)});
  mkdirs("t");
  write_fixed(x, "t");
  std::string log;
  if (!run_script(c, args(x, "t") + "\t--write-opt", log, 2)) return;
  judge(c, x, log, ".", true, {});
  c.state(hash_str(name + fmt(" %d %d %d %d", P, n, ranks, pat)));
  c.obs(pat);
}

// Ranks with different regions, regions with different numbers of policies,
// runs at the margin of nearly optimal, and traces of more policies than asked
// for.
void ragged(Ctx &c) {
  int sets = c.choose(4, "regions of the ranks"), more = c.choose(3, "more policies"), margin = c.choose(3, "margin");
  std::string kind = c.pick(std::vector<std::string>{"RoundRobin", "Random", "Optimal"}, "run");
  static const std::vector<std::vector<std::vector<std::string>>> S{{{"r"}, {"r", "s"}}, {{"r", "s"}, {"s"}}, {{"r"}, {"s"}, {"r", "t"}}, {{"t", "s", "r"}, {"r"}, {"q", "s"}}};
  Exp x;
  x.P = 2;
  x.ranks = (int)S[sets].size();
  const double m[] = {11, 10.9375, 11.0625};
  for (int k = 0; k < x.ranks; k++)
    for (auto &r : S[sets][k]) {
      bool few = r == "s";  // only policy 0
      for (int i = 0; i < 3; i++) {
        int b = few ? 0 : (i + k) % 2;
        for (int p = 0; p < (few ? 1 : 2); p++) x.rows.push_back({k, fmt("Static,%d", p), r, i, {(double)i}, p, p == b ? 10.0 : 20.0 + p});
        bool t = kind == "Optimal" || i;
        int p = few ? 0 : i == 1 ? b : 1 - b;
        x.other[kind].push_back({k, kind == "Optimal" ? kind : t ? "DecisionTree" : kind, r, i, {(double)i}, p, m[margin]});
      }
    }
  mkdirs("t");
  write_fixed(x, "t");
  write_other(x, "t");
  if (more) {
    Exp y;
    for (int p : more == 1 ? std::vector<int>{2, 3} : std::vector<int>{10, 11, 20, 100})
      for (int i = 0; i < 3; i++) y.rows.push_back({0, fmt("Static,%d", p), "r", i, {(double)i}, p, 1.0});
    write_fixed(y, "t");
  }
  std::string log;
  if (!run_script(c, args(x, "t") + "	--write-opt" + (kind == "RoundRobin" ? "	--rr" : kind == "Random" ? "	--random" : "	--opt"), log, 2)) return;
  judge(c, x, log, ".", true, {kind});
  c.state(mix(mix(sets, more), mix(margin, hash_str(kind))));
  c.obs(mix(sets, margin));
}

// From executions to a replay: traces of the real library, lists from them, a
// run that follows the lists, and the report on that run.
void pipeline(Ctx &c) {
  int P = 2 + c.choose(2, "policies"), n = 3;
  std::vector<int> best;
  for (int i = 0; i < n; i++) best.push_back(c.choose(P, "best"));
  int shift = c.choose(P, "other region");
  auto cost = [&](int k, int i, int p) { return p == (best[i] + k * shift) % P ? 1.0 + i : 4.0 + p; };
  Exp x;
  x.P = P;
  auto go = [&](const std::string &model, std::vector<Row> &rows, int fixed) {
    World w({{"TRACE_CSV", "1"}, {"POLICY_MODEL", model}});
    Apollo::Region *r[2] = {new Apollo::Region(1, "x", P), new Apollo::Region(2, "y", P)};
    for (int i = 0; i < n; i++)
      for (int k = 0; k < 2; k++) {
        Feat f{(float)i};
        if (k) f.push_back(7);
        auto *ctx = r[k]->begin(f);
        int p = r[k]->getPolicyIndex(ctx);
        r[k]->end(ctx, cost(k, i, p));
        c.step();
        if (fixed < 0) c.check(p == (best[i] + k * shift) % P, "replay", fmt("execution %d of region %d follows the list with %d, the fastest is %d", i, k, p, (best[i] + k * shift) % P));
        rows.push_back({0, fixed >= 0 ? fmt("Static,%d", fixed) : "Optimal", k ? "y" : "x", i, {}, p, cost(k, i, p)});
      }
  };
  for (int p = 0; p < P; p++) go(fmt("Static,policy=%d", p), x.rows, p);
  std::string log;
  if (!run_script(c, args(x, ".apollo/traces") + "\t--write-opt", log, 2)) return;
  judge(c, x, log, ".", true, {});
  go("Optimal", x.other["Optimal"], -1);
  for (auto *f : {"opt-x-rank-0.txt", "opt-y-rank-0.txt"}) remove(f);
  if (!run_script(c, args(x, ".apollo/traces") + "\t--opt", log, 2)) return;
  judge(c, x, log, ".", false, {"Optimal"});
  u64 h = mix(P, shift);
  for (int b : best) h = mix(h, b);
  c.state(h);
  c.obs(h);
}
}  // namespace

void mc::scenarios(std::vector<Scenario> &out) {
  out.push_back({"tables", tables});
  out.push_back({"learning", learning});
  out.push_back({"wide", wide});
  out.push_back({"ragged", ragged});
  out.push_back({"pipeline", pipeline});
}
