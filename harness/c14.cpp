// C14: collective training uses the measurements of all ranks. All ranks
// enumerate the same choices in lock-step; each knows what every rank measured
// and compares its own datasets and models with the reference merge.
// Run by c14.py under mpirun.
#include <mpi.h>
#include <sys/stat.h>
#include <unistd.h>

#include "world.h"
using namespace mc;
using namespace w;

// The runtime's communicator is the world itself: restarts need not leak one
// communicator each.
extern "C" int MPI_Comm_dup(MPI_Comm c, MPI_Comm *out) {
  *out = c;
  return MPI_SUCCESS;
}

bool big = false;
void mc::scenarios(std::vector<Scenario> &) {}

namespace {
int rank_, n_;
// ---- lock-step odometer
std::vector<int> path, width;
size_t at = 0;
int choose(int n) {
  if (at == path.size()) {
    path.push_back(0);
    width.push_back(n);
  }
  return path[at++];
}
bool flip() { return choose(2) == 1; }
bool next() {
  while (!path.empty()) {
    if (++path.back() < width.back()) return true;
    path.pop_back();
    width.pop_back();
  }
  return false;
}
std::string scenario, result_file;
long execs = 0, checks = 0;
std::set<u64> states;
std::string choices() {
  std::string s;
  for (size_t i = 0; i < at; i++) s += (i ? "," : "") + std::to_string(path[i]);
  return s;
}
[[noreturn]] void violated(const std::string &msg) {
  std::ofstream o(result_file + ".violation");
  o << scenario << "\n" << choices() << "\nrank " << rank_ << " of " << n_ << ": " << msg << "\n";
  o.close();
  _exit(9);
}
void check(bool ok, const std::string &msg) {
  checks++;
  if (!ok) violated(msg);
}

using Entry = std::tuple<Feat, int, double>;
using Data = std::vector<Entry>;
struct Reg {
  std::string name;
  int F, P;
};
const std::string LONG = "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz0123456789X";
struct Job {
  std::vector<Reg> regs;
  std::vector<std::set<int>> known;            // by rank: the regions it has
  std::vector<std::map<int, RefData>> data;    // by rank and region
  std::string info = "DecisionTree,max_depth=99";
  bool single = false;
  Job(std::vector<Reg> r) : regs(r), known(n_), data(n_) {}

  // The reference of one training step.
  void merge() {
    auto snap = data;
    for (int r = 0; r < n_; r++)
      for (int k : known[r])
        for (int q = 0; q < n_; q++)
          if (q != r && known[q].count(k)) data[r][k].merge(snap[q][k]);
  }
  u64 hash() {
    u64 h = 0;
    for (int r = 0; r < n_; r++)
      for (auto &e : data[r]) h = mix(mix(h, e.first * 8 + r), e.second.hash());
    return h;
  }
};

struct Live {
  Job &j;
  World w;
  std::map<int, Apollo::Region *> r;
  std::map<int, bool> trained;
  static Env env(const Job &j, Env e) {
    e["COLLECTIVE_TRAINING"] = "1";
    e["LOCAL_TRAINING"] = "0";
    if (j.single) e["SINGLE_MODEL"] = "1", e["REGION_MODEL"] = "0";
    return e;
  }
  Live(Job &j, Env e = {}, bool reversed = false) : j(j), w(env(j, e)) {
    std::vector<int> ks(j.known[rank_].begin(), j.known[rank_].end());
    if (reversed) std::reverse(ks.begin(), ks.end());
    for (int k : ks) r[k] = new Apollo::Region(j.regs[k].F, j.regs[k].name.c_str(), j.regs[k].P, 0, j.info);
    for (auto &e : j.data[rank_])
      if (r.count(e.first))
        for (auto &x : e.second.d) {
          Feat f = x.first.first;
          r[e.first]->dataset.insert(f, x.first.second, x.second);
        }
  }
  void compare(const std::string &when, bool models = true) {
    for (auto &e : r) {
      RefData &ref = j.data[rank_][e.first];
      std::string d = diff_tol(ref, e.second->dataset, 1e-12);
      check(d.empty(), when + ", region " + j.regs[e.first].name + ": " + d);
    }
    if (models) {
      RefData all;
      for (auto &e : j.data[rank_])
        if (r.count(e.first)) all.merge(e.second);
      for (auto &e : r) {
        RefData &ref = j.single ? all : j.data[rank_][e.first];
        if (!trained[e.first]) {
          bool has = !ref.d.empty();
          check(e.second->model->isTrainable() != has, when + ", region " + j.regs[e.first].name + (has ? " is not trained" : " was trained on nothing"));
          trained[e.first] = has;
          if (!has) continue;
        } else if (!j.single) continue;
        auto best = ref.best();
        for (auto &b : best) {
          Feat f = b.first;
          int p = e.second->model->getIndex(f);
          check(p == b.second, when + fmt(", region %s: %s selects %d, best is %d", j.regs[e.first].name.c_str(), str(f).c_str(), p, b.second));
        }
        if (j.regs[e.first].F == 1 && j.single == false)
          for (float x : {-3.f, 0.25f, 0.75f, 1.25f, 1.75f, 40.f}) {
            Feat f{x};
            int p = e.second->model->getIndex(f);
            check(p == nearest(best, x), when + fmt(", region %s: %s selects %d, expected %d", j.regs[e.first].name.c_str(), str(f).c_str(), p, nearest(best, x)));
          }
      }
    }
    states.insert(j.hash());
  }
};

RefData make(const Data &d) {
  RefData r;
  for (auto &e : d) r.insert(std::get<0>(e), std::get<1>(e), std::get<2>(e));
  return r;
}
Feat fv(int F, int v) {
  Feat f;
  for (int i = 0; i < F; i++) f.push_back((float)(v * (i + 1) + i));
  return f;
}
// Small datasets; the metrics depend on the rank, so that mix-ups show.
RefData menu(int F, int P, int rank, int i) {
  double m = 1 + rank * 0.125;
  std::vector<Data> all{
      {},
      {{fv(F, 0), 0, m}},
      {{fv(F, 0), 1, rank % 2 ? 0.0 : -m}},
      {{fv(F, 0), 0, m}, {fv(F, 1), 1, m + 1}},
      {{fv(F, 1), 0, 3 - m}, {fv(F, 1), 1, m}, {fv(F, 2), 0, 1e-300 * m}},
      {{fv(F, rank), 0, 5}, {fv(F, rank), 1, 4}, {fv(F, rank + 1), P - 1, m}},
      {{fv(F, 2), P - 1, 1e300}, {fv(F, 0), 0, m / 3}},
      {{fv(F, -7), 0, m}, {fv(F, 5), 1, m}, {fv(F, 6), 0, m}, {fv(F, 7), 1, m}, {fv(F, 8), 0, m}},
  };
  return make(all[i]);
}
const int MENU = 8;

// Everything on one region.
void one_region() {
  int F = 1 + choose(2);
  Job j({{flip() ? LONG : "r", F, 3}});
  int menu_n = n_ <= 2 ? MENU : n_ == 3 ? MENU : (big ? MENU : 4);
  for (int r = 0; r < n_; r++) {
    j.known[r] = {0};
    j.data[r][0] = menu(F, 3, r, choose(menu_n));
  }
  Live l(j);
  l.w->train(1);
  j.merge();
  l.compare("after training");
}

// Two regions that not all ranks know, created in different orders.
void two_regions() {
  Job j({{"ab", 1, 3}, {"a", 2, 2}});
  int m = n_ == 2 ? MENU : big && n_ == 3 ? 3 : 2;
  bool rev = flip();
  for (int r = 0; r < n_; r++) {
    int k = choose(4);  // both, first, second, none
    if (k == 0 || k == 1) j.known[r].insert(0), j.data[r][0] = menu(1, 3, r, choose(m) * (n_ == 2 ? 1 : 3 - (m == 3)));
    if (k == 0 || k == 2) j.known[r].insert(1), j.data[r][1] = menu(2, 2, r, choose(m) * (n_ == 2 ? 1 : 3 - (m == 3)));
  }
  Live l(j, {}, rev && rank_ % 2);
  l.w->train(1);
  j.merge();
  l.compare("after training");
}

// Very different amounts and widths of measurements.
void sizes() {
  int F = choose(4) * 2;  // 0, 2, 4, 6
  Job j({{"x", F, 40}, {"y", 1, 2}});
  j.info = "DecisionTree,max_depth=9999";
  std::vector<int> amounts{0, 1, 13, 120, 1500};
  for (int r = 0; r < n_; r++) {
    j.known[r] = {0, 1};
    int n = amounts[choose(n_ == 2 ? F == 2 ? 5 : 4 : big ? 4 : 3)];
    RefData d;
    for (int i = 0; i < n; i++) {
      Feat f = fv(F, i / 3 + r);
      for (size_t q = 0; q < f.size(); q++) f[q] = q % 2 ? std::nextafter(f[q], 1e9f) : f[q] * 1e6f - 0.1f;
      d.insert(f, (i * 7 + r) % 40, 1.0 / (3 + i + r));
    }
    j.data[r][0] = d;
    if (n == 1) j.data[r][1].insert({(float)r}, r % 2, 1);
  }
  Live l(j);
  l.w->train(1);
  j.merge();
  l.compare("after training", F != 0);
}

// Several steps, with executions in between, explicit or by the period.
void steps() {
  Job j({{"s", 1, 2}, {"t", 1, 2}});
  j.info = choose(2) ? "PolicyNet" : "DecisionTree,max_depth=99";
  bool net = j.info == "PolicyNet";
  bool period = flip();
  for (int r = 0; r < n_; r++) j.known[r] = {0, 1};
  set_random({11});
  Env e;
  if (period) e["GLOBAL_TRAIN_PERIOD"] = "2";
  Live l(j, e);
  std::vector<std::map<int, int>> nextp(n_);  // exploration of each rank
  bool frozen = false;
  int total = 0;
  for (int s = 0; s < (big && n_ == 1 ? 3 : 2); s++) {
    for (int i = 0; i < 2; i++) {
      // every rank executes one region once
      for (int r = 0; r < n_; r++) {
        int k = n_ == 2 || r < 2 ? choose(2) : s % 2;
        int v = (n_ == 2 && big) || r == 0 ? choose(2) : i;
        double m = 1 + r + 0.25 * s + 0.5 * i;
        if (r == rank_) {
          Feat f{(float)(v + 1)};
          auto *x = l.r[k]->begin(f);
          int p = l.r[k]->getPolicyIndex(x);
          if (!net && !frozen) check(p == nextp[r][k] % 2, fmt("exploration of rank %d selects %d", r, p));
          // the network's selections are unknown to the other ranks
          if (net) x->policy = nextp[r][k] % 2;
          // the last one may trigger the training: the reference goes first
          if (net || !frozen) j.data[r][k].insert(f, nextp[r][k] % 2, m);
          l.r[k]->end(x, m);
        } else if (net || !frozen)
          j.data[r][k].insert({(float)(v + 1)}, nextp[r][k] % 2, m);
        nextp[r][k]++;
      }
      total++;
      if (period && total % 2 == 0 && (net || !frozen)) {
        j.merge();
        if (!net) {
          // a region is frozen once it has data; both regions have some rank's
          std::set<int> has;
          for (auto &e : j.data[rank_])
            if (!e.second.d.empty()) has.insert(e.first);
          frozen = true;
          if (has.size() < 2) {  // the other region is still untrained: stop here
            l.compare("after the first period", true);
            return;
          }
        }
      }
    }
    if (!period) {
      l.w->train(s);
      j.merge();
      if (!net) {
        for (auto &e : j.data[rank_])
          if (e.second.d.empty()) return l.compare("after the first step", true);
        if (j.data[rank_].size() < 2) return l.compare("after the first step", true);
        frozen = true;
      }
    }
    l.compare(fmt("after step %d", s), !net && s == 0);
  }
}

// The report of an exchange lists what every rank sent, on every rank, and
// changes nothing else.
void report() {
  Job j({{"ab", 1, 3}, {"r 2", 2, 2}});
  int m = n_ == 2 ? MENU : n_ == 1 ? MENU : big ? 5 : 3;
  for (int r = 0; r < n_; r++) {
    int k = choose(3);
    if (k != 2) j.known[r].insert(0), j.data[r][0] = menu(1, 3, r, choose(m));
    if (k != 1) j.known[r].insert(1), j.data[r][1] = menu(2, 2, r, n_ == 2 ? choose(3) : 3);
  }
  std::string file = fmt("step-12-rank-%d-allgather.txt", rank_);
  remove(file.c_str());
  bool on = flip();
  // left by an earlier run
  if (on) write_file(file, "0, old, [ 1, ], 0, 7\n");
  Live l(j, on ? Env{{"TRACE_ALLGATHER", "1"}} : Env{});
  l.w->train(12);
  if (!on) check(!exists(file), "an unrequested report");
  else {
    std::multiset<std::string> want, got;
    auto line = [](long rank, const std::string &reg, const std::vector<long> &f, long p, double x) {
      std::string s = fmt("%ld %s", rank, reg.c_str());
      for (long v : f) s += fmt(" %ld", v);
      return s + fmt(" policy %ld metric %.5g", p, x);
    };
    for (int r = 0; r < n_; r++)
      for (int k : j.known[r])
        for (auto &e : j.data[r][k].d) {
          std::vector<long> f;
          for (float v : e.first.first) f.push_back((long)v);
          want.insert(line(r, j.regs[k].name, f, e.first.second, e.second));
        }
    std::istringstream is(read_file(file));
    int heads = 0;
    for (std::string s; std::getline(is, s);) {
      size_t a = s.find('['), b = s.find(']');
      if (s.empty()) continue;
      if (a == s.npos || b == s.npos) {
        heads++;
        continue;
      }
      std::string head = s.substr(0, a), tail = s.substr(b + 1);
      size_t comma = head.find(',');
      long rank = atol(head.c_str());
      std::string reg = head.substr(comma + 1);
      while (!reg.empty() && (reg.back() == ' ' || reg.back() == ',')) reg.pop_back();
      while (!reg.empty() && reg[0] == ' ') reg.erase(0, 1);
      std::vector<long> f;
      std::string t = s.substr(a + 1, b - a - 1);
      for (char &ch : t)
        if (ch == ',') ch = ' ';
      std::istringstream fs(t);
      for (long v; fs >> v;) f.push_back(v);
      for (char &ch : tail)
        if (ch == ',') ch = ' ';
      char *end;
      long p = strtol(tail.c_str(), &end, 10);
      got.insert(line(rank, reg, f, p, strtod(end, nullptr)));
    }
    std::string s;
    for (auto &x : want) s += x + "; ";
    s += " but reported are ";
    for (auto &x : got) s += x + "; ";
    check(want == got && heads == 1, "sent were " + s);
  }
  remove(file.c_str());
  j.merge();
  l.compare("after training");
}

// One model for all regions, learned from all ranks.
void single() {
  Job j({{"u", 1, 3}, {"v", 1, 3}});
  j.single = true;
  for (int r = 0; r < n_; r++) {
    j.known[r] = {0, 1};
    j.data[r][0] = menu(1, 3, r, choose(n_ == 2 ? MENU : n_ == 3 && big ? 5 : 3));
    j.data[r][1] = menu(1, 3, r + 1, choose(n_ == 2 ? MENU : n_ == 3 && big ? 5 : 3));
  }
  Live l(j);
  l.w->train(1);
  j.merge();
  l.compare("after training");
}
}  // namespace

int main(int argc, char **argv) {
  vclock_on = false;
  MPI_Init(&argc, &argv);
  MPI_Comm_rank(MPI_COMM_WORLD, &rank_);
  MPI_Comm_size(MPI_COMM_WORLD, &n_);
  // c14 RESULT-FILE SCRATCH SCENARIO thorough(0|1) [choices]
  result_file = argv[1];
  std::string dir = std::string(argv[2]) + fmt("/rank%d", rank_);
  mkdirs(dir);
  if (chdir(dir.c_str())) _exit(3);
  scenario = argv[3];
  big = argv[4][0] == '1';
  std::map<std::string, void (*)()> all{{"one-region", one_region}, {"two-regions", two_regions}, {"sizes", sizes}, {"steps", steps}, {"single", single}, {"report", report}};
  auto body = all.at(scenario);
  std::vector<std::string> samples;
  if (argc > 5) {
    std::istringstream is(argv[5]);
    for (std::string t; std::getline(is, t, ',');) path.push_back(atoi(t.c_str())), width.push_back(atoi(t.c_str()) + 1);
  }
  std::ofstream beat;
  if (rank_ == 0) beat.open(result_file + ".beat");
  do {
    at = 0;
    try {
      body();
    } catch (std::exception &e) {
      violated(std::string("exception: ") + e.what());
    }
    execs++;
    if (samples.size() < 3) samples.push_back(choices());
    if (rank_ == 0 && execs % 64 == 0) beat << execs << std::endl;
  } while (argc <= 5 && next());
  MPI_Barrier(MPI_COMM_WORLD);
  {
    std::ofstream o(result_file + fmt(".%d", rank_));
    o << execs << " " << checks << " " << states.size() << "\n";
    for (auto &s : samples) o << s << "\n";
  }
  MPI_Finalize();
  fflush(stdout);
  _exit(0);
}
