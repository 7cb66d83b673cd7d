#include "world.h"

#include <dirent.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <cstring>
#include <random>

// The private constructor and the destructor of the runtime, by their ABI
// names: an in-process restart destroys the instance and constructs it anew.
extern "C" void _ZN6ApolloC1Ev(void *);

namespace w {
std::vector<unsigned> random_values{1};
size_t random_pos = 0;
void set_random(std::vector<unsigned> v) {
  random_values = v;
  random_pos = 0;
}
int64_t vclock_ns = 1000000000ll;
bool vclock_on = true;
}  // namespace w

// Interposed environment: the clock of the wall timer...
extern "C" int clock_gettime(clockid_t id, struct timespec *ts) {
  if (w::vclock_on && (id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_RAW)) {
    ts->tv_sec = w::vclock_ns / 1000000000ll;
    ts->tv_nsec = w::vclock_ns % 1000000000ll;
    return 0;
  }
  return syscall(SYS_clock_gettime, id, ts);
}
// ... and the entropy source.
std::random_device::result_type std::random_device::_M_getval() {
  unsigned v = w::random_values[w::random_pos % w::random_values.size()];
  w::random_pos++;
  return v;
}

namespace w {

static bool started = false;

World::World(const Env &env) {
  std::vector<std::string> del;
  for (char **e = environ; *e; e++)
    if (!strncmp(*e, "APOLLO_", 7)) del.push_back(std::string(*e).substr(0, strchr(*e, '=') - *e));
  for (auto &d : del) unsetenv(d.c_str());
  for (auto &e : env) setenv(("APOLLO_" + e.first).c_str(), e.second.c_str(), 1);
  old_err = std::cerr.rdbuf(cap_err.rdbuf());
  old_out = std::cout.rdbuf(cap_out.rdbuf());
  bool first = !started;
  started = true;
  struct Restore {
    World *w;
    bool ok = false;
    ~Restore() {
      if (!ok) {
        std::cerr.rdbuf(w->old_err);
        std::cout.rdbuf(w->old_out);
      }
    }
  } rs{this};
  a = Apollo::instance();  // constructs the first time
  if (!first) _ZN6ApolloC1Ev(a);
  live = true;
  rs.ok = true;
}

std::string World::err() { return cap_err.str(); }

std::string World::end() {
  if (live) {
    live = false;
    a->~Apollo();
    std::cerr.rdbuf(old_err);
    std::cout.rdbuf(old_out);
  }
  return cap_err.str();
}
World::~World() { end(); }

std::string read_file(const std::string &f) {
  std::ifstream i(f, std::ios::binary);
  return std::string((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>());
}
bool exists(const std::string &f) {
  struct stat st;
  return stat(f.c_str(), &st) == 0;
}
void write_file(const std::string &f, const std::string &s) {
  std::ofstream o(f, std::ios::binary | std::ios::trunc);
  o << s;
}
void mkdirs(const std::string &d) {
  for (size_t i = 1; i <= d.size(); i++)
    if (i == d.size() || d[i] == '/') mkdir(d.substr(0, i).c_str(), 0755);
}
static void tree_rec(const std::string &base, const std::string &rel, std::vector<std::string> &out, bool dirs) {
  DIR *d = opendir((base + "/" + rel).c_str());
  if (!d) return;
  while (struct dirent *e = readdir(d)) {
    std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    std::string r = rel.empty() ? n : rel + "/" + n;
    struct stat st;
    if (lstat((base + "/" + r).c_str(), &st) == 0 && S_ISDIR(st.st_mode)) {
      if (dirs) out.push_back(r + "/");
      tree_rec(base, r, out, dirs);
    } else
      out.push_back(r);
  }
  closedir(d);
}
std::vector<std::string> tree(const std::string &d, bool dirs) {
  std::vector<std::string> o;
  tree_rec(d, "", o, dirs);
  std::sort(o.begin(), o.end());
  return o;
}

std::string str(const Feat &f) {
  std::string s = "[";
  for (size_t i = 0; i < f.size(); i++) s += (i ? "," : "") + mc::fmt("%.9g", f[i]);
  return s + "]";
}
uint32_t bits(float f) {
  uint32_t v;
  memcpy(&v, &f, 4);
  return v;
}
uint64_t bits(double d) {
  uint64_t v;
  memcpy(&v, &d, 8);
  return v;
}
mc::u64 hash(const Feat &f) {
  mc::u64 h = f.size();
  for (float x : f) h = mc::mix(h, bits(x));
  return h;
}
mc::u64 RefData::hash() const {
  mc::u64 h = d.size();
  for (auto &e : d) h = mc::mix(mc::mix(mc::mix(h, w::hash(e.first.first)), e.first.second), bits(e.second));
  return h;
}
std::string RefData::str() const {
  std::string s = "{";
  for (auto &e : d) s += " " + w::str(e.first.first) + "/" + std::to_string(e.first.second) + "=" + mc::fmt("%.17g", e.second);
  return s + " }";
}
RefData to_ref(Apollo::Dataset &ds) {
  RefData r;
  for (auto &t : ds.toVectorOfTuples()) r.d[{std::get<0>(t), std::get<1>(t)}] = std::get<2>(t);
  return r;
}
std::string diff(const RefData &ref, Apollo::Dataset &ds) { return diff_tol(ref, ds, -1); }
std::string diff_tol(const RefData &ref, Apollo::Dataset &ds, double tol) {
  auto v = ds.toVectorOfTuples();
  RefData got = to_ref(ds);
  std::string both = "expected " + ref.str() + " got " + got.str();
  if (v.size() != got.d.size()) return "duplicate entries; " + both;
  if (ds.size() != ref.d.size()) return "size " + std::to_string(ds.size()) + "; " + both;
  if (got.d.size() != ref.d.size()) return both;
  auto a = ref.d.begin();
  auto b = got.d.begin();
  for (; a != ref.d.end(); ++a, ++b) {
    if (a->first.first.size() != b->first.first.size() || a->first.second != b->first.second) return both;
    for (size_t i = 0; i < a->first.first.size(); i++)
      if (a->first.first[i] != b->first.first[i]) return both;
    if (tol < 0 ? bits(a->second) != bits(b->second) && a->second != b->second
                : std::fabs(a->second - b->second) > tol * std::max(std::fabs(a->second), std::fabs(b->second)))
      return both;
  }
  return "";
}

// ------------------------------------------------------------------ yaml
namespace {
struct YP {
  const std::string &t;
  size_t i = 0;
  bool ok = true;
  void ws() {
    for (;;) {
      while (i < t.size() && isspace((unsigned char)t[i])) i++;
      if (i < t.size() && t[i] == '#')
        while (i < t.size() && t[i] != '\n') i++;
      else
        return;
    }
  }
  std::string scalar() {
    size_t b = i;
    while (i < t.size() && !isspace((unsigned char)t[i]) && t[i] != ',' && t[i] != ']' && t[i] != '}' && t[i] != '{' &&
           t[i] != '[' && !(t[i] == ':' && (i + 1 >= t.size() || isspace((unsigned char)t[i + 1]))))
      i++;
    return t.substr(b, i - b);
  }
  Y value(int d) {
    Y y;
    ws();
    if (d > 200 || i >= t.size()) {
      ok = false;
      return y;
    }
    if (t[i] == '{') {
      i++;
      y.k = Y::MAP;
      for (;;) {
        ws();
        if (!ok || i >= t.size()) {
          ok = false;
          return y;
        }
        if (t[i] == '}') {
          i++;
          return y;
        }
        if (t[i] == ',') {
          i++;
          continue;
        }
        std::string k = scalar();
        ws();
        if (k.empty() || i >= t.size() || t[i] != ':') {
          ok = false;
          return y;
        }
        i++;
        Y v = value(d + 1);
        y.m.push_back({k, std::move(v)});
      }
    }
    if (t[i] == '[') {
      i++;
      y.k = Y::SEQ;
      for (;;) {
        ws();
        if (!ok || i >= t.size()) {
          ok = false;
          return y;
        }
        if (t[i] == ']') {
          i++;
          return y;
        }
        if (t[i] == ',') {
          i++;
          continue;
        }
        if (t[i] == '{' || t[i] == '[') {
          y.q.push_back(value(d + 1));
          continue;
        }
        std::string k = scalar();
        if (k.empty()) {
          ok = false;
          return y;
        }
        ws();
        if (i < t.size() && t[i] == ':') {  // single pair mapping
          i++;
          Y p;
          p.k = Y::MAP;
          Y v = value(d + 1);
          p.m.push_back({k, std::move(v)});
          y.q.push_back(std::move(p));
        } else {
          Y s;
          s.s = k;
          y.q.push_back(std::move(s));
        }
      }
    }
    y.s = scalar();
    if (y.s.empty()) ok = false;
    return y;
  }
};
}  // namespace

bool yaml(const std::string &text, Y &out) {
  YP p{text};
  out = Y();
  out.k = Y::MAP;
  for (;;) {
    p.ws();
    if (p.i >= text.size()) return p.ok;
    std::string k = p.scalar();
    p.ws();
    if (k.empty() || p.i >= text.size() || text[p.i] != ':') return false;
    p.i++;
    Y v = p.value(0);
    if (!p.ok) return false;
    out.m.push_back({k, std::move(v)});
  }
}

static bool num(const Y *y, double &d) {
  if (!y || y->k != Y::SCALAR) return false;
  char *e;
  d = strtod(y->s.c_str(), &e);
  return *e == 0 && e != y->s.c_str();
}
static bool numf(const Y *y, float &d) {
  if (!y || y->k != Y::SCALAR) return false;
  char *e;
  d = strtof(y->s.c_str(), &e);
  return *e == 0 && e != y->s.c_str();
}

static bool read_node(const Y &y, TNode &n) {
  double a;
  if (!num(y.get("gini"), n.gini)) return false;
  if (!num(y.get("num_samples"), a)) return false;
  n.num_samples = (long)a;
  if (!num(y.get("predicted_class"), a)) return false;
  n.cls = (int)a;
  if (!num(y.get("feature_idx"), a)) return false;
  n.feat = (int)a;
  if (!numf(y.get("threshold"), n.thr)) return false;
  const Y *c = y.get("count_per_class");
  if (!c || c->k != Y::MAP) return false;
  for (auto &e : c->m) {
    if (!num(&e.second, a)) return false;
    n.counts[atoi(e.first.c_str())] = (long)a;
  }
  if (const Y *l = y.get("left")) {
    n.l.reset(new TNode());
    if (!read_node(*l, *n.l)) return false;
  }
  if (const Y *r = y.get("right")) {
    n.r.reset(new TNode());
    if (!read_node(*r, *n.r)) return false;
  }
  return true;
}
bool read_tree(const Y &y, TTree &t) {
  double a;
  if (!num(y.get("max_depth"), a)) return false;
  t.max_depth = (unsigned)a;
  if (!num(y.get("num_features"), a)) return false;
  t.num_features = (unsigned)a;
  const Y *c = y.get("classes");
  if (!c || c->k != Y::SEQ) return false;
  for (auto &e : c->q) t.classes.push_back(atoi(e.s.c_str()));
  const Y *r = y.get("root");
  if (!r) return false;
  t.root.reset(new TNode());
  if (!read_node(*r, *t.root)) return false;
  const Y *d = y.get("data");
  if (!d || d->k != Y::MAP) return false;
  for (auto &e : d->m) {
    const Y *f = e.second.get("features");
    if (!f || f->k != Y::SEQ) return false;
    Feat v;
    for (auto &x : f->q) {
      float z;
      if (!numf(&x, z)) return false;
      v.push_back(z);
    }
    if (!num(e.second.get("class"), a)) return false;
    t.data.push_back({v, (int)a});
  }
  return true;
}
bool read_tree_file(const std::string &file, TTree &t) {
  Y y;
  if (!yaml(read_file(file), y)) return false;
  const Y *x = y.get("tree");
  return x && read_tree(*x, t);
}
bool read_forest_file(const std::string &file, std::vector<TTree> &ts, int &num_trees, int &max_depth) {
  Y y;
  if (!yaml(read_file(file), y)) return false;
  const Y *x = y.get("rfc");
  double a;
  if (!x || !num(x->get("num_trees"), a)) return false;
  num_trees = (int)a;
  if (!num(x->get("max_depth"), a)) return false;
  max_depth = (int)a;
  const Y *q = x->get("trees");
  if (!q || q->k != Y::SEQ) return false;
  for (auto &e : q->q) {
    const Y *t = e.get("tree");
    if (!t) return false;
    ts.emplace_back();
    if (!read_tree(*t, ts.back())) return false;
  }
  return true;
}
int depth(const TNode &n) {
  int d = 0;
  if (n.l) d = std::max(d, 1 + depth(*n.l));
  if (n.r) d = std::max(d, 1 + depth(*n.r));
  return d;
}
int eval(const TNode &n, const Feat &f) {
  if (n.feat < 0 || (!n.l && !n.r)) return n.cls;
  if (f[n.feat] < n.thr) return n.l ? eval(*n.l, f) : n.cls;
  return n.r ? eval(*n.r, f) : n.cls;
}
void thresholds(const TNode &n, std::map<int, std::set<float>> &out) {
  if (n.feat >= 0 && (n.l || n.r)) out[n.feat].insert(n.thr);
  if (n.l) thresholds(*n.l, out);
  if (n.r) thresholds(*n.r, out);
}

// ------------------------------------------------------------------ CART
using Samples = std::vector<std::pair<Feat, int>>;
static double gini_of(const std::map<int, long> &c, double n) {
  double g = 0;
  for (auto &e : c) g += (e.second / n) * (e.second / n);
  return 1 - g;
}
static double split_gini(const Samples &s, int f, float thr) {
  std::map<int, long> l, r;
  double nl = 0, nr = 0;
  for (auto &x : s)
    if (x.first[f] < thr) l[x.second]++, nl++;
    else r[x.second]++, nr++;
  double g = 0;
  if (nl) g += nl * gini_of(l, nl);
  if (nr) g += nr * gini_of(r, nr);
  return g / s.size();
}
static std::string check_node(const TNode &n, const Samples &s, unsigned depth_left, const std::string &at) {
  std::map<int, long> c;
  for (auto &x : s) c[x.second]++;
  if (n.num_samples != (long)s.size())
    return mc::fmt("node %s: num_samples %ld, has %zu samples", at.c_str(), n.num_samples, s.size());
  for (auto &e : n.counts)
    if (e.second != (c.count(e.first) ? c[e.first] : 0))
      return mc::fmt("node %s: class %d counted %ld times", at.c_str(), e.first, e.second);
  for (auto &e : c)
    if (!n.counts.count(e.first)) return mc::fmt("node %s: class %d not counted", at.c_str(), e.first);
  double g = gini_of(c, (double)s.size());
  if (std::fabs(g - n.gini) > 1e-4) return mc::fmt("node %s: gini %g, should be %g", at.c_str(), n.gini, g);
  int maj = c.begin()->first;
  for (auto &e : c)
    if (e.second > c[maj]) maj = e.first;
  if (n.cls != maj) return mc::fmt("node %s: predicts %d, the majority is %d", at.c_str(), n.cls, maj);
  bool leaf = !n.l && !n.r;
  if (leaf) {
    if (depth_left > 0 && c.size() > 1) return mc::fmt("node %s: impure leaf above the depth limit", at.c_str());
    return "";
  }
  if (depth_left == 0) return mc::fmt("node %s: beyond the depth limit", at.c_str());
  if (!n.l || !n.r) return mc::fmt("node %s: only one child", at.c_str());
  if (c.size() == 1) return mc::fmt("node %s: splits a pure node", at.c_str());
  if (n.feat < 0 || n.feat >= (int)s[0].first.size()) return mc::fmt("node %s: feature index %d", at.c_str(), n.feat);
  // The threshold separates the samples...
  float lmax = -INFINITY, rmin = INFINITY;
  Samples sl, sr;
  for (auto &x : s)
    if (x.first[n.feat] < n.thr) {
      lmax = std::max(lmax, x.first[n.feat]);
      sl.push_back(x);
    } else {
      rmin = std::min(rmin, x.first[n.feat]);
      sr.push_back(x);
    }
  if (sl.empty() || sr.empty()) return mc::fmt("node %s: threshold %.9g separates nothing", at.c_str(), n.thr);
  if (!(lmax < n.thr && n.thr <= rmin)) return mc::fmt("node %s: threshold %.9g not between %.9g and %.9g", at.c_str(), n.thr, lmax, rmin);
  // ... half way between the neighbouring values (up to rounding) ...
  double mid = ((double)lmax + (double)rmin) / 2;
  float fm = (float)mid;
  float lo = std::nextafterf(fm, -INFINITY), hi = std::nextafterf(fm, INFINITY);
  if (n.thr < lo || n.thr > std::max(hi, rmin == hi ? rmin : hi))
    return mc::fmt("node %s: threshold %.9g, the midpoint of %.9g and %.9g is %.9g", at.c_str(), n.thr, lmax, rmin, fm);
  // ... and no other split has a smaller weighted impurity.
  double got = split_gini(s, n.feat, n.thr), best = 2;
  std::string where;
  for (size_t f = 0; f < s[0].first.size(); f++) {
    std::set<float> vals;
    for (auto &x : s) vals.insert(x.first[f]);
    for (float v : vals) {
      if (v == *vals.begin()) continue;
      double q = split_gini(s, (int)f, v);
      if (q < best) best = q, where = mc::fmt("feature %zu at %.9g", f, v);
    }
  }
  if (got > best + 1e-5)
    return mc::fmt("node %s: splits feature %d at %.9g (impurity %g), %s has %g", at.c_str(), n.feat, n.thr, got, where.c_str(), best);
  std::string e = check_node(*n.l, sl, depth_left - 1, at + "L");
  if (!e.empty()) return e;
  return check_node(*n.r, sr, depth_left - 1, at + "R");
}
std::string check_tree(const TTree &t, const Samples &samples, unsigned max_depth) {
  if (t.max_depth != max_depth) return mc::fmt("max_depth %u, configured %u", t.max_depth, max_depth);
  std::set<int> cls, got(t.classes.begin(), t.classes.end());
  for (auto &s : samples) cls.insert(s.second);
  if (cls != got) return "the classes listed are not those of the samples";
  Samples a = samples, b = t.data;
  std::sort(a.begin(), a.end());
  std::sort(b.begin(), b.end());
  if (a != b) return "the samples listed are not those it was trained on";
  if (!samples.empty() && t.num_features != samples[0].first.size()) return "num_features";
  return check_node(*t.root, samples, max_depth, "/");
}


int exec(Apollo::Region *r, const Feat &f, double metric) {
  auto *c = r->begin(f);
  int p = r->getPolicyIndex(c);
  r->end(c, metric);
  return p;
}
int query(Apollo::Region *r, const Feat &f, double metric) { return exec(r, f, metric); }
std::vector<Feat> product(const std::vector<float> &vals, int n) {
  std::vector<Feat> o{{}};
  for (int i = 0; i < n; i++) {
    std::vector<Feat> q;
    for (auto &x : o)
      for (float v : vals) {
        q.push_back(x);
        q.back().push_back(v);
      }
    o = q;
  }
  return o;
}
std::vector<Feat> probes(int n) {
  std::vector<float> v{-1e30f, -7.25f, 0.f, 0.5f, 1.f, 2.f, 1000001.f, 3e38f};
  if (n >= 3) v = {-1e30f, 0.f, 1.5f, 3e38f};
  return product(v, n);
}
int nearest(const std::map<Feat, int> &best, float x) {
  auto hi = best.lower_bound(Feat{x});
  if (hi == best.end()) return std::prev(hi)->second;
  if (hi == best.begin() || hi->first[0] == x) return hi->second;
  auto lo = std::prev(hi);
  float t = (float)(((double)lo->first[0] + (double)hi->first[0]) / 2);
  if (t <= lo->first[0]) t = hi->first[0];
  return x < t ? lo->second : hi->second;
}
std::vector<float> around(const std::set<float> &v) {
  std::set<float> o;
  float last = 0;
  bool have = false;
  for (float x : v) {
    o.insert({x, std::nextafterf(x, -INFINITY), std::nextafterf(x, INFINITY), x - 1, x + 1});
    if (have) {
      float m = (float)(((double)last + (double)x) / 2);
      o.insert({m, std::nextafterf(m, -INFINITY), std::nextafterf(m, INFINITY)});
    }
    last = x;
    have = true;
  }
  o.insert({-1e30f, 1e30f});
  return std::vector<float>(o.begin(), o.end());
}

}  // namespace w
