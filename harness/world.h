// The Apollo runtime as an explorable object: in-process (re)starts, virtual
// clock, enumerated random devices, file helpers and small reference models.
#pragma once
#include <algorithm>
#include <cmath>
#include <fstream>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <utility>
#include <vector>

#include "apollo/Apollo.h"
#include "apollo/Dataset.h"
#include "apollo/ModelFactory.h"
#include "apollo/Region.h"
#include "mc.h"

namespace w {

using Env = std::map<std::string, std::string>;
using Feat = std::vector<float>;

// Values handed out by std::random_device, cyclically (default: all 1).
extern std::vector<unsigned> random_values;
extern size_t random_pos;
void set_random(std::vector<unsigned> v);

// Virtual CLOCK_MONOTONIC in nanoseconds (other clocks are real).
extern int64_t vclock_ns;
extern bool vclock_on;

// One lifetime of the Apollo runtime in this process with the given settings
// (the names without the APOLLO_ prefix). Everything else is at its default.
class World {
public:
  explicit World(const Env &env);
  ~World();
  Apollo *operator->() { return a; }
  Apollo *a;
  // Ends this lifetime; returns what it wrote to the error stream.
  std::string end();
  std::string err();  // so far

private:
  bool live = false;
  std::ostringstream cap_err, cap_out;
  std::streambuf *old_err = nullptr, *old_out = nullptr;
};

std::string read_file(const std::string &f);
bool exists(const std::string &f);
void write_file(const std::string &f, const std::string &s);
void mkdirs(const std::string &d);
// All files (not directories) below d, relative, sorted.
std::vector<std::string> tree(const std::string &d, bool dirs = false);

std::string str(const Feat &f);
uint32_t bits(float f);
uint64_t bits(double d);
mc::u64 hash(const Feat &f);

// ---- reference dataset: exponential moving average per (features, policy)
struct RefData {
  std::map<std::pair<Feat, int>, double> d;
  void insert(const Feat &f, int p, double m) {
    auto k = std::make_pair(f, p);
    auto it = d.find(k);
    if (it == d.end())
      d[k] = m;
    else
      it->second = .5 * it->second + .5 * m;
  }
  void merge(const RefData &o) {
    for (auto &e : o.d) insert(e.first.first, e.first.second, e.second);
  }
  // feature vector -> best policy (lowest index on ties)
  std::map<Feat, int> best() const {
    std::map<Feat, std::pair<int, double>> b;
    for (auto &e : d) {
      auto it = b.find(e.first.first);
      if (it == b.end() || e.second < it->second.second) b[e.first.first] = {e.first.second, e.second};
    }
    std::map<Feat, int> r;
    for (auto &x : b) r[x.first] = x.second.first;
    return r;
  }
  mc::u64 hash() const;
  std::string str() const;
};
// Is the dataset exactly the reference (bit for bit)? Empty string if so.
std::string diff(const RefData &ref, Apollo::Dataset &ds);
// Same up to a relative tolerance on the values.
std::string diff_tol(const RefData &ref, Apollo::Dataset &ds, double tol);
RefData to_ref(Apollo::Dataset &ds);

// ---- the flow-style YAML that models and datasets are stored in
struct Y {
  enum K { SCALAR, MAP, SEQ } k = SCALAR;
  std::string s;
  std::vector<std::pair<std::string, Y>> m;
  std::vector<Y> q;
  const Y *get(const std::string &key) const {
    for (auto &e : m)
      if (e.first == key) return &e.second;
    return nullptr;
  }
};
// Parses; false if it is not in that form.
bool yaml(const std::string &text, Y &out);

struct TNode {
  double gini = 0;
  long num_samples = 0;
  int cls = 0, feat = -1;
  float thr = 0;
  std::map<int, long> counts;
  std::unique_ptr<TNode> l, r;
};
struct TTree {
  unsigned max_depth = 0, num_features = 0;
  std::vector<int> classes;
  std::unique_ptr<TNode> root;
  std::vector<std::pair<Feat, int>> data;
};
bool read_tree(const Y &tree, TTree &t);              // content of "tree:"
bool read_tree_file(const std::string &file, TTree &t);
bool read_forest_file(const std::string &file, std::vector<TTree> &ts, int &num_trees, int &max_depth);
int depth(const TNode &n);
int eval(const TNode &n, const Feat &f);
// Interesting values around each threshold of a tree for a feature index.
void thresholds(const TNode &n, std::map<int, std::set<float>> &out);

// Is t a correct CART tree of the table (features -> class) with the depth
// limit? Empty string if so, else what is wrong.
std::string check_tree(const TTree &t, const std::vector<std::pair<Feat, int>> &samples, unsigned max_depth);

// ---- driving regions
// One complete execution; returns the policy that was selected.
int exec(Apollo::Region *r, const Feat &f, double metric);
// A selection only (in an execution that is left open unless close).
int query(Apollo::Region *r, const Feat &f, double metric = 1.0);
// All vectors of n components over vals.
std::vector<Feat> product(const std::vector<float> &vals, int n);
// Feature vectors of arity n that no training has seen, extreme ones included.
std::vector<Feat> probes(int n);
// The class of the nearest sample (1 feature; the upper one half way): what
// every fully grown tree selects.
int nearest(const std::map<Feat, int> &best, float x);
// Values at, next to and between the given ones.
std::vector<float> around(const std::set<float> &v);

}  // namespace w
