// Stateless exhaustive explorer: enumerates every sequence of choices that a
// scenario body can make and runs the real code on each of them.
//
// A body is a function of a Ctx. It draws all its nondeterminism (operations,
// arguments, orders, environment answers) from Ctx::choose and compares the
// implementation with a reference model as it goes. Choices must not depend on
// the implementation's answers, so that the tree explored is the same on every
// tree of the code base; a divergence while replaying a prefix is a hard error.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace mc {

using u64 = uint64_t;

inline u64 mix(u64 h, u64 v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 32);
}
inline u64 hash_bytes(const void *p, size_t n, u64 h = 1469598103934665603ull) {
  const unsigned char *c = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull;
  return h;
}
inline u64 hash_str(const std::string &s) { return hash_bytes(s.data(), s.size()); }
inline u64 hash_d(double d) { u64 v; memcpy(&v, &d, 8); return mix(7, v); }

std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

// Thrown by Ctx::fail.
struct Violation {
  std::string key, msg;
};

struct Impl;
class Ctx {
public:
  explicit Ctx(Impl *i) : impl(i) {}
  // A choice in 0..n-1, explored exhaustively. The label goes in the replay.
  int choose(int n, const char *label = "");
  template <class T> const T &pick(const std::vector<T> &v, const char *label = "") {
    return v[choose((int)v.size(), label)];
  }
  bool flip(const char *label = "") { return choose(2, label) == 1; }
  // Reports a violation. key identifies the kind (for the known-findings file).
  [[noreturn]] void fail(const std::string &key, const std::string &msg);
  void check(bool ok, const char *key, const std::string &msg) {
    if (!ok) fail(key, msg);
  }
  void step(int n = 1);        // n transitions of the real code done
  void state(u64 fingerprint);  // a state reached (for counting)
  void obs(u64 h);              // an observation (for the outcome digest)
  void obs(const std::string &s) { obs(hash_str(s)); }
  void validated(int n = 1);    // n model traces replayed on the code
  void note(const std::string &s);  // human readable trace line (replay only)
  bool replaying() const;

private:
  Impl *impl;
};

struct Scenario {
  std::string name;
  std::function<void(Ctx &)> body;
};
// Registered by the harness in main_scenarios().
void scenarios(std::vector<Scenario> &out);
// A program of the harness: run instead of the explorer if MC_PROGRAM is set.
void program();
extern bool thorough;          // tier
extern const char *property_id;  // set by the build (-DPROPERTY_ID)

// The outcome of running a function in a child process.
struct Outcome {
  enum Kind { OK, EXCEPTION, ABORT, CRASH, EXIT, HANG } kind = OK;
  int code = 0;            // signal or exit status
  std::string out;         // what fn wrote to its argument
  std::string err;         // tail of stderr
  bool ok() const { return kind == OK; }
  // An error the user sees: exception or abort. Memory errors are CRASH.
  bool loud() const { return kind == EXCEPTION || kind == ABORT; }
  std::string str() const;
};
Outcome forked(const std::function<void(std::string &)> &fn, double limit_s = 20);

// Scratch directory of this worker, emptied before each execution; cwd is it.
std::string scratch();
void clean_scratch();
double now();  // real time

}  // namespace mc
