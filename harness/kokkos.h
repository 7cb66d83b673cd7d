// The Kokkos tool interface as the connector implements it.
#pragma once
#include <unistd.h>
#include <impl/Kokkos_Profiling_Interface.hpp>

#include "world.h"

using namespace Kokkos::Tools::Experimental;
extern "C" {
void kokkosp_init_library(const int, const uint64_t, const uint32_t, void *);
void kokkosp_finalize_library();
void kokkosp_parse_args(int, char **);
void kokkosp_provide_tool_programming_interface(uint32_t, ToolProgrammingInterface);
void kokkosp_begin_parallel_for(const char *, const uint32_t, uint64_t *);
void kokkosp_end_parallel_for(const uint64_t);
void kokkosp_begin_parallel_scan(const char *, const uint32_t, uint64_t *);
void kokkosp_end_parallel_scan(const uint64_t);
void kokkosp_begin_parallel_reduce(const char *, const uint32_t, uint64_t *);
void kokkosp_end_parallel_reduce(const uint64_t);
void kokkosp_declare_output_type(const char *, const size_t, VariableInfo *);
void kokkosp_declare_input_type(const char *, const size_t, VariableInfo *);
void kokkosp_request_values(size_t, size_t, VariableValue *, size_t, VariableValue *);
void kokkosp_end_context(size_t);
}

namespace kk {
using Str = Kokkos_Tools_Tuning_String;

// A declared variable. Must not move after declare().
struct Var {
  enum Kind { SET_INT, SET_DBL, SET_STR, RNG_INT, RNG_DBL, UNBOUNDED } kind = UNBOUNDED;
  ValueType type = ValueType::kokkos_value_int64;
  std::vector<int64_t> is;
  std::vector<double> ds;
  std::vector<std::string> ss;
  int64_t lo = 0, up = 0, st = 1;
  double dlo = 0, dup = 0, dst = 0;
  bool olo = false, oup = false;
  size_t id = 0;
  std::string name;
  VariableInfo info;
  std::vector<char> strs;

  void declare(size_t id_, const std::string &n, bool output = true) {
    id = id_;
    name = n;
    memset((void *)&info, 0, sizeof info);
    info.category = StatisticalCategory::kokkos_value_categorical;
    info.valueQuantity = CandidateValueType::kokkos_value_set;
    switch (kind) {
      case SET_INT:
        info.type = ValueType::kokkos_value_int64;
        info.candidates.set.size = is.size();
        info.candidates.set.values.int_value = is.data();
        break;
      case SET_DBL:
        info.type = ValueType::kokkos_value_double;
        info.candidates.set.size = ds.size();
        info.candidates.set.values.double_value = ds.data();
        break;
      case SET_STR:
        info.type = ValueType::kokkos_value_string;
        strs.assign(ss.size() * sizeof(Str) + 1, 0);
        for (size_t i = 0; i < ss.size(); i++) memcpy(&strs[i * sizeof(Str)], ss[i].data(), ss[i].size());
        info.candidates.set.size = ss.size();
        info.candidates.set.values.string_value = (Str *)strs.data();
        break;
      case RNG_INT:
        info.type = ValueType::kokkos_value_int64;
        info.valueQuantity = CandidateValueType::kokkos_value_range;
        info.candidates.range.lower.int_value = lo;
        info.candidates.range.upper.int_value = up;
        info.candidates.range.step.int_value = st;
        break;
      case RNG_DBL:
        info.type = ValueType::kokkos_value_double;
        info.valueQuantity = CandidateValueType::kokkos_value_range;
        info.candidates.range.lower.double_value = dlo;
        info.candidates.range.upper.double_value = dup;
        info.candidates.range.step.double_value = dst;
        break;
      case UNBOUNDED:
        info.type = type;
        info.valueQuantity = CandidateValueType::kokkos_value_unbounded;
        break;
    }
    if (info.valueQuantity == CandidateValueType::kokkos_value_range) {
      info.candidates.range.openLower = olo;
      info.candidates.range.openUpper = oup;
    }
    if (output) kokkosp_declare_output_type(name.c_str(), id, &info);
    else kokkosp_declare_input_type(name.c_str(), id, &info);
  }
  // The value before the request.
  VariableValue def() {
    VariableValue v;
    memset((void *)&v, 0, sizeof v);
    v.type_id = id;
    v.metadata = &info;
    if (info.type == ValueType::kokkos_value_int64) v.value.int_value = -777;
    if (info.type == ValueType::kokkos_value_double) v.value.double_value = -777.25;
    if (info.type == ValueType::kokkos_value_string) strcpy(v.value.string_value, "the default");
    return v;
  }
  bool is_def(const VariableValue &v) {
    VariableValue d = def();
    return text(v) == text(d);
  }
  std::string text(const VariableValue &v) {
    if (info.type == ValueType::kokkos_value_int64) return mc::fmt("%lld", (long long)v.value.int_value);
    if (info.type == ValueType::kokkos_value_double) return mc::fmt("%.17g", v.value.double_value);
    return std::string(v.value.string_value, strnlen(v.value.string_value, sizeof(Str)));
  }
  std::string desc() const {
    std::string s;
    auto rng = [&](const std::string &l, const std::string &u, const std::string &t) {
      return (olo ? "(" : "[") + l + "," + u + (oup ? ")" : "]") + " step " + t;
    };
    switch (kind) {
      case SET_INT: s = "ints{"; for (auto i : is) s += std::to_string(i) + " "; return s + "}";
      case SET_DBL: s = "doubles{"; for (auto i : ds) s += mc::fmt("%.17g ", i); return s + "}";
      case SET_STR: s = "strings{"; for (auto &i : ss) s += i + " "; return s + "}";
      case RNG_INT: return "ints " + rng(std::to_string(lo), std::to_string(up), std::to_string(st));
      case RNG_DBL: return "doubles " + rng(mc::fmt("%.17g", dlo), mc::fmt("%.17g", dup), mc::fmt("%.17g", dst));
      default: return "unbounded";
    }
  }
};

// Candidates that must be offered, and whether a value may be.
struct Cand {
  std::set<std::string> must;  // as text
  bool exact = true;           // nothing else may be offered
};
inline Cand candidates(Var &v) {
  Cand c;
  switch (v.kind) {
    case Var::SET_INT: for (auto i : v.is) c.must.insert(mc::fmt("%lld", (long long)i)); break;
    case Var::SET_DBL: for (auto i : v.ds) c.must.insert(mc::fmt("%.17g", i)); break;
    case Var::SET_STR: for (auto &i : v.ss) c.must.insert(i); break;
    case Var::RNG_INT:
      for (int64_t x = v.lo + v.olo; v.oup ? x < v.up : x <= v.up; x += v.st) c.must.insert(mc::fmt("%lld", (long long)x));
      break;
    case Var::RNG_DBL: c.exact = false; break;
    default: break;
  }
  return c;
}
// For floating point ranges: does v lie in the range and on its grid (within
// rounding)? k is the grid position.
inline bool on_grid(const Var &v, double x, long &k) {
  if (!(v.olo ? x > v.dlo : x >= v.dlo) || !(v.oup ? x < v.dup : x <= v.dup)) return false;
  if (v.dst == 0) return k = 0, true;
  double q = (x - v.dlo) / v.dst;
  k = lround(q);
  return fabs(q - k) < 1e-7;
}
// The grid positions that are inside beyond doubt.
inline std::set<long> grid_must(const Var &v) {
  std::set<long> s;
  if (v.dst == 0) return s;
  double tol = 1e-9 * std::max(1.0, fabs(v.dup));
  for (long k = v.olo ? 1 : 0; k < 100000; k++) {
    double x = v.dlo + k * v.dst;
    if (x > v.dup + tol) break;
    bool inside = x < v.dup - tol;
    // exactly on a closed bound
    if (!v.olo && !v.oup && x == v.dup) inside = true;
    if (inside) s.insert(k);
  }
  return s;
}

inline void init(const w::Env &env, const std::vector<std::string> &args = {}, bool args_first = true) {
  std::vector<std::string> del;
  for (char **e = environ; *e; e++)
    if (!strncmp(*e, "APOLLO_", 7)) del.push_back(std::string(*e).substr(0, strchr(*e, '=') - *e));
  for (auto &d : del) unsetenv(d.c_str());
  for (auto &e : env) setenv(("APOLLO_" + e.first).c_str(), e.second.c_str(), 1);
  auto pa = [&] {
    if (args.empty()) return;
    std::vector<std::string> a{"apollo"};
    a.insert(a.end(), args.begin(), args.end());
    std::vector<char *> p;
    for (auto &x : a) p.push_back(&x[0]);
    kokkosp_parse_args((int)p.size(), p.data());
  };
  if (args_first) pa();
  kokkosp_init_library(0, 20200625, 0, nullptr);
  if (!args_first) pa();
}

// Runs fn in a process of its own, with what it reports.
inline void run(mc::Ctx &c, const std::string &what, const std::function<void(std::string &)> &fn, std::string *out = nullptr) {
  mc::Outcome o = mc::forked([&](std::string &s) {
    freopen("/dev/null", "w", stdout);
    static std::ostringstream sink;
    std::cout.rdbuf(sink.rdbuf());
    fn(s);
  });
  c.check(o.ok(), "fails", what + ": " + o.str());
  if (out) *out = o.out;
}
}  // namespace kk
