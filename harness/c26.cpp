// C26: call-site identifiers are stable and distinct. Chains of calls through
// functions of the program and of two libraries; every pair and many triples
// of visits.
#include <dlfcn.h>
#include <stdlib.h>
#include <unistd.h>

#include "world.h"
using namespace mc;
using namespace w;

namespace {
using Id = std::string;
// A function with two call sites of what it is given.
using Leaf = void (*)(int site, int distance, Id &out);
using Mid = void (*)(int site, Leaf l, int lsite, int distance, Id &out);
using Top = void (*)(int site, Mid m, int msite, Leaf l, int lsite, int distance, Id &out);

volatile int after;  // no tail calls
#define NOINLINE __attribute__((noinline, noclone, optimize("no-optimize-sibling-calls", "no-crossjumping", "no-ipa-icf", "no-tree-tail-merge")))

#define BODY(call)  \
  if (site == 0) {  \
    call;           \
    after = 1;      \
  } else if (site == 1) { \
    call;           \
    after = 2;      \
  } else {          \
    for (int i = 0; i < 2; i++) { \
      call;         \
      after = 3;    \
    }               \
  }
NOINLINE void leaf0(int site, int distance, Id &out) { BODY(out = Apollo::instance()->getCallpathOffset(distance)) }
NOINLINE void leaf1(int site, int distance, Id &out) { BODY(out = Apollo::instance()->getCallpathOffset(distance)) after = 9; }
NOINLINE void mid0(int site, Leaf l, int ls, int distance, Id &out) { BODY(l(ls, distance, out)) }
NOINLINE void mid1(int site, Leaf l, int ls, int distance, Id &out) { BODY(l(ls, distance, out)) after = 9; }
NOINLINE void top0(int site, Mid m, int ms, Leaf l, int ls, int distance, Id &out) { BODY(m(ms, l, ls, distance, out)) }

const char *LIB = R"(
#include <string>
#include "apollo/Apollo.h"
typedef std::string Id;
typedef void (*Leaf)(int site, int distance, Id &out);
static volatile int after;
extern "C" {
__attribute__((noinline, optimize("no-optimize-sibling-calls"))) void lib_leaf(int site, int distance, Id &out) {
  if (site == 0) { out = Apollo::instance()->getCallpathOffset(distance); after = 1; }
  else if (site == 1) { out = Apollo::instance()->getCallpathOffset(distance); after = 2; }
  else for (int i = 0; i < 2; i++) { out = Apollo::instance()->getCallpathOffset(distance); after = 3; }
}
__attribute__((noinline, optimize("no-optimize-sibling-calls"))) void lib_mid(int site, Leaf l, int ls, int distance, Id &out) {
  if (site == 0) { l(ls, distance, out); after = 1; }
  else if (site == 1) { l(ls, distance, out); after = 2; }
  else for (int i = 0; i < 2; i++) { l(ls, distance, out); after = 3; }
}
}
)";
// Functions of one text whose addresses agree in their low bits.
#define COPY(name, bits) __attribute__((aligned(bits))) NOINLINE void name(int site, int distance, Id &out) { BODY(out = Apollo::instance()->getCallpathOffset(distance)) }
COPY(page0, 4096) COPY(page1, 4096) COPY(page2, 4096)
COPY(far0, 65536) COPY(far1, 65536)
COPY(wide0, 1048576) COPY(wide1, 1048576)
const std::vector<Leaf> copies{page0, page1, page2, far0, far1, wide0, wide1};
std::vector<Leaf> leaves{leaf0, leaf1};
std::vector<Mid> mids{mid0, mid1};

// The same library twice, under two names: equal offsets, different modules.
void libraries() {
  char d[] = "/tmp/c26-XXXXXX";
  if (!mkdtemp(d)) abort();
  std::string dir = d, repo = getenv("VERIF_REPO") ? getenv("VERIF_REPO") : "/repo";
  write_file(dir + "/lib.cpp", LIB);
  std::string cmd = "g++ -std=c++14 -w -O1 -shared -fPIC -I" + repo + "/include " + dir + "/lib.cpp -o " + dir + "/libone.so && cp " + dir + "/libone.so " + dir + "/libtwo.so";
  if (system(cmd.c_str()) != 0) {
    fprintf(stderr, "cannot build the libraries of C26\n");
    exit(2);
  }
  for (const char *n : {"/libone.so", "/libtwo.so"}) {
    void *h = dlopen((dir + n).c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) {
      fprintf(stderr, "%s\n", dlerror());
      exit(2);
    }
    leaves.push_back((Leaf)dlsym(h, "lib_leaf"));
    mids.push_back((Mid)dlsym(h, "lib_mid"));
  }
  for (const char *n : {"/lib.cpp", "/libone.so", "/libtwo.so"}) unlink((dir + n).c_str());
  rmdir(d);
}

struct Visit {
  int top, mid, msite, leaf, lsite, distance;
  // The call site that this visit is about.
  std::string site() const {
    if (distance == 2) return fmt("leaf%d.%d", leaf, lsite);
    if (distance == 3) return fmt("mid%d.%d", mid, msite);
    return fmt("top.%d", top);
  }
  Id run() const {
    Id id;
    top0(top, mids[mid], msite, leaves[leaf], lsite, distance, id);
    return id;
  }
};

Visit visit(Ctx &c, bool all) {
  Visit v;
  if (all) {
    int k = c.choose((int)(leaves.size() * 3 * mids.size() * 3 * 3 * 3), "visit");
    v.leaf = k % leaves.size(), k /= leaves.size();
    v.lsite = k % 3, k /= 3;
    v.mid = k % mids.size(), k /= mids.size();
    v.msite = k % 3, k /= 3;
    v.top = k % 3, k /= 3;
    v.distance = 2 + k;
  } else {
    int k = c.choose(2 * 2 * 2 * 2 * 2 * 3, "visit");
    v.leaf = k % 2 + 1, k /= 2;
    v.lsite = k % 2 * 2, k /= 2;
    v.mid = k % 2 + 1, k /= 2;
    v.msite = k % 2 * 2, k /= 2;
    v.top = k % 2 * 2, k /= 2;
    v.distance = 2 + k;
  }
  return v;
}

void visits(Ctx &c, int n, bool all) {
  static World *world = new World({});
  (void)world;
  std::map<std::string, Id> of;
  std::map<Id, std::string> back;
  for (int i = 0; i < n; i++) {
    Visit v = visit(c, all);
    Id id = v.run();
    c.step();
    c.check(!id.empty(), "empty", "no identifier for " + v.site());
    auto f = of.emplace(v.site(), id);
    c.check(f.second || f.first->second == id, "unstable", v.site() + " was " + f.first->second + " and is now " + id);
    auto g = back.emplace(id, v.site());
    c.check(g.second || g.first->second == v.site(), "shared", g.first->second + " and " + v.site() + " are both " + id);
    c.obs(v.site());
    c.validated();
  }
  u64 h = 1;
  for (auto &e : of) h = mix(h, hash_str(e.first));
  c.state(h);
}

// Pairs of visits of functions that lie whole pages apart.
void aligned(Ctx &c) {
  static World *world = new World({});
  (void)world;
  int n = (int)copies.size();
  int a = c.choose(n, "first"), b = c.choose(n, "second"), s = c.choose(3, "site"), t = c.choose(3, "site"), m = c.choose(2, "between");
  Id x, y, z;
  mids[0](0, copies[a], s, 2, x);
  if (m) mids[1](1, copies[(a + 1) % n], t, 3, z);
  mids[1](1, copies[b], t, 2, y);
  c.step();
  bool same = a == b && s == t;
  c.check((x == y) == same, same ? "unstable" : "shared", fmt("call site %d of copy %d is ", s, a) + x + fmt(" and %d of copy %d is ", t, b) + y);
  c.state(((a * n + b) * 3 + s) * 3 + t);
  c.obs(same);
  c.validated();
}

// Every call site at once, in both orders.
void everything(Ctx &c) {
  static World *world = new World({});
  (void)world;
  int order = c.choose(4, "order");
  std::vector<Visit> vs;
  for (int d = 2; d <= 4; d++)
    for (int t = 0; t < 3; t++)
      for (int m = 0; m < (int)mids.size(); m++)
        for (int ms = 0; ms < 3; ms++)
          for (int l = 0; l < (int)leaves.size(); l++)
            for (int ls = 0; ls < 3; ls++) vs.push_back({t, m, ms, l, ls, d});
  if (order & 1) std::reverse(vs.begin(), vs.end());
  if (order & 2) std::stable_sort(vs.begin(), vs.end(), [](const Visit &a, const Visit &b) { return a.leaf * 9 + a.distance * 5 % 7 < b.leaf * 9 + b.distance * 5 % 7; });
  std::map<std::string, Id> of;
  std::map<Id, std::string> back;
  for (auto &v : vs) {
    Id id = v.run();
    c.step();
    auto f = of.emplace(v.site(), id);
    c.check(f.second || f.first->second == id, "unstable", v.site() + " was " + f.first->second + " and is now " + id);
    auto g = back.emplace(id, v.site());
    c.check(g.second || g.first->second == v.site(), "shared", g.first->second + " and " + v.site() + " are both " + id);
  }
  c.state(order);
  c.validated();
}
}  // namespace

void mc::scenarios(std::vector<Scenario> &out) {
  libraries();
  out.push_back({"everything", everything});
  out.push_back({"aligned", aligned});
  out.push_back({"pairs", [](Ctx &c) { visits(c, 2, true); }});
  out.push_back({"triples", [](Ctx &c) { visits(c, 3, false); }});
}
