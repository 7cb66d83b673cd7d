#include "mc.h"

#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <deque>
#include <exception>
#include <fstream>
#include <iostream>
#include <memory>

namespace mc {

bool thorough = false;
#ifndef PROPERTY_ID
#define PROPERTY_ID "C00"
#endif
const char *property_id = PROPERTY_ID;

std::string fmt(const char *f, ...) {
  char buf[4096];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}

double now() {
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec / 1e9;
}

static const int MAXC = 192;     // choices per execution
static const int MAXW = 16;      // workers
static const int MAXITEMS = 1 << 14;
static const int MAXVIOL = 64;
static const u64 TABLE = 1ull << 22;

struct Path {
  int len;
  uint16_t c[MAXC];
};

struct ViolSlot {
  std::atomic<int> ready;
  Path path;
  char key[128];
  char msg[1600];
};

struct Slot {  // progress of a worker
  std::atomic<int> busy;
  double since;
  Path path;
};

struct Shared {
  Slot slot[MAXW];
  std::atomic<int> nitems, next_item, nviol, stop;
  Path items[MAXITEMS];
  ViolSlot viol[MAXVIOL];
  std::atomic<u64> execs, steps, validated, nstates, nobs, maxdepth, choices, table_full;
  std::atomic<u64> rechecked, recheck_bad;
  std::atomic<int> diverged;
  std::atomic<u64> known;
  std::atomic<u64> obs_sum;  // order independent digest of all outcomes
  char sample[4][600];
  std::atomic<int> nsample;
  std::atomic<u64> st[TABLE];
  std::atomic<u64> ob[TABLE];
};
static Shared *sh;

static bool table_add(std::atomic<u64> *t, u64 h, std::atomic<u64> &n) {
  if (!h) h = 1;
  u64 i = h & (TABLE - 1);
  for (int k = 0; k < 4096; k++, i = (i + 1) & (TABLE - 1)) {
    u64 cur = t[i].load(std::memory_order_relaxed);
    if (cur == h) return false;
    if (cur == 0) {
      if (t[i].compare_exchange_strong(cur, h)) {
        n++;
        return true;
      }
      if (cur == h) return false;
    }
  }
  sh->table_full++;
  return false;
}

struct Impl {
  Path prefix;             // to be followed
  Path path;               // choices made
  int width[MAXC];         // alternatives at each
  const char *label[MAXC];
  u64 obs = 0;
  u64 nsteps = 0, nvalid = 0;
  bool replay = false;
  bool diverged = false;
  std::vector<std::string> notes;
  std::vector<u64> states;
};

struct Diverged {};

int Ctx::choose(int n, const char *label) {
  Impl &m = *impl;
  int i = m.path.len;
  if (n <= 0 || n > 65535 || i >= MAXC) {
    fprintf(stderr, "mc: bad choose(%d) at %d (%s)\n", n, i, label);
    m.diverged = true;
    throw Diverged();
  }
  int v = i < m.prefix.len ? m.prefix.c[i] : 0;
  if (v >= n) {
    m.diverged = true;
    throw Diverged();
  }
  m.path.c[i] = v;
  m.width[i] = n;
  m.label[i] = label;
  m.path.len = i + 1;
  return v;
}
void Ctx::fail(const std::string &key, const std::string &msg) { throw Violation{key, msg}; }
void Ctx::step(int n) { impl->nsteps += n; }
void Ctx::validated(int n) { impl->nvalid += n; }
void Ctx::state(u64 h) { impl->states.push_back(h); }
void Ctx::obs(u64 h) { impl->obs = mix(impl->obs, h); }
void Ctx::note(const std::string &s) {
  if (impl->replay) impl->notes.push_back(s);
}
bool Ctx::replaying() const { return impl->replay; }

// ---------------------------------------------------------------- scratch
static std::string scratch_base, scratch_dir;
std::string scratch() { return scratch_dir; }

static void rm_rf(const std::string &d, bool self) {
  // Only ever below our own scratch base.
  if (scratch_base.empty() || d.compare(0, scratch_base.size(), scratch_base) != 0) return;
  DIR *dir = opendir(d.c_str());
  if (dir) {
    while (struct dirent *e = readdir(dir)) {
      std::string n = e->d_name;
      if (n == "." || n == "..") continue;
      std::string p = d + "/" + n;
      struct stat st;
      if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode))
        rm_rf(p, true);
      else
        unlink(p.c_str());
    }
    closedir(dir);
  }
  if (self) rmdir(d.c_str());
}
void clean_scratch() { rm_rf(scratch_dir, false); }

static void enter_scratch(const std::string &name) {
  scratch_dir = scratch_base + "/" + name;
  mkdir(scratch_dir.c_str(), 0700);
  if (chdir(scratch_dir.c_str()) != 0) {
    perror("chdir scratch");
    _exit(2);
  }
}

static void silence() {
  int fd = open("/dev/null", O_RDWR);
  dup2(fd, 0);
  dup2(fd, 1);
  dup2(fd, 2);
  if (fd > 2) close(fd);
}

// ---------------------------------------------------------------- children
std::string Outcome::str() const {
  static const char *k[] = {"ok", "exception", "abort", "crash", "exit", "hang"};
  return std::string(k[kind]) + (kind == CRASH || kind == EXIT ? " " + std::to_string(code) : "") +
         (err.empty() ? "" : " [" + err.substr(0, 300) + "]");
}

static void read_all(int fd, std::string &s, double deadline, bool &timeout) {
  char buf[65536];
  for (;;) {
    double left = deadline - now();
    if (left <= 0) {
      timeout = true;
      return;
    }
    struct pollfd p = {fd, POLLIN, 0};
    int r = poll(&p, 1, (int)(left * 1000) + 1);
    if (r < 0 && errno == EINTR) continue;
    if (r <= 0) continue;
    ssize_t n = read(fd, buf, sizeof buf);
    if (n < 0 && errno == EINTR) continue;
    if (n <= 0) return;
    s.append(buf, n);
  }
}

static std::string read_tail(const std::string &file, size_t max) {
  std::ifstream f(file, std::ios::binary);
  std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
  if (s.size() > max) s = s.substr(0, max / 2) + " ... " + s.substr(s.size() - max / 2);
  return s;
}

Outcome forked(const std::function<void(std::string &)> &fn, double limit_s) {
  Outcome o;
  int fd[2];
  if (pipe(fd) != 0) _exit(2);
  static int seq = 0;
  std::string errf = scratch_base + "/err-" + std::to_string(getpid()) + "-" + std::to_string(seq++);
  std::cout.flush();
  std::cerr.flush();
  pid_t pid = fork();
  if (pid < 0) _exit(2);
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    close(fd[0]);
    int e = open(errf.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
    if (e >= 0) dup2(e, 2);
    std::string out;
    int rc = 0;
    try {
      fn(out);
    } catch (const Violation &v) {
      out = v.key + "\n" + v.msg;
      rc = 97;
    } catch (const std::exception &x) {
      dprintf(2, "exception: %s\n", x.what());
      rc = 98;
    } catch (...) {
      rc = 98;
    }
    size_t off = 0;
    while (off < out.size()) {
      ssize_t n = write(fd[1], out.data() + off, out.size() - off);
      if (n <= 0) break;
      off += n;
    }
    _exit(rc);
  }
  close(fd[1]);
  bool timeout = false;
  read_all(fd[0], o.out, now() + limit_s, timeout);
  close(fd[0]);
  if (timeout) kill(pid, SIGKILL);
  int st = 0;
  if (!timeout) {
    // The pipe is closed: the child is ending.
    double dl = now() + limit_s;
    pid_t r;
    while ((r = waitpid(pid, &st, WNOHANG)) == 0) {
      if (now() > dl) {
        timeout = true;
        kill(pid, SIGKILL);
        waitpid(pid, &st, 0);
        break;
      }
      usleep(200);
    }
  } else
    waitpid(pid, &st, 0);
  o.err = read_tail(errf, 1200);
  unlink(errf.c_str());
  if (timeout)
    o.kind = Outcome::HANG;
  else if (WIFSIGNALED(st)) {
    o.code = WTERMSIG(st);
    o.kind = o.code == SIGABRT ? Outcome::ABORT : Outcome::CRASH;
  } else if (WEXITSTATUS(st) == 0)
    o.kind = Outcome::OK;
  else if (WEXITSTATUS(st) == 98)
    o.kind = Outcome::EXCEPTION;
  else if (WEXITSTATUS(st) == 97) {
    auto p = o.out.find('\n');
    throw Violation{o.out.substr(0, p), o.out.substr(p + 1)};
  } else if (WEXITSTATUS(st) == 99) {  // sanitizer
    o.kind = Outcome::CRASH;
    o.code = 99;
  } else {
    o.kind = Outcome::EXIT;
    o.code = WEXITSTATUS(st);
  }
  return o;
}

// ---------------------------------------------------------------- execution
struct Result {
  bool violated = false, diverged = false;
  std::string key, msg;
};

static Result execute(const Scenario &s, Impl &m, const Path &prefix) {
  m.prefix = prefix;
  m.path.len = 0;
  m.obs = 0;
  m.nsteps = m.nvalid = 0;
  m.diverged = false;
  m.states.clear();
  m.notes.clear();
  clean_scratch();
  Ctx c(&m);
  Result r;
  try {
    s.body(c);
  } catch (const Violation &v) {
    r.violated = true;
    r.key = v.key;
    r.msg = v.msg;
  } catch (const Diverged &) {
    r.diverged = true;
  } catch (const std::exception &x) {
    r.violated = true;
    r.key = "unexpected-exception";
    r.msg = std::string("unexpected exception: ") + x.what();
  }
  if (m.path.len < prefix.len && !r.violated) r.diverged = true;
  return r;
}

static std::string choices_str(const Impl &m) {
  std::string s;
  for (int i = 0; i < m.path.len; i++) {
    if (i) s += " ";
    s += std::string(m.label[i] && *m.label[i] ? m.label[i] : "c") + "=" + std::to_string(m.path.c[i]);
  }
  return s;
}

static std::set<std::string> known_keys;
static bool isolation_mode = false;

static void record_violation(const Path &p, const std::string &key, const std::string &msg) {
  int i = sh->nviol++;
  if (i >= MAXVIOL) {
    sh->stop = 1;
    return;
  }
  ViolSlot &v = sh->viol[i];
  v.path = p;
  snprintf(v.key, sizeof v.key, "%s", key.c_str());
  snprintf(v.msg, sizeof v.msg, "%s", msg.c_str());
  v.ready = 1;
  if (i >= 15) sh->stop = 1;
}

// Runs one execution in this process and accounts for it. Returns false when
// exploration of this worker has to end.
static void account(const Scenario &s, Impl &m, Result &r) {
  sh->execs++;
  sh->steps += m.nsteps;
  sh->validated += m.nvalid;
  sh->choices += m.path.len;
  u64 d = m.path.len;
  u64 cur = sh->maxdepth;
  while (d > cur && !sh->maxdepth.compare_exchange_weak(cur, d))
    ;
  for (u64 h : m.states) table_add(sh->st, h, sh->nstates);
  table_add(sh->ob, mix(m.obs, hash_str(s.name)), sh->nobs);
  sh->obs_sum += mix(m.obs, hash_bytes(m.path.c, sizeof(uint16_t) * m.path.len));
  if (r.diverged) {
    sh->diverged = 1;
    sh->stop = 1;
    return;
  }
  if (r.violated) {
    if (known_keys.count(r.key))
      sh->known++;
    else
      record_violation(m.path, r.key, r.msg);
  }
  if (sh->nsample < 3 && sh->execs % 97 == 1) {
    int k = sh->nsample++;
    if (k < 3) snprintf(sh->sample[k], sizeof sh->sample[k], "%s", choices_str(m).c_str());
  }
}

static Result run_one(const Scenario &s, Impl &m, const Path &p, Slot &slot) {
  slot.path = p;
  slot.since = now();
  slot.busy = 1;
  Result r;
  r = execute(s, m, p);
  slot.path = m.path;
  account(s, m, r);
  // Determinism: re-run a sample of the executions and compare observations.
  u64 n = sh->execs;
  if (!r.violated && !r.diverged && (n < 4 || n % 257 == 0)) {
    Impl *m2 = new Impl();
    Result r2 = execute(s, *m2, m.path);
    sh->rechecked++;
    if (r2.violated && !known_keys.count(r2.key)) record_violation(m.path, r2.key, r2.msg);
    if (m2->obs != m.obs) sh->recheck_bad++;
    delete m2;
  }
  slot.busy = 0;
  return r;
}

static void prep_child(const std::string &name) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  silence();
  enter_scratch(name);
}

// Breadth first expansion until there are enough independent subtrees.
static void scout(const Scenario &s, int target) {
  Impl *m = new Impl();
  std::deque<Path> q;
  Path root;
  root.len = 0;
  q.push_back(root);
  double t0 = now();
  while (!q.empty() && (int)q.size() < target && !sh->stop && (q.size() < (now() - t0 < 0.7 ? 48 : 8) || now() - t0 < 0.4)) {
    Path p = q.front();
    q.pop_front();
    run_one(s, *m, p, sh->slot[0]);
    if (m->diverged) break;
    for (int i = p.len; i < m->path.len; i++)
      for (int a = 1; a < m->width[i]; a++) {
        Path n = m->path;
        n.len = i + 1;
        n.c[i] = a;
        q.push_back(n);
      }
  }
  int k = 0;
  for (auto &p : q) {
    if (k >= MAXITEMS) {
      fprintf(stderr, "mc: too many items\n");
      _exit(3);
    }
    sh->items[k++] = p;
  }
  sh->nitems = k;
}

static void worker(const Scenario &s, int w) {
  Impl *m = new Impl();
  while (!sh->stop) {
    int it = sh->next_item++;
    if (it >= sh->nitems) break;
    Path p = sh->items[it];
    int fixed = p.len;
    for (;;) {
      run_one(s, *m, p, sh->slot[w]);
      if (sh->stop) break;
      // Next: increment the last choice that can be, beyond the fixed part.
      int i = m->path.len - 1;
      while (i >= fixed && m->path.c[i] + 1 >= m->width[i]) i--;
      if (i < fixed) break;
      p = m->path;
      p.len = i + 1;
      p.c[i]++;
    }
  }
}

// Isolation mode: every execution in its own process, forked from a pristine
// one.
static void worker_isolated(const Scenario &s, int w);

struct IsoShared {
  Path path;
  int width[MAXC];
  int state;  // 0 running, 1 ok, 2 violated, 3 diverged
  char key[128];
  char msg[1600];
  char trace[16384];
  u64 nsteps, nvalid, obs;
  int nstates;
  u64 states[4096];
};

static IsoShared *iso_alloc() {
  return (IsoShared *)mmap(nullptr, sizeof(IsoShared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}

// Runs one path in a fresh process. Returns the result; crash and hang are
// violations.
static Result isolated(const Scenario &s, const Path &p, const std::string &name, IsoShared *io, double limit,
                       bool replay, std::string *errout = nullptr) {
  memset((void *)io, 0, offsetof(IsoShared, states));
  std::string errf = scratch_base + "/iso-err-" + name;
  pid_t pid = fork();
  if (pid == 0) {
    setpgid(0, 0);
    prep_child("iso-" + name);
    int e = open(errf.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
    if (e >= 0) dup2(e, 2);
    Impl *m = new Impl();
    m->replay = replay;
    Result r = execute(s, *m, p);
    io->path = m->path;
    memcpy(io->width, m->width, sizeof m->width);
    snprintf(io->key, sizeof io->key, "%s", r.key.c_str());
    snprintf(io->msg, sizeof io->msg, "%s", r.msg.c_str());
    std::string t = choices_str(*m) + "\n";
    for (auto &n : m->notes) t += n + "\n";
    snprintf(io->trace, sizeof io->trace, "%s", t.c_str());
    io->nsteps = m->nsteps;
    io->nvalid = m->nvalid;
    io->obs = m->obs;
    io->nstates = std::min<size_t>(4096, m->states.size());
    for (int i = 0; i < io->nstates; i++) io->states[i] = m->states[i];
    io->state = r.diverged ? 3 : r.violated ? 2 : 1;
    _exit(0);
  }
  setpgid(pid, pid);
  double dl = now() + limit;
  int st = 0;
  bool hang = false;
  useconds_t nap = 100;
  while (waitpid(pid, &st, WNOHANG) == 0) {
    if (now() > dl) {
      hang = true;
      kill(-pid, SIGKILL);
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      break;
    }
    usleep(nap);
    if (nap < 5000) nap *= 2;
  }
  Result r;
  std::string err = read_tail(errf, 3000);
  unlink(errf.c_str());
  if (errout) *errout = err;
  if (io->state == 0) {
    r.violated = true;
    io->path = p;
    if (hang) {
      r.key = "hang";
      r.msg = fmt("no answer after %.0f s", limit);
    } else {
      r.key = "crash";
      r.msg = (WIFSIGNALED(st) ? "killed by signal " + std::to_string(WTERMSIG(st))
                               : "ended with status " + std::to_string(WEXITSTATUS(st))) +
              ": " + err.substr(0, 1200);
    }
  } else if (io->state == 2) {
    r.violated = true;
    r.key = io->key;
    r.msg = io->msg;
  } else if (io->state == 3)
    r.diverged = true;
  return r;
}

static double deadline_all = 1e18;

static void worker_isolated(const Scenario &s, int w) {
  IsoShared *io = iso_alloc();
  Impl *m = new Impl();
  while (!sh->stop) {
    int it = sh->next_item++;
    if (it >= sh->nitems) break;
    Path p = sh->items[it];
    int fixed = p.len;
    for (;;) {
      Result r = isolated(s, p, std::to_string(w), io, 60, false);
      m->path = io->path;
      for (int i = 0; i < MAXC; i++) m->label[i] = "";
      m->nsteps = io->nsteps;
      m->nvalid = io->nvalid;
      m->obs = io->obs;
      m->states.assign(io->states, io->states + io->nstates);
      account(s, *m, r);
      if (sh->stop || io->state == 0) break;
      int i = io->path.len - 1;
      while (i >= fixed && io->path.c[i] + 1 >= io->width[i]) i--;
      if (i < fixed) break;
      p = io->path;
      p.len = i + 1;
      p.c[i]++;
    }
  }
}

static void scout_isolated(const Scenario &s, int target) {
  IsoShared *io = iso_alloc();
  std::deque<Path> q;
  Path root;
  root.len = 0;
  q.push_back(root);
  Impl *m = new Impl();
  for (int i = 0; i < MAXC; i++) m->label[i] = "";
  double t0 = now();
  while (!q.empty() && (int)q.size() < target && !sh->stop && (q.size() < (now() - t0 < 0.7 ? 48 : 8) || now() - t0 < 0.4)) {
    Path p = q.front();
    q.pop_front();
    Result r = isolated(s, p, "scout", io, 60, false);
    m->path = io->path;
    m->nsteps = io->nsteps;
    m->nvalid = io->nvalid;
    m->obs = io->obs;
    m->states.assign(io->states, io->states + io->nstates);
    account(s, *m, r);
    if (io->state == 0) break;
    for (int i = p.len; i < io->path.len; i++)
      for (int a = 1; a < io->width[i]; a++) {
        Path n = io->path;
        n.len = i + 1;
        n.c[i] = a;
        q.push_back(n);
      }
  }
  int k = 0;
  for (auto &p : q)
    if (k < MAXITEMS) sh->items[k++] = p;
  sh->nitems = k;
}

struct Report {
  std::string scenario;
  u64 execs = 0, steps = 0, validated = 0, states = 0, outcomes = 0, known = 0, maxdepth = 0, rechecked = 0,
      recheck_bad = 0, digest = 0;
  bool exhaustive = true;
  bool isolated_mode = false;
  double secs = 0;
  std::vector<std::string> samples;
  bool violated = false;
  std::string vkey, vmsg, vtrace, verr;
  Path vpath;
  int unconfirmed = 0;
};

static void reset_shared() {
  // Fresh pages instead of clearing 64 MB.
  if (sh) munmap((void *)sh, sizeof(Shared));
  sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (sh == MAP_FAILED) {
    perror("mmap");
    exit(2);
  }
}

// Waits for the children; on a crash or a hang adds a candidate violation.
static void supervise(std::vector<std::pair<pid_t, int>> kids, double exec_limit, double budget_end, bool &capped) {
  while (!kids.empty()) {
    bool any = false;
    for (size_t i = 0; i < kids.size();) {
      int st;
      pid_t r = waitpid(kids[i].first, &st, WNOHANG);
      if (r == kids[i].first) {
        any = true;
        Slot &sl = sh->slot[kids[i].second];
        if (WIFSIGNALED(st) || WEXITSTATUS(st) != 0) {
          if (!sl.busy) {
            fprintf(stderr, "mc: worker failed outside an execution (status %x)\n", st);
            exit(2);
          }
          record_violation(sl.path, "crash", fmt("worker ended with status %x", st));
          sh->stop = 1;
        }
        kids.erase(kids.begin() + i);
        continue;
      }
      Slot &sl = sh->slot[kids[i].second];
      if (!isolation_mode && sl.busy && now() - sl.since > exec_limit) {
        kill(-kids[i].first, SIGKILL);
        kill(kids[i].first, SIGKILL);
      }
      i++;
    }
    if (now() > budget_end && !sh->stop) {
      capped = true;
      sh->stop = 1;
    }
    if (!any) usleep(2000);
  }
}

static Report explore(const Scenario &s, int W, double budget) {
  Report rep;
  rep.scenario = s.name;
  double t0 = now();
  IsoShared *io = iso_alloc();
  for (int mode = 0; mode < 2; mode++) {
    isolation_mode = mode == 1;
    reset_shared();
    bool capped = false;
    double end = now() + budget;
    pid_t pid = fork();
    if (pid == 0) {
      setpgid(0, 0);
      prep_child("w0");
      if (mode == 0)
        scout(s, 40 * W);
      else
        scout_isolated(s, 8 * W);
      _exit(0);
    }
    setpgid(pid, pid);
    supervise({{pid, 0}}, 30, end, capped);
    if (!sh->stop && sh->nitems > 0) {
      std::vector<std::pair<pid_t, int>> kids;
      for (int w = 0; w < W; w++) {
        pid_t k = fork();
        if (k == 0) {
          setpgid(0, 0);
          prep_child("w" + std::to_string(w));
          if (mode == 0)
            worker(s, w);
          else
            worker_isolated(s, w);
          _exit(0);
        }
        setpgid(k, k);
        kids.push_back({k, w});
      }
      supervise(kids, 30, end, capped);
    }
    rep.execs = sh->execs;
    rep.steps = sh->steps;
    rep.validated = sh->validated;
    rep.states = sh->nstates;
    rep.outcomes = sh->nobs;
    rep.known = sh->known;
    rep.maxdepth = sh->maxdepth;
    rep.rechecked = sh->rechecked;
    rep.recheck_bad = sh->recheck_bad;
    rep.digest = sh->obs_sum;
    rep.exhaustive = !capped && !sh->table_full;
    rep.isolated_mode = mode == 1;
    rep.samples.clear();
    for (int k = 0; k < 3 && k < sh->nsample; k++) rep.samples.push_back(sh->sample[k]);
    if (sh->diverged) {
      fprintf(stderr, "mc: scenario %s diverged while replaying a prefix\n", s.name.c_str());
      exit(2);
    }
    int nv = std::min<int>(sh->nviol, MAXVIOL);
    if (nv == 0) break;
    // Shortest first; confirm each alone in a fresh process.
    std::vector<int> ord;
    for (int i = 0; i < nv; i++)
      if (sh->viol[i].ready) ord.push_back(i);
    std::sort(ord.begin(), ord.end(), [](int a, int b) {
      const Path &x = sh->viol[a].path, &y = sh->viol[b].path;
      if (x.len != y.len) return x.len < y.len;
      return std::lexicographical_compare(x.c, x.c + x.len, y.c, y.c + y.len);
    });
    for (int i : ord) {
      Path p = sh->viol[i].path;
      std::string err;
      Result r = isolated(s, p, "confirm", io, 90, true, &err);
      if (r.diverged) continue;
      if (r.violated && !known_keys.count(r.key)) {
        Result r2 = isolated(s, p, "confirm", io, 90, true, &err);
        if (!r2.violated) continue;
        rep.violated = true;
        rep.vkey = r2.key;
        rep.vmsg = r2.msg;
        rep.vpath = io->path.len ? io->path : p;
        rep.vtrace = io->trace;
        rep.verr = err;
        break;
      }
      rep.unconfirmed++;
    }
    if (rep.violated) break;
    fprintf(stderr, "mc: scenario %s: %d candidate(s) not confirmed alone (first: %s: %s); exploring with one process per execution\n",
            s.name.c_str(), rep.unconfirmed, sh->viol[0].key, sh->viol[0].msg);
    if (mode == 1) break;
  }
  rep.secs = now() - t0;
  munmap((void *)io, sizeof(IsoShared));
  return rep;
}

static std::string json_str(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c == '\n')
      o += "\\n";
    else if (c < 32 || c > 126)
      o += fmt("\\u%04x", c);
    else
      o += c;
  }
  return o + "\"";
}

static int main_impl(int argc, char **argv) {
  std::string out, replay_scn, replay_choices, only;
  int W = 8;
  double budget = 200;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(argv[++i]); };
    if (a == "--thorough") thorough = true;
    else if (a == "--out") out = val();
    else if (a == "--workers") W = atoi(val().c_str());
    else if (a == "--budget") budget = atof(val().c_str());
    else if (a == "--known") known_keys.insert(val());
    else if (a == "--only") only = val();
    else if (a == "--replay") { replay_scn = val(); replay_choices = val(); }
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
  }
  if (W > MAXW) W = MAXW;
  const char *tmp = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
  std::string tpl = std::string(tmp) + "/mcXXXXXX";
  std::vector<char> tb(tpl.begin(), tpl.end());
  tb.push_back(0);
  if (!mkdtemp(tb.data())) {
    perror("mkdtemp");
    return 2;
  }
  scratch_base = tb.data();
  // Nothing of the caller's settings reaches the code under test.
  std::vector<std::string> del;
  for (char **e = environ; *e; e++)
    if (!strncmp(*e, "APOLLO_", 7)) del.push_back(std::string(*e).substr(0, strchr(*e, '=') - *e));
  for (auto &d : del) unsetenv(d.c_str());

  std::vector<Scenario> scn;
  scenarios(scn);
  int rc = 0;
  if (!replay_scn.empty()) {
    for (auto &s : scn)
      if (s.name == replay_scn) {
        Path p;
        p.len = 0;
        std::istringstream is(replay_choices);
        int v;
        while (is >> v) p.c[p.len++] = v;
        IsoShared *io = iso_alloc();
        std::string err;
        Result r = isolated(s, p, "replay", io, 90, true, &err);
        printf("scenario %s\n%s", s.name.c_str(), io->trace);
        if (r.violated) {
          printf("VIOLATED %s: %s\n", r.key.c_str(), r.msg.c_str());
          rc = 1;
        } else
          printf("%s\n", r.diverged ? "DIVERGED" : "held");
      }
    rm_rf(scratch_base, true);
    return rc;
  }
  std::string js = "{\"scenarios\": [";
  bool first = true;
  for (auto &s : scn) {
    if (!only.empty() && s.name.find(only) == std::string::npos) continue;
    Report r = explore(s, W, budget);
    fprintf(stderr, "  %-28s execs=%llu steps=%llu states=%llu outcomes=%llu depth=%llu %.1fs%s%s\n", s.name.c_str(),
            (unsigned long long)r.execs, (unsigned long long)r.steps, (unsigned long long)r.states,
            (unsigned long long)r.outcomes, (unsigned long long)r.maxdepth, r.secs, r.exhaustive ? "" : " CAPPED",
            r.violated ? " VIOLATED" : "");
    if (r.recheck_bad) fprintf(stderr, "  note: %llu of %llu re-executions observed differently\n", (unsigned long long)r.recheck_bad, (unsigned long long)r.rechecked);
    js += std::string(first ? "" : ",") + "\n {\"name\": " + json_str(r.scenario);
    first = false;
    js += fmt(", \"executions\": %llu, \"steps\": %llu, \"validated\": %llu, \"states\": %llu, \"outcomes\": %llu, "
              "\"known\": %llu, \"max_choices\": %llu, \"reexecuted\": %llu, \"reexecuted_different\": %llu, "
              "\"digest\": \"%016llx\", \"exhaustive\": %s, \"isolated\": %s, \"secs\": %.2f",
              (unsigned long long)r.execs, (unsigned long long)r.steps, (unsigned long long)r.validated,
              (unsigned long long)r.states, (unsigned long long)r.outcomes, (unsigned long long)r.known,
              (unsigned long long)r.maxdepth, (unsigned long long)r.rechecked, (unsigned long long)r.recheck_bad,
              (unsigned long long)r.digest, r.exhaustive && !r.violated ? "true" : "false", r.isolated_mode ? "true" : "false", r.secs);
    js += ", \"samples\": [";
    for (size_t i = 0; i < r.samples.size(); i++) js += (i ? ", " : "") + json_str(r.samples[i]);
    js += "]";
    if (r.violated) {
      js += ", \"violation\": {\"key\": " + json_str(r.vkey) + ", \"message\": " + json_str(r.vmsg) + ", \"choices\": \"";
      for (int i = 0; i < r.vpath.len; i++) js += (i ? " " : "") + std::to_string(r.vpath.c[i]);
      js += "\", \"trace\": " + json_str(r.vtrace) + ", \"stderr\": " + json_str(r.verr) + "}";
      rc = 1;
    }
    js += "}";
    if (rc) break;  // one confirmed violation decides
  }
  js += "\n]}\n";
  if (!out.empty()) {
    std::ofstream f(out);
    f << js;
  }
  rm_rf(scratch_base, true);
  return rc;
}

}  // namespace mc

extern "C" const char *__asan_default_options() {
  return "exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:detect_odr_violation=0:"
         "handle_abort=0:max_malloc_fill_size=1048576:malloc_fill_byte=190:quarantine_size_mb=8";
}

namespace mc {
__attribute__((weak)) void program() {}  // a program of the harness, run instead of the explorer
}

__attribute__((weak)) int main(int argc, char **argv) {
  if (getenv("MC_PROGRAM")) mc::program();
  int rc = mc::main_impl(argc, argv);
  fflush(stdout);
  fflush(stderr);
  _exit(rc);
}
