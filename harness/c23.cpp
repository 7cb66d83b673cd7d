// C23: settings are honoured and only the requested outputs are written.
#include "world.h"
using namespace mc;
using namespace w;

namespace {
bool loud(const Outcome &o) { return o.loud() || (o.kind == Outcome::EXIT && o.code != 0); }

// All combinations of the training and model scopes, given or not.
void scopes(Ctx &c) {
  const char *names[4] = {"COLLECTIVE_TRAINING", "LOCAL_TRAINING", "SINGLE_MODEL", "REGION_MODEL"};
  int def[4] = {0, 1, 0, 1}, v[4];
  Env e;
  std::string s;
  for (int i = 0; i < 4; i++) {
    int k = c.choose(3, names[i]);
    v[i] = k == 2 ? def[i] : k;
    if (k < 2) e[names[i]] = std::to_string(k), s += fmt(" %s=%d", names[i], k);
  }
  bool ok = !v[0] && v[1] && (v[2] != v[3]);  // collective training needs MPI
  if (!ok) {  // rejected at start, not somewhere later
    Outcome s0 = forked([&](std::string &out) {
      World w(e);
      out = "started";
    });
    c.check(loud(s0), "accepted-at-start", "settings" + s + " are contradictory: " + s0.str());
  }
  Outcome o = forked([&](std::string &out) {
    World w(e);
    auto *r = new Apollo::Region(1, "r", 2, 0, "DecisionTree");
    exec(r, {1}, 1);
    w->train(0);
    out = "fine";
  });
  c.step();
  if (ok) c.check(o.ok() && o.out == "fine", "rejected", "settings" + s + ": " + o.str());
  else c.check(loud(o), "accepted", "settings" + s + " are contradictory: " + o.str());
  c.validated();
  c.state(hash_str(s));
  c.obs(ok);
}

// Values that are no numbers, directories that cannot be made.
void invalid(Ctx &c) {
  static const std::vector<std::string> numeric{"COLLECTIVE_TRAINING", "LOCAL_TRAINING", "SINGLE_MODEL", "REGION_MODEL", "GLOBAL_TRAIN_PERIOD", "PER_REGION_TRAIN_PERIOD", "TRACE_POLICY", "STORE_MODELS", "TRACE_BEST_POLICIES", "TRACE_CSV", "PERSISTENT_DATASETS", "STORE_EXEC_INFO", "TRACE_RETRAIN", "TRACE_ALLGATHER", "RETRAIN_ENABLE", "RETRAIN_TIME_THRESHOLD", "RETRAIN_REGION_THRESHOLD"};
  int k = c.choose((int)numeric.size() + 9, "setting");
  Env e;
  std::string what;
  if (k < (int)numeric.size()) {
    std::string bad = c.pick(std::vector<std::string>{"on", "x1", ","}, "value");
    e[numeric[k]] = bad;
    what = numeric[k] + "=" + bad;
  } else {
    int d = k - (int)numeric.size();
    e["OUTPUT_DIR"] = d == 0 ? "file/out" : d == 4 ? "file" : d == 8 ? "none/out" : "out";
    if (d == 1) e["MODELS_DIR"] = "../file/m", e["STORE_MODELS"] = "1";
    if (d == 2) e["TRACES_DIR"] = "../file/t", e["TRACE_CSV"] = "1";
    if (d == 3) e["DATASETS_DIR"] = "../file/d", e["PERSISTENT_DATASETS"] = "1";
    if (d == 5) e["MODELS_DIR"] = "../file", e["STORE_MODELS"] = "1";
    if (d == 6) e["TRACES_DIR"] = "../file", e["TRACE_CSV"] = "1";
    if (d == 7) e["DATASETS_DIR"] = "../file", e["PERSISTENT_DATASETS"] = "1";
    what = fmt("impossible directory %d", d);
  }
  Outcome o = forked([&](std::string &out) {
    write_file("file", "");
    World w(e);
    out = "started";
  });
  c.step();
  c.check(loud(o), "accepted", what + ": " + o.str());
  c.validated();
  c.obs(k);
  c.state(k);
}

struct Out {
  std::set<std::string> files;
  std::string log;
  int selections = 0;
  std::map<std::string, RefData> at_training;  // by best-policies file
};

// A short run; returns what it must leave behind.
Out run(const Env &env, int shape, const std::string &model, bool single, const std::string &out, const std::string &mdir, const std::string &ddir, const std::string &tdir) {
  auto on = [&](const char *k) { return env.count(k) && env.at(k) == "1"; };
  Out o;
  std::string kind = model.substr(0, model.find(','));
  bool learns = kind == "DecisionTree" || kind == "RandomForest" || kind == "PolicyNet";
  std::vector<std::string> names{"a", "b b"};
  if (shape == 0) names.clear();
  if (shape == 1) names = {"a"};
  {
    World w(env);
    std::vector<Apollo::Region *> r;
    std::vector<RefData> data(names.size());
    std::vector<bool> trained(names.size());
    for (auto &n : names) {
      set_random({4, 5, 6});
      r.push_back(new Apollo::Region(1, n.c_str(), 2, 0, model));
    }
    auto train = [&](size_t k, int step) {
      if (!learns || single || data[k].d.empty() || (trained[k] && kind != "PolicyNet")) return;
      trained[k] = true;
      if (on("STORE_MODELS"))
        for (auto s : {fmt("step-%d", step), std::string("latest")}) o.files.insert(out + "/" + mdir + "/" + kind + "-" + s + "-rank-0-" + names[k] + ".yaml");
      if (on("TRACE_BEST_POLICIES")) {
        std::string f = fmt("step-%d-rank-0-%s-best_policies.txt", step, names[k].c_str());
        o.files.insert(f);
        o.at_training[f] = data[k];
      }
    };
    if (shape >= 2)
      for (int i = 0; i < 6; i++) {
        size_t k = shape == 2 ? 0 : i % 2;
        Feat f{(float)(1 + i / 3)};
        int p = exec(r[k], f, 1.0 + i * 5 % 3);
        o.selections++;
        o.log += fmt("%d ", p);
        // the data recorded up to the training matter here only
        if (!trained[k]) data[k].insert(f, p, 1.0 + i * 5 % 3);
        if (shape == 3 && i == 2) {
          w->train(11);
          for (size_t q = 0; q < r.size(); q++) train(q, 11);
        }
        if (shape == 4 && i == 3 && !single) {
          r[1]->train(5);
          train(1, 5);
        }
      }
    w->train(12);
    for (size_t q = 0; q < r.size(); q++) train(q, 12);
    for (auto *x : r)
      for (float v : {0.f, 1.f, 1.5f, 3.f}) {
        Feat f{v};
        o.log += fmt("%d ", x->model->getIndex(f));
      }
    if (on("TRACE_POLICY") && o.selections) o.files.insert("rank-0-policies.txt");
    if (on("STORE_EXEC_INFO")) o.files.insert(out + "/apollo_exec_info.csv");
    if (on("TRACE_CSV")) {
      o.files.insert(out + "/" + tdir + "/trace-rank-0.csv");
      for (auto &n : names) o.files.insert(out + "/" + tdir + "/trace-" + model + "-region-" + n + "-rank-0.csv");
    }
    if (on("PERSISTENT_DATASETS"))
      for (auto &n : names) o.files.insert(out + "/" + ddir + "/Dataset-" + n + ".yaml");
  }
  return o;
}

void outputs(Ctx &c) {
  static const char *flags[] = {"STORE_MODELS", "PERSISTENT_DATASETS", "TRACE_CSV", "STORE_EXEC_INFO", "TRACE_POLICY", "TRACE_BEST_POLICIES"};
  std::string model = c.pick(std::vector<std::string>{"DecisionTree,max_depth=3", "RoundRobin", "RandomForest,num_trees=2", "PolicyNet"}, "model");
  int shape = c.choose(5, "run");
  bool single = model != "RoundRobin" && c.flip("single model");
  int dirs = c.choose(4, "directories");
  Env base;
  if (single) base["SINGLE_MODEL"] = "1", base["REGION_MODEL"] = "0";
  std::string out = ".apollo", m = "models", d = "datasets", t = "traces";
  if (dirs == 1 || dirs == 2) base["OUTPUT_DIR"] = out = "some where";
  if (dirs == 2 || dirs == 3) {
    base["MODELS_DIR"] = m = "m";
    base["DATASETS_DIR"] = d = "d.d";
    base["TRACES_DIR"] = t = "t";
  }
  Env e = base;
  for (auto *f : flags) {
    int v = c.choose(2, f);
    if (v) e[f] = "1";
    else if (dirs == 0) e[f] = "0";
  }
  bool existing = dirs == 1;
  Out plain = run(base, shape, model, single, out, m, d, t);
  clean_scratch();
  if (existing) mkdirs(out + "/" + m), mkdirs(out + "/" + d), mkdirs(out + "/" + t);
  Out o = run(e, shape, model, single, out, m, d, t);
  c.step(2 + o.selections);
  auto files = tree(".");
  std::set<std::string> got(files.begin(), files.end());
  std::string s;
  for (auto &f : got)
    if (!o.files.count(f)) s += " unexpected \"" + f + "\"";
  for (auto &f : o.files)
    if (!got.count(f)) s += " missing \"" + f + "\"";
  if (!existing)
    for (auto &x : std::map<std::string, const char *>{{m, "STORE_MODELS"}, {d, "PERSISTENT_DATASETS"}, {t, "TRACE_CSV"}})
      if (!(e.count(x.second) && e.at(x.second) == "1") && exists(out + "/" + x.first)) s += " unexpected directory \"" + out + "/" + x.first + "\"";
  c.check(s.empty(), "files", "written:" + s);
  c.check(o.log == plain.log, "influence", "selections without outputs " + plain.log + ", with them " + o.log);
  // The diagnostics say what happened.
  if (o.files.count("rank-0-policies.txt")) {
    std::istringstream is(read_file("rank-0-policies.txt"));
    int n = 0;
    std::string sel;
    for (std::string l; std::getline(is, l);) {
      n++;
      size_t p = l.rfind("policy ");
      if (p != std::string::npos) sel += l.substr(p + 7) + " ";
    }
    c.check(n == o.selections && o.log.compare(0, sel.size(), sel) == 0, "policy-trace", fmt("%d lines for %d selections: ", n, o.selections) + sel + " instead of " + o.log);
  }
  for (auto &b : o.at_training) {
    std::istringstream is(read_file(b.first));
    std::string ps, want;
    for (std::string l; std::getline(is, l);) {
      size_t p = l.find("] P:");
      if (p != std::string::npos) ps += fmt("%d ", atoi(l.c_str() + p + 4));
    }
    for (auto &x : b.second.best()) want += fmt("%d ", x.second);
    c.check(ps == want || model == "PolicyNet", "best-policies", b.first + ": " + ps + " instead of " + want);
  }
  c.validated();
  u64 h = 0;
  for (auto &f : got) h = mix(h, hash_str(f));
  c.state(h);
  c.obs(h);
}
}  // namespace

void mc::scenarios(std::vector<Scenario> &out) {
  out.push_back({"scopes", scopes});
  out.push_back({"invalid", invalid});
  out.push_back({"outputs", outputs});
}
