// C15: single-model training shares one model learned from all regions.
#include "world.h"
using namespace mc;
using namespace w;

namespace {
const char *NAMES[] = {"m", "b", "z"};  // creation order is not name order

struct Sim {
  Ctx &c;
  std::string info, kind;
  int F, P, R, gp;
  bool persistent;
  World w;
  std::vector<Apollo::Region *> r;
  std::vector<std::unique_ptr<apollo::PolicyModel>> shadow;
  std::vector<RefData> data;
  bool trained = false;
  RefData last;  // what the model was trained on last
  int E = 0;

  static Env env(int gp, bool persistent) {
    Env e{{"SINGLE_MODEL", "1"}, {"REGION_MODEL", "0"}};
    if (gp) e["GLOBAL_TRAIN_PERIOD"] = std::to_string(gp);
    if (persistent) e["PERSISTENT_DATASETS"] = "1";
    return e;
  }
  Sim(Ctx &c, const std::string &info, int F, int P, int R, int gp, bool persistent)
      : c(c), info(info), kind(info.substr(0, info.find(','))), F(F), P(P), R(R), gp(gp), persistent(persistent), w(env(gp, persistent)), data(R) {
    for (int i = 0; i < R; i++) {
      set_random({23});
      r.push_back(new Apollo::Region(F, NAMES[i], P, 0, info));
      set_random({23});
      std::unordered_map<std::string, std::string> pm;
      if (kind == "RandomForest") pm = {{"num_trees", "3"}, {"max_depth", "9"}};
      if (kind == "DecisionTree") pm = {{"max_depth", "9"}};
      shadow.push_back(apollo::ModelFactory::createPolicyModel(kind, F, P, pm));
    }
  }
  bool frozen() { return trained && kind != "PolicyNet"; }
  void ref_train() {
    RefData m;
    std::map<std::string, int> order;
    for (int i = 0; i < R; i++) order[NAMES[i]] = i;
    for (auto &e : order) m.merge(data[e.second]);
    if (m.d.empty()) return;
    Apollo::Dataset d;
    for (auto &e : m.d) {
      Feat f = e.first.first;
      d.insert(f, e.first.second, e.second);
    }
    for (auto &s : shadow) s->train(d);
    trained = true;
    last = m;
  }
  void exec(int i, const Feat &f, double base) {
    Feat g = f, h = f;
    auto *x = r[i]->begin(g);
    int p = r[i]->getPolicyIndex(x), e = shadow[i]->getIndex(h);
    c.check(p == e, "selection", fmt("region %s selects %d for %s, expected %d (%s)", NAMES[i], p, str(f).c_str(), e, trained ? "trained" : "exploring"));
    double m = base + (p + i + (int)f[0]) % 3;
    r[i]->end(x, m);
    if (persistent || !frozen()) data[i].insert(f, p, m);
    E++;
    if (!frozen() && gp && E % gp == 0) ref_train();
    c.step();
  }
  void train(int step) {
    w->train(step);
    ref_train();
    c.step();
  }
  void compare(const std::string &when) {
    for (int i = 0; i < R; i++) {
      std::string e = diff_tol(data[i], r[i]->dataset, 1e-12);
      c.check(e.empty(), "dataset", when + ", region " + NAMES[i] + ": " + e);
      c.check(r[i]->model->isTrainable() == !frozen(), "trained", when + fmt(": region %s is %s", NAMES[i], frozen() ? "not trained" : "trained on nothing"));
    }
    c.validated();
    u64 h = trained;
    for (auto &d : data) h = mix(h, d.hash());
    c.state(h);
  }
  // All regions select what the merged measurements imply.
  void probe(const std::string &when) {
    if (!trained) return;
    auto best = last.best();
    std::vector<Feat> ps;
    if (F == 1)
      for (float v : {-4.f, 0.f, 0.25f, 0.75f, 1.f, 1.25f, 2.f, 3.f, 77.f}) ps.push_back({v});
    else ps = product({0, 0.75f, 1, 2, 9}, F);
    for (auto &f : ps) {
      int first = -1;
      for (int i = 0; i < R; i++) {
        Feat a = f, b = f;
        int p = r[i]->model->getIndex(a), e = shadow[i]->getIndex(b);
        c.check(p == e, "selection", fmt("%s: region %s selects %d for %s, the merged measurements %s imply %d", when.c_str(), NAMES[i], p, str(f).c_str(), last.str().c_str(), e));
        if (first < 0) first = p;
        if (kind != "PolicyNet") c.check(p == first, "not-shared", fmt("%s: region %s selects %d for %s, another %d", when.c_str(), NAMES[i], p, str(f).c_str(), first));
        if (kind == "DecisionTree") {
          if (F == 1) c.check(p == nearest(best, f[0]), "selection", fmt("%s: %g selects %d, expected %d from %s", when.c_str(), f[0], p, nearest(best, f[0]), last.str().c_str()));
          else if (best.count(f)) c.check(p == best[f], "selection", fmt("%s: %s selects %d, best is %d", when.c_str(), str(f).c_str(), p, best[f]));
        }
        c.obs(p);
      }
    }
  }
};

const std::vector<std::string> KINDS{"DecisionTree,max_depth=9", "RandomForest,num_trees=3,max_depth=9", "PolicyNet"};

// Every history of executions and trainings of two or three regions.
void histories(Ctx &c) {
  int k = c.choose(3, "model");
  int gp = c.choose(4, "period");
  bool persistent = c.flip("persistent");
  int R = 2 + c.choose(2, "regions");
  int P = k == 0 && R == 3 ? 2 - c.choose(2, "policies") : 2;
  Sim s(c, KINDS[k], 1, P, R, gp, persistent);
  int n = (k == 0 ? 5 : k == 1 ? 4 : 3) + (thorough ? 1 : 2 - R);
  for (int i = 0; i < n; i++) {
    int op = c.choose(2 * R + 1, "op");
    if (op == 2 * R) s.train(i), c.note("train");
    else s.exec(op / 2, {(float)(1 + op % 2)}, 1 + i * 0.25), c.note(fmt("execute %s [%d]", NAMES[op / 2], 1 + op % 2));
    s.compare(fmt("step %d", i));
  }
  s.probe("at the end");
  c.state(hash_str(s.last.str()));
}

// Every distribution of measurements over regions.
void tables(Ctx &c) {
  int F = 1 + c.choose(2, "features");
  int k = c.choose(2, "model");
  int R = 2;
  Sim s(c, KINDS[k], F, 3, R, 0, false);
  // cells: (feature value, policy) pairs; each region has none, a low or a high value
  std::vector<Feat> fs = F == 1 ? std::vector<Feat>{{0}, {1}} : std::vector<Feat>{{0, 1}, {1, 0}};
  for (int i = 0; i < R; i++)
    for (auto &f : fs)
      for (int p = 0; p < 2; p++) {
        int v = c.choose(thorough ? 4 : 3, "value");
        if (!v) continue;
        double m = v == 1 ? 1.0 : v == 2 ? 2.0 : 1.5;
        Feat g = f;
        s.r[i]->dataset.insert(g, p + (i && p), m);
        s.data[i].insert(f, p + (i && p), m);
      }
  s.compare("before");
  s.train(0);
  s.compare("after");
  s.probe("after");
  if (c.flip("again")) {
    s.train(1);
    s.compare("again");
    s.probe("again");
  }
}

// Many measurements, of regions that know different parts of the features.
void large(Ctx &c) {
  int k = c.choose(2, "model"), R = 2 + c.choose(2, "regions"), N = c.pick(std::vector<int>{20, 60, 150, 400}, "measurements");
  bool overlap = c.flip("overlapping");
  Sim s(c, KINDS[k], 1, 3, R, 0, false);
  for (int i = 0; i < R; i++)
    for (int j = 0; j < N; j++) {
      Feat f{(float)((overlap ? j + i * N / 2 : i * N + j) * (75.0 / (R * N)))}, g = f;
      int p = (i + j % 2) % 3;
      double m = j % 2 ? 5.0 + i : 1.0 + 0.5 * i;
      s.r[i]->dataset.insert(g, p, m);
      s.data[i].insert(f, p, m);
    }
  // every other one is only known to be slow with another policy
  for (int i = 0; i < R; i++)
    for (auto &e : RefData(s.data[i]).d) {
      Feat f = e.first.first;
      s.r[i]->dataset.insert(f, i, 0.5);
      s.data[i].insert(e.first.first, i, 0.5);
    }
  s.compare("before");
  s.train(0);
  s.compare("after");
  s.probe("after");
}
}  // namespace

void mc::scenarios(std::vector<Scenario> &out) {
  out.push_back({"histories", histories});
  out.push_back({"tables", tables});
  out.push_back({"large", large});
}
