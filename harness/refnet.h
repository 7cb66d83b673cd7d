// Reference of the policy network, written from its description: bit-encoded
// features, two rectified hidden layers, softmax, policy gradient with a
// bias-corrected moving-average baseline, Adam.
#pragma once
#include "world.h"

namespace w {
struct RefNet {
  int F, P, H;
  double lr = 1e-2, beta = .5, beta1 = .5, beta2 = .9, threshold = 0;
  double avg = 0;
  int count = 0;
  long adam = 0;
  struct Layer {
    int in, out;
    std::vector<double> w, b, mw, vw, mb, vb;
    void init(int i, int o) {
      in = i;
      out = o;
      w.assign(i * o, 0);
      b.assign(o, 0);
      mw = vw = w;
      mb = vb = b;
    }
  } L[3];
  RefNet(int F, int P) : F(F), P(P), H((64 * F + P) / 2) {
    L[0].init(64 * F, H);
    L[1].init(H, H);
    L[2].init(H, P);
  }
  size_t params() const {
    size_t n = 0;
    for (auto &l : L) n += l.w.size() + l.b.size();
    return n;
  }
  // Weights and biases of a stored network; false if the file has another form.
  bool read(const std::string &file) {
    std::string s = read_file(file);
    if (s.size() != 8 * params() + 8 + 4) return false;
    const char *p = s.data();
    auto get = [&](std::vector<double> &v) {
      memcpy(v.data(), p, 8 * v.size());
      p += 8 * v.size();
    };
    for (auto &l : L) get(l.w), get(l.b);
    memcpy(&avg, p, 8);
    memcpy(&count, p + 8, 4);
    return true;
  }
  // The largest difference of parameters (relative to 1 + their size).
  double distance(const RefNet &o) const {
    double d = 0;
    auto cmp = [&](const std::vector<double> &a, const std::vector<double> &b) {
      for (size_t i = 0; i < a.size(); i++) {
        double e = std::fabs(a[i] - b[i]) / (1 + std::fabs(b[i]));
        if (!(e <= d)) d = std::isnan(e) ? 1e300 : e;
      }
    };
    for (int i = 0; i < 3; i++) cmp(L[i].w, o.L[i].w), cmp(L[i].b, o.L[i].b);
    return d;
  }
  static std::vector<double> encode(const Feat &f) {
    std::vector<double> x;
    for (float v : f) {
      uint64_t u = (uint64_t)v;
      for (int i = 0; i < 64; i++) x.push_back((u >> i) & 1);
    }
    return x;
  }
  static std::vector<double> lin(const Layer &l, const std::vector<double> &x) {
    std::vector<double> y(l.b);
    for (int j = 0; j < l.out; j++)
      for (int k = 0; k < l.in; k++) y[j] += l.w[j * l.in + k] * x[k];
    return y;
  }
  static std::vector<double> relu(std::vector<double> v) {
    for (double &x : v) x = x > 0 ? x : 0;
    return v;
  }
  static std::vector<double> softmax(std::vector<double> v) {
    double m = *std::max_element(v.begin(), v.end()), s = 0;
    for (double &x : v) s += x = std::exp(x - m);
    for (double &x : v) x /= s;
    return v;
  }
  std::vector<double> probs(const Feat &f) const {
    return softmax(lin(L[2], relu(lin(L[1], relu(lin(L[0], encode(f)))))));
  }
  double baseline() const { return count > 0 ? avg / (1 - std::pow(beta, count)) : 0; }
  // Selections are policy 0, no updates.
  bool off() const { return baseline() < threshold; }

  void train(const RefData &d) {
    if (d.d.empty()) return;
    double n = (double)d.d.size(), sum = 0;
    for (auto &e : d.d) sum += std::exp(-e.second);
    avg = beta * avg + (1 - beta) * sum / n;
    count++;
    if (off()) return;
    double base = baseline();
    std::vector<double> gw[3], gb[3];
    for (int i = 0; i < 3; i++) gw[i].assign(L[i].w.size(), 0), gb[i].assign(L[i].b.size(), 0);
    for (auto &e : d.d) {
      std::vector<double> x[3], z[3];
      x[0] = encode(e.first.first);
      for (int i = 0; i < 3; i++) {
        z[i] = lin(L[i], x[i]);
        if (i < 2) x[i + 1] = relu(z[i]);
      }
      std::vector<double> g = softmax(z[2]);
      double r = (std::exp(-e.second) - base) / n;
      for (int j = 0; j < P; j++) g[j] = r * ((j == e.first.second ? 1 : 0) - g[j]);
      for (int i = 2; i >= 0; i--) {
        std::vector<double> back(L[i].in, 0);
        for (int j = 0; j < L[i].out; j++) {
          gb[i][j] += g[j];
          for (int k = 0; k < L[i].in; k++) {
            gw[i][j * L[i].in + k] += g[j] * x[i][k];
            back[k] += g[j] * L[i].w[j * L[i].in + k];
          }
        }
        if (i > 0)
          for (int k = 0; k < L[i].in; k++)
            if (z[i - 1][k] < 0) back[k] = 0;
        g = back;
      }
    }
    adam++;
    auto up = [&](std::vector<double> &w, std::vector<double> &m, std::vector<double> &v, const std::vector<double> &g) {
      for (size_t i = 0; i < w.size(); i++) {
        m[i] = beta1 * m[i] + (1 - beta1) * g[i];
        v[i] = beta2 * v[i] + (1 - beta2) * g[i] * g[i];
        double mh = m[i] / (1 - std::pow(beta1, adam)), vh = v[i] / (1 - std::pow(beta2, adam));
        w[i] += lr * mh / (std::sqrt(vh) + 1e-8);
      }
    };
    for (int i = 0; i < 3; i++) up(L[i].w, L[i].mw, L[i].vw, gw[i]), up(L[i].b, L[i].mb, L[i].vb, gb[i]);
  }
};

// Draws n selections and compares their frequencies with the probabilities
// (6 standard deviations). Empty string if they agree.
template <class Select>
std::string frequencies(const std::vector<double> &p, int n, Select select) {
  std::vector<int> k(p.size(), 0);
  for (int i = 0; i < n; i++) {
    int s = select();
    if (s < 0 || s >= (int)p.size()) return mc::fmt("selects %d of %zu policies", s, p.size());
    k[s]++;
  }
  for (size_t i = 0; i < p.size(); i++) {
    double f = (double)k[i] / n, tol = 6 * std::sqrt(p[i] * (1 - p[i]) / n) + 6.0 / n;
    if (std::fabs(f - p[i]) > tol) return mc::fmt("policy %zu was selected with frequency %.4f, its probability is %.4f", i, f, p[i]);
  }
  return "";
}
}  // namespace w
