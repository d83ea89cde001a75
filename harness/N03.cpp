// PARTS: 4
#include "ga.hpp"
static double choose(int n, int k) {
  double r = 1;
  for (int i = 1; i <= k; i++) r = r * (n - k + i) / i;
  return std::round(r);
}
// every column is a lattice point of the simplex scaled by `scale`; returns the set of lattice points
template <class M>
std::set<std::vector<int>> layer(const M &w, int from, int to, int m, int p, double scale) {
  std::set<std::vector<int>> got;
  for (int c = from; c < to; c++) {
    std::vector<int> q;
    int sum = 0;
    for (int r = 0; r < m; r++) {
      double x = w(r, c) / scale * p, n = std::round(x);
      REQ(std::fabs(x - n) < 1e-9, "component %.17g of direction %d is no multiple of 1/%d", w(r, c) / scale, c, p);
      REQ(n >= 0 && w(r, c) >= -1e-15, "negative component %g", w(r, c));
      q.push_back(int(n)), sum += int(n);
    }
    REQ(sum == p, "components of direction %d sum to %d/%d", c, sum, p);
    REQ(got.insert(q).second, "direction %d repeated", c);
  }
  return got;
}
template <int N>
void single(int m, int p) {
  NSGA3<VD, N> s;
  if constexpr (N == Eigen::Dynamic) s.setObjectiveNum(m);
  s.setReferencePointPrecision(p);
  s.setiFun(Fn<VD, FA<VD, N>>::ini);
  GAOption o;
  o.populationSize = 3;
  s.setOption(o);
  ctx = fmt("%d objectives, precision %d%s", m, p, N == Eigen::Dynamic ? " (run-time)" : "");
  const size_t want = size_t(choose(p + m - 1, p));
  REQ(s.referencePointCount() == want, "announced %zu of %zu", s.referencePointCount(), want);
  for (int again = 0; again < 2; again++) {
    s.initializePop();
    auto &w = s.referencePoints();
    REQ(w.rows() == m && size_t(w.cols()) == want, "%d x %d directions, %zu wanted", int(w.rows()), int(w.cols()), want);
    if (w.rows() != m) return;
    REQ(layer(w, 0, int(w.cols()), m, p, 1).size() == want, "set incomplete");
  }
  REQ(s.referencePointPrecision() == size_t(p), "precision");
  count(hmix(m, p), ctx);
}
template <int N>
void twice(int m, int pi, int po) {
  NSGA3<VD, N, DONT_RECORD_FITNESS, DOUBLE_LAYER> s;
  if constexpr (N == Eigen::Dynamic) s.setObjectiveNum(m);
  s.setReferencePointPrecision(pi, po);
  s.setiFun(Fn<VD, FA<VD, N>>::ini);
  GAOption o;
  o.populationSize = 3;
  s.setOption(o);
  ctx = fmt("%d objectives, inner precision %d, outer %d%s", m, pi, po, N == Eigen::Dynamic ? " (run-time)" : "");
  size_t in = size_t(choose(pi + m - 1, pi)), out = size_t(choose(po + m - 1, po));
  REQ(s.referencePointCount() == in + out, "announced %zu of %zu", s.referencePointCount(), in + out);
  s.initializePop();
  const auto &w0 = s.referencePoints();
  REQ(w0.rows() == m && size_t(w0.cols()) == in + out, "%d x %d directions", int(w0.rows()), int(w0.cols()));
  if (w0.rows() != m || size_t(w0.cols()) != in + out) return;
  // inner directions sum to 1/sqrt 2, outer ones to 1; order does not matter
  Eigen::ArrayXXd w(m, w0.cols());
  int a = 0, b = int(in);
  for (int c = 0; c < w0.cols(); c++) {
    bool inner = std::fabs(w0.col(c).sum() - std::sqrt(0.5)) < 1e-9;
    REQ(inner || std::fabs(w0.col(c).sum() - 1) < 1e-9, "direction sums to %.17g", w0.col(c).sum());
    if (inner ? a >= int(in) : b >= int(in + out)) {
      REQ(false, "wrong number of inner or outer directions");
      return;
    }
    w.col(inner ? a++ : b++) = w0.col(c);
  }
  REQ(layer(w, 0, int(in), m, pi, std::sqrt(0.5)).size() == in, "inner set incomplete");
  REQ(layer(w, int(in), int(in + out), m, po, 1).size() == out, "outer set incomplete");
  REQ(s.innerPrecision() == size_t(pi) && s.outerPrecision() == size_t(po), "precisions");
  count(hmix(hmix(m, pi), po), ctx);
}
static const int cap() { return thorough ? 60000 : 6000; }
CASE("single layer, run-time objectives") {
  for (int m = 2; m <= 12; m++)
    for (int p = 1; p <= 60 && choose(p + m - 1, p) <= cap(); p++) single<Eigen::Dynamic>(m, p);
}
template <int N>
void fixedS() {
  for (int p = 1; p <= 60 && choose(p + N - 1, p) <= cap(); p++) single<N>(N, p);
}
CASE("single layer, fixed objectives") { fixedS<2>(), fixedS<3>(), fixedS<4>(), fixedS<5>(), fixedS<8>(); }
CASE("two layers, run-time objectives") {
  for (int m = 2; m <= 8; m++)
    for (int p = 2; p <= 12; p++)
      for (int q = 2; q <= 12 && choose(p + m - 1, p) + choose(q + m - 1, q) <= cap(); q++) twice<Eigen::Dynamic>(m, p, q);
}
template <int N>
void fixedD() {
  for (int p = 2; p <= 12; p++)
    for (int q = 2; q <= 12 && choose(p + N - 1, p) + choose(q + N - 1, q) <= cap(); q++) twice<N>(N, p, q);
}
CASE("two layers, fixed objectives") { fixedD<2>(), fixedD<3>(), fixedD<4>(), fixedD<6>(); }
