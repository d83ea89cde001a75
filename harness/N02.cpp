// PARTS: 8
#include "mo.hpp"
// A reference version of the normalization and association; the niching itself is judged by what it has to satisfy.
typedef std::vector<std::vector<double>> Mat;
// Gaussian elimination with full pivoting: determinant, smallest and largest pivot, and the solution of A^T y = 1
static double solve(const Mat &P, std::vector<double> &y, double &pmin, double &pmax) {
  int n = int(P.size());
  Mat A(n, std::vector<double>(n + 1, 1));
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) A[i][j] = P[j][i];
  std::vector<int> col(n);
  for (int i = 0; i < n; i++) col[i] = i;
  double det = 1;
  pmin = HUGE_VAL, pmax = 0;
  for (int k = 0; k < n; k++) {
    int a = k, b = k;
    for (int i = k; i < n; i++)
      for (int j = k; j < n; j++)
        if (std::fabs(A[i][j]) > std::fabs(A[a][b])) a = i, b = j;
    if (a != k) std::swap(A[a], A[k]), det = -det;
    if (b != k) {
      for (auto &r : A) std::swap(r[b], r[k]);
      std::swap(col[b], col[k]);
      det = -det;
    }
    double p = A[k][k];
    det *= p, pmin = std::min(pmin, std::fabs(p)), pmax = std::max(pmax, std::fabs(p));
    if (p == 0) return 0;
    for (int i = 0; i < n; i++)
      if (i != k) {
        double f = A[i][k] / p;
        for (int j = k; j <= n; j++) A[i][j] -= f * A[k][j];
      }
  }
  y.assign(n, 0);
  for (int k = 0; k < n; k++) y[col[k]] = A[k][n] / A[k][k];
  return det;
}
template <class S>
void body() {
  long judged = 0;
  for (int it = 0; it < scale(700, 20000); it++) {
    SOLVER(S, s);
    GAOption o = opt(int(ri(0, 9) ? ri(1, 14) : ri(15, 60)));
    const int M = prepare(s, o);
    omp_set_num_threads(int(ri(1, 5)));
    logging = false;
    s.initializePop();
    int n0 = ri(0, 9) ? int(ri(long(o.populationSize), 2 * long(o.populationSize) + 3)) : int(o.populationSize);
    fillMO(s, n0, M, it % 4 == 0);
    auto b = snap(s);
    auto r = ranks<S>(b, false);
    auto w = s.referencePoints();
    s.__impl_select();
    ctx = descrMO<S>(b, r, s) + fmt(" M %d, %d directions", M, int(w.cols()));
    REQ(w.rows() == s.referencePoints().rows() && w.cols() == s.referencePoints().cols() && (w == s.referencePoints()).all(), "reference directions altered");
    auto kept = survivors<S>(b, s);
    legal<S>(b, r, kept, s);
    uint64_t h = hmix(b.size(), o.populationSize);
    for (auto &x : b) h = hd(hd(h, x.f[0]), x.f[1]);
    count(h, ctx);
    // the rank that is cut
    std::map<int, size_t> cnt;
    for (int x : r) cnt[x]++;
    size_t acc = 0;
    int cut = -1;
    for (auto &c : cnt) {
      if (acc + c.second > o.populationSize) {
        cut = acc == o.populationSize ? -1 : c.first;
        break;
      }
      acc += c.second;
    }
    if (cut < 0) continue;
    std::vector<size_t> full, cand;
    for (size_t i = 0; i < b.size(); i++)
      if (r[i] < cut) full.push_back(i);
      else if (r[i] == cut) cand.push_back(i);
    std::vector<size_t> all = full;
    all.insert(all.end(), cand.begin(), cand.end());
    // normalization
    Mat P(M, std::vector<double>(M));
    std::vector<double> ideal(M, HUGE_VAL);
    bool amb = false;
    for (int k = 0; k < M; k++) {
      size_t best = all[0];
      for (size_t i : all) {
        ideal[k] = std::min(ideal[k], b[i].f[k]);
        if (b[i].f[k] > b[best].f[k]) best = i;
      }
      for (size_t i : all) amb = amb || (i != best && b[i].f[k] == b[best].f[k] && !sameF(b[i].f, b[best].f));
      for (int q = 0; q < M; q++) P[q][k] = b[best].f[q];
    }
    double bound = 1, pmin, pmax;
    for (int k = 0; k < M; k++) {
      double n2 = 0;
      for (int q = 0; q < M; q++) P[q][k] -= ideal[q], n2 += P[q][k] * P[q][k];
      bound *= std::sqrt(n2);
    }
    std::vector<double> y, ic(M);
    double det = solve(P, y, pmin, pmax);
    if (amb || (std::fabs(det) > 1e-12 && std::fabs(det) < 1e-8)) continue;
    // near-singular: the rounding of the determinant must not decide
    if (!(pmin > 1e-6 * pmax) && !(bound < 100)) continue;
    for (int k = 0; k < M; k++) ic[k] = std::fabs(det) <= 1e-10 ? P[k][k] : 1 / y[k];
    bool bad = false;
    for (int k = 0; k < M; k++) bad = bad || !std::isfinite(ic[k]) || std::fabs(ic[k]) < 1e-9;
    if (bad) continue;
    // association
    std::vector<int> dir(b.size(), -1);
    std::vector<double> dist(b.size(), 0);
    std::vector<char> unsure(b.size(), 0);  // discarded individuals whose nearest direction is not unique
    for (size_t i : all) {
      std::vector<double> t(M), d;
      double tt = 0;
      for (int k = 0; k < M; k++) t[k] = (b[i].f[k] - ideal[k]) / ic[k], tt += t[k] * t[k];
      for (int j = 0; j < int(w.cols()); j++) {
        double wt = 0, ww = 0, e = 0;
        for (int k = 0; k < M; k++) wt += w(k, j) * t[k], ww += w(k, j) * w(k, j);
        for (int k = 0; k < M; k++) e += std::pow(w(k, j) * (wt / ww) - t[k], 2);
        d.push_back(e);
      }
      int m = int(std::min_element(d.begin(), d.end()) - d.begin());
      double tol = 1e-9 * (1 + tt);
      for (int j = 0; j < int(d.size()); j++)
        if (j != m && d[j] <= d[m] + tol) unsure[i] = !kept[i];
      dir[i] = m, dist[i] = d[m];
      if (kept[i]) {
        const auto &g = *b[i].p;
        REQ(g.closestRefPoint < size_t(w.cols()), "direction %zu", g.closestRefPoint);
        if (g.closestRefPoint < size_t(w.cols()))
          REQ(d[g.closestRefPoint] <= d[m] + 2 * tol, "individual %zu associated with direction %zu at distance^2 %g, nearest is %d at %g", i,
              g.closestRefPoint, d[g.closestRefPoint], m, d[m]);
        dir[i] = int(g.closestRefPoint);
      }
    }
    ++judged;
    // niching
    std::map<int, int> rho, pick, num;
    for (size_t i : full) rho[dir[i]]++;
    for (size_t i : cand)
      if (!unsure[i]) num[dir[i]]++, pick[dir[i]] += kept[i];
    for (auto &x : pick)
      for (auto &y : num)
        if (x.second > 0 && pick[y.first] < y.second)
          REQ(rho[x.first] + x.second - 1 <= rho[y.first] + pick[y.first],
              "direction %d with %d members was served %d times while direction %d with %d members, served %d times, still had candidates", x.first,
              rho[x.first], x.second, y.first, rho[y.first], pick[y.first]);
    for (auto &x : pick)
      if (x.second > 0 && rho[x.first] == 0) {
        double nearest = HUGE_VAL, got = HUGE_VAL;
        for (size_t i : cand)
          if (!unsure[i] && dir[i] == x.first) {
            nearest = std::min(nearest, dist[i]);
            if (kept[i]) got = std::min(got, dist[i]);
          }
        REQ(got <= nearest + 1e-9 * (1 + nearest), "empty direction %d served with a candidate at %g, nearest at %g", x.first, got, nearest);
      }
  }
  REQ(judged > scale(700, 20000) / 20, "only %ld niching results could be judged", judged);
}
#define C(...) \
  CASE(#__VA_ARGS__) { body<__VA_ARGS__>(); }
C(N3r<A4, 2>)
C(N3r<VD, 3, DOUBLE_LAYER>)
C(N3a<EX, Eigen::Dynamic>)
C(N3c<A4, 3, SINGLE_LAYER, RF>)
C(N3a<A4, Eigen::Dynamic, DOUBLE_LAYER, RF>)
C(N3r<E3, 4>)
C(N3r<VD, 2, DOUBLE_LAYER, RF>)
