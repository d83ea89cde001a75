// PARTS: 8
#include "mo.hpp"
template <class S, bool greater>
void body() {
  for (int it = 0; it < scale(1500, 40000); it++) {
    SOLVER(S, s);
    GAOption o = opt(int(ri(0, 9) ? ri(1, 12) : ri(13, 60)));
    const int M = prepare(s, o);
    omp_set_num_threads(int(ri(1, 5)));
    logging = false;
    s.initializePop();
    int n0 = ri(0, 7) ? int(ri(long(o.populationSize), 2 * long(o.populationSize) + 3)) : int(o.populationSize);
    fillMO(s, n0, M, it % 3 == 0);
    auto b = snap(s);
    auto r = ranks<S>(b, greater);
    s.__impl_select();
    ctx = descrMO<S>(b, r, s);
    auto kept = survivors<S>(b, s);
    legal<S>(b, r, kept, s);
    // bounds of the crowding distance over all orders of equal values
    std::vector<double> lo(b.size(), 0), hi(b.size(), 0);
    for (int k = 0; k < M; k++) {
      std::vector<double> v;
      for (auto &x : b) v.push_back(x.f[k]);
      std::sort(v.begin(), v.end());
      double sc = v.back() - v.front() + 1e-10;
      for (size_t i = 0; i < b.size(); i++) {
        double x = b[i].f[k];
        auto e = std::equal_range(v.begin(), v.end(), x);
        size_t m = e.second - e.first;
        bool atLo = e.first == v.begin(), atHi = e.second == v.end();
        double below = atLo ? HUGE_VAL : x - *(e.first - 1), above = atHi ? HUGE_VAL : *e.second - x;
        if (m == 1) lo[i] += (below + above) / sc, hi[i] += (below + above) / sc;
        else {
          hi[i] += m == 2 ? std::max(below, above) / sc : std::max(below, above) / sc;
          lo[i] += m == 2 ? std::min(below, above) / sc : 0;
        }
      }
    }
    uint64_t h = hmix(b.size(), o.populationSize);
    for (size_t x = 0; x < b.size(); x++) {
      h = hd(hd(h, b[x].f[0]), b[x].f[1]);
      for (size_t y = 0; y < b.size(); y++)
        if (kept[x] && !kept[y] && r[x] == r[y])
          REQ(!(lo[y] > hi[x] * (1 + 1e-12)), "discarded %zu has crowding distance %.17g, kept %zu has %.17g", y, lo[y], x, hi[x]);
    }
    count(h, ctx);
  }
}
#define C(gr, ...) \
  CASE(#__VA_ARGS__) { body<__VA_ARGS__, gr>(); }
C(false, N2r<A4, 2>)
C(true, N2r<VD, 2, GB>)
C(true, N2a<VD, Eigen::Dynamic, GB, RF>)
C(false, N2c<E3, 3, LB, RF>)
C(true, N2r<A4, 3, GB>)
C(false, N2r<EX, Eigen::Dynamic>)
C(false, N2c<A4, 5>)
