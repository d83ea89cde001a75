#include "ga.hpp"
template <int N, FitnessOption FO>
void body() {
  using P = internal::Pareto<N, FO>;
  using F = Eigen::Array<double, N, 1>;
  for (int it = 0; it < scale(60000, 1500000); it++) {
    int n = N == Eigen::Dynamic ? int(ri(2, ri(0, 3) ? 5 : 32)) : N;
    F v[3];
    int style = int(ri(0, 4));
    for (auto &a : v) {
      a.resize(n, 1);
      for (int i = 0; i < n; i++) switch (style) {
          case 0: a[i] = double(ri(0, 1)); break;
          case 1: a[i] = rr(-3, 3); break;
          case 2: a[i] = ri(0, 3) ? 1.0 : ri(0, 1) ? std::nextafter(1.0, 2.0) : std::nextafter(1.0, 0.0); break;
          case 3: a[i] = std::array<double, 7>{-HUGE_VAL, HUGE_VAL, -0.0, 0.0, 5e-324, -5e-324, 1e308}[ri(0, 6)]; break;
          default: a[i] = ri(0, n) ? 2.5 : double(ri(-1, 1)) + 2.5;
        }
    }
    if (ri(0, 9) == 0) v[1] = v[0];
    bool d[3][3];
    uint64_t h = n;
    for (int x = 0; x < 3; x++)
      for (int y = 0; y < 3; y++) {
        bool nw = true, st = false;
        for (int i = 0; i < n; i++) {
          double a = v[x][i], b = v[y][i];
          nw = nw && (FO == GB ? a >= b : a <= b);
          st = st || (FO == GB ? a > b : a < b);
          h = hd(h, a);
        }
        F ca = v[x], cb = v[y];
        d[x][y] = P::isStrongDominate(&ca, &cb);
        REQ(d[x][y] == (nw && st), "dominates(%s,%s) gives %d", sf(v[x]).c_str(), sf(v[y]).c_str(), d[x][y]);
        REQ(sameF(ca, v[x]) && sameF(cb, v[y]), "arguments altered");
      }
    for (int x = 0; x < 3; x++) {
      REQ(!d[x][x], "dominates itself");
      for (int y = 0; y < 3; y++) {
        REQ(!(d[x][y] && d[y][x]), "dominance both ways");
        for (int z = 0; z < 3; z++) REQ(!(d[x][y] && d[y][z]) || d[x][z], "not transitive");
      }
    }
    if (it % 16 == 0) count(h, it < 64 ? sf(v[0]) + sf(v[1]) : "");
  }
}
#define C(n) \
  CASE("less " #n) { body<n, LB>(); } \
  CASE("greater " #n) { body<n, GB>(); }
C(2) C(3) C(4) C(5) C(7) C(8) C(Eigen::Dynamic)
