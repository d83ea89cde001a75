// PARTS: 4
// FLAGS: -O1 -fopenmp -fsanitize=address
#include <cstdint>
#include <iostream>
#include <HeuristicFlow/EAGlobal>
#include "h.hpp"
using namespace hh;
typedef long double L;
static const L PI = 3.14159265358979323846264338327950288L, E_ = 2.71828182845904523536028747135266250L;
static L sq(L v) { return v * v; }
typedef L (*F2)(L, L);
struct Ref {
  const char *n;
  F2 f;
  double xs[4][2];
  int nx;
  double opt;
};
static L ackley(L x, L y) { return -20 * expl(-0.2L * sqrtl(0.5L * (x * x + y * y))) - expl(0.5L * (cosl(2 * PI * x) + cosl(2 * PI * y))) + E_ + 20; }
static L beale(L x, L y) { return sq(1.5L - x + x * y) + sq(2.25L - x + x * y * y) + sq(2.625L - x + x * y * y * y); }
static L goldstein(L x, L y) {
  return (1 + sq(x + y + 1) * (19 - 14 * x + 3 * x * x - 14 * y + 6 * x * y + 3 * y * y)) *
         (30 + sq(2 * x - 3 * y) * (18 - 32 * x + 12 * x * x + 48 * y - 36 * x * y + 27 * y * y));
}
static L booth(L x, L y) { return sq(x + 2 * y - 7) + sq(2 * x + y - 5); }
static L bukin(L x, L y) { return 100 * sqrtl(fabsl(y - 0.01L * x * x)) + 0.01L * fabsl(x + 10); }
static L matyas(L x, L y) { return 0.26L * (x * x + y * y) - 0.48L * x * y; }
static L levy(L x, L y) { return sq(sinl(3 * PI * x)) + sq(x - 1) * (1 + sq(sinl(3 * PI * y))) + sq(y - 1) * (1 + sq(sinl(2 * PI * y))); }
static L himmel(L x, L y) { return sq(x * x + y - 11) + sq(x + y * y - 7); }
static L camel(L x, L y) { return 2 * x * x - 1.05L * x * x * x * x + x * x * x * x * x * x / 6 + x * y + y * y; }
static L easom(L x, L y) { return -cosl(x) * cosl(y) * expl(-(sq(x - PI) + sq(y - PI))); }
static L cross(L x, L y) { return -0.0001L * powl(fabsl(sinl(x) * sinl(y) * expl(fabsl(100 - sqrtl(x * x + y * y) / PI))) + 1, 0.1L); }
static L egg(L x, L y) { return -(y + 47) * sinl(sqrtl(fabsl(x / 2 + (y + 47)))) - x * sinl(sqrtl(fabsl(x - (y + 47)))); }
static L holder(L x, L y) { return -fabsl(sinl(x) * cosl(y) * expl(fabsl(1 - sqrtl(x * x + y * y) / PI))); }
static L mccormick(L x, L y) { return sinl(x + y) + sq(x - y) - 1.5L * x + 2.5L * y + 1; }
static L schaffer2(L x, L y) { return 0.5L + (sq(sinl(x * x - y * y)) - 0.5L) / sq(1 + 0.001L * (x * x + y * y)); }
static L schaffer4(L x, L y) { return 0.5L + (sq(cosl(sinl(fabsl(x * x - y * y)))) - 0.5L) / sq(1 + 0.001L * (x * x + y * y)); }
static std::vector<double> point(int n) {
  std::vector<double> v((size_t)n);
  int st = int(ri(0, 5));
  double R = std::array<double, 4>{5.12, 10, 1, 100}[size_t(ri(0, 3))];
  for (auto &x : v) switch (st) {
      case 0: x = double(ri(-4, 4)); break;
      case 1: x = rr(-1, 1); break;
      case 2: x = double(ri(-10, 10)) * 0.5; break;
      case 3: x = ri(0, 2) ? 0.0 : rr(-5, 5); break;
      default: x = rr(-R, R);
    }
  if (n > 1 && ri(0, 9) == 0) v[1] = v[0];
  return v;
}
struct Arg {
  int k = 4;
};
template <class V>
static void fillv(V &v, const std::vector<double> &p) {
  if constexpr (heu::array_traits<V>::sizeCT == Eigen::Dynamic) v.resize(p.size());
  for (size_t i = 0; i < p.size(); i++) v[int(i)] = p[i];
}
template <class V, class G>
static void check(const char *name, const std::vector<double> &p, double want, double tol, G g) {
  V v;
  fillv(v, p);
  V keep = v;
  double f = -12345.75, fa = -54321.5;
  Arg a;
  g(std::integral_constant<int, 0>{}, &v, (const Arg *)nullptr, &f);
  g(std::integral_constant<int, 1>{}, &v, (const Arg *)&a, &fa);
  REQ(std::fabs(f - want) <= tol, "%s%s = %.15g, formula %.15g", name, show(p).c_str(), f, want);
  REQ(f == fa, "%s%s with arguments = %.15g, without %.15g", name, show(p).c_str(), fa, f);
  for (size_t i = 0; i < p.size(); i++) REQ(v[int(i)] == keep[int(i)], "%s changes its point", name);
}
#define VIA(V, fn)                                                                          \
  [](auto w, const V *x, const Arg *a, double *f) {                                         \
    if constexpr (w.value) heu::testFunctions<V, double, Arg>::fn(x, a, f);                 \
    else heu::testFunctions<V>::fn(x, f);                                                   \
  }
typedef std::array<double, 2> A2;
typedef std::vector<double> AX;
typedef Eigen::Array<double, 2, 1> E2;
typedef Eigen::Array<double, Eigen::Dynamic, 1> EX;
typedef Eigen::VectorXd MX;
typedef Eigen::Vector2d M2;
#define TWO(fn, ref, opt, otol, ...)                                                                \
  CASE(#fn) {                                                                                      \
    auto one = [](const std::vector<double> &p) {                                                  \
      double w = double(ref(p[0], p[1]));                                                          \
      double t = 1e-9 * (1 + std::fabs(w)) + 1e-7 * (std::string(#fn) == "bukin") + 1e-10 * (p[0] * p[0] + p[1] * p[1]); \
      check<A2>(#fn, p, w, t, VIA(A2, fn));                                                        \
      check<AX>(#fn, p, w, t, VIA(AX, fn));                                                        \
      check<E2>(#fn, p, w, t, VIA(E2, fn));                                                        \
      check<EX>(#fn, p, w, t, VIA(EX, fn));                                                        \
      check<M2>(#fn, p, w, t, VIA(M2, fn));                                                        \
      count(hd(hd(1, p[0]), p[1]), show(p));                                                       \
    };                                                                                             \
    for (int i = 0; i < scale(20000, 300000); i++) one(point(2));                                  \
    const std::vector<std::vector<double>> mins{__VA_ARGS__};                                      \
    for (auto &m : mins) {                                                                         \
      one(m);                                                                                      \
      A2 v{m[0], m[1]};                                                                            \
      double f = 1e9;                                                                              \
      heu::testFunctions<A2>::fn(&v, &f);                                                          \
      REQ(std::fabs(f - (opt)) <= otol, #fn " at its published minimizer (%g,%g) is %.12g, published %.12g", m[0], m[1], f, double(opt)); \
    }                                                                                              \
  }
TWO(ackley, ackley, 0, 1e-9, {0, 0})
TWO(beale, beale, 0, 1e-9, {3, 0.5})
TWO(GoldsteinPrice, goldstein, 3, 1e-9, {0, -1})
TWO(booth, booth, 0, 1e-9, {1, 3})
TWO(bukin, bukin, 0, 1e-6, {-10, 1})
TWO(matyas, matyas, 0, 1e-9, {0, 0})
TWO(levy, levy, 0, 1e-9, {1, 1})
TWO(himmelblau, himmel, 0, 1e-6, {3, 2}, {-2.805118, 3.131312}, {-3.779310, -3.283186}, {3.584428, -1.848126})
TWO(threeHumpCamel, camel, 0, 1e-9, {0, 0})
TWO(easom, easom, -1, 1e-9, {M_PI, M_PI})
TWO(crossInTray, cross, -2.06261, 1e-4, {1.34941, 1.34941}, {1.34941, -1.34941}, {-1.34941, 1.34941}, {-1.34941, -1.34941})
TWO(eggHolder, egg, -959.6407, 1e-3, {512, 404.2319})
TWO(holderTable, holder, -19.2085, 1e-3, {8.05502, 9.66459}, {-8.05502, 9.66459}, {8.05502, -9.66459}, {-8.05502, -9.66459})
TWO(McCormick, mccormick, -1.9133, 1e-3, {-0.54719, -1.54719})
TWO(schaffer2, schaffer2, 0, 1e-9, {0, 0})
TWO(schaffer4, schaffer4, 0.292579, 1e-5, {0, 1.25313}, {0, -1.25313}, {1.25313, 0}, {-1.25313, 0})
static L rast(const std::vector<double> &p) {
  L s = 10.0L * p.size();
  for (L x : p) s += x * x - 10 * cosl(2 * PI * x);
  return s;
}
static L sphere(const std::vector<double> &p) {
  L s = 0;
  for (L x : p) s += x * x;
  return s;
}
static L rosen(const std::vector<double> &p) {
  L s = 0;
  for (size_t i = 0; i + 1 < p.size(); i++) s += 100 * sq(p[i + 1] - L(p[i]) * p[i]) + sq(1 - L(p[i]));
  return s;
}
static L styb(const std::vector<double> &p) {
  L s = 0;
  for (L x : p) s += x * x * x * x - 16 * x * x + 5 * x;
  return s / 2;
}
#define ANYN(fn, ref, N)                                                \
  for (int i = 0; i < scale(4000, 60000); i++) {                        \
    auto p = point(N);                                                  \
    double w = double(ref(p)), t = 1e-9 * (1 + std::fabs(w)) + 1e-11 * double(sphere(p)) + 1e-12 * double(sphere(p) * sphere(p)); \
    typedef std::array<double, N> AN;                                   \
    typedef Eigen::Array<double, N, 1> EN;                              \
    check<AN>(#fn, p, w, t, VIA(AN, fn));                               \
    check<AX>(#fn, p, w, t, VIA(AX, fn));                               \
    check<EN>(#fn, p, w, t, VIA(EN, fn));                               \
    check<EX>(#fn, p, w, t, VIA(EX, fn));                               \
    check<MX>(#fn, p, w, t, VIA(MX, fn));                               \
    uint64_t h = N;                                                     \
    for (double x : p) h = hd(h, x);                                    \
    count(h, show(p));                                                  \
  }
#define ANY(fn, ref, at, opt, otol)                                      \
  CASE(#fn) {                                                            \
    ANYN(fn, ref, 2) ANYN(fn, ref, 3) ANYN(fn, ref, 7) ANYN(fn, ref, 20) \
    for (int n = 1 + (at == 1); n < 12; n++) {                           \
      AX v(size_t(n), at);                                               \
      double f = 1e9;                                                    \
      heu::testFunctions<AX>::fn(&v, &f);                                \
      REQ(std::fabs(f - (opt)) <= otol, #fn " of %d variables at its published minimizer is %.12g", n, f); \
    }                                                                    \
  }
ANY(rastrigin, rast, 0, 0, 1e-9)
ANY(sphere, sphere, 0, 0, 1e-12)
ANY(rosenbrock, rosen, 1, 0, 1e-12)
ANY(styblinskiTang, styb, -2.903534, -39.16616570 * n, 1e-4)
