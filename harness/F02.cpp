// PARTS: 4
// FLAGS: -O1 -fopenmp -fsanitize=address
#include <cstdint>
#include <iostream>
#include <HeuristicFlow/EAGlobal>
#include "h.hpp"
using namespace hh;
typedef long double L;
typedef std::vector<double> DV;
typedef std::vector<L> LV;
static const L PI = 3.14159265358979323846264338327950288L;
static L sq(L v) { return v * v; }
struct Arg {
  int k = 4;
};
template <class V>
static void size(V &v, size_t n) {
  if constexpr (heu::array_traits<V>::sizeCT == Eigen::Dynamic) v.resize(n);
}
// ---- published formulas
static LV schaffer1(const DV &x, int) { return {L(x[0]) * x[0], sq(L(x[0]) - 2)}; }
static LV schaffer2(const DV &x, int) {
  L v = x[0];
  return {v <= 1 ? -v : v <= 3 ? v - 2 : v <= 4 ? 4 - v : v - 4, sq(v - 5)};
}
// constraint violations are added to the objectives as 1e5 + violation
static void pen(L &f, L g, L big = 1e5L) {
  if (g > 0) f += big + g;
}
static LV binh(const DV &p, int) {
  L x = p[0], y = p[1];
  LV f{4 * x * x + 4 * y * y, sq(x - 5) + sq(y - 5)};
  pen(f[0], sq(x - 5) + y * y - 25);
  pen(f[1], 7.7L - sq(x - 8) - sq(y + 3));
  return f;
}
static LV chankong(const DV &p, int) {
  L x = p[0], y = p[1];
  LV f{2 + sq(x - 2) + sq(y - 1), 9 * x - sq(y - 1)};
  pen(f[0], x * x + y * y - 225);
  pen(f[1], x - 3 * y + 10);
  return f;
}
static LV poloni(const DV &p, int) {
  L x = p[0], y = p[1];
  L A1 = 0.5L * sinl(1) - 2 * cosl(1) + sinl(2) - 1.5L * cosl(2), A2 = 1.5L * sinl(1) - cosl(1) + 2 * sinl(2) - 0.5L * cosl(2);
  L B1 = 0.5L * sinl(x) - 2 * cosl(x) + sinl(y) - 1.5L * cosl(y), B2 = 1.5L * sinl(x) - cosl(x) + 2 * sinl(y) - 0.5L * cosl(y);
  return {1 + sq(A1 - B1) + sq(A2 - B2), sq(x + 3) + sq(y + 1)};
}
static LV viennet(const DV &p, int) {
  L x = p[0], y = p[1], r = x * x + y * y;
  return {0.5L * r + sinl(r), sq(3 * x - 2 * y + 4) / 8 + sq(x - y + 1) / 27 + 15, 1 / (r + 1) - 1.1L * expl(-r)};
}
static LV fonseca(const DV &p, int) {
  L a = 0, b = 0, k = 1 / sqrtl(L(p.size()));
  for (L x : p) a += sq(x - k), b += sq(x + k);
  return {1 - expl(-a), 1 - expl(-b)};
}
static LV kursawe(const DV &p, int) {
  L a = 0, b = 0;
  for (size_t i = 0; i + 1 < p.size(); i++) a += -10 * expl(-0.2L * sqrtl(sq(p[i]) + sq(p[i + 1])));
  for (L x : p) b += powl(fabsl(x), 0.8L) + 5 * sinl(x * x * x);
  return {a, b};
}
static L gmulti(const DV &x, int M) {
  L s = 0;
  for (size_t i = size_t(M - 1); i < x.size(); i++) s += sq(L(x[i]) - 0.5L) - cosl(20 * PI * (L(x[i]) - 0.5L));
  return 100 * (L(x.size()) - M + 1 + s);
}
static L gsph(const DV &x, int M) {
  L s = 0;
  for (size_t i = size_t(M - 1); i < x.size(); i++) s += sq(L(x[i]) - 0.5L);
  return s;
}
static LV sphere_(const LV &th, L g, int M) {
  LV f((size_t)M);
  for (int j = 0; j < M; j++) {
    L v = 1 + g;
    for (int i = 0; i < M - 1 - j; i++) v *= cosl(th[size_t(i)]);
    if (j > 0) v *= sinl(th[size_t(M - 1 - j)]);
    f[size_t(j)] = v;
  }
  return f;
}
static LV dtlz1(const DV &x, int M) {
  L g = gmulti(x, M);
  LV f((size_t)M);
  for (int j = 0; j < M; j++) {
    L v = 0.5L * (1 + g);
    for (int i = 0; i < M - 1 - j; i++) v *= x[size_t(i)];
    if (j > 0) v *= 1 - L(x[size_t(M - 1 - j)]);
    f[size_t(j)] = v;
  }
  return f;
}
static LV ang(const DV &x, int M, int alpha) {
  LV t;
  for (int i = 0; i < M - 1; i++) t.push_back(PI / 2 * powl(L(x[size_t(i)]), alpha));
  return t;
}
static LV dtlz2(const DV &x, int M) { return sphere_(ang(x, M, 1), gsph(x, M), M); }
static LV dtlz3(const DV &x, int M) { return sphere_(ang(x, M, 1), gmulti(x, M), M); }
static LV dtlz4(const DV &x, int M) { return sphere_(ang(x, M, 100), gsph(x, M), M); }
static LV ang5(const DV &x, int M) {
  L r = 0;
  for (size_t i = size_t(M - 1); i < x.size(); i++) r += sq(x[i]);
  LV t;
  for (int i = 0; i < M - 1; i++) {
    L th = i == 0 ? PI / 2 * x[0] : PI / (4 * (1 + r)) * (1 + 2 * r * L(x[size_t(i)]));
    t.push_back(th * PI / 2);
  }
  return t;
}
static LV dtlz5(const DV &x, int M) { return sphere_(ang5(x, M), gsph(x, M), M); }
static LV dtlz6(const DV &x, int M) {
  L g = 0;
  for (size_t i = size_t(M - 1); i < x.size(); i++) g += powl(x[i], 0.1L);
  return sphere_(ang5(x, M), g, M);
}
static LV dtlz7(const DV &x, int M) {
  LV f;
  L g = 0, h = M;
  for (size_t i = size_t(M - 1); i < x.size(); i++) g += x[i];
  g = 1 + 9 * g / (L(x.size()) - M + 1);
  for (int i = 0; i < M - 1; i++) {
    L v = x[size_t(i)];
    f.push_back(v);
    h -= v / (1 + g) * (1 + sinl(3 * PI * v));
  }
  f.push_back((1 + g) * h);
  return f;
}
static LV parts(const DV &x, int M, bool root) {
  int N = int(x.size());
  LV f;
  for (int j = 0; j < M; j++) {
    L s = 0;
    for (int i = j * N / M; i <= std::min(N - 1, (j + 1) * N / M); i++) s += root ? powl(x[size_t(i)], 0.1L) : L(x[size_t(i)]);
    f.push_back(s);
  }
  return f;
}
static LV dtlz8(const DV &x, int M) {
  LV f = parts(x, M, false), g((size_t)M);
  for (auto &v : f) v /= L(int(x.size()) / M);
  L mn = HUGE_VALL;
  for (int i = 0; i < M - 1; i++) {
    g[size_t(i)] = f.back() + 4 * f[size_t(i)] - 1;
    for (int j = 0; j < i; j++) mn = std::min(mn, f[size_t(i)] + f[size_t(j)]);
  }
  g[size_t(M - 1)] = 2 * f.back() + mn - 1;
  for (int i = 0; i < M; i++) pen(f[size_t(i)], -g[size_t(i)], 1e3L);
  return f;
}
static LV dtlz9(const DV &x, int M) {
  LV f = parts(x, M, true);
  for (int i = 0; i < M - 1; i++) pen(f[size_t(i)], 1 - sq(f.back()) - sq(f[size_t(i)]), 1e3L);
  return f;
}
typedef LV (*Ref)(const DV &, int);
static L bigof(const LV &w) {
  L b = 1;
  for (L v : w) b = std::max(b, fabsl(v));
  return b;
}
// a penalty may switch on either side of its threshold when the constraint is active to within rounding
static bool close(L f, L w, L t) {
  return fabsl(f - w) <= t || (fabsl(fabsl(f - w) - 1e5L) < 1e-3L && fabsl(w) < 1e9L) || fabsl(fabsl(f - w) - 1e3L) < 1e-5L;
}
template <class V, class F, class G>
static void check(const char *name, const DV &p, int M, const LV &w, G g) {
  // guards around both containers
  struct Box {
    double a[4];
    V v;
    double b[4];
    F f;
    double c[4];
  } bx;
  for (int i = 0; i < 4; i++) bx.a[i] = bx.b[i] = bx.c[i] = -98765.25;
  size(bx.v, p.size());
  for (size_t i = 0; i < p.size(); i++) bx.v[int(i)] = p[i];
  L t = 2e-9L * bigof(w);
  for (int arg = 0; arg < 2; arg++) {
    size(bx.f, size_t(M));
    for (int i = 0; i < M; i++) bx.f[i] = -43210.125;
    Arg a;
    if (arg) g(std::integral_constant<int, 1>{}, &bx.v, (const Arg *)&a, &bx.f);
    else g(std::integral_constant<int, 0>{}, &bx.v, (const Arg *)nullptr, &bx.f);
    REQ(int(bx.f.size()) == M, "%s%s gives %d objectives instead of %d", name, show(p).c_str(), int(bx.f.size()), M);
    if (int(bx.f.size()) != M) return;
    for (int i = 0; i < M; i++)
      REQ(close(bx.f[i], w[size_t(i)], t), "%s%s objective %d of %d is %.15g, formula %.15Lg", name, show(p).c_str(), i, M, double(bx.f[i]), w[size_t(i)]);
    for (size_t i = 0; i < p.size(); i++) REQ(bx.v[int(i)] == p[i], "%s changes its variables", name);
    for (int i = 0; i < 4; i++) REQ(bx.a[i] == -98765.25 && bx.b[i] == -98765.25 && bx.c[i] == -98765.25, "%s writes out of range", name);
  }
}
#define VIA(V, F, fn)                                                                \
  [](auto w, const V *x, const Arg *a, F *f) {                                       \
    if constexpr (w.value) heu::testFunctions<V, F, Arg>::fn(x, a, f);               \
    else heu::testFunctions<V, F>::fn(x, f);                                         \
  }
template <int n> struct AN_ { typedef std::array<double, size_t(n)> t; };
template <int n> struct EN_ { typedef Eigen::Array<double, n, 1> t; };
typedef DV AX;
typedef Eigen::Array<double, Eigen::Dynamic, 1> EX;
static DV point(int n, bool unit) {
  DV v((size_t)n);
  int st = int(ri(0, 6));
  for (auto &x : v) {
    if (unit) switch (st) {
        case 0: x = double(ri(0, 4)) / 4; break;
        case 1: x = double(ri(0, 1)); break;
        case 2: x = 0.5; break;
        case 3: x = rr(0, 0.1); break;
        default: x = rd();
      }
    else switch (st) {
        case 0: x = double(ri(-6, 8)); break;
        case 1: x = double(ri(-20, 20)) / 2; break;
        case 2: x = rr(-20, 20); break;
        default: x = rr(-5, 5);
      }
  }
  return v;
}
#define ONE(V, F, fn, M) check<V, F>(#fn, p, M, w, VIA(V, F, fn));
#define RUN(fn, ref, N, M, unit)                                                                     \
  for (int it = 0; it < scale(2500, 40000); it++) {                                                  \
    DV p = point(N, unit);                                                                           \
    LV w = ref(p, M);                                                                                \
    typedef AN_<N>::t VA;                                                                            \
    typedef EN_<N>::t VE;                                                                            \
    typedef AN_<M>::t FA;                                                                            \
    typedef EN_<M>::t FE;                                                                            \
    ONE(VA, FE, fn, M) ONE(VE, FE, fn, M) ONE(VE, EX, fn, M) ONE(EX, EX, fn, M) ONE(AX, AX, fn, M)    \
    if (it % 4 == 0) { ONE(AX, FA, fn, M) ONE(EX, FE, fn, M) ONE(VA, FA, fn, M) ONE(VE, FA, fn, M) ONE(AX, EX, fn, M) ONE(EX, FA, fn, M) ONE(VA, EX, fn, M) } \
    uint64_t h = N * 10 + M;                                                                         \
    for (double x : p) h = hd(h, x);                                                                 \
    count(h, show(p));                                                                               \
  }
CASE("Schaffer 1") { RUN(Schaffer1, schaffer1, 1, 2, false) }
CASE("Schaffer 2") { RUN(Schaffer2, schaffer2, 1, 2, false) }
CASE("Binh-Korn") { RUN(BinhKorn, binh, 2, 2, false) }
CASE("Chankong-Haimes") { RUN(ChangkongHaimes, chankong, 2, 2, false) }
CASE("Poloni") { RUN(Poloni, poloni, 2, 2, false) }
CASE("Viennet") { RUN(viennet, viennet, 2, 3, false) }
CASE("Fonseca-Fleming") { RUN(FonsecaFleming, fonseca, 1, 2, false) RUN(FonsecaFleming, fonseca, 2, 2, false) RUN(FonsecaFleming, fonseca, 7, 2, false) }
CASE("Kursawe") { RUN(Kursawe, kursawe, 2, 2, false) RUN(Kursawe, kursawe, 3, 2, false) RUN(Kursawe, kursawe, 8, 2, false) }
#define DT(fn, ref) \
  CASE(#fn " a") { RUN(fn, ref, 3, 2, true) RUN(fn, ref, 3, 3, true) } \
  CASE(#fn " b") { RUN(fn, ref, 7, 3, true) RUN(fn, ref, 12, 5, true) }
DT(DTLZ1, dtlz1) DT(DTLZ2, dtlz2) DT(DTLZ3, dtlz3) DT(DTLZ4, dtlz4) DT(DTLZ5, dtlz5) DT(DTLZ6, dtlz6) DT(DTLZ7, dtlz7)
CASE("DTLZ8 a") { RUN(DTLZ8, dtlz8, 4, 3, true) RUN(DTLZ8, dtlz8, 9, 3, true) }
CASE("DTLZ8 b") { RUN(DTLZ8, dtlz8, 11, 4, true) RUN(DTLZ8, dtlz8, 15, 6, true) }
CASE("DTLZ9 a") { RUN(DTLZ9, dtlz9, 4, 3, true) RUN(DTLZ9, dtlz9, 9, 2, true) }
CASE("DTLZ9 b") { RUN(DTLZ9, dtlz9, 11, 4, true) RUN(DTLZ9, dtlz9, 15, 6, true) }
