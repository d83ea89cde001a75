#include "h.hpp"
#include <HeuristicFlow/EAGlobal>
#include <HeuristicFlow/Genetic>
using namespace heu;
using namespace hh;

template <class V>
void sz(V &v, int n) {
  if constexpr (!(array_traits<V>::isFixedSize)) v.resize(n);
  (void)v;
  (void)n;
}
template <class V>
constexpr int fixedN() {
  if constexpr (array_traits<V>::isFixedSize) return array_traits<V>::sizeCT;
  return 0;
}
template <class V>
using Sc = std::decay_t<decltype(std::declval<V>()[0])>;

template <class V, DivCode rc, bool X, bool real>
void arith(double r) {
  for (int it = 0; it < scale(300, 5000); ++it) {
    int n = fixedN<V>() ? fixedN<V>() : (int)ri(1, 12);
    V a, b, c, d;
    sz(a, n);
    sz(b, n);
    if (!X) sz(c, n), sz(d, n);
    else if (it % 2) sz(c, (int)ri(1, 20)), sz(d, (int)ri(1, 20));
    uint64_t h = n;
    for (int i = 0; i < n; i++) {
      a[i] = Sc<V>(rr(-100, 100));
      b[i] = Sc<V>(rr(-100, 100));
      h = hd(hd(h, a[i]), b[i]);
    }
    if (!X)
      for (int i = 0; i < n; i++) c[i] = d[i] = Sc<V>(77777);
    V a0 = a, b0 = b;
    if constexpr (X) GADefaults<V>::template cFunXd<rc>(&a, &b, &c, &d);
    else GADefaults<V>::template cFunNd<rc>(&a, &b, &c, &d);
    ctx = "a=" + show(a0) + " b=" + show(b0) + " c=" + show(c) + " d=" + show(d);
    REQ(int(c.size()) == n && int(d.size()) == n, "child sizes");
    for (int i = 0; i < n && i < int(c.size()) && i < int(d.size()); i++) {
      REQ(a[i] == a0[i] && b[i] == b0[i], "parent modified");
      REQ(near(c[i], r * a0[i] + (1 - r) * b0[i], 1e-5, 1e-4), "first child at %d", i);
      REQ(near(d[i], r * b0[i] + (1 - r) * a0[i], 1e-5, 1e-4), "second child at %d", i);
      if (sizeof(Sc<V>) == 8) {
        REQ(near(c[i], r * a0[i] + (1 - r) * b0[i], 1e-11, 1e-11), "first child at %d", i);
        REQ(near(d[i], r * b0[i] + (1 - r) * a0[i], 1e-11, 1e-11), "second child at %d", i);
      }
    }
    count(h, ctx);
  }
}

template <class V, bool X, class Op>
void pick(Op op, bool onepoint, double p) {
  long fromA = 0, tot = 0;
  long cuts[16] = {};
  for (int it = 0; it < scale(800, 8000); ++it) {
    int n = fixedN<V>() ? fixedN<V>() : (int)ri(1, 12);
    V a, b, c, d;
    sz(a, n);
    sz(b, n);
    if (!X) sz(c, n), sz(d, n);
    else if (it % 2) sz(c, (int)ri(1, 20)), sz(d, (int)ri(1, 20));
    uint64_t h = n;
    for (int i = 0; i < n; i++) {
      a[i] = Sc<V>(10 + i);
      b[i] = Sc<V>(100 + i);
      if (it % 5 == 4) b[i] = a[i];
    }
    if (!X)
      for (int i = 0; i < n; i++) c[i] = d[i] = Sc<V>(55);
    V a0 = a, b0 = b;
    bool same = it % 7 == 6;
    if (same) b0 = a;
    op(&a, same ? &a : &b, &c, &d);
    ctx = "a=" + show(a0) + " b=" + show(b0) + " c=" + show(c) + " d=" + show(d);
    REQ(int(c.size()) == n && int(d.size()) == n, "child sizes");
    int sw = 0, first = -1;
    for (int i = 0; i < n && i < int(c.size()) && i < int(d.size()); i++) {
      REQ(a[i] == a0[i] && (same || b[i] == b0[i]), "parent modified");
      REQ(c[i] == a0[i] || c[i] == b0[i], "first child component %d is no parent's", i);
      REQ(d[i] == a0[i] || d[i] == b0[i], "second child component %d is no parent's", i);
      h = hmix(h, c[i] == a0[i]);
      if (a0[i] != b0[i]) {
        int s = c[i] == a0[i];
        if (first >= 0 && s != first) sw++;
        first = s;
        fromA += s;
        tot++;
        if (onepoint) REQ((d[i] == a0[i]) != (c[i] == a0[i]), "not complementary at %d", i);
      }
    }
    if (onepoint) REQ(sw <= 1, "more than one cut");
    count(h, ctx);
  }
  if (!onepoint && tot > 1000) {
    double f = double(fromA) / tot, s = std::sqrt(p * (1 - p) / tot);
    REQ(std::fabs(f - p) < 6 * s + 1e-9, "share of first parent %.4f, probability %.4f", f, p);
  }
}

typedef std::array<double, 7> A7;
typedef std::array<double, 1> A1;
typedef std::vector<double> SV;
typedef std::vector<int> SI;
typedef std::vector<float> SF;
typedef Eigen::Array<double, 5, 1> E5;
typedef Eigen::Array<double, Eigen::Dynamic, 1> EX;
typedef Eigen::Array<int, Eigen::Dynamic, 1> EI;
typedef Eigen::Array<double, 1, Eigen::Dynamic> ER;

#define AR(V, X, nm)                                                              \
  CASE(nm " arithmetic 1/5") { arith<V, DivEncode<1, 5>::code, X, true>(0.2); }   \
  CASE(nm " arithmetic 3/4") { arith<V, DivEncode<3, 4>::code, X, true>(0.75); }
AR(A7, false, "std::array") AR(A1, false, "std::array<1>") AR(SV, false, "std::vector") AR(SV, true, "std::vector run-time")
AR(SF, true, "vector<float> run-time") AR(E5, false, "Eigen fixed") AR(EX, false, "Eigen dynamic") AR(EX, true, "Eigen run-time")
#define SW(V, nm)                                                                                        \
  CASE(nm " one-point") {                                                                                \
    pick<V, false>([](const V *a, const V *b, V *c, V *d) { GADefaults<V>::cFunSwapNs(a, b, c, d); }, true, 0); \
  }                                                                                                      \
  CASE(nm " uniform 1/2") {                                                                              \
    pick<V, false>([](const V *a, const V *b, V *c, V *d) { GADefaults<V>::template cFunRandNs<>(a, b, c, d); }, false, 0.5); \
  }                                                                                                      \
  CASE(nm " uniform 1/5") {                                                                              \
    pick<V, false>([](const V *a, const V *b, V *c, V *d) { GADefaults<V>::template cFunRandNs<DivEncode<1, 5>::code>(a, b, c, d); }, false, 0.2); \
  }
#define SX(V, nm)                                                                                        \
  CASE(nm " run-time one-point") {                                                                       \
    pick<V, true>([](const V *a, const V *b, V *c, V *d) { GADefaults<V>::cFunSwapXs(a, b, c, d); }, true, 0); \
  }                                                                                                      \
  CASE(nm " run-time uniform 1/5") {                                                                     \
    pick<V, true>([](const V *a, const V *b, V *c, V *d) { GADefaults<V>::template cFunRandXs<DivEncode<1, 5>::code>(a, b, c, d); }, false, 0.2); \
  }
SW(A7, "std::array") SW(SV, "std::vector") SW(SI, "vector<int>") SW(E5, "Eigen fixed") SW(EX, "Eigen dynamic") SW(EI, "Eigen int")
SX(SV, "std::vector") SX(SI, "vector<int>") SX(EX, "Eigen dynamic") SX(EI, "Eigen int")
// with solver arguments
struct Arg {
  int x;
};
CASE("operators with an argument object") {
  Arg g{1};
  typedef GADefaults<SV, Arg> D;
  pick<SV, false>([&](const SV *a, const SV *b, SV *c, SV *d) { D::cFunSwapNs(a, b, c, d, &g); }, true, 0);
  pick<SV, true>([&](const SV *a, const SV *b, SV *c, SV *d) { D::cFunSwapXs(a, b, c, d, &g); }, true, 0);
  pick<SV, false>([&](const SV *a, const SV *b, SV *c, SV *d) { D::cFunRandNs<>(a, b, c, d, &g); }, false, 0.5);
  pick<SV, true>([&](const SV *a, const SV *b, SV *c, SV *d) { D::cFunRandXs<DivEncode<1, 5>::code>(a, b, c, d, &g); }, false, 0.2);
  SV a{1, 2, 3}, b{5, 7, 9}, c(3), d(3);
  D::cFunNd<>(&a, &b, &c, &d, &g);
  REQ(near(c[0], 0.2 * 1 + 0.8 * 5) && near(d[2], 0.2 * 9 + 0.8 * 3), "cFunNd with args");
  SV e, f;
  D::cFunXd<DivEncode<1, 4>::code>(&a, &b, &e, &f, &g);
  REQ(e.size() == 3 && near(e[0], 0.25 * 1 + 0.75 * 5) && near(f[2], 0.25 * 9 + 0.75 * 3), "cFunXd with args");
}
