#include <cstdint>
#include <iostream>
#include <HeuristicFlow/EAGlobal>
namespace vroot {
using namespace heu;
struct Arg {
  int k;
};
template <int n>
using A = std::array<double, size_t(n)>;
template <int n>
using E = Eigen::Array<double, n, 1>;
typedef std::vector<double> AX;
typedef Eigen::Array<double, Eigen::Dynamic, 1> EX;
#define FN(V, F, v, fn)                                                                             \
  void v##_##fn(const V *x, F *f) { testFunctions<V, F>::fn(x, f); }                                \
  void v##_##fn##_a(const V *x, const Arg *a, F *f) { testFunctions<V, F, Arg>::fn(x, a, f); }
// every pair of containers for n variables and m objectives
#define PAIRS(n, m, fn)                                                                             \
  FN(A<n>, A<m>, aa##n##x##m, fn) FN(E<n>, E<m>, ee##n##x##m, fn) FN(A<n>, E<m>, ae##n##x##m, fn)   \
  FN(E<n>, A<m>, ea##n##x##m, fn) FN(E<n>, EX, ef##n##x##m, fn) FN(A<n>, AX, ab##n##x##m, fn)       \
  FN(AX, A<m>, ba##n##x##m, fn) FN(EX, E<m>, fe##n##x##m, fn)
#define RUNTIME(fn) FN(AX, AX, bb, fn) FN(EX, EX, ff, fn) FN(AX, EX, bf, fn) FN(EX, AX, fb, fn)
#define SMALL(n, m, fn) PAIRS(n, m, fn) RUNTIME(fn)
SMALL(1, 2, Schaffer1)
SMALL(1, 2, Schaffer2)
SMALL(2, 2, BinhKorn)
SMALL(2, 2, ChangkongHaimes)
SMALL(2, 2, Poloni)
SMALL(2, 3, viennet)
#define ANYN(fn) PAIRS(2, 2, fn) PAIRS(7, 2, fn) RUNTIME(fn)
ANYN(FonsecaFleming) PAIRS(1, 2, FonsecaFleming)
ANYN(Kursawe)
#define DTLZ(fn) PAIRS(3, 2, fn) PAIRS(3, 3, fn) PAIRS(7, 3, fn) PAIRS(9, 5, fn) RUNTIME(fn)
DTLZ(DTLZ1) DTLZ(DTLZ2) DTLZ(DTLZ3) DTLZ(DTLZ4) DTLZ(DTLZ5) DTLZ(DTLZ6) DTLZ(DTLZ7)
#define FRACTION(fn) PAIRS(4, 3, fn) PAIRS(9, 3, fn) PAIRS(11, 4, fn) RUNTIME(fn)
FRACTION(DTLZ8) FRACTION(DTLZ9)
}
