#include <cstdint>
#include <iostream>
#include <HeuristicFlow/EAGlobal>
namespace vroot {
using namespace heu;
struct Arg {
  int k;
};
typedef std::array<double, 2> A2;
typedef std::vector<double> AX;
typedef Eigen::Array<double, 2, 1> E2;
typedef Eigen::Array<double, Eigen::Dynamic, 1> EX;
typedef Eigen::Vector2d M2;
typedef Eigen::VectorXd MX;
typedef std::array<double, 7> A7;
typedef std::array<double, 1> A1;
typedef Eigen::Array<double, 7, 1> E7;
#define FN(V, v, fn)                                                                            \
  void v##_##fn(const V *x, double *f) { testFunctions<V>::fn(x, f); }                          \
  void v##_##fn##_a(const V *x, const Arg *a, double *f) { testFunctions<V, double, Arg>::fn(x, a, f); }
#define ALL2(V, v)                                                                                          \
  FN(V, v, ackley) FN(V, v, beale) FN(V, v, GoldsteinPrice) FN(V, v, booth) FN(V, v, bukin) FN(V, v, matyas) \
  FN(V, v, levy) FN(V, v, himmelblau) FN(V, v, threeHumpCamel) FN(V, v, easom) FN(V, v, crossInTray)         \
  FN(V, v, eggHolder) FN(V, v, holderTable) FN(V, v, McCormick) FN(V, v, schaffer2) FN(V, v, schaffer4)
#define ALLX(V, v) FN(V, v, rastrigin) FN(V, v, sphere) FN(V, v, rosenbrock) FN(V, v, styblinskiTang)
ALL2(A2, a2) ALL2(AX, ax) ALL2(E2, e2) ALL2(EX, ex) ALL2(M2, m2) ALL2(MX, mx)
ALLX(A1, a1) ALLX(A2, a2) ALLX(A7, a7) ALLX(AX, ax) ALLX(E2, e2) ALLX(E7, e7) ALLX(EX, ex) ALLX(M2, m2) ALLX(MX, mx)
}
