#include <cstdint>
#include <iostream>
#include <HeuristicFlow/EAGlobal>
#include <HeuristicFlow/Genetic>
namespace vroot {
using namespace heu;
typedef std::array<double, 7> SA;
typedef std::vector<double> SV;
typedef Eigen::Array<double, 5, 1> EA;
typedef Eigen::Array<double, Eigen::Dynamic, 1> EX;
typedef std::vector<int> IV;
typedef Eigen::Array<int, Eigen::Dynamic, 1> IX;
#define N_(V, n)                                                                              \
  void n##_arith(const V *a, const V *b, V *c, V *d) { GADefaults<V>::template cFunNd<>(a, b, c, d); } \
  void n##_swap(const V *a, const V *b, V *c, V *d) { GADefaults<V>::cFunSwapNs(a, b, c, d); } \
  void n##_rand(const V *a, const V *b, V *c, V *d) { GADefaults<V>::template cFunRandNs<>(a, b, c, d); }
#define X_(V, n)                                                                              \
  void n##_xarith(const V *a, const V *b, V *c, V *d) { GADefaults<V>::template cFunXd<>(a, b, c, d); } \
  void n##_xswap(const V *a, const V *b, V *c, V *d) { GADefaults<V>::cFunSwapXs(a, b, c, d); } \
  void n##_xrand(const V *a, const V *b, V *c, V *d) { GADefaults<V>::template cFunRandXs<>(a, b, c, d); }
N_(SA, sa) N_(EA, ea) N_(SV, sv) N_(EX, ex)
X_(SV, sv) X_(EX, ex)
}
