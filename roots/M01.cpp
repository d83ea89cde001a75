#include <cstdint>
#include <iostream>
#include <HeuristicFlow/EAGlobal>
#include <HeuristicFlow/Genetic>
namespace vroot {
using namespace heu;
#define D_(M, n)                                                                                                                            \
  bool lt_##n(const Eigen::Array<double, M, 1> *a, const Eigen::Array<double, M, 1> *b) { return internal::Pareto<M, FITNESS_LESS_BETTER>::isStrongDominate(a, b); } \
  bool gt_##n(const Eigen::Array<double, M, 1> *a, const Eigen::Array<double, M, 1> *b) { return internal::Pareto<M, FITNESS_GREATER_BETTER>::isStrongDominate(a, b); }
D_(2, 2) D_(3, 3) D_(4, 4) D_(10, 10) D_(Eigen::Dynamic, x)
}
