#include <cstdint>
#include <iostream>
#include <HeuristicFlow/EAGlobal>
#include <HeuristicFlow/PSO>
namespace vroot {
using namespace heu;
typedef std::array<double, 4> SA;
typedef std::vector<double> SV;
typedef Eigen::Array<double, 5, 1> EA;
typedef Eigen::Array<double, Eigen::Dynamic, 1> EX;
#define O_(V, n)                                                                                \
  void n##_obj(const V *, double *);                                                            \
  void n##_ini(V *, V *);                                                                       \
  typedef PSO<V, SQUARE_BOX, FITNESS_LESS_BETTER, RECORD_FITNESS, void, n##_obj, n##_ini> n##_ut; \
  void n##_uinit(n##_ut *s) { s->initializePop(); }                                             \
  void n##_ucomp(n##_ut *s) { s->__impl_computeAllFitness(); }                                  \
  double n##_ubf(const n##_ut *s) { return s->bestFitness(); }                                  \
  const auto &n##_upop(const n##_ut *s) { return s->population(); }                             \
  const auto &n##_ugb(const n##_ut *s) { return s->globalBest(); }                              \
  const auto &n##_uopt(const n##_ut *s) { return s->option(); }                                 \
  size_t n##_ufails(const n##_ut *s) { return s->failTimes(); }                                 \
  size_t n##_ugen(const n##_ut *s) { return s->generation(); }
O_(SA, sa) O_(SV, sv) O_(EA, ea) O_(EX, ex)
#define P_(V, n, F)                                                                             \
  typedef PSO<V, SQUARE_BOX, F, RECORD_FITNESS, void> n##_t;                                    \
  void n##_best(n##_t *s) { s->__impl_updatePGBest(); }                                         \
  double n##_bf(const n##_t *s) { return s->bestFitness(); }                                    \
  const auto &n##_pop(const n##_t *s) { return s->population(); }                               \
  const auto &n##_gb(const n##_t *s) { return s->globalBest(); }                                \
  size_t n##_fails(const n##_t *s) { return s->failTimes(); }                                   \
  const auto &n##_opt(const n##_t *s) { return s->option(); }
P_(SA, sal, FITNESS_LESS_BETTER) P_(SA, sag, FITNESS_GREATER_BETTER)
P_(SV, svl, FITNESS_LESS_BETTER) P_(SV, svg, FITNESS_GREATER_BETTER)
P_(EA, eal, FITNESS_LESS_BETTER) P_(EA, eag, FITNESS_GREATER_BETTER)
P_(EX, exl, FITNESS_LESS_BETTER) P_(EX, exg, FITNESS_GREATER_BETTER)
}
