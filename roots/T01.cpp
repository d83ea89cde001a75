#include "ga.hpp"
#include <HeuristicFlow/PSO>
#include <HeuristicFlow/AOS>
namespace vroot {
#define DOM_(n)                                                   \
  void n##_dom(n##_t *s) { s->calculateDominatedNum(); }          \
  const auto &n##_sort(const n##_t *s) { return s->sortSpace; }
OPS_(SV, F2, ng)
typedef NSGA2<SV, 2, FITNESS_GREATER_BETTER, RECORD_FITNESS, void, ng_ini, ng_fit, ng_crs, ng_mut> ng_t;
WRAP_(ng)
DOM_(n2) DOM_(nx) DOM_(n3) DOM_(ng)
typedef std::array<double, 4> SA;
typedef Eigen::Array<double, Eigen::Dynamic, 1> EX;
#define O_(V, n)                                                                                \
  void n##_obj(const V *, double *);                                                            \
  void n##_ini(V *, V *);                                                                       \
  typedef PSO<V, SQUARE_BOX, FITNESS_LESS_BETTER, RECORD_FITNESS, void, n##_obj, n##_ini> n##_ut; \
  void n##_ucomp(n##_ut *s) { s->__impl_computeAllFitness(); }                                  \
  const auto &n##_upop(const n##_ut *s) { return s->population(); }
O_(SA, sa) O_(SV, sv) O_(EA, ea) O_(EX, ex)
#define P_(V, n, BS)                                                                            \
  typedef PSO<V, BS, FITNESS_LESS_BETTER, RECORD_FITNESS, void> n##_t;                          \
  void n##_upd(n##_t *s) { s->__impl_updatePopulation(); }                                      \
  double n##_lo(const n##_t *s, int k) { return s->posMin(k); }                                 \
  double n##_hi(const n##_t *s, int k) { return s->posMax(k); }                                 \
  double n##_vm(const n##_t *s, int k) { return s->maxVelocity(k); }                            \
  int n##_dim(const n##_t *s) { return s->dimensions(); }                                       \
  const auto &n##_pop(const n##_t *s) { return s->population(); }                               \
  const auto &n##_gb(const n##_t *s) { return s->globalBest(); }                                \
  const auto &n##_opt(const n##_t *s) { return s->option(); }
P_(SA, sasq, SQUARE_BOX) P_(SA, sare, RECTANGLE_BOX)
P_(SV, svsq, SQUARE_BOX) P_(SV, svre, RECTANGLE_BOX)
P_(EA, easq, SQUARE_BOX) P_(EA, eare, RECTANGLE_BOX)
P_(EX, exsq, SQUARE_BOX) P_(EX, exre, RECTANGLE_BOX)
#define A_(n, V, S, F)                                                                          \
  void n##_obj(const V *, double *);                                                            \
  typedef AOS<ContinousBox<V, S>, F, RECORD_FITNESS, void, n##_obj> n##_t;             \
  void n##_comp(n##_t *s) { s->__impl_computeFitness(); }                                       \
  const auto &n##_pop(const n##_t *s) { return s->electrons(); }
A_(asv, SV, BoxShape::SQUARE_BOX, FITNESS_LESS_BETTER)
A_(aea, EA, BoxShape::RECTANGLE_BOX, FITNESS_GREATER_BETTER)
int threads() { return heu::threadNum(); }
void setThreads(int n) { heu::setThreadNum(n); }
}  // namespace vroot
