#include <cstdint>
#include <iostream>
#include <HeuristicFlow/EAGlobal>
#include <HeuristicFlow/PSO>
namespace vroot {
using namespace heu;
typedef std::array<double, 4> SA;
typedef std::vector<double> SV;
typedef Eigen::Array<double, 5, 1> EA;
typedef Eigen::Array<double, Eigen::Dynamic, 1> EX;
#define P_(V, n, BS)                                                                            \
  typedef PSO<V, BS, FITNESS_LESS_BETTER, RECORD_FITNESS, void> n##_t;                          \
  void n##_pos(const n##_t *s, V *p) { s->applyConstraint4Position(p); }                        \
  void n##_vel(const n##_t *s, V *p) { s->applyConstraint4Velocity(p); }                        \
  void n##_upd(n##_t *s) { s->__impl_updatePopulation(); }                                      \
  void n##_dflt(n##_t *s, V *p, V *v) { n##_t::defaultInitialize(s, p, v); }                    \
  double n##_lo(const n##_t *s, int k) { return s->posMin(k); }                                 \
  double n##_hi(const n##_t *s, int k) { return s->posMax(k); }                                 \
  double n##_vm(const n##_t *s, int k) { return s->maxVelocity(k); }                            \
  int n##_dim(const n##_t *s) { return s->dimensions(); }                                       \
  const auto &n##_pop(const n##_t *s) { return s->population(); }                               \
  const auto &n##_gb(const n##_t *s) { return s->globalBest(); }                                \
  const auto &n##_opt(const n##_t *s) { return s->option(); }
P_(SA, sasq, SQUARE_BOX) P_(SA, sare, RECTANGLE_BOX)
P_(SV, svsq, SQUARE_BOX) P_(SV, svre, RECTANGLE_BOX)
P_(EA, easq, SQUARE_BOX) P_(EA, eare, RECTANGLE_BOX)
P_(EX, exsq, SQUARE_BOX) P_(EX, exre, RECTANGLE_BOX)
#define S_(n, V)                                                                               \
  void n##_set(n##_t *s, const V &a, const V &b, const V &c) { s->setPVRange(a, b, c); }
S_(sasq, double) S_(svsq, double) S_(easq, double) S_(exsq, double)
S_(sare, SA) S_(svre, SV) S_(eare, EA) S_(exre, EX)
}
