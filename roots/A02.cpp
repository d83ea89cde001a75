#include <cstdint>
#include <iostream>
#include <HeuristicFlow/EAGlobal>
#include <HeuristicFlow/AOS>
namespace vroot {
using namespace heu;
typedef std::vector<double> SV;
typedef std::array<double, 4> SA;
typedef Eigen::Array<double, 3, 1> EA;
typedef Eigen::Array<double, Eigen::Dynamic, 1> EX;
#define A_(n, V, S, F)                                                              \
  typedef AOS<ContinousBox<V, S>, F> n##_t;                                         \
  void n##_atom(n##_t *s) { s->__impl_computeAtomBSBELE(); }                        \
  void n##_layer(n##_t *s) { s->__impl_computeLayerBSBELE(); }                      \
  const auto &n##_pop(const n##_t *s) { return s->electrons(); }                    \
  const auto &n##_lay(const n##_t *s) { return s->layers(); }                       \
  const auto &n##_bs(const n##_t *s) { return s->bindingState(); }                  \
  double n##_be(const n##_t *s) { return s->bindingEnergy(); }                      \
  const auto &n##_best(const n##_t *s) { return s->bestElectron(); }                \
  const auto &n##_lbs(const n##_t *s, size_t i) { return s->layers()[i].layerBestState(); }       \
  double n##_lbe(const n##_t *s, size_t i) { return s->layers()[i].layerBestEnergy(); }    \
  size_t n##_es(const n##_t *s) { return s->earlyStopCounter(); }
A_(svl, SV, BoxShape::SQUARE_BOX, FITNESS_LESS_BETTER)
A_(svg, SV, BoxShape::RECTANGLE_BOX, FITNESS_GREATER_BETTER)
A_(sal, SA, BoxShape::SQUARE_BOX, FITNESS_LESS_BETTER)
A_(sag, SA, BoxShape::SQUARE_BOX, FITNESS_GREATER_BETTER)
A_(eal, EA, BoxShape::SQUARE_BOX, FITNESS_LESS_BETTER)
A_(eag, EA, BoxShape::RECTANGLE_BOX, FITNESS_GREATER_BETTER)
A_(exl, EX, BoxShape::SQUARE_BOX, FITNESS_LESS_BETTER)
A_(exg, EX, BoxShape::SQUARE_BOX, FITNESS_GREATER_BETTER)
}  // namespace vroot
