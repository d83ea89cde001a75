#define HEU_MAX_RUNTIME_OBJNUM 3  // bound of the run-time objective counts considered
#include "ga.hpp"
namespace vroot {
#define DOM_(n)                                                                             \
  void n##_dom(n##_t *s) { s->calculateDominatedNum(); }                                    \
  void n##_div(n##_t *s) { s->divideLayers(); }                                             \
  void n##_upd(n##_t *s, const n##_t::GeneIt_t *p, size_t k) { s->updatePF(p, k); }         \
  void n##_updp(n##_t *s, const n##_t::Gene_t *const *p, size_t k) { s->updatePF(p, k); }   \
  const auto &n##_sort(const n##_t *s) { return s->sortSpace; }                             \
  const auto &n##_layers(const n##_t *s) { return s->pfLayers; }                            \
  const auto &n##_pf(const n##_t *s) { return s->pfGenes(); }                               \
  auto n##_best(const n##_t *s) { return s->bestFitness(); }                                \
  void n##_sel(n##_t *s) { s->__impl_select(); }
OPS_(SV, F2, ng)
typedef NSGA2<SV, 2, FITNESS_GREATER_BETTER, RECORD_FITNESS, void, ng_ini, ng_fit, ng_crs, ng_mut> ng_t;
WRAP_(ng)
DOM_(n2) DOM_(nx) DOM_(n3) DOM_(ng)
}  // namespace vroot
