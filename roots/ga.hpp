// genetic solvers over a side-effect free user objective and user operators without body (contracts)
#include <cstdint>
#include <iostream>
#include <HeuristicFlow/EAGlobal>
#include <HeuristicFlow/Genetic>
namespace vroot {
using namespace heu;
typedef std::vector<double> SV;
typedef Eigen::Array<double, 3, 1> EA;
template <class V, class F>
struct rt {  // run-time set callbacks
};
#define OPS_(V, F, n)                      \
  void n##_ini(V *);                       \
  void n##_fit(const V *, F *);            \
  void n##_crs(const V *, const V *, V *, V *); \
  void n##_mut(const V *, V *);
#define WRAP_(n)                                                          \
  void n##_init(n##_t *s) { s->initializePop(); }                         \
  void n##_comp(n##_t *s) { s->__impl_computeAllFitness(); }              \
  void n##_cross(n##_t *s) { s->__impl_crossover(); }                     \
  void n##_mutate(n##_t *s) { s->__impl_mutate(); }                       \
  const auto &n##_pop(const n##_t *s) { return s->population(); }         \
  const auto &n##_opt(const n##_t *s) { return s->option(); }
typedef Eigen::Array<double, 2, 1> F2;
typedef Eigen::Array<double, Eigen::Dynamic, 1> FX;
OPS_(SV, double, so)
typedef SOGA<SV, FITNESS_LESS_BETTER, DONT_RECORD_FITNESS, Truncation, void, so_ini, so_fit, so_crs, so_mut> so_t;
WRAP_(so)
OPS_(EA, double, se)
typedef SOGA<EA, FITNESS_GREATER_BETTER, RECORD_FITNESS, RouletteWheel, void, se_ini, se_fit, se_crs, se_mut> se_t;
WRAP_(se)
OPS_(EA, F2, n2)
typedef NSGA2<EA, 2, FITNESS_LESS_BETTER, DONT_RECORD_FITNESS, void, n2_ini, n2_fit, n2_crs, n2_mut> n2_t;
WRAP_(n2)
OPS_(SV, FX, nx)
typedef NSGA2<SV, Eigen::Dynamic, FITNESS_LESS_BETTER, DONT_RECORD_FITNESS, void, nx_ini, nx_fit, nx_crs, nx_mut> nx_t;
WRAP_(nx)
int nx_objnum(const nx_t *s) { return s->objectiveNum(); }
OPS_(SV, FX, n3)
typedef NSGA3<SV, Eigen::Dynamic, DONT_RECORD_FITNESS, SINGLE_LAYER, void, n3_ini, n3_fit, n3_crs, n3_mut> n3_t;
WRAP_(n3)
int n3_objnum(const n3_t *s) { return s->objectiveNum(); }
}  // namespace vroot
