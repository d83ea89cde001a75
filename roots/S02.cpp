// the ten selection methods of the single-objective solver, both directions
#include "ga.hpp"
namespace vroot {
#define SELE_(n, M, O)                                                              \
  OPS_(SV, double, n)                                                               \
  typedef SOGA<SV, O, DONT_RECORD_FITNESS, M, void, n##_ini, n##_fit, n##_crs, n##_mut> n##_t; \
  WRAP_(n)                                                                          \
  void n##_sel(n##_t *s) { s->__impl_select(); }                                    \
  auto n##_find(n##_t *s) { return s->findCurrentBestGene(); } \
  const auto &n##_best(const n##_t *s) { return s->_bestGene; }                     \
  const auto &n##_fail(const n##_t *s) { return s->_failTimes; }
#define BOTH_(n, M) SELE_(n##l, M, FITNESS_LESS_BETTER) SELE_(n##g, M, FITNESS_GREATER_BETTER)
BOTH_(trunc, Truncation)
BOTH_(roul, RouletteWheel)
BOTH_(tour, Tournament)
BOTH_(monte, MonteCarlo)
BOTH_(prob, Probability)
BOTH_(lin, LinearRank)
BOTH_(expo, ExponentialRank)
BOTH_(boltz, Boltzmann)
BOTH_(stoch, StochasticUniversal)
BOTH_(elite, EliteReserved)
#define PARAM_(n, f, m) const auto &n##_##f(const n##_t *s) { return s->m; }
PARAM_(tourl, par, _tournamentSize)
PARAM_(tourg, par, _tournamentSize)
PARAM_(elitel, par, _eliteNum)
PARAM_(eliteg, par, _eliteNum)
PARAM_(linl, w, _linearSelectWrostProbability)
PARAM_(ling, w, _linearSelectWrostProbability)
PARAM_(linl, b, _linearSelectBestProbability)
PARAM_(ling, b, _linearSelectBestProbability)
PARAM_(expol, par, _exponetialSelectBase)
PARAM_(expog, par, _exponetialSelectBase)
}  // namespace vroot
