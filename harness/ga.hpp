#pragma once
#include "h.hpp"
#include <omp.h>
#include <map>
#include <mutex>
#include <HeuristicFlow/EAGlobal>
#include <HeuristicFlow/Genetic>
using namespace heu;
using namespace hh;
typedef std::array<double, 4> A4;
typedef std::vector<double> VD;
typedef Eigen::Array<double, 3, 1> E3;
typedef Eigen::Array<double, Eigen::Dynamic, 1> EX;
struct Arg {
  double k = 0;
  int dim = 3;
};
struct Call {
  char k;
  const void *a, *b;
  void *c, *d;
};
inline std::vector<Call> calls;
inline std::mutex callsM;
inline std::atomic<long> fitCalls{0};
inline bool logging = false;
inline void note(char k, const void *a = 0, const void *b = 0, void *c = 0, void *d = 0) {
  if (!logging) return;
  std::lock_guard<std::mutex> l(callsM);
  calls.push_back({k, a, b, c, d});
}
inline int dim = 3;
inline int granular = 0;  // >0: objective values on a coarse grid, so that ties occur
template <class V>
bool sameV(const V &a, const V &b) {
  if (a.size() != b.size()) return false;
  for (int i = 0; i < int(a.size()); i++)
    if (std::memcmp(&a[i], &b[i], sizeof(double))) return false;
  return true;
}
template <class V>
double obj(const V &v, int k) {
  double s = 0;
  for (int i = 0; i < int(v.size()); i++) s += std::cos(v[i] * (k + 1) + i + k) + (k + 1) * 0.1 * v[i];
  if (granular) s = std::floor(s * granular) / granular;
  return s;
}
inline void put(double *f, double x, int) { *f = x; }
template <class F>
int nobj(const F *f) {
  if constexpr (std::is_same_v<F, double>) return 1;
  else return int(f->size());
}
template <class F>
double &fa(F &f, int k) {
  if constexpr (std::is_same_v<F, double>) return f;
  else return f[k];
}
template <class F>
double fa(const F &f, int k) {
  if constexpr (std::is_same_v<F, double>) return f;
  else return f[k];
}
template <class F>
std::string sf(const F &f) {
  std::string s = "(";
  for (int k = 0; k < nobj(&f); k++) s += fmt("%s%.17g", k ? "," : "", fa(f, k));
  return s + ")";
}
template <class F>
bool sameF(const F &a, const F &b) {
  if (nobj(&a) != nobj(&b)) return false;
  for (int k = 0; k < nobj(&a); k++) {
    double x = fa(a, k), y = fa(b, k);
    if (std::memcmp(&x, &y, 8)) return false;
  }
  return true;
}
template <class V>
void mk(V *v, int n) {
  if constexpr (!array_traits<V>::isFixedSize) v->resize(n);
}
// operators used by the harness; every one writes its result completely
template <class V, class F>
struct Fn {
  static void ini(V *v) {
    note('i', 0, 0, v);
    mk(v, dim);
    for (int i = 0; i < int(v->size()); i++) (*v)[i] = rr(-5, 5);
  }
  static void fit(const V *v, F *f) {
    ++fitCalls;
    note('f', v, 0, f);
    for (int k = 0; k < nobj(f); k++) fa(*f, k) = obj(*v, k);
  }
  static void cro(const V *a, const V *b, V *c, V *d) {
    note('c', a, b, c, d);
    mk(c, a->size()), mk(d, a->size());
    for (int i = 0; i < int(a->size()); i++) {
      bool t = ri(0, 1);
      (*c)[i] = t ? (*a)[i] : (*b)[i], (*d)[i] = t ? (*b)[i] : (*a)[i];
    }
  }
  static void mut(const V *a, V *c) {
    note('m', a, 0, c);
    *c = *a;
    (*c)[ri(0, a->size() - 1)] += rr(-0.5, 0.5);
  }
  static void iniA(V *v, const Arg *a) {
    note('A', a);
    ini(v);
  }
  static void fitA(const V *v, const Arg *a, F *f) {
    fit(v, f);
    for (int k = 0; k < nobj(f); k++) fa(*f, k) += a->k;
  }
  static void croA(const V *a, const V *b, V *c, V *d, const Arg *) { cro(a, b, c, d); }
  static void mutA(const V *a, V *c, const Arg *) { mut(a, c); }
};
template <class S>
struct FitOf;
template <class S>
using GeneOf = typename S::Gene_t;
template <class S>
using VarOf = std::decay_t<decltype(std::declval<GeneOf<S>>().decision_variable)>;
template <class S>
using FOf = std::decay_t<decltype(std::declval<GeneOf<S>>().fitness)>;
template <class S>
void setFns(S &s) {
  using V = VarOf<S>;
  using F = FOf<S>;
  dim = int(ri(1, 5));
  if constexpr (S::HasParameters) {
    s.setArgs(Arg{rr(-1, 1), dim});
    s.setiFun(Fn<V, F>::iniA), s.setfFun(Fn<V, F>::fitA), s.setcFun(Fn<V, F>::croA), s.setmFun(Fn<V, F>::mutA);
  } else if constexpr (!S::fFunAtCompileTime)
    s.setiFun(Fn<V, F>::ini), s.setfFun(Fn<V, F>::fit), s.setcFun(Fn<V, F>::cro), s.setmFun(Fn<V, F>::mut);
}
template <class S>
double trueObj(const S &s, const VarOf<S> &v, int k) {
  double o = obj(v, k);
  if constexpr (S::HasParameters) o += s.args().k;
  return o;
}
// an image of an individual
template <class S>
struct Img {
  const GeneOf<S> *p;
  VarOf<S> v;
  FOf<S> f;
  bool c;
};
template <class S>
std::vector<Img<S>> snap(const S &s) {
  std::vector<Img<S>> r;
  for (auto &g : s.population()) r.push_back({&g, g.decision_variable, g.fitness, g.is_fitness_computed});
  return r;
}
template <class S>
bool same(const Img<S> &a, const GeneOf<S> &g, bool fit = true) {
  return sameV(a.v, g.decision_variable) && a.c == g.is_fitness_computed && (!fit || !a.c || sameF(a.f, g.fitness));
}
template <class S>
struct IsNsga3 : std::integral_constant<int, 0> {};
template <class V, int N, RecordOption R, ReferencePointOption P, class A, auto... X>
struct IsNsga3<NSGA3<V, N, R, P, A, X...>> : std::integral_constant<int, P == SINGLE_LAYER ? 1 : 2> {};
template <class S>
constexpr bool isSO = std::is_same_v<FOf<S>, double>;
// configures solver, operators and the number of objectives
template <class S>
int prepare(S &s, const GAOption &o) {
  s.setOption(o);
  setFns(s);
  int M = 1;
  if constexpr (!isSO<S>) {
    M = FOf<S>::RowsAtCompileTime;
    if constexpr (FOf<S>::RowsAtCompileTime == Eigen::Dynamic) s.setObjectiveNum(M = int(ri(2, 4)));
    if constexpr (IsNsga3<S>::value == 1) s.setReferencePointPrecision(ri(1, 4));
    if constexpr (IsNsga3<S>::value == 2) s.setReferencePointPrecision(ri(2, 3), ri(2, 4));
  }
  return M;
}
template <class S>
struct IsTour : std::false_type {};
template <class V, FitnessOption FO, RecordOption R, class A, auto... X>
struct IsTour<SOGA<V, FO, R, SelectMethod::Tournament, A, X...>> : std::true_type {};
inline GAOption opt(int n) {
  GAOption o;
  o.populationSize = n;
  o.maxGenerations = 10;
  o.maxFailTimes = 0;
  o.crossoverProb = std::array<double, 4>{0, 1, 0.5, 0.8}[ri(0, 3)];
  o.mutateProb = std::array<double, 4>{0, 1, 0.3, 0.05}[ri(0, 3)];
  return o;
}
// solver types with run-time or compile-time operators, with and without further parameters
template <class V, SelectMethod SM, FitnessOption FO = FITNESS_LESS_BETTER, RecordOption R = DONT_RECORD_FITNESS>
using SOr = SOGA<V, FO, R, SM>;
template <class V, SelectMethod SM, FitnessOption FO = FITNESS_LESS_BETTER, RecordOption R = DONT_RECORD_FITNESS>
using SOa = SOGA<V, FO, R, SM, Arg>;
template <class V, SelectMethod SM, FitnessOption FO = FITNESS_LESS_BETTER, RecordOption R = DONT_RECORD_FITNESS>
using SOc = SOGA<V, FO, R, SM, void, Fn<V, double>::ini, Fn<V, double>::fit, Fn<V, double>::cro, Fn<V, double>::mut>;
template <class V, int N, FitnessOption FO = FITNESS_LESS_BETTER, RecordOption R = DONT_RECORD_FITNESS>
using N2r = NSGA2<V, N, FO, R>;
template <class V, int N, FitnessOption FO = FITNESS_LESS_BETTER, RecordOption R = DONT_RECORD_FITNESS>
using N2a = NSGA2<V, N, FO, R, Arg>;
template <class V, int N>
using FA = Eigen::Array<double, N, 1>;
template <class V, int N, FitnessOption FO = FITNESS_LESS_BETTER, RecordOption R = DONT_RECORD_FITNESS>
using N2c = NSGA2<V, N, FO, R, void, Fn<V, FA<V, N>>::ini, Fn<V, FA<V, N>>::fit, Fn<V, FA<V, N>>::cro, Fn<V, FA<V, N>>::mut>;
template <class V, int N, ReferencePointOption P = SINGLE_LAYER, RecordOption R = DONT_RECORD_FITNESS>
using N3r = NSGA3<V, N, R, P>;
template <class V, int N, ReferencePointOption P = SINGLE_LAYER, RecordOption R = DONT_RECORD_FITNESS>
using N3a = NSGA3<V, N, R, P, Arg>;
template <class V, int N, ReferencePointOption P = SINGLE_LAYER, RecordOption R = DONT_RECORD_FITNESS>
using N3c = NSGA3<V, N, R, P, void, Fn<V, FA<V, N>>::ini, Fn<V, FA<V, N>>::fit, Fn<V, FA<V, N>>::cro, Fn<V, FA<V, N>>::mut>;
#define LB FITNESS_LESS_BETTER
#define GB FITNESS_GREATER_BETTER
#define RF RECORD_FITNESS
