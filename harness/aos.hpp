#pragma once
#include "h.hpp"
#include <omp.h>
#include <map>
#include <mutex>
#include <HeuristicFlow/EAGlobal>
#include <HeuristicFlow/AOS>
using namespace heu;
using namespace hh;
typedef std::array<double, 4> A4;
typedef std::vector<double> VD;
typedef Eigen::Array<double, 3, 1> E3;
typedef Eigen::Array<double, Eigen::Dynamic, 1> EX;
typedef Eigen::Array<double, 2, 3> M23;
typedef Eigen::Array<double, Eigen::Dynamic, Eigen::Dynamic> MX;
inline int rows = 0, cols = 0;
template <class V>
void size(V &v, int n) {
  if constexpr (!array_traits<V>::isFixedSize) {
    if constexpr (array_traits<V>::isVector) v.resize(n);
    else v.resize(rows, cols);
  }
}
#define LB FITNESS_LESS_BETTER
#define GB FITNESS_GREATER_BETTER
#define RF RECORD_FITNESS
struct Arg {
  double k = 0;
};
template <class V>
double energyOf(const V &v) {
  double s = 0;
  for (int i = 0; i < int(v.size()); i++) s += std::cos(3 * heu::at(v, i) + i) + 0.1 * heu::at(v, i);
  return s;
}
inline std::function<void(const double *, int)> onState;
inline std::mutex onM;
template <class V>
void fF(const V *v, double *f) {
  if (onState) {
    std::lock_guard<std::mutex> l(onM);
    onState(v->data(), int(v->size()));
  }
  *f = energyOf(*v);
}
template <class V>
void fA(const V *v, const Arg *a, double *f) {
  fF(v, f);
  *f += a->k;
}
template <class S>
using VarOf = std::decay_t<decltype(std::declval<S>().bindingState())>;
template <class S>
constexpr bool less_ = true;
template <class B, RecordOption R, class A, auto... X>
constexpr bool less_<AOS<B, GB, R, A, X...>> = false;
template <class S>
constexpr bool squareBox = true;
template <class V, FitnessOption F, RecordOption R, class A, auto... X>
constexpr bool squareBox<AOS<ContinousBox<V, BoxShape::RECTANGLE_BOX>, F, R, A, X...>> = false;
template <class S>
constexpr bool bounded = true;
template <class V, FitnessOption F, RecordOption R, class A, auto... X>
constexpr bool bounded<AOS<GaussianBox<V>, F, R, A, X...>> = false;
// configures the solver; lo/hi are the limits of the box
template <class S>
AOSOption setup(S &s, std::vector<double> &lo, std::vector<double> &hi, int &n) {
  using V = VarOf<S>;
  n = 3;
  if constexpr (!array_traits<V>::isFixedSize) {
    if constexpr (array_traits<V>::isVector) s.setDimensions(n = int(ri(1, 6)));
    else rows = int(ri(1, 4)), cols = int(ri(1, 4)), s.setDimensions(rows, cols), n = rows * cols;
  }
  else n = array_traits<V>::sizeCT;
  lo.assign(n, -HUGE_VAL), hi.assign(n, HUGE_VAL);
  V a, b, d;
  size(a, n), size(b, n), size(d, n);
  if constexpr (!bounded<S>) {
    s.setMu(rr(-1, 1));
    s.setSigma(rr(0.1, 2));
    for (int i = 0; i < n; i++) heu::at(d, i) = 0.1;
  } else if constexpr (squareBox<S>) {
    double l = rr(-20, 20), h = l + (ri(0, 4) ? rr(0.1, 30) : 1e-6);
    s.setRange(l, h);
    s.setDelta(rr(0.01, 5));
    lo.assign(n, l), hi.assign(n, h);
  } else {
    for (int i = 0; i < n; i++) heu::at(a, i) = lo[i] = rr(-20, 20), heu::at(b, i) = hi[i] = lo[i] + (ri(0, 4) ? rr(0.1, 30) : 1e-6), heu::at(d, i) = rr(0.01, 5);
    s.setRange(a, b);
    s.setDelta(d);
  }
  AOSOption o;
  o.electronNum = ri(0, 9) ? ri(1, 12) : ri(13, 60);
  o.maxLayerNum = ri(1, long(o.electronNum));
  o.photonRate = std::array<double, 4>{0, 1, 0.1, 0.5}[ri(0, 3)];
  o.maxGeneration = ri(0, 12);
  o.maxEarlyStop = ri(1, 12);
  s.setOption(o);
  if constexpr (S::hasParameters) {
    s.setArg(Arg{rr(-1, 1)});
    s.setfFun(fA<V>);
  } else
    s.setfFun(fF<V>);
  return o;
}
inline std::vector<double> energies(int n) {
  std::vector<double> f;
  int style = int(ri(0, 5));
  for (int i = 0; i < n; i++) switch (style) {
      case 0: f.push_back(1.5); break;
      case 1: f.push_back(double(ri(0, 3))); break;
      case 2: f.push_back(rr(-1, 1) * std::pow(10.0, ri(-8, 8))); break;
      case 3: f.push_back(i); break;
      case 4: f.push_back(-i); break;
      default: f.push_back(rr(-10, 10));
    }
  return f;
}
template <class S>
struct EImg {
  const void *p;
  VarOf<S> v;
  double e;
  bool c;
};
template <class S>
std::vector<EImg<S>> snap(const S &s) {
  std::vector<EImg<S>> r;
  for (auto &e : s.electrons()) r.push_back({&e, e.state, e.energy, e.isComputed});
  return r;
}
template <class V>
bool sameV(const V &a, const V &b) {
  if (a.size() != b.size()) return false;
  for (int i = 0; i < int(a.size()); i++)
    if (std::memcmp(a.data() + i, b.data() + i, sizeof(double))) return false;
  return true;
}
template <class S>
void fillE(S &s, int n0, const std::vector<double> &lo, const std::vector<double> &hi, int n) {
  auto f = energies(n0);
  s._electrons.clear();
  s._layers.clear();
  for (int i = 0; i < n0; i++) {
    s._electrons.emplace_back();
    auto &e = s._electrons.back();
    size(e.state, n);
    for (int k = 0; k < n; k++) heu::at(e.state, k) = bounded<S> ? std::min(hi[k], std::max(lo[k], rr(lo[k], hi[k]))) : rr(-3, 3);
    e.energy = f[i];
    e.isComputed = true;
  }
  s._atomBestPtr = &s._electrons.front();
  auto it = s._electrons.begin();
  std::advance(it, ri(0, n0 - 1));
  s._atomBestPtr = &*it;
  s._earlyStopCounter = size_t(ri(0, 5));
}
#define FORALL_AOS(C) \
  C(AOS_square<A4, LB, RF>) \
  C(AOS_square<VD, GB, RF, Arg>) \
  C(AOS_square<E3, GB>) \
  C(AOS_square<EX, LB, RF, Arg>) \
  C(AOS_rect<A4, GB>) \
  C(AOS_rect<VD, LB, RF>) \
  C(AOS_rect<E3, LB>) \
  C(AOS_rect<EX, GB, RF>) \
  C(AOS_square<M23, LB>) \
  C(AOS_rect<M23, GB, RF>) \
  C(AOS_rect<MX, LB>) \
  C(AOS_square<MX, GB, RF>)
