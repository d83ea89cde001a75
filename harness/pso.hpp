#pragma once
#include "h.hpp"
#include <omp.h>
#include <HeuristicFlow/EAGlobal>
#include <HeuristicFlow/PSO>
using namespace heu;
using namespace hh;
#define SQ BoxShape::SQUARE_BOX
#define RE BoxShape::RECTANGLE_BOX
typedef std::array<double, 5> A5;
typedef std::array<double, 1> A1;
typedef std::vector<double> VD;
typedef Eigen::Array<double, 6, 1> E6;
typedef Eigen::Array<double, 1, 4> R4;
typedef Eigen::Array<double, Eigen::Dynamic, 1> EX;
typedef Eigen::Array<double, 1, Eigen::Dynamic> RX;
typedef Eigen::Array<double, 2, 3> M23;
typedef Eigen::Array<double, Eigen::Dynamic, Eigen::Dynamic> MX;
template <class V>
constexpr bool isFix = array_traits<V>::isFixedSize;
template <class V>
std::string sv(const V &v) {
  std::ostringstream o;
  o.precision(17);
  o << '[';
  for (int i = 0; i < int(v.size()); i++) o << (i ? "," : "") << heu::at(v, i);
  o << ']';
  return o.str();
}
template <class V>
void fit(const V *v, double *f) {
  double s = 0;
  for (int i = 0; i < int(v->size()); i++) s += std::cos(heu::at(*v, i) * 3 + i) + 0.01 * heu::at(*v, i);
  *f = s;
}
struct Arg {
  double k;
};
template <class V>
void fitA(const V *v, const Arg *a, double *f) {
  fit<V>(v, f);
  *f += a->k;
}
template <class V, BoxShape B>
struct Cfg {
  int r, c, n;
  std::vector<double> lo, hi, vm;
};
// configures box and dimensions; returns the limits given
template <class V, BoxShape B, class P>
Cfg<V, B> setup(P &p, int minDim = 1) {
  Cfg<V, B> g;
  g.c = 1;
  if constexpr (isFix<V>) {
    g.r = array_traits<V>::sizeCT;
    if constexpr (!array_traits<V>::isVector) g.r = array_traits<V>::rowsCT, g.c = array_traits<V>::colsCT;
  } else if constexpr (!array_traits<V>::isVector)
    g.r = int(ri(1, 4)), g.c = int(ri(1, 4));
  else
    g.r = int(ri(minDim, 8));
  if constexpr (!isFix<V>) {
    if constexpr (!array_traits<V>::isVector) p.setDimensions(g.r, g.c);
    else p.setDimensions(g.r);
  }
  g.n = g.r * g.c;
  double lo, hi, vm;
  auto pick = [&]() {
    switch (ri(0, 4)) {
      case 0: lo = rr(-5, 5), hi = std::nextafter(lo, 1e30); break;
      case 1: lo = -1e12, hi = 1e12; break;
      default: lo = rr(-50, 50), hi = lo + rr(0.1, 40);
    }
    vm = ri(0, 3) ? rr(0.01, 3) : ri(0, 1) ? 1e-9 : 1e9;
  };
  pick();
  for (int i = 0; i < g.n; i++) {
    if (B == RE) pick();
    g.lo.push_back(lo), g.hi.push_back(hi), g.vm.push_back(vm);
  }
  if constexpr (B == SQ) {
    if (ri(0, 1)) p.setPVRange(lo, hi, vm);
    else p.posMin() = lo, p.posMax() = hi, p.maxVelocity() = vm;
  } else {
    V a = p.posMin(), b = p.posMin(), c = p.posMin();
    for (int i = 0; i < g.n; i++) heu::at(a, i) = g.lo[i], heu::at(b, i) = g.hi[i], heu::at(c, i) = g.vm[i];
    if (ri(0, 1)) p.setPVRange(a, b, c);
    else p.posMin() = a, p.posMax() = b, p.maxVelocity() = c;
  }
  return g;
}
// arbitrary value in [lo,hi], the limits included
inline double inr(double lo, double hi) {
  int k = int(ri(0, 5));
  return k == 0 ? lo : k == 1 ? hi : std::min(hi, std::max(lo, rr(lo, hi)));
}
#define FORALL_V(M) M(A5) M(A1) M(VD) M(E6) M(R4) M(EX) M(RX) M(M23) M(MX)
