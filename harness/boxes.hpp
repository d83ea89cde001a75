// Every box kind with arbitrary limits; used by B01 (range) and B02 (mutation step).
#pragma once
#include "h.hpp"
#include <HeuristicFlow/EAGlobal>
#include <HeuristicFlow/Genetic>
using namespace heu;
using namespace hh;

template <class V>
using Sc = std::decay_t<decltype(heu::at(std::declval<V &>(), 0))>;
template <class V>
constexpr bool isMat = !array_traits<V>::isVector;
template <class V>
constexpr bool isFix = array_traits<V>::isFixedSize;

template <class V>
void shape(V &v, int r, int c) {
  if constexpr (!isFix<V>) {
    if constexpr (isMat<V>) v.resize(r, c);
    else v.resize(r * c);
  }
  (void)v, (void)r, (void)c;
}
template <class V>
std::pair<int, int> pickShape() {
  if constexpr (isFix<V>) {
    if constexpr (isMat<V>) return {array_traits<V>::rowsCT, array_traits<V>::colsCT};
    else return {array_traits<V>::sizeCT, 1};
  } else if constexpr (isMat<V>)
    return {int(ri(1, 5)), int(ri(1, 5))};
  else
    return {int(ri(1, 9)), 1};
}
// a pair lo<hi of element values, with extreme pairs now and then
template <class S>
std::pair<S, S> limits() {
  typedef std::numeric_limits<S> L;
  if constexpr (std::is_same_v<S, bool>) return {false, true};
  else if constexpr (std::is_integral_v<S>) {
    switch (ri(0, 5)) {
      case 0: return {L::min(), L::max()};
      case 1: return {S(L::max() - 1), L::max()};
      case 2: return {L::min(), S(L::min() + 1)};
      case 3: { S a = S(ri(0, 100)); return {a, S(a + 1)}; }
      default: { S a = S(ri(L::is_signed ? -60 : 0, 60)); return {a, S(a + ri(1, 60))}; }
    }
  } else {
    switch (ri(0, 6)) {
      case 0: { S a = S(rr(-1e6, 1e6)); return {a, std::nextafter(a, S(1e30))}; }
      case 1: return {S(-1e30), S(1e30)};
      case 2: return {S(-L::denorm_min()), S(L::denorm_min())};
      case 3: return {S(0.1f), S(0.3f)};
      case 4: return {S(1e6), S(1e6) + S(1)};
      default: { S a = S(rr(-100, 100)); return {a, S(a + rr(1e-3, 50))}; }
    }
  }
}
template <class S>
S anyval(S lo, S hi) {
  typedef std::numeric_limits<S> L;
  if constexpr (std::is_same_v<S, bool>) return ri(0, 1);
  else if constexpr (std::is_integral_v<S>) {
    switch (ri(0, 5)) {
      case 0: return lo;
      case 1: return hi;
      case 2: return L::max();
      case 3: return L::min();
      default: return S(rng());
    }
  } else {
    switch (ri(0, 7)) {
      case 0: return lo;
      case 1: return hi;
      case 2: return L::infinity();
      case 3: return -L::infinity();
      case 4: return S(-0.0);
      case 5: return std::nextafter(lo, -L::infinity());
      case 6: return std::nextafter(hi, L::infinity());
      default: return S(lo + (hi - lo) * S(rr(-0.5, 1.5)));
    }
  }
}
template <class S>
S inval(S lo, S hi) {
  for (int i = 0; i < 20; i++) {
    S v = anyval<S>(lo, hi);
    if (v >= lo && v <= hi) return v;
  }
  return ri(0, 1) ? lo : hi;
}
template <class S>
bool same(S a, S b) { return memcmp(&a, &b, sizeof a) == 0 || a == b; }

template <class V>
std::string showv(const V &v) {
  std::ostringstream o;
  o.precision(17);
  o << '[';
  for (int i = 0; i < int(v.size()); i++) o << (i ? "," : "") << +heu::at(v, i);
  o << ']';
  return o.str();
}

// the limits the box was given
template <class S>
struct Lim {
  int r, c;
  std::vector<S> lo, hi, de;
  int n() const { return r * c; }
};

// F(box, Lim) is called for configured boxes
template <class Box, class F>
void discreteBoxes(F f) {
  typedef typename Box::Var_t V;
  typedef Sc<V> S;
  for (int it = 0; it < scale(40, 1500); it++) {
    auto [r, c] = pickShape<V>();
    Lim<S> l{r, c, {}, {}, {}};
    Box b;
    int n = r * c;
    constexpr bool square = std::is_same_v<decltype(std::declval<const Box &>().min()), S>;
    auto q = limits<S>();
    for (int i = 0; i < n; i++) {
      l.lo.push_back(q.first), l.hi.push_back(q.second), l.de.push_back(S(1));
      if (!square) q = limits<S>();
    }
    if constexpr (!isFix<V>) {
      if constexpr (isMat<V>) b.setDimensions(r, c);
      else b.setDimensions(r * c);
    }
    if constexpr (!std::is_same_v<S, bool>) {
      if constexpr (square) {
        if (it % 2) b.setRange(l.lo[0], l.hi[0]);
        else b.min() = l.lo[0], b.max() = l.hi[0];
      } else {
        V lo, hi;
        shape(lo, r, c), shape(hi, r, c);
        for (int i = 0; i < n; i++) heu::at(lo, i) = l.lo[i], heu::at(hi, i) = l.hi[i];
        if (it % 2) b.setRange(lo, hi);
        else b.min() = lo, b.max() = hi;
      }
    }
    f(b, l);
  }
}
template <class Box, class F>
void contBoxes(F f) {
  typedef typename Box::Var_t V;
  typedef Sc<V> S;
  discreteBoxes<Box>([&](Box &b, Lim<S> l) {
    constexpr bool square = std::is_same_v<decltype(std::declval<const Box &>().min()), S>;
    for (int i = 0; i < l.n(); i++) {
      S w = l.hi[i] - l.lo[i];
      S d = S(w * S(rr(1e-3, 0.5)));
      if (!(d > 0) || !std::isfinite(d)) d = S(1);
      if (i == 0 || !square) l.de[i] = d;
      else l.de[i] = l.de[0];
    }
    if constexpr (square) b.setDelta(l.de[0]);
    else {
      V d;
      shape(d, l.r, l.c);
      for (int i = 0; i < l.n(); i++) heu::at(d, i) = l.de[i];
      if (ri(0, 1)) b.setDelta(d);
      else b.delta() = d;
    }
    f(b, l);
  });
}
// compile-time boxes: limits and step given as template arguments
template <class Box, class S, class F>
void ctBoxes(S lo, S hi, S de, F f) {
  typedef typename Box::Var_t V;
  for (int it = 0; it < scale(40, 1500); it++) {
    auto [r, c] = pickShape<V>();
    Box b;
    if constexpr (!isFix<V>) {
      if constexpr (isMat<V>) b.setDimensions(r, c);
      else b.setDimensions(r * c);
    }
    Lim<S> l{r, c, std::vector<S>(r * c, lo), std::vector<S>(r * c, hi), std::vector<S>(r * c, de)};
    f(b, l);
  }
}

typedef std::array<double, 3> AD3;
typedef std::array<double, 1> AD1;
typedef std::vector<double> VD;
typedef std::vector<float> VF;
typedef Eigen::Array<double, 4, 1> ED4;
typedef Eigen::Array<double, 1, 4> ER4;
typedef Eigen::Array<double, Eigen::Dynamic, 1> EDX;
typedef Eigen::Array<float, Eigen::Dynamic, 1> EFX;
typedef Eigen::Array<double, 2, 3> EM23;
typedef Eigen::Array<double, Eigen::Dynamic, Eigen::Dynamic> EMX;
typedef Eigen::Matrix<float, Eigen::Dynamic, Eigen::Dynamic> MFX;
typedef std::array<int, 4> AI4;
typedef std::vector<int> VI;
typedef std::vector<uint8_t> VU8;
typedef std::vector<int8_t> VS8;
typedef std::vector<int16_t> VS16;
typedef std::vector<uint16_t> VU16;
typedef std::vector<uint32_t> VU32;
typedef Eigen::Array<int, Eigen::Dynamic, 1> EIX;
typedef Eigen::Array<int, 3, 2> EI32;
typedef Eigen::Array<int, Eigen::Dynamic, Eigen::Dynamic> EIXX;
typedef Eigen::Array<uint8_t, Eigen::Dynamic, 1> EU8;
typedef std::array<bool, 6> AB6;
typedef std::vector<char> VC;
typedef Eigen::Array<bool, Eigen::Dynamic, 1> EBX;
typedef Eigen::Array<bool, 2, 2> EB22;
typedef Eigen::Array<bool, Eigen::Dynamic, Eigen::Dynamic> EBXX;

#define SQ BoxShape::SQUARE_BOX
#define RE BoxShape::RECTANGLE_BOX
template <class V>
struct VB {};
#define FORALL_INT(M)                                                                             \
  M(AI4, SQ) M(AI4, RE) M(VI, SQ) M(VI, RE) M(VU8, SQ) M(VU8, RE) M(VS8, SQ) M(VS8, RE) M(VS16, SQ) M(VU16, RE) \
  M(VU32, SQ) M(EIX, SQ) M(EIX, RE) M(EI32, SQ) M(EI32, RE) M(EIXX, SQ) M(EIXX, RE) M(EU8, SQ) M(EU8, RE) M(VC, SQ)
#define FORALL_BOOL(M) M(AB6, SQ) M(EBX, SQ) M(EB22, SQ) M(EBXX, SQ)
#define FORALL_REAL(M)                                                                            \
  M(AD3, SQ) M(AD3, RE) M(AD1, SQ) M(VD, SQ) M(VD, RE) M(VF, SQ) M(VF, RE) M(ED4, SQ) M(ED4, RE) M(ER4, RE)   \
  M(EDX, SQ) M(EDX, RE) M(EFX, SQ) M(EFX, RE) M(EM23, SQ) M(EM23, RE) M(EMX, SQ) M(EMX, RE) M(MFX, SQ) M(MFX, RE)
