// PARTS: 4
// FLAGS: -O1 -ftemplate-depth=2000
#include <cstdint>
#include <iostream>
#include <HeuristicFlow/Global>
#include "h.hpp"
using namespace hh;
using namespace heu;
template <int32_t a, uint32_t b>
static void dv() {
  typedef DivDecode<DivEncode<a, b>::code> D;
  const int32_t n = D::numerator;
  const uint32_t d = D::denominator;
  const double r = D::real;
  REQ(n == a && d == b, "DivEncode<%d,%u> decodes to %d / %u", a, b, n, d);
  REQ(r == double(a) / double(b), "DivEncode<%d,%u> decodes to the value %.17g", a, b, r);
  count(hmix(uint64_t(uint32_t(a)), b), fmt("%d/%u", a, b));
}
template <int... I>
static void dvs(std::integer_sequence<int, I...>) {
  (dv<I - 12, uint32_t(I * 7 + 1)>(), ...);
  (dv<INT32_MAX - I, UINT32_MAX - uint32_t(I)>(), ...);
  (dv<INT32_MIN + I, 0x80000000u + uint32_t(I * I)>(), ...);
  (dv<int32_t(I * 2654435761u), uint32_t(I + 1) * 2246822519u | 1u>(), ...);
  (dv<int32_t((I & 1 ? -1 : 1) * (1 << (I % 31))), (1u << (31 - I % 32))>(), ...);
}
CASE("fractions") { dvs(std::make_integer_sequence<int, 40>{}); }
template <int64_t s, int16_t p>
static void pw() {
  const double r = PowDecode<PowEncode<s, p>::code>::real;
  unsigned long long a = s < 0 ? 0ull - (unsigned long long)s : (unsigned long long)s;
  long double d = a;
  if (a)
    for (unsigned long long t = 1; a / t >= 10; t *= 10) d /= 10.0L;
  long double w = d * powl(10.0L, p);
  if (s < 0) w = -w;
  REQ(fabsl(r - w) <= 1e-12L * fabsl(w), "PowEncode<%lld,%d> decodes to %.17g, expected %.17Lg", (long long)s, p, r, w);
  count(hmix(uint64_t(s), uint64_t(p)), fmt("%lld e %d", (long long)s, p));
}
template <int64_t s, int16_t b, int... I>
static void pows(std::integer_sequence<int, I...>) {
  (pw<s, int16_t(b + I)>(), ...);
}
template <int16_t p, int... I>
static void sigs(std::integer_sequence<int, I...>) {
  (pw<(I & 1 ? -1 : 1) * int64_t(uint64_t(I + 1) * 2654435761ull % 9999999999999999ull), p>(), ...);
  (pw<(I & 2 ? -1 : 1) * int64_t(uint64_t(I + 1) * 0x9e3779b97f4a7c15ull % 9999999999999999ull), p>(), ...);
}
constexpr int64_t p10(int n) { return n ? 10 * p10(n - 1) : 1; }
template <int16_t p, int... I>
static void bounds(std::integer_sequence<int, I...>) {
  (pw<p10(I), p>(), ...);
  (pw<-p10(I), p>(), ...);
  (pw<p10(I) - 1, p>(), ...);
  (pw<(I % 2 ? 1 : -1) * (p10(I) * 10 - 1), p>(), ...);
  (pw<p10(I) + 1, p>(), ...);
  (pw<(I % 9 + 1) * p10(I), p>(), ...);
}
CASE("powers up") { pows<3141592653589793, 0>(std::make_integer_sequence<int, 256>{}); }
CASE("powers down") { pows<-2718281828459045, -255>(std::make_integer_sequence<int, 255>{}); }
CASE("significands") {
  sigs<0>(std::make_integer_sequence<int, 60>{});
  sigs<-7>(std::make_integer_sequence<int, 30>{});
}
CASE("digit counts") {
  bounds<0>(std::make_integer_sequence<int, 16>{});
  bounds<5>(std::make_integer_sequence<int, 16>{});
  bounds<-1>(std::make_integer_sequence<int, 16>{});
  pw<0, 0>();
  pw<0, 7>();
  pw<9999999999999999, 255>();
  pw<9999999999999999, -255>();
  pw<-9999999999999999, 0>();
  pw<1, 255>();
  pw<1, -255>();
  pw<1800000000000001, 0>();
  pw<8999999999999999, 1>();
}
CASE("named constants") {
  struct {
    const char *n;
    double v, w;
  } t[] = {{"Half", DivDecode<DivCode_Half>::real, 0.5},
           {"Pi", DivDecode<DivCode_Pi>::real, M_PI},
           {"Pi_mul_2", DivDecode<DivCode_Pi_mul_2>::real, M_PI * 2},
           {"Pi_mul_3", DivDecode<DivCode_Pi_mul_3>::real, M_PI * 3},
           {"Pi_mul_4", DivDecode<DivCode_Pi_mul_4>::real, M_PI * 4},
           {"Pi_mul_6", DivDecode<DivCode_Pi_mul_6>::real, M_PI * 6},
           {"Pi_div_2", DivDecode<DivCode_Pi_div_2>::real, M_PI / 2},
           {"Pi_div_3", DivDecode<DivCode_Pi_div_3>::real, M_PI / 3},
           {"Pi_div_4", DivDecode<DivCode_Pi_div_4>::real, M_PI / 4},
           {"Pi_div_6", DivDecode<DivCode_Pi_div_6>::real, M_PI / 6},
           {"Sqrt2", DivDecode<DivCode_Sqrt2>::real, std::sqrt(2.0)},
           {"one_div_Sqrt2", DivDecode<DivCode_one_div_Sqrt2>::real, std::sqrt(0.5)},
           {"E", DivDecode<DivCode_E>::real, M_E}};
  for (auto &c : t) {
    REQ(std::fabs(c.v - c.w) <= 1e-9, "DivCode_%s is %.15g, not %.15g", c.n, c.v, c.w);
    count(hd(1, c.v), c.n);
  }
}
