#include <cstdint>
#include <iostream>
#include <HeuristicFlow/Global>
namespace vroot {
#define T_(T, n)                                                            \
  T n##_sq(T a) { return heu::square(a); }                                  \
  T n##_sg(T a) { return heu::sign(a); }                                    \
  T n##_f(T a) { return heu::fractorial(a); }                               \
  T n##_c(T a, T b) { return heu::NchooseK(a, b); }                         \
  T n##_mn2(T a, T b) { return heu::min(a, b); }                            \
  T n##_mn3(T a, T b, T c) { return heu::min(a, b, c); }                    \
  T n##_mn4(T a, T b, T c, T d) { return heu::min(a, b, c, d); }            \
  T n##_mn5(T a, T b, T c, T d, T e) { return heu::min(a, b, c, d, e); }    \
  T n##_mx2(T a, T b) { return heu::max(a, b); }                            \
  T n##_mx3(T a, T b, T c) { return heu::max(a, b, c); }                    \
  T n##_mx4(T a, T b, T c, T d) { return heu::max(a, b, c, d); }            \
  T n##_mx5(T a, T b, T c, T d, T e) { return heu::max(a, b, c, d, e); }
T_(int, int) T_(size_t, size) T_(unsigned, uint) T_(int64_t, int64) T_(short, short) T_(uint8_t, uint8) T_(double, double) T_(float, float)
double gc(double x, double m, double s) { return heu::gaussianCurve(x, m, s); }
double gc1(double x) { return heu::gaussianCurve(x); }
}
