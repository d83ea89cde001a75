#include <cstdint>
#include <iostream>
#include <HeuristicFlow/EAGlobal>
namespace vroot {
using namespace heu;
double d0() { return randD(); }
float f0() { return randF(); }
double d2(double a, double b) { return randD(a, b); }
void dn(double *d, int n) { randD(d, n); }
void dn2(double *d, int n, double a, double b) { randD(d, n, a, b); }
#define X_(T, n) T n##_i(T s) { return randIdx(s); } T n##_r(T a, T b) { return randIdx(a, b); }
X_(int, int) X_(size_t, size_t) X_(short, short) X_(int64_t, int64) X_(unsigned, unsigned) X_(uint8_t, uint8) X_(int8_t, int8) X_(uint16_t, uint16)
}
