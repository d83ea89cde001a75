// PARTS: 2
// FLAGS: -O2 -fno-access-control
#include <cstdint>
#include <iostream>
#include <HeuristicFlow/Global>
#include "h.hpp"
using namespace hh;
using namespace heu;
template <class F>
struct K;
template <>
struct K<float> {
  typedef uint32_t U;
  typedef binCode32 C;
  static constexpr int mb = 23, eb = 8;
};
template <>
struct K<double> {
  typedef uint64_t U;
  typedef binCode64 C;
  static constexpr int mb = 52, eb = 11;
};
template <class F>
static typename K<F>::U bits(F f) {
  typename K<F>::U u;
  memcpy(&u, &f, sizeof f);
  return u;
}
template <class F>
static F fl(typename K<F>::U u) {
  F f;
  memcpy(&f, &u, sizeof f);
  return f;
}
template <class F>
static void one(typename K<F>::U u, bool cnt = true) {
  typedef typename K<F>::U U;
  typedef typename K<F>::C C;
  F x = fl<F>(u);
  U c = U(encode(x));
  F d = decode(C(u));
  unsigned long long cu = u, cc = c, cd = bits(d);
  if (std::isnan(x)) {
    REQ(std::isnan(fl<F>(c)), "encode(NaN %llx) is %llx", cu, cc);
    REQ(std::isnan(d), "decode(NaN %llx) is %a", cu, double(d));
    REQ(std::isnan(decode(C(c))), "decode(encode(NaN))");
  } else {
    if (x == 0) REQ((c << 1) == 0, "encode(%a) is %llx", double(x), cc);
    else REQ(c == u, "encode(%a)=%llx, bit pattern %llx", double(x), cc, cu);
    REQ(cd == cu || x == 0, "decode(%llx)=%a, bits %llx", cu, double(d), cd);
    REQ(d == x, "decode(%llx)=%a", cu, double(d));
    REQ(decode(C(c)) == x, "decode(encode(%a))=%a", double(x), double(decode(C(c))));
  }
  if (cnt) count(hmix(sizeof(F), u), fmt("%llx", cu));
}
template <class F>
static void all() {
  typedef typename K<F>::U U;
  const int mb = K<F>::mb, eb = K<F>::eb;
  const U M = (U(1) << mb) - 1;
  for (int s = 0; s < 2; s++)
    for (U e = 0; e < (U(1) << eb); e++) {
      U base = (U(s) << (mb + eb)) | (e << mb);
      for (int b = 0; b <= mb; b++) {
        U m = b < mb ? U(1) << b : 0;
        one<F>(base | m);
        one<F>(base | (M & ~m));
        one<F>(base | (M & ((U(1) << b) - 1)));
        one<F>(base | (M & ~((U(1) << b) - 1)));
      }
      for (int i = 0; i < scale(60, 1500); i++) one<F>(base | (U(u64()) & M));
    }
}
CASEL("all exponents float", 100) { all<float>(); }
CASEL("all exponents double", 200) { all<double>(); }
CASE("random floats") {
  for (int i = 0; i < scale(600000, 40000000); i++) one<float>(uint32_t(u64()), i % 64 == 0);
}
template <class F, typename K<F>::U u>
static void ct() {
  typedef typename K<F>::C C;
  constexpr F d = decode(C(u));
  static_assert(typename K<F>::U(encode(d)) == u || d == 0 || d != d);
  constexpr auto c = encode(d);
  static_assert(decode(c) == d || d != d);
  one<F>(u);
  REQ(d == fl<F>(u) || d != d, "compile-time decode(%llx)=%a", (unsigned long long)u, double(d));
}
CASE("constant expressions") {
  ct<double, 0>();
  ct<double, 1>();
  ct<double, 0x000fffffffffffffull>();
  ct<double, 0x0010000000000000ull>();
  ct<double, 0x3ff0000000000000ull>();
  ct<double, 0x3fffffffffffffffull>();
  ct<double, 0xc00921fb54442d18ull>();
  ct<double, 0x7fefffffffffffffull>();
  ct<double, 0x7ff0000000000000ull>();
  ct<double, 0xfff0000000000000ull>();
  ct<float, 0>();
  ct<float, 1>();
  ct<float, 0x007fffffu>();
  ct<float, 0x00800000u>();
  ct<float, 0x3f800000u>();
  ct<float, 0x3fffffffu>();
  ct<float, 0xc0490fdbu>();
  ct<float, 0x7f7fffffu>();
  ct<float, 0x7f800000u>();
  ct<float, 0xff800000u>();
}
