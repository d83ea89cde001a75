// PARTS: 2
#include <cstdint>
#include <iostream>
#include <HeuristicFlow/EAGlobal>
#include "h.hpp"
using namespace hh;
using namespace heu;
static uint32_t untemper(uint32_t y) {
  y ^= y >> 18;
  y ^= (y << 15) & 0xefc60000u;
  uint32_t r = y;
  for (int i = 0; i < 5; i++) r = y ^ ((r << 7) & 0x9d2c5680u);
  y = r;
  r = y;
  for (int i = 0; i < 3; i++) r = y ^ (r >> 11);
  return r;
}
// makes the generator's next 624 words exactly w
static void force(const std::vector<uint32_t> &w) {
  std::ostringstream o;
  for (size_t i = 0; i < 624; i++) o << untemper(w[i % w.size()]) << ' ';
  o << 0;
  std::istringstream in(o.str());
  in >> internal::global_mt19937();
}
static uint32_t word() {
  switch (ri(0, 7)) {
    case 0: return 0;
    case 1: return 0xffffffffu;
    case 2: return 0xffffffffu - uint32_t(ri(0, 600));
    case 3: return uint32_t(ri(0, 600));
    case 4: return 1u << ri(0, 31);
    case 5: return 0u - (1u << ri(0, 31));
    default: return uint32_t(u64());
  }
}
static std::vector<uint32_t> ws;
static void state() {
  ws.assign(size_t(ri(1, 9)), 0);
  for (auto &x : ws) x = word();
  if (ri(0, 3)) force(ws);
}
static std::string sw() { return "generator words " + show(ws); }
static double num() {
  switch (ri(0, 6)) {
    case 0: return double(ri(-3, 3));
    case 1: return rr(-1e3, 1e3);
    case 2: return std::ldexp(rr(-1, 1), int(ri(-1070, 1020)));
    case 3: return std::ldexp(1.0, int(ri(-60, 60))) * (ri(0, 1) ? 1 : -1);
    case 4: return 1 + double(ri(-4, 4)) * 0x1p-52;
    case 5: return double(ri(-5, 5)) * 5e-324;
    default: return rr(-1, 1);
  }
}
CASE("forced generator states are what the generator yields") {
  for (int i = 0; i < 200; i++) {
    std::vector<uint32_t> w;
    for (int k = 0; k < 5; k++) w.push_back(word());
    force(w);
    for (int k = 0; k < 5; k++) REQ(internal::global_mt19937()() == w[size_t(k)], "harness");
    count(uint64_t(i));
  }
}
CASE("unit interval") {
  for (int i = 0; i < scale(4000, 80000); i++) {
    state();
    for (int k = 0; k < 100; k++) {
      double d = randD();
      REQS(d >= 0 && d < 1, "randD() in [0,1)", fmt("%.17g ", d) + sw());
      float f = randF();
      REQS(f >= 0 && f < 1, "randF() in [0,1)", fmt("%.9g ", double(f)) + sw());
    }
    count(u64(), sw());
  }
}
CASE("ranged real") {
  for (int i = 0; i < scale(60000, 1000000); i++) {
    double a = num(), b = num();
    if (ri(0, 5) == 0) b = std::nextafter(a, 1e300);
    if (ri(0, 9) == 0) b = a;
    if (a > b) std::swap(a, b);
    if (!std::isfinite(b - a)) continue;
    state();
    for (int k = 0; k < 6; k++) {
      double d = randD(a, b);
      REQS(d >= a && d <= b, "randD(min,max) in [min,max]", fmt("randD(%a,%a)=%a ", a, b, d) + sw());
    }
    count(hd(hd(1, a), b), fmt("randD(%.17g,%.17g)", a, b));
  }
}
CASE("ranged real covers the range") {
  for (int i = 0; i < 200; i++) {
    double a = rr(-100, 100), b = a + rr(0.1, 50);
    double lo = 1e300, hi = -1e300;
    for (int k = 0; k < 4000; k++) {
      double d = randD(a, b);
      lo = std::min(lo, d), hi = std::max(hi, d);
    }
    REQ(lo < a + (b - a) * 0.1 && hi > b - (b - a) * 0.1, "randD(%g,%g) stayed in [%g,%g]", a, b, lo, hi);
    count(hd(hd(2, a), b));
  }
}
CASE("arrays") {
  for (int i = 0; i < scale(20000, 200000); i++) {
    int n = int(ri(0, 9) ? ri(0, 12) : ri(0, 4) ? ri(13, 200) : ri(200, 3000)), pad = 3;
    std::vector<double> v(size_t(n + 2 * pad), -7777.5);
    double a = num(), b = num();
    if (a > b) std::swap(a, b);
    if (!std::isfinite(b - a)) continue;
    if (a <= -7777.5 && b >= -7777.5) continue;
    bool ranged = ri(0, 1);
    state();
    if (ranged) randD(v.data() + pad, n, a, b);
    else randD(v.data() + pad, n), a = 0, b = 1;
    for (int k = 0; k < n + 2 * pad; k++) {
      double d = v[size_t(k)];
      if (k < pad || k >= n + pad) REQ(d == -7777.5, "element %d outside the array of %d written", k - pad, n);
      else REQ(d >= a && d <= b && (ranged || d < 1), "element %d of %d = %.17g not in [%.17g,%.17g]", k - pad, n, d, a, b);
    }
    count(hd(uint64_t(n), a));
  }
}
template <class T>
static void idx() {
  const T mx = std::numeric_limits<T>::max();
  for (int i = 0; i < scale(30000, 400000); i++) {
    T size;
    switch (ri(0, 5)) {
      case 0: size = T(ri(1, 20)); break;
      case 1: size = T(mx - T(ri(0, 40))); break;
      case 2: size = T(T(1) << ri(0, std::numeric_limits<T>::digits - 1)); break;
      case 3: {
        T x = T(T(1) << ri(0, std::numeric_limits<T>::digits - 1));
        size = T(x - (x > 1 ? 1 : 0));
        break;
      }
      default: size = T(u64() % uint64_t(mx)); 
    }
    if (size < 1) size = 1;
    state();
    for (int k = 0; k < 4; k++) {
      T v = randIdx(size);
      REQS(v >= 0 && v < size, "randIdx(size) in {0..size-1}", fmt("randIdx(%llu)=%lld ", (unsigned long long)size, (long long)v) + sw());
    }
    // ranged: the difference must be representable
    T lo = std::numeric_limits<T>::is_signed && ri(0, 1) ? T(-T(u64() % uint64_t(mx))) : T(u64() % uint64_t(mx));
    if (ri(0, 2) == 0) lo = T(ri(0, 30));
    T room = lo > 0 ? T(mx - lo) : mx;
    if (room < 1) continue;
    T span = T(size % room);
    if (span < 1) span = 1;
    T hi = T(lo + span);
    state();
    for (int k = 0; k < 4; k++) {
      T v = randIdx(lo, hi);
      REQS(v >= lo && v < hi, "randIdx(min,max+1) in {min..max}", fmt("randIdx(%lld,%lld)=%lld ", (long long)lo, (long long)hi, (long long)v) + sw());
    }
    count(hmix(uint64_t(size), uint64_t(lo)), fmt("randIdx(%llu)", (unsigned long long)size));
  }
  // every value of small ranges occurs
  for (int s = 1; s <= 7; s++) {
    std::set<long> seen, seen2;
    force({uint32_t(u64())});
    internal::global_mt19937().seed(uint32_t(u64()));
    for (int k = 0; k < 600; k++) seen.insert(long(randIdx(T(s)))), seen2.insert(long(randIdx(T(5), T(5 + s))));
    REQ(int(seen.size()) == s && int(seen2.size()) == s, "randIdx over %d values yields only %zu/%zu of them", s, seen.size(), seen2.size());
  }
}
CASE("index int") { idx<int>(); }
CASE("index unsigned") { idx<unsigned>(); }
CASE("index size_t") { idx<size_t>(); }
CASE("index int64") { idx<int64_t>(); }
CASE("index short") { idx<short>(); }
CASE("index uint16") { idx<uint16_t>(); }
CASE("index uint8") { idx<uint8_t>(); }
