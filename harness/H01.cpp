// PARTS: 2
#include <cstdint>
#include <iostream>
#include <HeuristicFlow/Global>
#include "h.hpp"
using namespace hh;
typedef unsigned __int128 u128;
typedef __int128 i128;
static std::string big(u128 v) {
  std::string s;
  do s.insert(s.begin(), char('0' + int(v % 10))), v /= 10;
  while (v);
  return s;
}
template <class T>
static T some() {
  using L = std::numeric_limits<T>;
  if constexpr (std::is_floating_point_v<T>) {
    switch (ri(0, 4)) {
      case 0: return T(ri(-3, 3));
      case 1: return T(std::ldexp(rr(-1, 1), int(ri(-120, 120))));
      case 2: return std::array<T, 6>{T(0), -T(0), L::infinity(), -L::infinity(), L::max(), L::denorm_min()}[size_t(ri(0, 5))];
      default: return T(rr(-100, 100));
    }
  } else {
    switch (ri(0, 4)) {
      case 0: return T(ri(0, 5));
      case 1: return T(L::max() - T(ri(0, 3)));
      case 2: return T(L::min() + T(ri(0, 3)));
      case 3: return L::is_signed ? T(-ri(0, 5)) : T(ri(0, 50));
      default: return T(u64());
    }
  }
}
template <class T>
static bool eq(T a, T b) { return a == b; }
template <class T>
static std::string sh(T v) {
  std::ostringstream o;
  o.precision(17);
  o << +v;
  return o.str();
}
template <class T>
static void scalars() {
  using L = std::numeric_limits<T>;
  for (int i = 0; i < scale(40000, 500000); i++) {
    T x = some<T>();
    T s = heu::sign(x);
    T e = x > 0 ? T(1) : x < 0 ? T(0) - T(1) : T(0);
    REQ(s == e, "sign(%s)=%s", sh(x).c_str(), sh(s).c_str());
    if constexpr (std::is_floating_point_v<T>) {
      T q = heu::square(x);
      REQ(near(double(q), double(T(x * x)), 1e-6, 1e-300), "square(%s)=%s", sh(x).c_str(), sh(q).c_str());
    } else {
      i128 p = i128(x) * i128(x);
      bool rep = sizeof(T) == 8 && !L::is_signed ? u128(x) * u128(x) <= u128(L::max()) : p <= i128(L::max());
      if (!rep) {
        x = T(int64_t(u64() % uint64_t(std::sqrt(double(L::max())) - 1)));
        if (L::is_signed && ri(0, 1)) x = T(0) - x;
        p = i128(x) * i128(x);
      }
      T q = heu::square(x);
      REQ(i128(q) == p, "square(%s)=%s", sh(x).c_str(), sh(q).c_str());
    }
    T a[5];
    for (auto &v : a) v = ri(0, 2) ? some<T>() : T(ri(0, 2));
    REQ(heu::min(a[0], a[1]) == std::min(a[0], a[1]), "min of %s %s", sh(a[0]).c_str(), sh(a[1]).c_str());
    REQ(heu::max(a[0], a[1]) == std::max(a[0], a[1]), "max of %s %s", sh(a[0]).c_str(), sh(a[1]).c_str());
    std::string all = show(std::vector<T>(a, a + 5));
    for (int n = 3; n <= 5; n++) {
      T mn = *std::min_element(a, a + n), mx = *std::max_element(a, a + n);
      T gm = n == 3 ? heu::min(a[0], a[1], a[2]) : n == 4 ? heu::min(a[0], a[1], a[2], a[3]) : heu::min(a[0], a[1], a[2], a[3], a[4]);
      T gx = n == 3 ? heu::max(a[0], a[1], a[2]) : n == 4 ? heu::max(a[0], a[1], a[2], a[3]) : heu::max(a[0], a[1], a[2], a[3], a[4]);
      REQ(gm == mn, "min of the first %d of %s is %s", n, all.c_str(), sh(gm).c_str());
      REQ(gx == mx, "max of the first %d of %s is %s", n, all.c_str(), sh(gx).c_str());
    }
    if (i % 8 == 0) count(hd(1, double(x)), "x=" + sh(x));
  }
}
CASE("scalars int") { scalars<int>(); }
CASE("scalars int64") { scalars<int64_t>(); }
CASE("scalars unsigned") { scalars<unsigned>(); }
CASE("scalars uint64") { scalars<uint64_t>(); }
CASE("scalars short") { scalars<short>(); }
CASE("scalars double") { scalars<double>(); }
CASE("scalars float") { scalars<float>(); }
template <class T>
static void fact() {
  double mx = double(std::numeric_limits<T>::max());
  u128 f = 1;
  double df = 1;
  for (int n = 0; n <= 200; n++) {
    if (n) df *= n;
    if (n && n < 34) f *= u128(n);
    if (df > mx) break;
    T r = heu::fractorial(T(n));
    if constexpr (std::is_floating_point_v<T>) REQ(near(double(r), df, 1e-5), "factorial of %d is %g", n, double(r));
    else REQ(u128(r) == f, "factorial of %d is %s, not %s", n, sh(r).c_str(), big(f).c_str());
    count(uint64_t(n), fmt("n=%d", n));
  }
}
template <class T>
static void choose() {
  u128 mx = std::is_floating_point_v<T> ? u128(1) << 100 : u128(std::numeric_limits<T>::max());
  const int top = 130;
  static u128 C[131][131];
  for (int n = 0; n <= top; n++) {
    C[n][0] = 1;
    for (int k = 1; k <= n; k++) {
      u128 a = C[n - 1][k - 1], b = k == n ? 0 : C[n - 1][k];
      C[n][k] = a > (~u128(0) >> 1) || b > (~u128(0) >> 1) ? ~u128(0) : a + b;
    }
  }
  auto one = [&](long N, long K, u128 want) {
    T r = heu::NchooseK(T(N), T(K));
    if constexpr (std::is_floating_point_v<T>) REQ(near(double(r), double(want), 1e-9), "C(%ld,%ld) is %.17g", N, K, double(r));
    else REQ(u128(r) == want, "C(%ld,%ld) is %s, not %s", N, K, sh(r).c_str(), big(want).c_str());
    count(hmix(uint64_t(N), uint64_t(K)), fmt("C(%ld,%ld)", N, K));
  };
  for (int n = 0; n <= top; n++)
    for (int k = 0; k <= n; k++) {
      int m = std::min(k, n - k);
      // largest intermediate of the product form
      bool ok = true;
      u128 r = 1;
      for (int i = 1; i <= m && ok; i++) {
        if (C[n][m] > mx || r * u128(n - m + i) > mx) ok = false;
        else r = r * u128(n - m + i) / u128(i);
      }
      if (u128(n) > mx) ok = false;
      if (ok) one(n, k, C[n][k]);
    }
  // nearly everything of a large N chosen
  for (int i = 0; i < 200 && mx > 1000; i++) {
    long N = long(std::min(u128(1) << 50, mx / 2)) - 2 + long(ri(0, 1 << 10));
    if (u128(N) * 2 > mx * 2) continue;
    one(N, N, 1);
    one(N, N - 1, u128(N));
    one(N, 1, u128(N));
  }
  // large N, few chosen
  for (int i = 0; i < 3000; i++) {
    long N = long(u64() % (mx > 2000000000u ? 2000000 : uint64_t(mx) / 4)) + 6;
    for (long k = 0; k <= 2; k++) {
      u128 w = k == 0 ? 1 : k == 1 ? u128(N) : u128(N) * u128(N - 1) / 2;
      if (w * 4 > mx) continue;
      one(N, k, w);
      one(N, N - k, w);
    }
  }
}
CASE("factorial") {
  fact<int>();
  fact<unsigned>();
  fact<int64_t>();
  fact<uint64_t>();
  fact<double>();
  fact<short>();
}
CASE("binomial 32 bit") {
  choose<int>();
  choose<unsigned>();
}
CASE("binomial 64 bit") {
  choose<int64_t>();
  choose<uint64_t>();
}
CASE("binomial 16 bit and double") {
  choose<uint16_t>();
  choose<double>();
}
CASE("gaussian") {
  for (int i = 0; i < scale(100000, 1000000); i++) {
    double mu = ri(0, 3) ? rr(-50, 50) : 0, sg = ri(0, 3) ? std::exp(rr(-6, 6)) : 1, t = rr(-6, 6);
    double x = mu + t * sg, y = heu::gaussianCurve(x, mu, sg);
    long double d = ((long double)x - mu) / sg;
    double w = double(expl(-d * d / 2) / (sg * sqrtl(2 * 3.14159265358979323846264338327950288L)));
    REQ(near(y, w, 1e-7, 0), "gaussianCurve(%.17g,%.17g,%.17g)=%.17g, density %.17g", x, mu, sg, y, w);
    REQ(y > 0, "not positive");
    double dx = t * sg;
    REQ(heu::gaussianCurve(dx, 0.0, sg) == heu::gaussianCurve(-dx, 0.0, sg), "not symmetric at %.17g", dx);
    if (i % 8 == 0) count(hd(hd(hd(1, x), mu), sg), fmt("x=%g mu=%g sigma=%g", x, mu, sg));
  }
  REQ(near(heu::gaussianCurve(0.7), 0.31225393336676127, 1e-9, 0), "default parameters");
  REQ(near(heu::gaussianCurve(1.7, 1.0), 0.31225393336676127, 1e-9, 0), "default sigma");
  for (int i = 0; i < 2000; i++) {
    float mu = float(rr(-5, 5)), sg = float(rr(0.1, 4)), x = mu + float(rr(-3, 3)) * sg;
    double d = (double(x) - mu) / sg, w = std::exp(-d * d / 2) / (sg * std::sqrt(2 * M_PI));
    REQ(near(heu::gaussianCurve(x, mu, sg), w, 2e-4, 0), "float gaussianCurve(%g,%g,%g)", double(x), double(mu), double(sg));
  }
}
template <class T, T... v>
static void ct() {
  const std::vector<T> a{v...};
  T mn = *std::min_element(a.begin(), a.end()), mx = *std::max_element(a.begin(), a.end());
  T gm = heu::minmax<T, v...>::min, gx = heu::minmax<T, v...>::max;
  REQ(gm == mn && (heu::min_v<T, v...>) == mn, "compile-time min of %s is %s", show(a).c_str(), sh(gm).c_str());
  REQ(gx == mx && (heu::max_v<T, v...>) == mx, "compile-time max of %s is %s", show(a).c_str(), sh(gx).c_str());
  uint64_t h = sizeof...(v);
  for (T x : a) h = hmix(h, uint64_t(x));
  count(h, show(a));
}
template <int B, int... I>
static void perm(std::integer_sequence<int, I...>) {
  (ct<int, (I * 7 + 3) % B - 5, (I * 5 + 1) % B - 5, (I * 3 + I / 7) % B - 5>(), ...);
  (ct<int64_t, (I * 7 + 3) % B, -I, (I * 3 + I / 7) % B, I % 5, I % 7 - 3>(), ...);
  (ct<unsigned, unsigned(I * 13 % B), unsigned(I % 4) * 0x7fffffffu>(), ...);
  (ct<int, I % 3, I / 3 % 3, I / 9 % 3, I / 27 % 3>(), ...);
}
CASE("compile-time min and max") {
  perm<11>(std::make_integer_sequence<int, 81>{});
  ct<int, 7>();
  ct<int, INT32_MIN, INT32_MAX>();
  ct<uint64_t, UINT64_MAX, 0, UINT64_MAX - 1>();
  ct<int, -1, -2, -3, -4, -5, -6>();
  ct<int, 1, 2, 3, 4, 5, 6>();
}
