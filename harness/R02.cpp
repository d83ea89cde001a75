// PARTS: 1
#include <cstdint>
#include <iostream>
#include <HeuristicFlow/Global>
#include <HeuristicFlow/src/Global/LogisticChaos.hpp>
#include "h.hpp"
using namespace hh;
using namespace heu;
static double seedv() {
  switch (ri(0, 6)) {
    case 0: return 0.5 + double(ri(-20, 20)) * 0x1p-53;
    case 1: return std::ldexp(rr(0.5, 1), -int(ri(0, 1070)));
    case 2: return 1 - double(ri(1, 40)) * 0x1p-53;
    case 3: return 0.75 + double(ri(-3, 3)) * 0x1p-53;
    case 4: return 5e-324 * double(ri(1, 5));
    case 5: return std::array<double, 4>{0.25, 0.5, 0.75, 0.125}[size_t(ri(0, 3))];
    default: return std::max(rd(), 1e-9);
  }
}
CASE("unit interval and recurrence") {
  for (int i = 0; i < scale(20000, 300000); i++) {
    double s = seedv();
    LogisticChaos c(s);
    REQ(c.value() == s, "initial value %a for seed %a", c.value(), s);
    double x = s;
    for (int k = 0; k < 60; k++) {
      double r = c(), e = 4 * x * (1 - x);
      REQ(r >= 0 && r <= 1, "seed %a step %d value %a", s, k, r);
      REQ(near(r, e, 1e-12, 1e-300), "seed %a step %d: %.17g after %.17g, 4x(1-x)=%.17g", s, k, r, x, e);
      REQ(c.value() == r, "value() %a differs from the returned %a", c.value(), r);
      x = r;
    }
    count(hd(1, s), fmt("seed %a", s));
  }
}
CASE("long orbits stay in the unit interval") {
  for (int i = 0; i < scale(40, 400); i++) {
    double s = seedv();
    LogisticChaos c(s);
    for (int k = 0; k < 20000; k++) {
      double r = c();
      REQ(r >= 0 && r <= 1, "seed %a step %d value %a", s, k, r);
    }
    count(hd(2, s));
  }
}
CASE("batch and skip equal single steps") {
  for (int i = 0; i < scale(20000, 300000); i++) {
    double s = seedv();
    LogisticChaos a(s), b(s), c(s);
    for (int round = 0; round < 3; round++) {
      size_t L = size_t(ri(0, 9) ? ri(0, 12) : ri(0, 9) ? ri(13, 90) : ri(90, 5000));
      std::vector<double> d(L + 4, -5.0);
      b.makeSequence(d.data() + 2, L);
      c.iterate(L);
      REQ(d[0] == -5 && d[1] == -5 && d[L + 2] == -5 && d[L + 3] == -5, "batch of %zu written out of range", L);
      for (size_t k = 0; k < L; k++) {
        double r = a();
        REQ(r == d[k + 2], "seed %a: element %zu of a batch of %zu is %a, step gives %a", s, k, L, d[k + 2], r);
      }
      REQ(a.value() == b.value(), "seed %a: state after a batch of %zu is %a, steps give %a", s, L, b.value(), a.value());
      REQ(a.value() == c.value(), "seed %a: state after skipping %zu is %a, steps give %a", s, L, c.value(), a.value());
      count(hd(L, s), fmt("seed %a L=%zu", s, L));
    }
  }
}
CASE("default construction") {
  for (int i = 0; i < 2000; i++) {
    LogisticChaos c;
    REQ(c.value() >= 0 && c.value() < 1, "default seed %a", c.value());
    count(hd(3, c.value()));
  }
}
