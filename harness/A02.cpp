// PARTS: 8
#include "aos.hpp"
template <class S>
void body() {
  auto better = [](double a, double b) { return less_<S> ? a < b : a > b; };
  for (int it = 0; it < scale(500, 15000); it++) {
    SOLVER(S, s);
    std::vector<double> lo, hi;
    int n;
    AOSOption o = setup(s, lo, hi, n);
    omp_set_num_threads(1);
    s.initializePop();
    REQ(s.earlyStopCounter() == 0 && s.generation() == 0, "counters after initialization");
    fillE(s, int(ri(1, 2 * long(o.electronNum) + 1)), lo, hi, n);
    for (int rd = 0; rd < 3; rd++) {
      auto b = snap(s);
      double prev = s.bestElectron().energy;
      size_t ec = s._earlyStopCounter;
      s.__impl_computeAtomBSBELE();
      std::string t = fmt("%zu electrons of %d components, best before %.9g, counter %zu->%zu, energies", b.size(), n, prev, ec, s.earlyStopCounter());
      for (auto &x : b)
        if (t.size() < 700) t += fmt(" %.9g", x.e);
      ctx = t;
      std::vector<double> m(n, 0), mag(n, 0);
      double e = 0, emag = 0, best = b[0].e;
      uint64_t h = hmix(b.size(), ec);
      for (auto &x : b) {
        for (int i = 0; i < n; i++) m[i] += heu::at(x.v, i) / b.size(), mag[i] += std::fabs(heu::at(x.v, i));
        e += x.e / b.size(), emag += std::fabs(x.e);
        if (better(x.e, best)) best = x.e;
        h = hd(hd(h, x.e), heu::at(x.v, 0));
      }
      auto &bs = s.bindingState();
      REQ(int(bs.size()) == n, "binding state of %d components", int(bs.size()));
      for (int i = 0; i < std::min(n, int(bs.size())); i++) REQ(std::fabs(heu::at(bs, i) - m[i]) <= 1e-13 * (1e-300 + mag[i]), "binding state %d is %.17g, mean %.17g", i, heu::at(bs, i), m[i]);
      REQ(std::fabs(s.bindingEnergy() - e) <= 1e-13 * (1e-300 + emag), "binding energy %.17g, mean %.17g", s.bindingEnergy(), e);
      size_t k = 0;
      bool in = false;
      for (auto &x : s.electrons()) {
        in = in || &x == &s.bestElectron();
        REQ(b[k].p == &x && sameV(b[k].v, x.state) && b[k].e == x.energy && b[k].c == x.isComputed, "electron altered");
        ++k;
      }
      REQ(k == b.size() && in, "best electron is no member");
      REQ(s.bestElectron().energy == best, "best electron has energy %.17g, best is %.17g", s.bestElectron().energy, best);
      REQ(s.earlyStopCounter() == (best == prev ? ec + 1 : 0), "early-stop counter");
      count(h, ctx);
      // layers of the kept electrons
      s.__impl_selectAndMakeLayers();
      s.__impl_computeLayerBSBELE();
      for (auto &l : s.layers()) {
        REQ(!l.empty(), "empty layer");
        if (l.empty()) continue;
        std::vector<double> lm(n, 0), lmag(n, 0);
        double le = 0, lemag = 0, lb = l.front()->energy;
        for (auto *x : l) {
          for (int i = 0; i < n; i++) lm[i] += heu::at(x->state, i) / l.size(), lmag[i] += std::fabs(heu::at(x->state, i));
          le += x->energy / l.size(), lemag += std::fabs(x->energy);
          if (better(x->energy, lb)) lb = x->energy;
        }
        REQ(int(l.bindingState.size()) == n, "layer binding state of %d components", int(l.bindingState.size()));
        for (int i = 0; i < std::min(n, int(l.bindingState.size())); i++)
          REQ(std::fabs(heu::at(l.bindingState, i) - lm[i]) <= 1e-13 * (1e-300 + lmag[i]), "binding state %d of a layer of %zu is %.17g, mean %.17g", i, l.size(), heu::at(l.bindingState, i), lm[i]);
        REQ(std::fabs(l.bindingEnergy - le) <= 1e-13 * (1e-300 + lemag), "binding energy of a layer of %zu is %.17g, mean %.17g", l.size(), l.bindingEnergy, le);
        REQ(l.layerBestIdx >= 0 && size_t(l.layerBestIdx) < l.size(), "layer best index %d", l.layerBestIdx);
        REQ(l.layerBestEnergy() == lb && l[l.layerBestIdx]->energy == lb, "layer best has %.17g, best is %.17g", l.layerBestEnergy(), lb);
        REQ(sameV(l.layerBestState(), l[l.layerBestIdx]->state), "layer best state");
      }
      if constexpr (bounded<S>) {
        s.template __impl_updateElectrons<S>();
        s.__impl_computeFitness();
        if (ri(0, 2) == 0)
          for (auto &x : s._electrons) x.energy = std::round(x.energy);
      } else
        break;
    }
  }
}
#define C(...) \
  CASE(#__VA_ARGS__) { body<__VA_ARGS__>(); }
FORALL_AOS(C)
C(AOS_inf<E3, LB, RF>)
