// PARTS: 8
#include "aos.hpp"
template <class S>
void body() {
  auto better = [](double a, double b) { return less_<S> ? a < b : a > b; };
  for (int it = 0; it < scale(300, 8000); it++) {
    SOLVER(S, s);
    std::vector<double> lo, hi;
    int n;
    AOSOption o = setup(s, lo, hi, n);
    omp_set_num_threads(int(ri(1, 4)));
    auto inBox = [&](const double *x, int m, const char *when) {
      REQ(m == n, "%s: state of %d components", when, m);
      for (int i = 0; i < std::min(m, n); i++) REQ(x[i] >= lo[i] && x[i] <= hi[i], "%s: component %d is %.17g outside [%.17g,%.17g]", when, i, x[i], lo[i], hi[i]);
    };
    onState = nullptr;
    s.initializePop();
    REQ(s.electrons().size() == o.electronNum, "%zu electrons of %zu after initialization", s.electrons().size(), o.electronNum);
    for (auto &e : s.electrons()) {
      inBox(e.state.data(), int(e.state.size()), "initialization");
      REQ(!e.isComputed, "fresh electron marked computed");
    }
    int n0 = int(ri(1, 2 * long(o.electronNum) + 3));
    fillE(s, n0, lo, hi, n);
    for (int rd = 0; rd < 3; rd++) {
      auto b = snap(s);
      s.__impl_selectAndMakeLayers();
      std::string t = fmt("%zu electrons, configured %zu, layers %zu of at most %zu, energies", b.size(), o.electronNum, s.layers().size(), o.maxLayerNum);
      for (auto &x : b)
        if (t.size() < 900) t += fmt(" %.9g", x.e);
      ctx = t;
      REQ(s.electrons().size() == std::min(b.size(), o.electronNum), "%zu electrons left", s.electrons().size());
      std::vector<char> kept(b.size(), 0);
      uint64_t h = hmix(b.size(), o.electronNum);
      bool best = false;
      std::map<const void *, int> inLayer;
      for (auto &e : s.electrons()) {
        size_t j = 0;
        while (j < b.size() && b[j].p != &e) ++j;
        REQ(j < b.size() && !kept[j], "an electron that was not there before");
        if (j < b.size()) {
          kept[j] = 1;
          REQ(sameV(b[j].v, e.state) && std::memcmp(&b[j].e, &e.energy, 8) == 0 && b[j].c == e.isComputed, "kept electron altered");
        }
        best = best || &e == &s.bestElectron();
        REQ(!better(e.energy, s.bestElectron().energy), "an electron beats the reported best");
        inLayer[&e] = 0;
        h = hd(h, e.energy);
      }
      REQ(best, "the reported best electron is no member");
      for (size_t x = 0; x < b.size(); x++)
        for (size_t y = 0; y < b.size(); y++)
          if (kept[x] && !kept[y]) REQ(!better(b[y].e, b[x].e), "removed electron %zu is better than kept %zu", y, x);
      REQ(s.layers().size() >= 1 && s.layers().size() <= o.maxLayerNum, "%zu layers", s.layers().size());
      bool first = true;
      double last = 0;
      for (auto &l : s.layers())
        for (auto *e : l) {
          REQ(inLayer.count(e), "layer member is no living electron");
          if (inLayer.count(e)) REQ(inLayer[e]++ == 0, "electron in two layers");
          if (!first) REQ(!better(e->energy, last), "layers not ordered from best to worst");
          first = false, last = e->energy;
        }
      for (auto &x : inLayer) REQ(x.second == 1, "electron in no layer");
      count(h, ctx);
      // movement
      bool some = true;
      for (auto &l : s.layers()) some = some && !l.empty();
      if (!some) break;  // empty layers are removed by the selection: nothing to move
      s.__impl_computeAtomBSBELE();
      s.__impl_computeLayerBSBELE();
      auto k = snap(s);
      size_t want = 0;
      for (auto &l : s.layers()) want += l.size();
      s.template __impl_updateElectrons<S>();
      size_t i = 0;
      for (auto &e : s.electrons()) {
        if (i < k.size()) REQ(k[i].p == &e && sameV(k[i].v, e.state) && k[i].e == e.energy && k[i].c == e.isComputed, "electron %zu altered by the movement", i);
        else REQ(!e.isComputed, "moved electron marked computed");
        inBox(e.state.data(), int(e.state.size()), "movement");
        ++i;
      }
      REQ(i == k.size() + want, "%zu electrons after moving %zu of %zu", i, want, k.size());
      s.__impl_computeFitness();
      for (auto &e : s.electrons()) REQ(e.isComputed, "electron not evaluated");
    }
    if (it % 4 == 0) {
      onState = [&](const double *x, int m) { inBox(x, m, "evaluation in a run"); };
      s.initializePop();
      s.run();
      onState = nullptr;
      for (auto &e : s.electrons()) {
        inBox(e.state.data(), int(e.state.size()), "after a run");
        double w = energyOf(e.state);
        if constexpr (S::hasParameters) w += s.arg().k;
        REQ(e.energy == w, "energy %.17g of a state with value %.17g after the run", e.energy, w);
        REQ(!better(e.energy, s.bestElectron().energy), "an electron beats the reported best after the run");
      }
      REQ(s.electrons().size() <= o.electronNum, "%zu electrons after the run", s.electrons().size());
    }
  }
}
#define C(...) \
  CASE(#__VA_ARGS__) { body<__VA_ARGS__>(); }
FORALL_AOS(C)
