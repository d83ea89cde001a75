// PARTS: 8
#include "mo.hpp"
template <class S, bool greater>
void body() {
  for (int it = 0; it < scale(500, 12000); it++) {
    SOLVER(S, s);
    GAOption o = opt(int(ri(0, 9) ? ri(1, 12) : ri(13, 60)));
    const int M = prepare(s, o);
    omp_set_num_threads(int(ri(1, 5)));
    logging = false;
    granular = int(ri(0, 1)) * 2;
    s.initializePop();
    int n0 = int(ri(long(o.populationSize), 2 * long(o.populationSize) + 3));
    if (ri(0, 5) == 0) n0 = int(o.populationSize);
    fillMO(s, n0, M, true);
    for (int rd = 0; rd < 2; rd++) {
      auto b = snap(s);
      auto r = ranks<S>(b, greater);
      ctx = descrMO<S>(b, r, s);
      // ranking and layers on their own
      s.sortSpace.clear();
      for (auto i = s._population.begin(); i != s._population.end(); ++i) s.sortSpace.emplace_back(i), i->dominated_by_num = size_t(ri(0, 99));
      s.calculateDominatedNum();
      size_t k = 0;
      for (auto &g : s._population) {
        REQ(g.dominated_by_num == size_t(r[k]), "individual %zu has rank %zu, dominated by %d", k, g.dominated_by_num, r[k]);
        ++k;
      }
      s.divideLayers();
      std::set<const void *> in;
      long last = -1;
      for (auto &l : s.pfLayers) {
        REQ(!l.empty(), "empty layer");
        if (l.empty()) continue;
        REQ(long(l.front()->dominated_by_num) > last, "layers not in increasing order");
        last = long(l.front()->dominated_by_num);
        for (auto &i : l) {
          REQ(long(i->dominated_by_num) == last, "layer of mixed ranks");
          REQ(in.insert(&*i).second, "individual in two layers");
        }
      }
      REQ(in.size() == b.size(), "%zu individuals in layers", in.size());
      s.pfLayers.clear(), s.sortSpace.clear();
      for (auto &g : s._population) g.dominated_by_num = size_t(ri(0, 99));
      // the selection as a whole
      s.__impl_select();
      ctx = descrMO<S>(b, r, s);
      auto kept = survivors<S>(b, s);
      size_t nd = 0, idx = 0;
      uint64_t h = hmix(b.size(), o.populationSize);
      for (size_t i = 0; i < b.size(); i++) nd += r[i] == 0, h = hd(hd(h, b[i].f[0]), b[i].f[1]);
      std::set<const void *> live;
      for (auto &g : s.population()) {
        live.insert(&g);
        for (size_t i = 0; i < b.size(); i++)
          if (b[i].p == &g) REQ(g.dominated_by_num == size_t(r[i]), "survivor %zu has rank %zu, dominated by %d", i, g.dominated_by_num, r[i]);
      }
      std::set<const void *> pf(s.pfGenes().begin(), s.pfGenes().end());
      REQ(pf.size() == s.pfGenes().size(), "front with repeated members");
      for (auto p : pf) REQ(live.count(p), "front member is no living individual");
      if (nd <= o.populationSize) {
        for (size_t i = 0; i < b.size(); i++) REQ((r[i] == 0) == bool(pf.count(b[i].p)), "individual %zu of rank %d: in the front %d", i, r[i], int(pf.count(b[i].p)));
      } else
        REQ(pf == live, "front is not the population kept: %zu of %zu", pf.size(), live.size());
      // reports
      std::vector<FOf<S>> f1;
      std::vector<std::pair<const VarOf<S> *, const FOf<S> *>> f2;
      s.paretoFront(f1), s.paretoFront(f2);
      REQ(f1.size() == pf.size() && f2.size() == pf.size(), "front reports have %zu and %zu members", f1.size(), f2.size());
      std::multiset<std::vector<double>> q1, q2, q3;
      auto vec = [](const FOf<S> &f) { return std::vector<double>(f.data(), f.data() + f.size()); };
      for (auto &f : f1) q1.insert(vec(f));
      for (auto &f : f2) q2.insert(vec(*f.second));
      for (auto g : s.pfGenes()) q3.insert(vec(g->fitness));
      REQ(q1 == q3 && q2 == q3, "front reports differ from the front");
      for (auto &f : f2) {
        bool ok = false;
        for (auto g : s.pfGenes()) ok = ok || (f.first == &g->decision_variable && f.second == &g->fitness);
        REQ(ok, "front pair does not belong together");
      }
      auto bf = s.bestFitness();
      REQ(nobj(&bf) == M, "best fitness of %d objectives", nobj(&bf));
      for (int q = 0; q < M; q++) {
        double w = s.population().front().fitness[q];
        for (auto &g : s.population()) w = greater ? std::max(w, g.fitness[q]) : std::min(w, g.fitness[q]);
        REQ(bf[q] == w, "best of objective %d is %.17g, reported %.17g", q, w, bf[q]);
      }
      count(h, ctx);
      fillMO(s, int(o.populationSize) + int(ri(0, 3)), M, true);
    }
    if (it % 10 == 0) {
      o.maxGenerations = 5;
      s.setOption(o);
      s.initializePop();
      s.run();
      std::set<const void *> live;
      for (auto &g : s.population()) live.insert(&g);
      for (auto p : s.pfGenes()) REQ(live.count(p), "front member died");
      for (auto p : s.pfGenes())
        for (auto &g : s.population()) REQ(!dom<S>(g.fitness, p->fitness, greater), "front member is dominated after the run");
      if (s.pfGenes().size() < s.population().size())
        for (auto &g : s.population()) {
          bool d = false;
          for (auto &x : s.population()) d = d || dom<S>(x.fitness, g.fitness, greater);
          REQ(d || s.pfGenes().count(&g), "non-dominated member missing in the front after the run");
        }
    }
  }
}
#define C(gr, ...) \
  CASE(#__VA_ARGS__) { body<__VA_ARGS__, gr>(); }
C(false, N2r<A4, 2>)
C(true, N2a<VD, Eigen::Dynamic, GB, RF>)
C(false, N2c<E3, 3, LB, RF>)
C(true, N2r<A4, 3, GB>)
C(false, N2r<EX, Eigen::Dynamic>)
C(false, N3r<VD, 3, DOUBLE_LAYER>)
C(false, N3a<EX, Eigen::Dynamic>)
C(false, N3c<A4, 2, SINGLE_LAYER, RF>)
