// PARTS: 8
#include "ga.hpp"
template <class S>
const Arg &argsOf(const S &s) {
  if constexpr (S::HasParameters) return s.args();
  else return *(const Arg *)0;
}
template <class S>
void body() {
  using G = GeneOf<S>;
  for (int it = 0; it < scale(60, 1500); it++) {
    SOLVER(S, s);
    int n = int(ri(0, 9) ? ri(1, 12) : ri(13, 200));
    auto o = opt(n);
    if (IsTour<S>::value) o.populationSize = n = std::max(n, 4);
    omp_set_num_threads(int(ri(1, 6)));
    const int M = prepare(s, o);
    calls.clear();
    logging = true;
    s.initializePop();
    REQ(int(s.population().size()) == n, "population %zu of %d after initialization", s.population().size(), n);
    {
      std::set<const void *> got;
      int k = 0;
      for (auto &c : calls) {
        if (c.k == 'i') got.insert(c.c), ++k;
        if (c.k == 'A') REQ(c.a == (const void *)&argsOf(s), "initializer got foreign parameters");
        REQ(c.k != 'f', "evaluation during initialization");
      }
      REQ(k == n && int(got.size()) == n, "%d initializer calls for %d individuals", k, n);
      for (auto &g : s.population()) REQ(got.count(&g.decision_variable) && !g.is_fitness_computed, "individual not freshly initialized");
    }
    // arbitrary mixture of evaluated and unevaluated individuals; stale fitness values in both
    auto pass = [&](const char *when) {
      auto b = snap(s);
      calls.clear();
      s.__impl_computeAllFitness();
      std::map<const void *, int> cnt;
      std::map<const void *, void *> dst;
      for (auto &c : calls)
        if (c.k == 'f') cnt[c.a]++, dst[c.a] = c.c;
      size_t i = 0, fresh = 0;
      uint64_t h = b.size();
      REQ(s.population().size() == b.size(), "population size changed by the evaluation pass");
      for (auto &g : s.population()) {
        auto &x = b[i++];
        ctx = fmt("%s: individual %zu of %zu (evaluated before: %d) fitness ", when, i - 1, b.size(), x.c) + sf(g.fitness);
        REQ(x.p == &g && sameV(x.v, g.decision_variable), "individual moved or altered by the evaluation pass");
        REQ(g.is_fitness_computed, "not marked evaluated");
        int c = cnt.count(&g.decision_variable) ? cnt[&g.decision_variable] : 0;
        REQ(c == (x.c ? 0 : 1), "evaluated %d times", c);
        if (c) REQ(dst[&g.decision_variable] == (void *)&g.fitness, "value written elsewhere");
        if (x.c) REQ(sameF(x.f, g.fitness), "evaluated individual altered");
        else {
          ++fresh;
          REQ(nobj(&g.fitness) == M, "%d objectives", nobj(&g.fitness));
          for (int k = 0; k < M; k++) REQ(fa(g.fitness, k) == trueObj(s, g.decision_variable, k), "not the objective value");
        }
        h = hmix(hd(h, g.decision_variable[0]), x.c);
      }
      REQ(cnt.size() == fresh, "%zu evaluations of %zu unevaluated individuals", cnt.size(), fresh);
      count(h, ctx);
    };
    pass("first pass");
    for (int r = 0; r < 3; r++) {
      for (auto &g : s._population) {
        int k = int(ri(0, 3));
        if (k == 0) {
          g.set_fitness_uncomputed();
          REQ(!g.is_fitness_computed);
        }
        if (k == 1) {
          Fn<VarOf<S>, FOf<S>>::ini(&g.decision_variable);
          g.is_fitness_computed = false;
        }
        if (k == 2)  // evaluated with a value of its own: has to stay
          for (int q = 0; q < M; q++) fa(g.fitness, q) = rr(-9, 9);
      }
      pass("mixed pass");
    }
    // offspring are unevaluated whatever the operator wrote
    for (int r = 0; r < 3; r++) {
      auto b = snap(s);
      s.__impl_crossover();
      size_t m = s.population().size(), i = 0;
      for (auto &g : s.population())
        if (i++ >= b.size()) REQ(!g.is_fitness_computed, "crossed individual marked evaluated");
      s.__impl_mutate();
      i = 0;
      for (auto &g : s.population())
        if (i++ >= m) REQ(!g.is_fitness_computed, "mutated individual marked evaluated");
      pass("after breeding");
    }
    logging = false;
    // whole runs
    o.maxGenerations = ri(0, 6);
    s.setOption(o);
    s.initializePop();
    for (auto &g : s.population()) REQ(!g.is_fitness_computed, "re-initialized individual marked evaluated");
    s.run();
    for (auto &g : s.population()) {
      REQ(g.is_fitness_computed, "unevaluated individual after a run");
      for (int k = 0; k < M; k++)
        REQ(fa(g.fitness, k) == trueObj(s, g.decision_variable, k), "fitness %d after a run is %.17g, value %.17g", k, fa(g.fitness, k),
            trueObj(s, g.decision_variable, k));
    }
  }
}
#define C(...) \
  CASE(#__VA_ARGS__) { body<__VA_ARGS__>(); }
C(SOr<A4, SelectMethod::Truncation, LB, RF>)
C(SOa<VD, SelectMethod::RouletteWheel, GB>)
C(SOc<EX, SelectMethod::EliteReserved>)
C(SOr<E3, SelectMethod::Tournament, GB, RF>)
C(SOr<VD, SelectMethod::RunTimeSelectMethod>)
C(N2r<A4, 2>)
C(N2a<VD, Eigen::Dynamic, GB, RF>)
C(N2c<E3, 3, LB, RF>)
C(N3r<VD, 3, DOUBLE_LAYER>)
C(N3a<EX, Eigen::Dynamic>)
C(N3c<A4, 2, SINGLE_LAYER, RF>)
C(N3a<A4, Eigen::Dynamic, DOUBLE_LAYER, RF>)
