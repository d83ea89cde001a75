#include "pso.hpp"

template <class V, BoxShape B, FitnessOption FO, class P>
void body(P &p) {
  auto better = [](double a, double b) { return FO == FITNESS_GREATER_BETTER ? a > b : a < b; };
  for (int it = 0; it < scale(60, 2000); it++) {
    auto g = setup<V, B>(p);
    PSOOption o;
    o.populationSize = ri(1, 9);
    p.setOption(o);
    omp_set_num_threads(int(ri(1, 3)));
    p.initializePop();
    for (auto &q : p.population()) {
      REQ(q.pBest.fitness == q.fitness, "initial own best fitness");
      for (int i = 0; i < g.n; i++) REQ(heu::at(q.pBest.position, i) == heu::at(q.position, i), "initial own best position");
    }
    auto val = [&]() { return ri(0, 2) ? double(ri(-3, 3)) : ri(0, 5) ? rr(-1e3, 1e3) : (ri(0, 1) ? HUGE_VAL : -HUGE_VAL); };
    auto fill = [&](auto &pt) {
      pt.fitness = val();
      for (int i = 0; i < g.n; i++) heu::at(pt.position, i) = inr(g.lo[i], g.hi[i]);
    };
    // arbitrary own bests and global best first, then histories of update rounds
    for (auto &q : p._population) fill(q.pBest);
    fill(p.gBest);
    for (int rd = 0; rd < 6; rd++) {
      bool still = ri(0, 2) == 0;
      if (!still)
        for (auto &q : p._population) fill(q);
      size_t ft0 = p._failTimes = ri(0, 2) ? p._failTimes : ri(0, 100);
      auto b = p._population;
      auto gb = p.gBest;
      p.__impl_updatePGBest();
      auto eqp = [&](const auto &x, const auto &y) {
        if (!(x.fitness == y.fitness)) return false;
        for (int i = 0; i < g.n; i++)
          if (heu::at(x.position, i) != heu::at(y.position, i)) return false;
        return true;
      };
      std::string s;
      for (size_t k = 0; k < b.size(); k++) s += fmt(" (f=%g pb=%g->%g)", b[k].fitness, b[k].pBest.fitness, p._population[k].pBest.fitness);
      ctx = s + fmt(" gb=%g->%g fail=%zu->%zu", gb.fitness, p.gBest.fitness, ft0, p._failTimes);
      bool imp = false;
      uint64_t h = ft0;
      for (size_t k = 0; k < b.size(); k++) {
        auto &q = p._population[k];
        h = hd(hd(h, b[k].fitness), b[k].pBest.fitness);
        REQ(eqp(q, b[k]), "current point changed");
        for (int i = 0; i < g.n; i++) REQ(heu::at(q.velocity, i) == heu::at(b[k].velocity, i), "velocity changed");
        bool bt = better(b[k].fitness, b[k].pBest.fitness);
        REQ(eqp(q.pBest, b[k].pBest) || eqp(q.pBest, b[k]), "own best of %zu is neither the old one nor the current point", k);
        REQ(q.pBest.fitness == (bt ? b[k].fitness : b[k].pBest.fitness), "own best of %zu is not the better one", k);
        REQ(!better(q.pBest.fitness, p.gBest.fitness), "own best of %zu beats the global best", k);
        imp = imp || better(q.pBest.fitness, gb.fitness);
      }
      bool found = eqp(p.gBest, gb);
      for (auto &q : p._population) found = found || eqp(p.gBest, q.pBest);
      REQ(found, "global best is no known pair");
      REQ(!better(gb.fitness, p.gBest.fitness), "global best got worse");
      REQ(imp == better(p.gBest.fitness, gb.fitness), "improvement");
      REQ(imp || eqp(p.gBest, gb), "global best replaced without improvement");
      REQ(p._failTimes == (imp ? 0 : ft0 + 1), "failure counter %zu after %zu, improved %d", p._failTimes, ft0, imp);
      REQ(p.bestFitness() == p.gBest.fitness && p.globalBest().fitness == p.gBest.fitness && p.failTimes() == p._failTimes, "accessors");
      count(h, ctx);
    }
    // in a run the bests are real points
    o.maxGeneration = 5;
    p.setOption(o);
    p.initializePop();
    p.run();
    for (auto &q : p.population()) {
      double f;
      p.PSOFIT(q.pBest.position, f);
      REQ(f == q.pBest.fitness, "own best pair does not match");
      REQ(!better(q.pBest.fitness, p.gBest.fitness), "own best beats global best after the run");
    }
    double f;
    p.PSOFIT(p.gBest.position, f);
    REQ(f == p.gBest.fitness, "global best pair does not match");
  }
}
template <class V, BoxShape B>
struct L : PSO<V, B, FITNESS_LESS_BETTER, RECORD_FITNESS> {
  void PSOFIT(const V &v, double &f) { fit<V>(&v, &f); }
};
template <class V, BoxShape B>
struct G : PSO<V, B, FITNESS_GREATER_BETTER, DONT_RECORD_FITNESS, Arg> {
  void PSOFIT(const V &v, double &f) { fitA<V>(&v, &this->_arg, &f); }
};
template <class V, BoxShape B>
void both() {
  {
    L<V, B> p;
    p.setfFun(fit<V>);
    body<V, B, FITNESS_LESS_BETTER>(p);
  }
  {
    G<V, B> p;
    p.setArgs(Arg{1.5});
    p.setfFun(fitA<V>);
    body<V, B, FITNESS_GREATER_BETTER>(p);
  }
}
#define M(V) \
  CASE("square " #V) { both<V, SQ>(); } \
  CASE("rectangle " #V) { both<V, RE>(); }
FORALL_V(M)
