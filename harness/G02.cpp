// PARTS: 8
#include "ga.hpp"
template <class S>
void body() {
  using V = VarOf<S>;
  for (int it = 0; it < scale(150, 4000); it++) {
    SOLVER(S, s);
    int n = int(ri(0, 9) ? ri(1, 12) : ri(13, 120));
    auto o = opt(n);
    if (IsTour<S>::value) o.populationSize = n = std::max(n, 4);
    const int M = prepare(s, o);
    logging = false;
    s.initializePop();
    s.__impl_computeAllFitness();
    // some individuals look unevaluated, as after a manual change
    for (auto &g : s._population)
      if (ri(0, 5) == 0) g.set_fitness_uncomputed();
    for (int rd = 0; rd < 3 && s.population().size() < 400; rd++)
      for (char kind : {'c', 'm'}) {
        auto b = snap(s);
        calls.clear();
        logging = true;
        if (kind == 'c') s.__impl_crossover();
        else s.__impl_mutate();
        logging = false;
        const size_t n0 = b.size(), n1 = s.population().size();
        ctx = fmt("%s of %zu individuals (cp %g, mp %g, round %d) gives %zu", kind == 'c' ? "crossover" : "mutation", n0, o.crossoverProb,
                  o.mutateProb, rd, n1);
        std::map<const void *, int> old, fresh;
        size_t i = 0;
        uint64_t h = hmix(n0, n1);
        for (auto &g : s.population()) {
          if (i < n0) {
            REQ(b[i].p == &g, "individual %zu moved", i);
            REQ(same<S>(b[i], g) , "individual %zu altered", i);
            old[&g.decision_variable] = int(i);
          } else {
            fresh[&g.decision_variable] = int(i);
            REQ(!g.is_fitness_computed, "offspring marked evaluated");
          }
          h = hd(h, g.decision_variable[0]);
          ++i;
        }
        REQ(n1 >= n0, "individuals lost");
        std::set<const void *> usedP, usedC;
        size_t k = 0;
        for (auto &c : calls) {
          if (c.k == 'c' || c.k == 'm') {
            ++k;
            REQ(c.k == kind, "wrong operator called");
            REQ(old.count(c.a), "operator source is no individual present before");
            REQ(fresh.count(c.c), "operator result is no appended individual");
            REQ(usedP.insert(c.a).second, "a parent is used twice");
            REQ(usedC.insert(c.c).second, "a child is written twice");
            if (kind == 'c') {
              REQ(c.a != c.b && old.count(c.b) && usedP.insert(c.b).second, "second parent is not another unused individual");
              REQ(c.c != c.d && fresh.count(c.d) && usedC.insert(c.d).second, "second child is not another appended individual");
            }
          } else
            REQ(false, "operator '%c' called while breeding", c.k);
        }
        REQ(n1 - n0 == usedC.size() && n1 - n0 == (kind == 'c' ? 2 * k : k), "%zu operator calls for %zu offspring", k, n1 - n0);
        if (kind == 'c') REQ((n1 - n0) % 2 == 0 && n1 - n0 <= n0, "number of offspring");
        else REQ(n1 <= 2 * n0, "population more than doubled");
        // a draw is never 1 and 0 with negligible probability
        double p = kind == 'c' ? o.crossoverProb : o.mutateProb;
        if (p == 1) REQ(n1 - n0 == (kind == 'c' ? n0 / 2 * 2 : n0), "certain breeding left individuals out");
        if (p == 0) REQ(n1 == n0, "breeding although its probability is 0");
        count(h, ctx);
      }
  }
}
// operators are called with the solver's own parameters
template <class S>
void params() {
  S s;
  auto o = opt(20);
  o.crossoverProb = o.mutateProb = 1;
  s.setOption(o);
  s.setArgs(Arg{4.5, 2});
  static const Arg *want;
  want = &s.args();
  static bool bad;
  bad = false;
  using V = VarOf<S>;
  using F = FOf<S>;
  s.setiFun([](V *v, const Arg *a) { bad |= a != want; Fn<V, F>::ini(v); });
  s.setfFun([](const V *v, const Arg *a, F *f) { bad |= a != want; Fn<V, F>::fit(v, f); });
  s.setcFun([](const V *a, const V *b, V *c, V *d, const Arg *x) { bad |= x != want; Fn<V, F>::cro(a, b, c, d); });
  s.setmFun([](const V *a, V *c, const Arg *x) { bad |= x != want; Fn<V, F>::mut(a, c); });
  s.initializePop();
  s.__impl_computeAllFitness();
  s.__impl_crossover();
  s.__impl_mutate();
  REQ(!bad && s.args().k == 4.5, "operator called with foreign parameters");
  count(1);
}
CASE("parameters") {
  params<SOa<A4, SelectMethod::Truncation>>();
  params<N2a<VD, 2>>();
}
#define C(...) \
  CASE(#__VA_ARGS__) { body<__VA_ARGS__>(); }
C(SOr<A4, SelectMethod::Truncation, LB, RF>)
C(SOa<VD, SelectMethod::RouletteWheel, GB>)
C(SOc<EX, SelectMethod::EliteReserved>)
C(SOr<E3, SelectMethod::Tournament, GB, RF>)
C(N2r<A4, 2>)
C(N2a<VD, Eigen::Dynamic, GB, RF>)
C(N3r<VD, 3, DOUBLE_LAYER>)
C(N3c<A4, 2, SINGLE_LAYER, RF>)
