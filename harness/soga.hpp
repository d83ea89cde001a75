#pragma once
#include "ga.hpp"
#define FORALL_SM(M) \
  M(RouletteWheel, 0) M(Tournament, 0) M(Truncation, 0) M(MonteCarlo, 0) M(Probability, 0) M(LinearRank, 0) M(ExponentialRank, 0) \
  M(Boltzmann, 0) M(StochasticUniversal, 0) M(EliteReserved, 0)
// a fitness list: ties, equal values, very different magnitudes, infinities left out (the wheel needs finite sums)
inline std::vector<double> fits(int n) {
  std::vector<double> f;
  int style = int(ri(0, 7));
  double base = ri(0, 1) ? 0 : rr(-1e3, 1e3);
  for (int i = 0; i < n; i++) switch (style) {
      case 0: f.push_back(base); break;
      case 1: f.push_back(base + ri(0, 2)); break;
      case 2: f.push_back(rr(-1, 1) * std::pow(10.0, ri(-12, 12))); break;
      case 3: f.push_back(i == n / 2 ? -1e15 : base + rd()); break;
      case 4: f.push_back(i == n / 2 ? 1e15 : base + rd()); break;
      case 5: f.push_back(double(i)); break;
      case 6: f.push_back(double(-i)); break;
      default: f.push_back(rr(-10, 10));
    }
  return f;
}
template <class V>
void tagV(V &v, long id) {
  mk(&v, 3);
  for (int i = 0; i < int(v.size()); i++) v[i] = double(id) + 0.25 * i;
}
template <SelectMethod SM, class S>
SelectMethod config(S &s, GAOption &o, int &tour, int &elite) {
  SelectMethod sm = SM;
  if constexpr (SM == SelectMethod::RunTimeSelectMethod) {
    sm = SelectMethod(ri(0, 9));
    s.setSelectMethod(sm);
    REQ(s.selectMethod() == sm, "run-time method");
  }
  tour = 0, elite = 1;
  if constexpr (SM == SelectMethod::Tournament || SM == SelectMethod::RunTimeSelectMethod) {
    if (sm == SelectMethod::Tournament) {
      o.populationSize = std::max<size_t>(o.populationSize, 3);
      s.setTournamentSize(tour = int(ri(2, long(std::min<size_t>(o.populationSize - 1, 6)))));
    }
  }
  if constexpr (SM == SelectMethod::EliteReserved || SM == SelectMethod::RunTimeSelectMethod)
    if (sm == SelectMethod::EliteReserved) s.setEliteNum(elite = int(ri(1, long(std::min<size_t>(o.populationSize, 5)))));
  if constexpr (SM == SelectMethod::LinearRank)
    if (ri(0, 1)) {
      double w = rr(0, 0.9);
      s.setLinearSelectProbability(w, std::min(1.0, w + rr(0.01, 0.5)));
    }
  if constexpr (SM == SelectMethod::ExponentialRank)
    if (ri(0, 1)) s.setExponetialSelectBase(ri(0, 3) ? rr(0.01, 0.99) : 0);
  if constexpr (SM == SelectMethod::Boltzmann)
    if (ri(0, 1)) s.setBoltzmannSelectStrength(rr(0.1, 5) * (ri(0, 1) ? 1 : -1));
  return sm;
}
// builds a population of n0 evaluated individuals and reports what it was
template <class S>
std::vector<Img<S>> fill(S &s, const GAOption &o, int n0) {
  s.setOption(o);
  auto f = fits(n0);
  s._population.clear();
  for (int i = 0; i < n0; i++) {
    s._population.emplace_back();
    auto &g = s._population.back();
    tagV(g.decision_variable, i);
    g.fitness = f[i];
    g.is_fitness_computed = true;
  }
  s._generation = 1;
  s._failTimes = size_t(ri(0, 9));
  s._bestGene = s._population.begin();
  std::advance(s._bestGene, ri(0, n0 - 1));
  return snap(s);
}
template <class S>
std::string descr(const std::vector<Img<S>> &b, const S &s, int sm, int tour, int elite) {
  std::string t = fmt("method %d size %zu->%zu (configured %zu) tournament %d elite %d before:", sm, b.size(), s.population().size(),
                      s.option().populationSize, tour, elite);
  for (auto &x : b)
    if (t.size() < 700) t += fmt(" %.9g", x.f);
  t += " after:";
  for (auto &g : s.population())
    if (t.size() < 1200) t += fmt(" %.9g", g.fitness);
  return t;
}
template <class V, SelectMethod SM, FitnessOption FO, bool>
void s01() {
  using S = SOr<V, SM, FO>;
  auto better = [](double a, double b) { return FO == GB ? a > b : a < b; };
  for (int it = 0; it < scale(400, 20000); it++) {
    SOLVER(S, s);
    s.setfFun(Fn<V, double>::fit);
    GAOption o;
    o.populationSize = size_t(ri(0, 9) ? ri(1, 12) : ri(13, 80));
    int tour, elite;
    SelectMethod sm = config<SM>(s, o, tour, elite);
    int n0 = int(ri(0, 4) ? ri(1, 3 * long(o.populationSize)) : ri(0, 1) ? long(o.populationSize) + 1 : long(o.populationSize));
    auto b = fill(s, o, n0);
    for (int again = 0; again < 2; again++) {
      s.__impl_select();
      auto &p = s.population();
      ctx = descr<S>(b, s, int(sm), tour, elite);
      const size_t want = std::min<size_t>(b.size(), o.populationSize);
      REQ(p.size() == want, "%zu individuals left, %zu wanted", p.size(), want);
      // survivors: a subsequence of the old addresses with unchanged content, then (tournament only) copies
      size_t i = 0, copies = 0, surv = 0;
      std::vector<char> kept(b.size(), 0);
      bool tail = false;
      uint64_t h = hmix(b.size(), o.populationSize);
      for (auto &g : p) {
        size_t j = i;
        while (j < b.size() && b[j].p != &g) ++j;
        if (j < b.size() && !tail) {
          REQ(same<S>(b[j], g), "survivor %zu altered", j);
          kept[j] = 1, i = j + 1, ++surv;
        } else {
          tail = true;
          ++copies;
          REQ(sm == SelectMethod::Tournament, "an individual that is none of the old ones or out of order");
          bool found = false;
          for (size_t k = 0; k < b.size(); k++) found = found || (kept[k] && same<S>(b[k], g));
          REQ(found, "appended individual is no copy of a survivor");
        }
        h = hd(h, g.fitness);
      }
      REQ(b.size() > o.populationSize || surv == b.size(), "individual lost although the population is not too large");
      if (sm == SelectMethod::Truncation)
        for (size_t x = 0; x < b.size(); x++)
          for (size_t y = 0; y < b.size(); y++)
            if (kept[x] && !kept[y]) REQ(!better(b[y].f, b[x].f), "truncation kept a worse individual");
      if (sm == SelectMethod::EliteReserved) {
        std::vector<double> f;
        for (auto &x : b) f.push_back(x.f);
        std::sort(f.begin(), f.end(), better);
        // the elite: as many survivors at least as good as the k-th best
        for (int k = 1; k <= std::min<int>(elite, int(want)); k++) {
          int c = 0;
          for (size_t x = 0; x < b.size(); x++) c += kept[x] && !better(f[k - 1], b[x].f);
          REQ(c >= k, "only %d of the best %d individuals kept", c, k);
        }
      }
      if (sm == SelectMethod::Tournament && b.size() > o.populationSize) {
        // a winner beats the other members of its tournament: the tour-1 worst can never win
        std::vector<double> f;
        for (auto &x : b) f.push_back(x.f);
        std::sort(f.begin(), f.end(), better);
        double lim = f[f.size() - size_t(tour)];
        for (auto &g : p) REQ(!better(lim, g.fitness), "an individual that loses every tournament was selected");
      }
      count(h, ctx);
      b = snap(s);
      if (again == 0) {  // once more with offspring appended, as in a run
        int add = int(ri(0, 4));
        for (int k = 0; k < add; k++) {
          s._population.emplace_back();
          tagV(s._population.back().decision_variable, 1000 + k);
          s._population.back().fitness = rr(-5, 5);
          s._population.back().is_fitness_computed = true;
        }
        b = snap(s);
      }
    }
  }
}
template <class V, SelectMethod SM, FitnessOption FO>
void s02() {
  using S = SOr<V, SM, FO, RECORD_FITNESS>;
  auto better = [](double a, double b) { return FO == GB ? a > b : a < b; };
  for (int it = 0; it < scale(400, 20000); it++) {
    SOLVER(S, s);
    s.setiFun(Fn<V, double>::ini), s.setfFun(Fn<V, double>::fit), s.setcFun(Fn<V, double>::cro), s.setmFun(Fn<V, double>::mut);
    GAOption o;
    o.populationSize = size_t(ri(0, 9) ? ri(1, 12) : ri(13, 80));
    int tour, elite;
    SelectMethod sm = config<SM>(s, o, tour, elite);
    int n0 = int(ri(0, 4) ? ri(1, 3 * long(o.populationSize)) : long(o.populationSize));
    auto b = fill(s, o, n0);
    bool preserving = sm == SelectMethod::Truncation || sm == SelectMethod::EliteReserved;
    for (int rd = 0; rd < 4; rd++) {
      double prev = s.bestFitness();
      size_t ft = s.failTimes();
      double bestBefore = b[0].f;
      for (auto &x : b)
        if (better(x.f, bestBefore)) bestBefore = x.f;
      s.__impl_select();
      ctx = descr<S>(b, s, int(sm), tour, elite) + fmt(" reported before %.17g now %.17g failures %zu->%zu", prev, s.bestFitness(), ft, s.failTimes());
      bool in = false;
      for (auto &g : s.population()) {
        in = in || &g == &s.bestGene();
        REQ(!better(g.fitness, s.bestFitness()), "a member beats the reported best");
      }
      REQ(in, "the reported best is no living member");
      if (in) REQ(s.bestGene().fitness == s.bestFitness() && sameV(s.result(), s.bestGene().decision_variable), "accessors disagree");
      bool imp = better(s.bestFitness(), prev);
      REQ(s.failTimes() == (imp ? 0 : ft + 1), "failure counter %zu", s.failTimes());
      if (preserving) REQ(s.bestFitness() == bestBefore, "best individual lost by a best-preserving selection");
      count(hd(hd(hmix(ft, b.size()), prev), s.bestFitness()), ctx);
      int add = int(ri(0, 6));
      for (int k = 0; k < add; k++) {
        s._population.emplace_back();
        tagV(s._population.back().decision_variable, 1000 + k);
        s._population.back().fitness = ri(0, 2) ? rr(-12, 12) : s.bestFitness() + double(ri(-1, 1));
        s._population.back().is_fitness_computed = true;
      }
      b = snap(s);
    }
    if (it % 8 == 0) {
      dim = 3;
      o.maxGenerations = 8;
      s.setOption(o);
      s.initializePop();
      s.run();
      if (preserving)
        for (size_t k = 1; k < s.record().size(); k++) REQ(!better(s.record()[k - 1], s.record()[k]), "recorded best got worse");
      bool in = false;
      for (auto &g : s.population()) in = in || &g == &s.bestGene();
      REQ(in, "best is no member after the run");
      if (in) REQ(s.bestFitness() == obj(s.result(), 0), "best fitness is not the value of the result");
    }
  }
}
