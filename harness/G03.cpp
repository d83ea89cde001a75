// PARTS: 8
#include "ga.hpp"
#include <HeuristicFlow/PSO>
#include <HeuristicFlow/AOS>
// Values are scripted by round: everything created in round r evaluates to script[r]. The callbacks count the rounds.
static std::vector<double> script;
static std::atomic<long> nFit{0};
static long nBreed, breedBursts, fitSeen;
static std::function<void()> onBurst;
static double sc(long r) { return script[std::min<long>(r, long(script.size()) - 1)]; }
template <class V, class F>
struct Sc {
  static void ini(V *v) {
    mk(v, 2);
    for (int i = 0; i < int(v->size()); i++) (*v)[i] = 0;
  }
  static void fit(const V *v, F *f) {
    ++nFit;
    for (int k = 0; k < nobj(f); k++) fa(*f, k) = sc(long((*v)[0])) * (k + 1);
  }
  static void cro(const V *a, const V *b, V *c, V *d) {
    burst();
    *c = *a, *d = *b;
    (*c)[0] = (*d)[0] = double(breedBursts);
  }
  static void mut(const V *a, V *c) {
    burst();
    *c = *a;
    (*c)[0] = double(breedBursts);
  }
  static void burst() {
    if (nFit != fitSeen || breedBursts == 0) {
      fitSeen = nFit;
      ++breedBursts;
      onBurst();
    }
    ++nBreed;
  }
};
template <class S, class = void>
constexpr bool requiresRecord = false;
template <class S>
constexpr bool requiresRecord<S, std::void_t<decltype(std::declval<const S>().record())>> = true;
static void mkScript(bool less) {
  script.clear();
  double x = 0;
  int style = int(ri(0, 4));
  for (int i = 0; i < 30; i++) {
    script.push_back(less ? x : -x);
    if (style == 0) continue;             // never improves
    if (style == 1) x -= 1;               // always improves
    else if (ri(0, 2) == 0) x -= 1;       // sometimes improves
    else if (style == 3 && ri(0, 1)) x += ri(0, 3);  // gets worse at times
  }
}
template <class S, bool less>
void ga() {
  constexpr bool rec = requiresRecord<S>;
  for (int it = 0; it < scale(250, 6000); it++) {
    SOLVER(S, s);
    GAOption o;
    o.populationSize = ri(0, 5) ? ri(1, 6) : ri(7, 30);
    if (isSO<S>) o.populationSize = std::max<size_t>(o.populationSize, 4);
    o.maxGenerations = ri(0, 3) ? ri(0, 25) : ri(0, 2);
    o.maxFailTimes = ri(0, 3) ? ri(0, 5) : ri(0, 40);
    o.mutateProb = ri(0, 3) ? 1 : 0;
    o.crossoverProb = o.populationSize > 1 && ri(0, 2) ? 1 : 0;
    s.setOption(o);
    if constexpr (!isSO<S>) {
      if constexpr (FOf<S>::RowsAtCompileTime == Eigen::Dynamic) s.setObjectiveNum(3);
      if constexpr (IsNsga3<S>::value == 1) s.setReferencePointPrecision(3);
    }
    if constexpr (std::is_same_v<S, SOr<A4, SelectMethod::RunTimeSelectMethod, less ? LB : GB, RF>>) s.setSelectMethod(SelectMethod(ri(0, 9)));
    using W = Sc<VarOf<S>, FOf<S>>;
    s.setiFun(W::ini), s.setfFun(W::fit), s.setcFun(W::cro), s.setmFun(W::mut);
    omp_set_num_threads(int(ri(1, 3)));
    mkScript(less);
    s.initializePop();
    for (int run = 0; run < 2; run++) {
      ctx = fmt("run %d: size %zu maxGenerations %zu maxFailTimes %zu values ", run, o.populationSize, o.maxGenerations, o.maxFailTimes) + show(script);
      nFit = nBreed = breedBursts = 0;
      fitSeen = -1;
      double before = 0;
      size_t startFails = 0;
      if constexpr (isSO<S>) before = run ? s.bestFitness() : sc(0);
      std::vector<double> bests;
      onBurst = [&] {
        REQ(s.generation() == size_t(breedBursts), "generation %zu in breeding round %ld", s.generation(), breedBursts);
        if constexpr (rec) REQ(s.record().size() == size_t(breedBursts), "record size during the run");
        if constexpr (rec && isSO<S>) REQ(s.record().back() == s.bestFitness(), "record during the run");
      };
      bool breeds = o.mutateProb == 1 || o.crossoverProb == 1;
      s.run();
      const size_t g = s.generation();
      REQ(g <= o.maxGenerations, "generation %zu", g);
      if (breeds) REQ(g == size_t(breedBursts), "generation %zu after %ld breeding rounds", g, breedBursts);
      if constexpr (rec) {
        REQ(s.record().size() == g + 1, "%zu records, generation %zu", s.record().size(), g);
        REQ(sameF(s.record().back(), s.bestFitness()), "last record is not the best fitness");
      }
      if constexpr (isSO<S> && rec) {
        // failures seen from the records decide where the run has to stop
        size_t fails = 0, stop = 0;
        double prev = before;
        for (size_t i = 0; i < s.record().size(); i++) {
          double b = s.record()[i];
          fails = (less ? b < prev : b > prev) ? 0 : fails + 1;
          prev = b;
          stop = i;
          if (i >= o.maxGenerations || (o.maxFailTimes > 0 && fails > o.maxFailTimes)) break;
        }
        REQ(stop == g, "stopped after %zu generations, limits reached after %zu (failures %zu)", g, stop, fails);
        REQ(stop >= o.maxGenerations || (o.maxFailTimes > 0 && fails > o.maxFailTimes), "stopped before any limit: generation %zu, failures %zu", g, fails);
        REQ(s.failTimes() == fails, "failure counter %zu, counted %zu", s.failTimes(), fails);
      }
      if constexpr (!isSO<S>)
        if (!(o.maxFailTimes > 0)) REQ(g == o.maxGenerations, "stopped after %zu generations", g);
      count(hmix(hmix(g, o.maxGenerations), o.maxFailTimes) ^ uint64_t(it), ctx);
    }
    onBurst = nullptr;
  }
}
template <class S, bool less>
void pso() {
  using V = std::decay_t<decltype(std::declval<S>().globalBest().position)>;
  static long N;
  for (int it = 0; it < scale(400, 8000); it++) {
    SOLVER(S, p);
    PSOOption o;
    N = o.populationSize = ri(1, 9);
    o.maxGeneration = ri(0, 3) ? ri(0, 25) : ri(0, 2);
    o.maxFailTimes = ri(0, 3) ? ri(0, 5) : ri(0, 40);
    p.setOption(o);
    if constexpr (!array_traits<V>::isFixedSize) p.setDimensions(2);
    p.setPVRange(-1, 1, 0.5);
    p.setfFun([](const V *, double *f) {
      long c = nFit++;
      *f = sc(c < N ? 0 : c / N - 1);
    });
    mkScript(less);
    omp_set_num_threads(int(ri(1, 3)));
    for (int run = 0; run < 2; run++) {
      if (run == 0 || ri(0, 1)) nFit = 0, p.initializePop();
      else nFit = N;
      nFit = N;
      ctx = fmt("run %d: size %zu maxGeneration %zu maxFailTimes %zu values ", run, o.populationSize, o.maxGeneration, o.maxFailTimes) + show(script);
      double prev = p.bestFitness();
      p.run();
      const size_t g = p.generation();
      REQ(size_t(nFit) == N * (g + 2), "%ld evaluations of %ld particles, generation %zu", nFit - N, N, g);
      REQ(g <= o.maxGeneration, "generation %zu", g);
      size_t fails = 0, i = 0;
      for (;; i++) {
        double b = sc(long(i));
        bool imp = less ? b < prev : b > prev;
        fails = imp ? 0 : fails + 1;
        if (imp) prev = b;
        if constexpr (requiresRecord<S>)
          if (i < p.record().size()) REQ(p.record()[i] == prev, "record %zu is %g, best was %g", i, p.record()[i], prev);
        if (i >= o.maxGeneration || (o.maxFailTimes > 0 && fails > o.maxFailTimes)) break;
      }
      REQ(i == g, "stopped after %zu generations, limits reached after %zu", g, i);
      REQ(p.failTimes() == fails, "failure counter %zu, counted %zu", p.failTimes(), fails);
      if constexpr (requiresRecord<S>) REQ(p.record().size() == g + 1, "%zu records, generation %zu", p.record().size(), g);
      count(hmix(hmix(g, o.maxGeneration), o.maxFailTimes) ^ uint64_t(it), ctx);
    }
  }
}
template <class S, bool less>
void aos() {
  using V = std::decay_t<decltype(std::declval<S>().bindingState())>;
  static long N;
  for (int it = 0; it < scale(400, 8000); it++) {
    SOLVER(S, p);
    AOSOption o;
    N = o.electronNum = ri(1, 9);
    o.maxLayerNum = ri(1, N);
    o.maxGeneration = ri(0, 3) ? ri(0, 25) : ri(0, 2);
    o.maxEarlyStop = ri(0, 3) ? ri(0, 6) : ri(0, 40);
    o.photonRate = rd();
    p.setOption(o);
    if constexpr (!array_traits<V>::isFixedSize) p.setDimensions(2);
    p.setRange(-1, 1), p.setDelta(0.1);
    p.setfFun([](const V *, double *f) {
      long c = nFit++;
      *f = sc(c / N);
    });
    mkScript(less);
    omp_set_num_threads(int(ri(1, 3)));
    nFit = 0;
    p.initializePop();
    ctx = fmt("electrons %zu maxGeneration %zu maxEarlyStop %zu values ", o.electronNum, o.maxGeneration, o.maxEarlyStop) + show(script);
    p.run();
    const size_t g = p.generation();
    REQ(g <= o.maxGeneration, "generation %zu", g);
    REQ(size_t(nFit) == N * (g + 1), "%ld evaluations of %ld electrons, generation %zu", long(nFit), N, g);
    size_t stop = 0, i = 0;
    double best = sc(0);
    for (;; i++) {
      double b = less ? std::min(best, sc(long(i))) : std::max(best, sc(long(i)));
      stop = b == best ? stop + 1 : 0;
      best = b;
      if constexpr (requiresRecord<S>)
        if (i < p.record().size()) REQ(p.record()[i] == best, "record %zu is %g, best was %g", i, p.record()[i], best);
      if (i >= o.maxGeneration || stop >= o.maxEarlyStop) break;
    }
    REQ(i == g, "stopped after %zu generations, limits reached after %zu", g, i);
    REQ(p.earlyStopCounter() == stop, "early-stop counter %zu, counted %zu", p.earlyStopCounter(), stop);
    if constexpr (requiresRecord<S>) REQ(p.record().size() == g + 1, "%zu records, generation %zu", p.record().size(), g);
    count(hmix(hmix(g, o.maxGeneration), o.maxEarlyStop) ^ uint64_t(it), ctx);
  }
}
#define GA_(less, ...) \
  CASE(#__VA_ARGS__) { ga<__VA_ARGS__, less>(); }
GA_(true, SOr<A4, SelectMethod::Truncation, LB, RF>)
GA_(false, SOr<VD, SelectMethod::EliteReserved, GB, RF>)
GA_(true, SOr<A4, SelectMethod::RunTimeSelectMethod, LB, RF>)
GA_(false, SOr<A4, SelectMethod::RunTimeSelectMethod, GB, RF>)
GA_(true, SOr<EX, SelectMethod::Truncation, LB>)
GA_(true, N2r<A4, 2, LB, RF>)
GA_(true, N2r<VD, Eigen::Dynamic, GB>)
GA_(true, N3r<A4, 3, SINGLE_LAYER, RF>)
GA_(true, N3r<E3, Eigen::Dynamic, DOUBLE_LAYER>)
typedef Eigen::Array<double, 2, 1> E2;
CASE("PSO array") { pso<PSO<A4, BoxShape::SQUARE_BOX, LB, RF>, true>(); }
CASE("PSO vector") { pso<PSO<VD, BoxShape::SQUARE_BOX, GB, RF>, false>(); }
CASE("PSO Eigen") { pso<PSO<E2, BoxShape::SQUARE_BOX, LB>, true>(); }
CASE("PSO Eigen dynamic") { pso<PSO<EX, BoxShape::SQUARE_BOX, GB>, false>(); }
CASE("AOS array") { aos<AOS_square<A4, LB, RF>, true>(); }
CASE("AOS vector") { aos<AOS_square<VD, GB, RF>, false>(); }
CASE("AOS Eigen") { aos<AOS_square<E2, LB>, true>(); }
CASE("AOS Eigen dynamic") { aos<AOS_square<EX, GB, RF>, false>(); }
