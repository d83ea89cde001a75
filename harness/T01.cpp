// PARTS: 3
// FLAGS: -O1 -fopenmp -fsanitize=thread -fno-access-control -nodefaultlibs -Wl,--no-as-needed -ltsan -lstdc++ -lm -lc -lgcc_s -lgcc -lpthread
#include "h.hpp"
#include <HeuristicFlow/EAGlobal>
#if HH_PART == 0
#include <HeuristicFlow/Genetic>
#elif HH_PART == 1
#include <HeuristicFlow/PSO>
#else
#include <HeuristicFlow/AOS>
#endif
#include "omp_shim.hpp"
using namespace heu;
using namespace hh;
typedef std::array<double, 3> A3;
typedef std::vector<double> VD;
typedef Eigen::Array<double, 3, 1> E3;
typedef Eigen::Array<double, Eigen::Dynamic, 1> EX;
// every schedule: team size, dealing of the iterations, chunks as requested or single iterations
static std::string sched(int T) {
  static const int teams[] = {1, 2, 3, 4, 7};
  shim::team = T == 1 ? 1 : teams[ri(0, 4)];
  shim::dealing = unsigned(ri(0, 1) ? 0 : ri(1, 1000000));
  shim::unit = ri(0, 2) == 0;
  shim::badChunk = 0, shim::loops = 0, shim::iters = 0;
  return fmt("threadNum %d, team of %d, dealing %u, %s", T, shim::team, shim::dealing, shim::unit ? "single iterations" : "chunks");
}
#define VALID(n) REQ(shim::badChunk == 0, "%d tasks: a work-sharing loop was given a chunk smaller than 1 (never terminates)", int(n))
// the HH_PART conditionals already divide the cases among the executables
#define CASEX_(n, id)                                                                                              \
  template <int>                                                                                                   \
  static void casex_##id();                                                                                        \
  static hh::Reg regx_##id = hh::mk<true>(n, 60, [](auto z) { return &casex_##id<decltype(z)::value>; });           \
  template <int>                                                                                                   \
  static void casex_##id()
#define CASEX__(n, id) CASEX_(n, id)
#define CASEX(n) CASEX__(n, __COUNTER__)
// thread counts given to the library; "tasks fewer than threads" included
#define FORALL_T(M) M(1) M(2) M(3) M(8) M(100)
static int sizes(int k) {
  static const int n[] = {0, 1, 2, 3, 7, 8, 9, 16, 23, 40};
  return n[k % 10];
}
static double obj(const double *v, int n, int k) {
  double s = 0;
  for (int i = 0; i < n; i++) s += std::cos(v[i] * (k + 1) + i) + 0.1 * (k + 1) * v[i];
  return s;
}
static double rgrid() { return ri(0, 1) ? double(ri(-2, 2)) : rr(-3, 3); }
template <class V>
void mk(V *v, int n) {
  if constexpr (!array_traits<V>::isFixedSize) v->resize(n);
  for (int i = 0; i < n; i++) (*v)[i] = rgrid();
}

#if HH_PART == 0
template <class V>
void fS(const V *v, double *f) { *f = obj(v->data(), int(v->size()), 0); }
template <class V, class F>
void fM(const V *v, F *f) {
  for (int k = 0; k < int(f->size()); k++) (*f)[k] = obj(v->data(), int(v->size()), k);
}
template <class V>
void ini(V *v) { mk(v, 3); }
template <class V>
void cro(const V *a, const V *b, V *c, V *d) { *c = *a, *d = *b; }
template <class V>
void mut(const V *a, V *b) { *b = *a; }
template <class G>
double *fp(G &g) {
  if constexpr (std::is_same_v<std::decay_t<decltype(g.fitness)>, double>) return &g.fitness;
  else return g.fitness.data();
}
template <class S>
void fitness(int T) {
  setThreadNum(T);
  for (int it = 0; it < scale(20, 200); it++) {
    S s;
    using G = typename S::Gene_t;
    using V = std::decay_t<decltype(std::declval<G>().decision_variable)>;
    int M = 1;
    if constexpr (!std::is_same_v<std::decay_t<decltype(std::declval<G>().fitness)>, double>) {
      s.setfFun(fM<V, std::decay_t<decltype(std::declval<G>().fitness)>>);
      M = 3;
    } else
      s.setfFun(fS<V>);
    std::vector<G *> order;
    std::vector<double> old;
    int n = sizes(it), todo = 0;
    for (int i = 0; i < n; i++) {
      s._population.emplace_back();
      auto &g = s._population.back();
      mk(&g.decision_variable, 3);
      if constexpr (!std::is_same_v<std::decay_t<decltype(g.fitness)>, double>) g.fitness.resize(M, 1);
      for (int k = 0; k < M; k++) fp(g)[k] = 1e6 + i;
      g.is_fitness_computed = it % 3 == 0 ? false : ri(0, 1);
      todo += !g.is_fitness_computed;
      order.push_back(&g), old.push_back(g.is_fitness_computed ? 1e6 + i : NAN);
    }
    ctx = sched(T);
    s.__impl_computeAllFitness();
    VALID(todo);
    REQ(s._population.size() == size_t(n), "population resized from %d to %zu", n, s._population.size());
    int i = 0;
    for (auto &g : s._population) {
      REQ(&g == order[i], "individual %d moved", i);
      REQ(g.is_fitness_computed, "individual %d of %d not evaluated", i, n);
      for (int k = 0; k < M; k++) {
        double e = std::isnan(old[i]) ? obj(g.decision_variable.data(), 3, k) : old[i];
        REQ(fp(g)[k] == e, "objective %d of individual %d of %d: %.17g, the sequential pass gives %.17g", k, i, n, fp(g)[k], e);
      }
      i++;
    }
    count(hmix(uint64_t(n) * 1000 + T, uint64_t(shim::team) * 64 + shim::unit) + shim::dealing, ctx);
  }
}
template <class S>
void domination(int T, bool greater) {
  setThreadNum(T);
  for (int it = 0; it < scale(20, 200); it++) {
    S s;
    int n = sizes(it);
    for (int i = 0; i < n; i++) {
      s._population.emplace_back();
      auto &g = s._population.back();
      g.fitness.resize(3, 1);
      for (int k = 0; k < 3; k++) g.fitness[k] = rgrid();
      g.is_fitness_computed = true;
    }
    std::vector<typename S::Gene_t *> all;
    for (auto &g : s._population) all.push_back(&g);
    s.sortSpace.clear();
    for (auto p = s._population.begin(); p != s._population.end(); ++p) s.sortSpace.emplace_back(p);
    ctx = sched(T);
    s.calculateDominatedNum();
    VALID(n);
    for (int a = 0; a < n; a++) {
      int d = 0;
      for (int b = 0; b < n; b++) {
        bool le = true, st = false;
        for (int k = 0; k < 3; k++) {
          double x = all[b]->fitness[k], y = all[a]->fitness[k];
          if (greater) std::swap(x, y);
          le = le && x <= y, st = st || x < y;
        }
        d += le && st;
      }
      REQ(int(s.sortSpace[a]->dominated_by_num) == d, "individual %d of %d: counted %d dominators, the sequential pass gives %d", a, n, int(s.sortSpace[a]->dominated_by_num), d);
    }
    count(hmix(uint64_t(n) * 1000 + T, uint64_t(shim::team) * 64 + shim::unit) + shim::dealing, ctx);
  }
}
template <class S>
void whole(int T) {
  setThreadNum(T);
  for (int it = 0; it < scale(3, 30); it++) {
    S s;
    using G = typename S::Gene_t;
    using V = std::decay_t<decltype(std::declval<G>().decision_variable)>;
    s.setiFun(ini<V>), s.setcFun(cro<V>), s.setmFun(mut<V>);
    if constexpr (!std::is_same_v<std::decay_t<decltype(std::declval<G>().fitness)>, double>) s.setfFun(fM<V, std::decay_t<decltype(std::declval<G>().fitness)>>);
    else s.setfFun(fS<V>);
    GAOption o;
    o.populationSize = size_t(ri(4, 12)), o.maxGenerations = 3, o.maxFailTimes = size_t(-1), o.crossoverProb = 0.8, o.mutateProb = 0.1;
    s.setOption(o);
    ctx = sched(T);
    s.initializePop();
    s.run();
    VALID(o.populationSize);
    for (auto &g : s._population) REQ(g.is_fitness_computed, "run left an individual without objective value");
    count(u64(), ctx);
  }
}

using E3o = Eigen::Array<double, 3, 1>;
#define TC(T)                                                                                                  \
  CASEX("fitness pass of SOGA, " #T " threads") { fitness<SOGA<A3>>(T); fitness<SOGA<VD>>(T); }                 \
  CASEX("fitness pass of NSGA2, " #T " threads") { fitness<NSGA2<A3, 3>>(T); }                                  \
  CASEX("fitness pass of NSGA3, " #T " threads") { fitness<NSGA3<E3, 3>>(T); }                                  \
  CASEX("domination counting of NSGA2, " #T " threads") {                                                      \
    domination<NSGA2<A3, 3, FITNESS_LESS_BETTER>>(T, false);                                                   \
    domination<NSGA2<A3, 3, FITNESS_GREATER_BETTER>>(T, true);                                                 \
  }                                                                                                            \
  CASEX("domination counting of NSGA3, " #T " threads") { domination<NSGA3<A3, 3>>(T, false); }                 \
  CASEX("whole run of the genetic solvers, " #T " threads") {                                                  \
    whole<SOGA<A3>>(T);                                                                                        \
    whole<NSGA2<A3, 3>>(T);                                                                                    \
  }
FORALL_T(TC)
// two threads never see one generator
struct Gens {
  std::vector<const void *> g;
  std::vector<double> v;
};
CASEX("random source private to each thread") {
  for (int it = 0; it < 50; it++) {
    Gens g;
    shim::team = int(ri(2, 8));
    g.g.resize(shim::team), g.v.resize(shim::team);
    auto f = [](void *p) {
      auto *q = (Gens *)p;
      q->g[shim::me.id] = &heu::internal::global_mt19937();
      for (int i = 0; i < 20; i++) q->v[shim::me.id] += randD() + randF() + double(randIdx(7));
    };
    shim::region(f, &g, 0, nullptr, nullptr);
    std::set<const void *> s(g.g.begin(), g.g.end());
    REQ(s.size() == g.g.size(), "%zu threads use %zu generators", g.g.size(), s.size());
    count(u64());
  }
}
#elif HH_PART == 1
template <class V>
void fS(const V *v, double *f) { *f = obj(v->data(), int(v->size()), 0); }
template <class S, class V>
void pso(int T) {
  setThreadNum(T);
  for (int it = 0; it < scale(24, 240); it++) {
    S s;
    if constexpr (!array_traits<V>::isFixedSize) s.setDimensions(3);
    s.setPVRange(-1, 1, 0.5);
    PSOOption o;
    o.populationSize = std::max(1, sizes(it)), o.maxGeneration = 3, o.maxFailTimes = 100000;
    s.setOption(o);
    s.setfFun(fS<V>);
    ctx = sched(T);
    s.initializePop();
    for (auto &p : s._population) mk(&p.position, 3);
    for (auto &p : s._population)
      for (int i = 0; i < 3; i++) p.position[i] = std::min(1.0, std::max(-1.0, p.position[i]));
    auto before = s._population;
    s.__impl_computeAllFitness();
    VALID(before.size());
    REQ(s._population.size() == before.size(), "swarm resized");
    for (size_t i = 0; i < before.size(); i++) {
      double e = obj(before[i].position.data(), 3, 0);
      REQ(s._population[i].fitness == e, "particle %zu of %zu: %.17g, the sequential pass gives %.17g", i, before.size(), s._population[i].fitness, e);
    }
    s.__impl_updatePGBest();
    // without attraction the step is a function of the particle alone: the random source cannot matter
    bool det = it % 2;
    if (det) s._option.learnFactorP = 0, s._option.learnFactorG = 0, s._option.inertiaFactor = 0.5;
    for (auto &p : s._population)
      for (int i = 0; i < 3; i++) p.velocity[i] = rr(-0.5, 0.5);
    before = s._population;
    auto gb = s.gBest;
    shim::badChunk = 0;
    s.__impl_updatePopulation();
    VALID(before.size());
    for (size_t i = 0; i < before.size(); i++)
      for (int k = 0; k < 3; k++) {
        auto &p = s._population[i];
        REQ(p.position[k] >= -1 && p.position[k] <= 1 && std::fabs(p.velocity[k]) <= 0.5, "particle %zu of %zu leaves the box", i, before.size());
        if (det) {
          double v = std::min(0.5, std::max(-0.5, 0.5 * before[i].velocity[k])), x = std::min(1.0, std::max(-1.0, before[i].position[k] + v));
          REQ(near(p.velocity[k], v) && near(p.position[k], x), "particle %zu of %zu moved to %.17g, the sequential pass gives %.17g", i, before.size(), p.position[k], x);
        }
        REQ(p.pBest.position[k] == before[i].pBest.position[k] && s.gBest.position[k] == gb.position[k], "movement changed a best point");
      }
    s.run();
    count(hmix(before.size() * 1000 + T, uint64_t(shim::team) * 64 + shim::unit) + shim::dealing, ctx);
  }
}

#define TC(T)                                                                                      \
  CASEX("PSO with std vectors, " #T " threads") {                                                  \
    pso<PSO<A3, BoxShape::SQUARE_BOX>, A3>(T);                                                     \
    pso<PSO<VD, BoxShape::SQUARE_BOX>, VD>(T);                                                     \
  }                                                                                                \
  CASEX("PSO with Eigen arrays, " #T " threads") {                                                 \
    pso<PSO<E3, BoxShape::SQUARE_BOX>, E3>(T);                                                     \
    pso<PSO<EX, BoxShape::SQUARE_BOX>, EX>(T);                                                     \
  }
FORALL_T(TC)
#else
template <class V>
void fS(const V *v, double *f) { *f = obj(v->data(), int(v->size()), 0); }
template <class S, class V>
void aos(int T) {
  setThreadNum(T);
  for (int it = 0; it < scale(20, 200); it++) {
    S s;
    if constexpr (!array_traits<V>::isFixedSize) s.setDimensions(3);
    s.setRange(-3, 3);
    s.setDelta(0.1);
    s.setfFun(fS<V>);
    int n = sizes(it);
    s._electrons.clear();
    std::vector<double> old;
    int todo = 0;
    for (int i = 0; i < n; i++) {
      s._electrons.emplace_back();
      auto &e = s._electrons.back();
      mk(&e.state, 3);
      e.energy = 1e6 + i;
      e.isComputed = it % 3 ? ri(0, 1) : false;
      old.push_back(e.isComputed ? 1e6 + i : NAN);
      todo += !e.isComputed;
    }
    ctx = sched(T);
    s.__impl_computeFitness();
    VALID(todo);
    int i = 0;
    for (auto &e : s._electrons) {
      double x = std::isnan(old[i]) ? obj(e.state.data(), 3, 0) : old[i];
      REQ(e.isComputed && e.energy == x, "electron %d of %d: %.17g, the sequential pass gives %.17g", i, n, e.energy, x);
      i++;
    }
    AOSOption o;
    o.electronNum = size_t(ri(2, 12)), o.maxLayerNum = 2, o.maxGeneration = 3, o.maxEarlyStop = 100;
    s.setOption(o);
    s.initializePop();
    s.run();
    VALID(o.electronNum);
    count(hmix(uint64_t(n) * 1000 + T, uint64_t(shim::team) * 64 + shim::unit) + shim::dealing, ctx);
  }
}
#define TC(T)                                                                                      \
  CASEX("fitness pass of AOS, " #T " threads") {                                                   \
    aos<AOS<ContinousBox<A3, BoxShape::SQUARE_BOX>>, A3>(T);                                       \
    aos<AOS<ContinousBox<EX, BoxShape::SQUARE_BOX>>, EX>(T);                                       \
  }
FORALL_T(TC)
#endif
