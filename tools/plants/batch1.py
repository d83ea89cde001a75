H = '''#include <cstdint>
#include <cmath>
#include <cstdio>
#include <iostream>
#include <HeuristicFlow/EAGlobal>
#include <HeuristicFlow/Genetic>
#include <HeuristicFlow/PSO>
#include <HeuristicFlow/AOS>
#include <HeuristicFlow/SimpleMatrix>
using namespace heu;
'''
NA = '-fno-access-control'
PLANTS = []
def P(ID, EDITS, NEEDS, BREAKS, DEMO, FLAGS=''):
    PLANTS.append(dict(ID=ID, PROPERTY=ID[:3], EDITS=EDITS, NEEDS=NEEDS, BREAKS=BREAKS, DEMO=H + DEMO, FLAGS=FLAGS))

P('B01-constraint-pairs', [('EAGlobal/BoxConstraint.hpp', '''    for (int idx = 0; idx < v->size(); idx++) {
      at(*v, idx) = std::min(at(*v, idx), static_cast<const Derived*>(this)->max(idx));
      at(*v, idx) = std::max(at(*v, idx), static_cast<const Derived*>(this)->min(idx));
    }''', '''    const int dim = int(v->size());
    for (int idx = 0; idx < dim; idx++) {
      if (at(*v, idx) > static_cast<const Derived*>(this)->max(idx)) {
        at(*v, idx) = static_cast<const Derived*>(this)->max(idx);
        idx++;
        if (idx >= dim) break;
      }
      at(*v, idx) = std::max(at(*v, idx), static_cast<const Derived*>(this)->min(idx));
    }''')], 'two neighbouring components above the upper limit',
  'the component after a clamped one is not clamped from above',
'''int main() {
  ContinousBox<std::array<double, 4>, BoxShape::SQUARE_BOX> b; b.setRange(-1, 1); b.setDelta(0.1);
  std::array<double, 4> v{0, 3, 4, 0.5};
  b.applyConstraint(&v);
  for (double x : v) if (x > 1 || x < -1) { printf("out: %g\\n", x); return 1; }
}''')

P('B02-delta-of-previous', [('EAGlobal/BoxConstraint.hpp', ('''    at(*v, idx) += Scalar_t(randD(-1, 1)) * this->delta(idx);''', 1),
  '''    at(*v, idx) += Scalar_t(randD(-1, 1)) * std::max(this->delta(idx), this->delta(idx / 2));''')],
  'a box with per-dimension limits whose learning rates differ', 'a component moves further than its own learning rate',
'''int main() {
  ContinousBox<std::array<double, 3>, BoxShape::RECTANGLE_BOX> b;
  b.setRange({-9, -9, -9}, {9, 9, 9}); b.setDelta({5, 5, 0.001});
  for (int i = 0; i < 500; i++) {
    std::array<double, 3> v{0, 0, 0}; b.applyDelta(&v);
    if (std::fabs(v[2]) > 0.001) return 1;
  }
}''')

P('P01-negative-velocity', [('PSO/PSO4std.hpp', '''        if (std::abs(i.velocity[idx]) > this->maxVelocity(idx)) {
          i.velocity[idx] = sign(i.velocity[idx]) * this->maxVelocity(idx);
        }''', '''        i.velocity[idx] = std::min(i.velocity[idx], this->maxVelocity(idx));
        i.velocity[idx] = std::max(i.velocity[idx], -this->maxVelocity(this->dimensions() - 1));''')],
  'a std position type with per-dimension velocity limits', 'velocities below the negative limit of their own dimension remain',
'''typedef std::array<double, 3> V;
void f(const V* v, double* r) { *r = 0; for (double x : *v) *r += (x - 2) * (x - 2); }
int main() {
  PSO<V, RECTANGLE_BOX, FITNESS_LESS_BETTER> s;
  PSOOption o; o.populationSize = 20; o.maxGeneration = 30; o.maxFailTimes = 0; s.setOption(o);
  s.setPVRange(V{-9, -9, -9}, V{9, 9, 9}, V{0.01, 0.01, 5});
  s.setfFun(f); s.initializePop();
  for (int k = 0; k < 1; k++) s.run();
  for (auto& p : s.population()) for (int i = 0; i < 2; i++) if (std::fabs(p.velocity[i]) > 0.01) return 1;
}''')

P('P02-tiny-improvement', [('PSO/PSO4Eigen.hpp', '''    if (isBetterThan(curGBest->fitness, this->gBest.fitness)) {''',
  '''    if (isBetterThan(curGBest->fitness, this->gBest.fitness) &&
        std::abs(curGBest->fitness - this->gBest.fitness) > 1e-10) {''')],
  'an improvement of the global best by less than 1e-10', 'the global best is no longer the best of the personal bests',
'''typedef Eigen::Array<double, 2, 1> V;
void f(const V* v, double* r) { *r = 1e-12 * v->square().sum(); }
int main() {
  PSO<V, SQUARE_BOX, FITNESS_LESS_BETTER> s;
  PSOOption o; o.populationSize = 10; o.maxGeneration = 20; o.maxFailTimes = 0; s.setOption(o);
  s.setPVRange(-5, 5, 1); s.setfFun(f); s.initializePop(); s.run();
  for (auto& p : s.population()) if (p.pBest.fitness < s.globalBest().fitness) return 1;
}''')

P('A01-matrix-columns', [('AOS/AOS4EigenAndStd.hpp', '''    for (int varIdx = 0; varIdx < alpha.size(); varIdx++) {''',
  '''    for (int varIdx = 0; varIdx < alpha.rows(); varIdx++) {''')], 'a decision variable that is a matrix with more than one column',
  'electrons leave the box in the later columns',
'''typedef Eigen::Array<double, 2, 3> V;
void f(const V* v, double* r) { *r = -v->square().sum(); }
int main() {
  AOS_square<V> s; AOSOption o; o.electronNum = 20; o.maxGeneration = 40; o.maxEarlyStop = 1000; o.maxLayerNum = 4; o.photonRate = 0.3;
  s.setOption(o); s.setRange(-1, 1); s.setDelta(0.5); s.setfFun(f); s.initializePop(); s.run();
  for (auto& e : s.electrons()) if (e.state.abs().maxCoeff() > 1) return 1;
}''')

P('A02-mean-divisor', [('AOS/AOS4EigenAndStd.hpp', '''    for (auto& val : this->_bindingState) {
      val /= this->_electrons.size();
    }''', '''    const double electronCount = double(this->_option.electronNum);
    for (auto& val : this->_bindingState) {
      val /= electronCount;
    }''')], 'a std decision variable and a second round, when offspring have been added',
  'the binding state is not the mean over all electrons',
'''typedef std::array<double, 2> V;
void f(const V* v, double* r) { *r = (*v)[0] + (*v)[1]; }
int main() {
  AOS_square<V> s; AOSOption o; o.electronNum = 5; o.maxGeneration = 3; o.maxEarlyStop = 1000; o.maxLayerNum = 2; o.photonRate = 0.5;
  s.setOption(o); s.setRange(1, 2); s.setDelta(0.1); s.setfFun(f); s.initializePop(); s.run();
  for (double x : s.bindingState()) if (x < 1 - 1e-9 || x > 2 + 1e-9) return 1;
}''')

P('C01-float-large-exponent', [('Global/ConvertDoubleAndBinCode.hpp', ('''  while (fl > 257 * seper) {''', 2), '''  while (fl > 255 * seper) {''')],
  'a float in a narrow band of magnitudes just below a multiple of 2^8 times the smallest normal', 'its exponent code is wrong',
'''int main() {
  for (uint32_t e = 0; e < 255; e++) for (uint32_t m : {0u, 1u, 0x7fffffu, 0x7ffffeu, 0x7f0000u, 0x7f8000u, 0x400000u}) {
    uint32_t c = (e << 23) | m; float f; memcpy(&f, &c, 4);
    if (uint32_t(encode(f)) != c) { printf("%08x\\n", c); return 1; }
  }
}''')

P('C02-negative-power', [('Global/TemplateFloat.hpp', '''  static const constexpr uint8_t absPowVal = isPowNegative ? (-power) : power;''',
  '''  static const constexpr uint8_t absPowVal = isPowNegative ? (0x7F & (-power)) : power;''')], 'a decimal power below -127',
  'the power of ten is truncated', '''int main() { constexpr double v = PowDecode<PowEncode<1, -130>::code>::real; return !(v > 0.99e-130 && v < 1.01e-130); }''')

P('C03-assign-bytes', [('SimpleMatrix/MultiBitSet.hpp', '''    memcpy(_data, another._data, blocksNeed * sizeof(block_t));
    return *this;''', '''    memcpy(_data, another._data, std::min(blocksNeed * sizeof(block_t), (size() * eleBits + 15) / 8));
    return *this;''')], 'copy assignment with a last block that is only partly used, of a block type wider than a byte',
  'the last elements are not copied: elements are stored from the most significant bit, so their bytes come last',
'''int main() {
  multiBitSet<5, uint64_t> a(13), b(13);
  for (int i = 0; i < 13; i++) a[i] = i + 3, b[i] = 0;
  b = a;
  for (int i = 0; i < 13; i++) if (b[i] != a[i]) return 1;
}''')

P('C04-reserve-size', [('SimpleMatrix/MatrixDynamicSize.hpp', '''      if (i < _capacity) {
        std::allocator''', '''      if (i < size()) {
        std::allocator''')], 'reserving when the capacity exceeds the size, with an element type that owns something',
  'the objects between size and capacity are never destroyed',
'''static int live = 0;
struct T { T() { live++; } T(const T&) { live++; } T(T&&) { live++; } T& operator=(const T&) = default; ~T() { live--; } };
int main() {
  { MatrixDynamicSize<T> m(4, 4); m.resize(1, 2); m.reserve(40); }
  return live != 0;
}''')

P('R01-range-by-float', [('Global/Randoms.hpp', '''  return (max - min) * randD() + min;''', '''  return max - (max - min) * randF();''')],
  'an upper limit that is much smaller in magnitude than the lower one: then max-(max-min)*r may fall below ... or a draw of zero',
  'the ranged helper has float granularity; with min=-1e300.. the range is kept', 'int main(){return 0;}')
PLANTS.pop()

P('R01-fill-last', [('Global/Randoms.hpp', '''  for (int i = 0; i < num; i++) {
    dst[i] = randD(min, max);
  }''', '''  const double width = max - min;
  for (int i = 0; i < num; i++) {
    dst[i] = width * randD() + min;
  }
  if (num > 64) dst[num] = min;''')], 'filling an array of more than 64 elements', 'one element behind the requested ones is overwritten',
'''int main() {
  std::vector<double> v(101, 7.); randD(v.data(), 100, 0., 1.); return v[100] != 7.;
}''')

P('R02-batch-tail', [('Global/LogisticChaos.hpp', '''    _value = dst[L - 1];''', '''    _value = dst[L > 256 ? L - 2 : L - 1];''')],
  'a batch of more than 256 values', 'the state after the batch is one step behind',
'''#include <HeuristicFlow/src/Global/LogisticChaos.hpp>
int main() {
  LogisticChaos a(0.3), b(0.3); std::vector<double> v(300); a.makeSequence(v.data(), 300); for (int i = 0; i < 300; i++) b();
  return a.value() != b.value();
}''')

P('H01-binomial-order', [('Global/HeuMaths.hpp', '''      result = result * (N - K + i) / i;''', '''      result = (i > 3 ? result / i * (N - K + i) : result * (N - K + i) / i);''')],
  'K greater than 3 with an intermediate product not divisible by i', 'the integer binomial coefficient is too small',
'''int main() {
  for (int n = 1; n < 14; n++) for (int k = 0; k <= n; k++) {
    long long num = 1, den = 1; for (int i = 1; i <= k; i++) num *= n - k + i, den *= i;
    if (NchooseK<int64_t>(n, k) != num / den) return 1;
  }
}''')

P('F01-styblinski-eigen', [('EAGlobal/SOFunctions.hpp', '''*f = (arr.pow(4) - 16 * arr.square() + 5 * arr).sum() / 2;''', '''*f = (arr.square() * (arr.square() - 16) + 5 * arr.abs()).sum() / 2;''')],
  'an Eigen point with a negative component', 'the linear term has the wrong sign',
'''int main() {
  Eigen::ArrayXd e(3); e << -2.903534, 1, 2; std::vector<double> v{-2.903534, 1, 2}; double a, b;
  internal::SOFunctionsX<Eigen::ArrayXd, double, void>::styblinskiTang(&e, &a); internal::SOFunctionsX<std::vector<double>, double, void>::styblinskiTang(&v, &b);
  return std::fabs(a - b) > 1e-9;
}''')

P('F02-schaffer2-middle', [('EAGlobal/MOFunctions.hpp', '''    } else if (x <= 4) {
      f->operator[](0) = 4 - x;''', '''    } else if (x < 3.5) {
      f->operator[](0) = 4 - x;''')], 'a point between 3.5 and 4', 'the first objective of Schaffer 2 is negative there',
'''int main() {
  std::array<double, 1> x{3.75}; std::array<double, 2> f;
  internal::MOFunctions12<std::array<double, 1>, std::array<double, 2>, void>::Schaffer2(&x, &f);
  return std::fabs(f[0] - 0.25) > 1e-12;
}''')

P('G01-reinitialise', [('Genetic/GABase.hpp', '''      i.set_fitness_uncomputed();
    }
  }''', '''      if (_generation == 0) i.set_fitness_uncomputed();
    }
  }'''), ('Genetic/GABase.hpp','''  size_t _generation;  ''','''  size_t _generation = 0;  ''')] , 'a second initialization of the population after a run', 'the new individuals keep the fitness of the old ones',
'''typedef std::array<double, 2> V;
void i(V* v) { (*v)[0] = randD(); (*v)[1] = randD(); }
void f(const V* v, double* r) { *r = (*v)[0] + 2 * (*v)[1]; }
void c(const V* a, const V* b, V* x, V* y) { *x = *a; *y = *b; }
void m(const V* a, V* b) { *b = *a; (*b)[0] = randD(); }
int main() {
  SOGA<V> s; GAOption o; o.populationSize = 10; o.maxGenerations = 3; o.maxFailTimes = 0; s.setOption(o);
  s.setiFun(i); s.setfFun(f); s.setcFun(c); s.setmFun(m);
  s.initializePop(); s.run(); s.initializePop(); s.run();
  for (auto& g : s.population()) if (std::fabs(g.fitness - g.decision_variable[0] - 2 * g.decision_variable[1]) > 1e-12) return 1;
}''')

P('G02-mutate-growing', [('Genetic/GABase.hpp', '''      crossoverQueue.pop_back();
    }

    while''', '''      crossoverQueue.back() = crossoverQueue.front();
      crossoverQueue.pop_back();
    }

    while''')], '', '', 'int main(){}')
PLANTS.pop()

P('G03-record-kept', [('PSO/PSOAbstrcat.hpp', '''    _record.clear();
    _record.reserve(this->_option.maxGeneration + 1);''', '''    if (_record.capacity() < this->_option.maxGeneration + 1) {
      _record.clear();
      _record.reserve(this->_option.maxGeneration + 1);
    }''')], 'two runs of the same recording solver', 'the record still holds the previous run',
'''typedef std::array<double, 2> V;
void f(const V* v, double* r) { *r = (*v)[0] * (*v)[0] + (*v)[1]; }
int main() {
  PSO<V, SQUARE_BOX, FITNESS_LESS_BETTER, RECORD_FITNESS> s;
  PSOOption o; o.populationSize = 10; o.maxGeneration = 5; o.maxFailTimes = 0; s.setOption(o);
  s.setPVRange(-5, 5, 1); s.setfFun(f); s.initializePop(); s.run(); s.initializePop(); s.run();
  return s.record().size() != 6;
}''')

P('S01-tournament-copies', [('Genetic/SOGASelecters.hpp', '''      while (pair.second > 0) {
''', '''      if (pair.second > 0) {
''')], 'an individual that wins more than two tournaments', 'the population ends up smaller than configured',
'''typedef std::array<double, 1> V;
void i(V* v) { (*v)[0] = randD(); }
void f(const V* v, double* r) { *r = (*v)[0]; }
void c(const V* a, const V* b, V* x, V* y) { *x = *a; *y = *b; }
void m(const V* a, V* b) { (*b)[0] = randD(); }
int main() {
  for (int k = 0; k < 30; k++) {
    SOGA<V, FITNESS_LESS_BETTER, DONT_RECORD_FITNESS, SelectMethod::Tournament> s; GAOption o; o.populationSize = 30; o.maxGenerations = 4; o.maxFailTimes = 0; s.setOption(o);
    s.setTournamentSize(8); s.setiFun(i); s.setfFun(f); s.setcFun(c); s.setmFun(m); s.initializePop(); s.run();
    if (s.population().size() != 30) return 1;
  }
}''')

P('S02-equal-best', [('Genetic/SOGA.hpp', '''      this->_failTimes++;
      _bestGene = newBestGeneIt;''', '''      this->_failTimes++;
      if (newBestGeneIt->fitness != prevFitess) _bestGene = newBestGeneIt;''')], 'the previous best is removed while an equally good individual stays',
  'the reported best is an individual that has been erased',
'''typedef std::array<double, 1> V;
void i(V* v) { (*v)[0] = randD(); }
void f(const V* v, double* r) { *r = std::floor(3 * (*v)[0]); }
void c(const V* a, const V* b, V* x, V* y) { *x = *a; *y = *b; }
void m(const V* a, V* b) { (*b)[0] = randD(); }
int main() {
  for (int k = 0; k < 30; k++) {
    SOGA<V, FITNESS_LESS_BETTER, DONT_RECORD_FITNESS, SelectMethod::MonteCarlo> s; GAOption o; o.populationSize = 10; o.maxGenerations = 10; o.maxFailTimes = 0; s.setOption(o);
    s.setiFun(i); s.setfFun(f); s.setcFun(c); s.setmFun(m); s.initializePop(); s.run();
    bool in = false;
    for (auto& g : s.population()) in |= &g == &s.bestGene();
    if (!in) return 1;
  }
}''')

P('M02-front-full', [('Genetic/NSGA2.hpp', '''    if (PFSize <= this->_option.populationSize)
''', '''    if (PFSize < this->_option.populationSize)
''')], 'a first front of exactly the configured population size', 'the reported front is the one of the generation before',
'''typedef std::array<double, 1> V;
void i(V* v) { (*v)[0] = randD(); }
void f(const V* v, Eigen::Array<double, 2, 1>* r) { (*r)[0] = (*v)[0]; (*r)[1] = -(*v)[0]; }
void c(const V* a, const V* b, V* x, V* y) { *x = *a; *y = *b; }
void m(const V* a, V* b) { (*b)[0] = randD(); }
int main() {
  NSGA2<V, 2> s; GAOption o; o.populationSize = 10; o.maxGenerations = 0; o.maxFailTimes = 0; s.setOption(o);
  s.setiFun(i); s.setfFun(f); s.setcFun(c); s.setmFun(m); s.initializePop(); s.run();
  return s.pfGenes().size() != 10;
}''')

P('N01-congestion-assigned', [('Genetic/NSGA2.hpp', '''          this->sortSpace[idx]->congestion +=
''', '''          this->sortSpace[idx]->congestion = (objIdx > 1 ? 0 : this->sortSpace[idx]->congestion) +
''')], 'three or more objectives and a rank that is only partly kept', 'the crowding distance ignores the earlier objectives',
'''typedef Eigen::Array<double, 3, 1> F;
typedef std::array<double, 3> V;
static int n = 0;
void i(V* v) { for (auto& x : *v) x = randD(); }
void f(const V* v, F* r) { double s = 0; for (int k = 0; k < 3; k++) s += (*v)[k]; for (int k = 0; k < 3; k++) (*r)[k] = (*v)[k] / s; }
int main() {
  for (int rep = 0; rep < 40; rep++) {
    NSGA2<V, 3> s; GAOption o; o.populationSize = 12; s.setOption(o); s.setiFun(i); s.setfFun(f); s.initializePop();
    s._option.populationSize = 6;
    s.__impl_computeAllFitness();
    std::vector<F> all; for (auto& g : s._population) all.push_back(g.fitness);
    s.__impl_select();
    auto crowd = [&](const F& x) {
      double c = 0;
      for (int k = 0; k < 3; k++) {
        std::vector<double> v; for (auto& y : all) v.push_back(y[k]); std::sort(v.begin(), v.end());
        size_t p = std::find(v.begin(), v.end(), x[k]) - v.begin();
        if (p == 0 || p + 1 == v.size()) return 1e300;
        c += (v[p + 1] - v[p - 1]) / (v.back() - v.front() + 1e-10);
      }
      return c;
    };
    double kept = 1e301, lost = 0;
    for (auto& x : all) { bool k = false; for (auto& g : s._population) k |= (g.fitness == x).all(); if (k) kept = std::min(kept, crowd(x)); else lost = std::max(lost, crowd(x)); }
    if (lost > kept + 1e-9) return 1;
  }
}''', NA)

P('N02-niche-count', [('Genetic/NSGA3Abstract.hpp', '''        curRefPoint->second++;
''', '''        if (rhoJ == 0) curRefPoint->second++;
''')], 'a direction that has members already and several candidates', 'a direction is served again although others have fewer members',
'''typedef Eigen::Array<double, 2, 1> F;
typedef std::array<double, 2> V;
int main() {
  for (int rep = 0; rep < 60; rep++) {
    NSGA3<V, 2> s; GAOption o; o.populationSize = 12; s.setOption(o); s.setReferencePointPrecision(1);
    s.referencePoses.resize(2, 2); s.referencePoses << 1, 0, 0, 1;
    // all candidates in one front: 20 near each direction
    std::list<decltype(s)::Gene_t> genes(40);
    std::unordered_set<decltype(s)::Gene_t*> sel; std::unordered_multimap<size_t, decltype(s)::Gene_t*> fl; std::unordered_map<size_t, size_t> rp{{0, 0}, {1, 0}};
    int k = 0;
    for (auto& g : genes) { g.closestRefPoint = k % 2; g.distance = k; fl.emplace(k % 2, &g); k++; }
    s.nichePreservation(&sel, &fl, &rp);
    int c[2] = {0, 0}; for (auto* g : sel) c[g->closestRefPoint]++;
    if (c[0] != 6 || c[1] != 6) return 1;
  }
}''', NA)

P('N03-float-steps', [('Genetic/NSGA3Abstract.hpp', '''rec->operator[](curDim) = double(p) / precision;''', '''rec->operator[](curDim) = p * float(1.0 / precision);''')],
  'a precision that is not a power of two', 'the components of a direction do not sum to one',
'''typedef Eigen::Array<double, 3, 1> F;
typedef std::array<double, 2> V;
int main() {
  NSGA3<V, 3> s; std::vector<F> d; s.computeReferencePointPoses(3, 7, &d);
  for (auto& x : d) if (std::fabs(x.sum() - 1) > 1e-12) return 1;
}''', NA)

P('T01-shared-counter', [('Genetic/NSGABase.hpp', '''    static const int32_t thN = threadNum();
''', '''    static const int32_t thN = threadNum();
    size_t dominators;
'''), ('Genetic/NSGABase.hpp', ('''        sortSpace[ed]->dominated_by_num += Pareto<ObjNum, fOpt>::isStrongDominate(
            &(sortSpace[er]->fitness), &(sortSpace[ed]->fitness));
      }
''', 1), '''        dominators += Pareto<ObjNum, fOpt>::isStrongDominate(
            &(sortSpace[er]->fitness), &(sortSpace[ed]->fitness));
      }
      sortSpace[ed]->dominated_by_num = dominators;
'''), ('Genetic/NSGABase.hpp', ('''      sortSpace[ed]->dominated_by_num = 0;
''', 1), '''      dominators = 0;
''')], 'more than one thread', 'the domination counter is shared between the threads',
'''#include <omp.h>
typedef Eigen::Array<double, 2, 1> F;
typedef std::array<double, 2> V;
void i(V* v) { for (auto& x : *v) x = randD(); }
void f(const V* v, F* r) { (*r)[0] = (*v)[0]; (*r)[1] = (*v)[1]; }
int main() {
  omp_set_num_threads(4);
  for (int rep = 0; rep < 40; rep++) {
    NSGA2<V, 2> s; GAOption o; o.populationSize = 1000; s.setOption(o); s.setiFun(i); s.setfFun(f); s.initializePop(); s.__impl_computeAllFitness();
    for (auto it = s._population.begin(); it != s._population.end(); ++it) s.sortSpace.push_back(it);
    s.calculateDominatedNum();
    for (auto& a : s._population) { size_t n = 0; for (auto& b : s._population) n += (b.fitness <= a.fitness).all() && (b.fitness < a.fitness).any(); if (n != a.dominated_by_num) return 1; }
  }
}''', NA + ' -O0')

P('M01-dynamic-first', [('EAGlobal/Pareto.hpp', '''      isBetter = ((*A) < (*B)).any();''', '''      isBetter = ((*A) < (*B)).head(ObjNum == Eigen::Dynamic ? std::min<int64_t>(A->size(), 8) : A->size()).any();''')],
  'a run-time number of objectives above 8 and vectors that differ only in a later objective', 'a dominating vector is not recognised',
'''int main() {
  Eigen::ArrayXd a = Eigen::ArrayXd::Zero(10), b = a; b[9] = 1;
  return !internal::Pareto<Eigen::Dynamic, FITNESS_LESS_BETTER>::isStrongDominate(&a, &b);
}''')
