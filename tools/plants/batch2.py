H = '''#include <cstdint>
#include <cmath>
#include <cstdio>
#include <iostream>
#include <HeuristicFlow/EAGlobal>
#include <HeuristicFlow/Genetic>
#include <HeuristicFlow/PSO>
#include <HeuristicFlow/AOS>
#include <HeuristicFlow/SimpleMatrix>
using namespace heu;
'''
NA = '-fno-access-control'
PLANTS = []
def P(ID, EDITS, NEEDS, BREAKS, DEMO, FLAGS=''):
    PLANTS.append(dict(ID=ID, PROPERTY=ID[:3], EDITS=EDITS, NEEDS=NEEDS, BREAKS=BREAKS, DEMO=H + DEMO, FLAGS=FLAGS))

P('F01-rosenbrock-negative', [('EAGlobal/SOFunctions.hpp', '''               square(1 - x->operator[](idx));''', '''               square(1 - std::abs(x->operator[](idx)));''')],
  'a standard container with a negative coordinate', 'the linear term of Rosenbrock uses the magnitude of the coordinate',
'''int main() {
  std::vector<double> p{1, 1, 1}, q{-1, 1, 1}; double a, b;
  internal::SOFunctionsX<std::vector<double>>::rosenbrock(&p, &a);
  internal::SOFunctionsX<std::vector<double>>::rosenbrock(&q, &b);
  if (std::fabs(a) > 1e-12) return 1;
  if (std::fabs(b - 4) > 1e-9) { printf("%g\\n", b); return 1; }
}''')

P('H01-compile-time-min', [('Global/HeuMaths.hpp', '''(val < _impl_minmax<T, vals...>::min) ?''', '''(val < _impl_minmax<T, vals...>::max) ?''')],
  'three or more values whose first one lies between the least and the greatest of the others', 'the compile-time minimum is not the least value',
'''int main() {
  if (min_v<int, 1, 2, 3> != 1 || min_v<int, 4, 2> != 2 || min_v<int, 9, 2, 3> != 2) return 1;
  if (min_v<int, 2, 1, 3> != 1) { printf("%d\\n", min_v<int, 2, 1, 3>); return 1; }
}''')

P('C04-capacity-after-move', [('SimpleMatrix/MatrixDynamicSize.hpp', '''    this->colNum = src.colNum;
    src.colNum = 0;
    this->_capacity = src._capacity;
    src._capacity = 0;''', '''    this->colNum = src.colNum;
    src.colNum = 0;
    this->_capacity = std::max(this->_capacity, src._capacity);
    src._capacity = 0;''')],
  'move assignment of a smaller matrix to a larger one, followed by growing within the stale capacity',
  'the matrix claims storage it does not have; later operations write foreign memory',
'''int main() {
  MatrixDynamicSize<double> a(8, 8), b(2, 2);
  a = std::move(b);
  if (a.rows() != 2 || a.cols() != 2) return 1;
  if (a.capacity() != 4) { printf("%d\\n", a.capacity()); return 1; }
}''')

P('M02-front-exact-fit', [('Genetic/NSGA2.hpp', '''    if (PFSize <= this->_option.populationSize)
      this->updatePF(''', '''    if (PFSize < this->_option.populationSize)
      this->updatePF(''')],
  'as many non-dominated members as the configured population size', 'the reported front is the one of an earlier selection (with erased members)',
'''typedef std::array<double, 1> V;
typedef Eigen::Array<double, 2, 1> F;
void ini(V* v) { (*v)[0] = randD(); }
void fit(const V* v, F* f) { (*f)[0] = (*v)[0]; (*f)[1] = 1 - (*v)[0]; }
void cro(const V* a, const V* b, V* c, V* d) { *c = *a; *d = *b; (*c)[0] = 0.3 * (*a)[0] + 0.7 * (*b)[0]; (*d)[0] = 0.7 * (*a)[0] + 0.3 * (*b)[0]; }
void mut(const V* a, V* b) { (*b)[0] = randD(); }
int main() {
  NSGA2<V, 2> s;
  GAOption o; o.populationSize = 30; o.maxGenerations = 5; o.maxFailTimes = 0; o.crossoverProb = 0.5; o.mutateProb = 0.1; s.setOption(o);
  s.setiFun(ini); s.setfFun(fit); s.setcFun(cro); s.setmFun(mut);
  s.initializePop();
  s.__impl_computeAllFitness();
  s.__impl_select();          // 30 members, all non-dominated
  if (s.pfGenes().size() != 30) { printf("%zu\\n", s.pfGenes().size()); return 1; }
}''', NA)

P('N01-second-last', [('Genetic/NSGA2.hpp', '''for (size_t idx = 1; idx < popSizeBefore - 1; idx++) {''', '''for (size_t idx = 1; idx + 2 < popSizeBefore; idx++) {''')],
  'the only partly kept rank contains the individual next to the greatest value of an objective', 'that individual lacks the gap in this objective and looks crowded',
'''typedef std::array<double, 1> V;
typedef Eigen::Array<double, 2, 1> F;
void ini(V* v) { (*v)[0] = randD(); }
void fit(const V* v, F* f) { }
int main() {
  NSGA2<V, 2> s;
  GAOption o; o.populationSize = 5; s.setOption(o);
  s.setiFun(ini); s.setfFun(fit); s.initializePop();
  s._option.populationSize = 4;
  double x[5] = {0, 3, 5, 7, 10};
  int k = 0;
  for (auto& g : s._population) { g.fitness = {x[k], 10 - x[k]}; g.is_fitness_computed = true; k++; }
  s.__impl_select();
  // gaps: 3 -> 5, 5 -> 4, 7 -> 5: the middle one has to go
  bool one = false; size_t n = 0;
  for (auto& g : s._population) { n++; if (g.fitness[0] == 5) one = true; }
  if (n != 4 || one) return 1;
}''', NA)

P('N02-count-once', [('Genetic/NSGA3Abstract.hpp', '''        curRefPoint->second++;''', '''        if (rhoJ == 0) curRefPoint->second++;''')],
  'a direction that is served a second time while others have fewer members than it then has', 'a direction served more often than another that still has candidates',
'''typedef std::array<double, 1> V;
typedef Eigen::Array<double, 2, 1> F;
void ini(V* v) { (*v)[0] = randD(); }
int main() {
  NSGA3<V, 2> s;
  typedef std::remove_reference<decltype(s._population.front())>::type G;
  s._option.populationSize = 9;                 // 3 selected, 6 more to be taken
  for (int t = 0; t < 200; t++) {
    std::list<G> all;
    std::unordered_set<G*> sel;
    std::unordered_multimap<size_t, G*> fl;
    std::unordered_map<size_t, size_t> rp{{0, 0}, {1, 0}};
    auto add = [&](size_t d, bool taken) { all.emplace_back(); G* g = &all.back(); g->closestRefPoint = d; g->distance = 1; if (taken) sel.insert(g); else fl.emplace(d, g); };
    for (int i = 0; i < 1; i++) add(0, true), add(1, true);
    add(1, true);
    for (int i = 0; i < 9; i++) add(0, false), add(1, false);
    s.nichePreservation(&sel, &fl, &rp);
    int n[2] = {0, 0};
    for (auto g : sel) n[g->closestRefPoint]++;
    if (sel.size() != 9 || std::abs(n[0] - n[1]) > 1) { printf("%d %d\\n", n[0], n[1]); return 1; }
  }
}''', NA)

P('N03-inner-count', [('Genetic/NSGA3Base.hpp', '''    return NchooseK(_innerPrecision + this->objectiveNum() - 1, _innerPrecision) +''', '''    return NchooseK(_innerPrecision + this->objectiveNum() - 1, size_t(this->objectiveNum())) +''')],
  'two layers with an inner precision different from the number of objectives', 'the announced number of directions is not the number generated',
'''typedef std::array<double, 1> V;
typedef Eigen::Array<double, 3, 1> F;
int main() {
  NSGA3<V, 3, DONT_RECORD_FITNESS, DOUBLE_LAYER> s;
  if (s.referencePointCount() != 10 + 15) return 1;
  s.setReferencePointPrecision(2, 4);
  if (s.referencePointCount() != 6 + 15) { printf("%zu\\n", s.referencePointCount()); return 1; }
}''')

P('A01-best-of-layer-order', [('AOS/AOS.hpp', '''      this->_layers[curLayerIdx].emplace_back(&*elecSortSpace[countedElectrons]);''',
  '''      const auto& e = elecSortSpace[countedElectrons];
      if (curLayerIdx > 0 && this->_layers[curLayerIdx].size() == 2 && e->isComputed)
        this->_layers[curLayerIdx].emplace(this->_layers[curLayerIdx].begin() + 1, &*e);
      else
        this->_layers[curLayerIdx].emplace_back(&*e);''')],
  'a later layer with at least three electrons', 'the electrons of later layers are not in the order of their energy',
'''typedef std::array<double, 2> V;
void f(const V* v, double* r) { *r = (*v)[0] + (*v)[1]; }
int main() {
  AOS_rect<V> s;
  AOSOption o; o.electronNum = 400; o.maxGeneration = 5; o.maxEarlyStop = 50; o.maxLayerNum = 4; s.setOption(o);
  s.setfFun(f); s.setRange(V{0, 0}, V{1, 1});
  s.setDelta(V{0.1, 0.1});
  for (int t = 0; t < 30; t++) {
    s.initializePop(); s.__impl_computeFitness(); s.__impl_selectAndMakeLayers();
    double last = -1;
    for (auto& l : s.layers()) for (auto e : l) { if (e->energy < last) return 1; last = e->energy; }
  }
}''', NA)

P('C03-capacity-floor', [('SimpleMatrix/MultiBitSet.hpp', '''    return (blockNum * sizeof(block_t) * 8) / (eleBits);''', '''    return blockNum * ((sizeof(block_t) * 8) / (eleBits));''')],
  'an element width that does not divide the block width', 'the size exceeds the reported capacity',
'''int main() {
  multiBitSet<4, uint8_t> a(7); multiBitSet<5, uint8_t> b(3);
  if (a.capacity() < a.size()) return 1;
  if (b.capacity() < b.size()) { printf("%zu %zu\\n", b.capacity(), b.size()); return 1; }
}''')
