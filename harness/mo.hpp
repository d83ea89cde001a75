#pragma once
#include "ga.hpp"
template <class S>
bool dom(const FOf<S> &a, const FOf<S> &b, bool greater) {
  bool st = false;
  for (int k = 0; k < nobj(&a); k++) {
    if (greater ? a[k] < b[k] : a[k] > b[k]) return false;
    st = st || (greater ? a[k] > b[k] : a[k] < b[k]);
  }
  return st;
}
// objective vectors in several styles; ties==false: no two individuals share a value of any objective
template <class S>
void fillMO(S &s, int n0, int M, bool ties) {
  s._population.clear();
  int style = int(ri(0, ties ? 8 : 4));
  std::vector<std::vector<double>> seen(M);
  for (int i = 0; i < n0; i++) {
    s._population.emplace_back();
    auto &g = s._population.back();
    mk(&g.decision_variable, 3);
    for (int k = 0; k < int(g.decision_variable.size()); k++) g.decision_variable[k] = i + 0.25 * k;
    g.fitness.resize(M, 1);
    g.is_fitness_computed = true;
    double t = rd(), u = rd();
    for (int k = 0; k < M; k++) {
      double x = 0;
      switch (style) {
        case 0: x = rr(-5, 5); break;                                                 // random
        case 1: x = k % 2 ? -10 * t + 1e-3 * rd() : 10 * t + 1e-3 * rd(); break;      // mostly incomparable
        case 2: x = i * 1.5 + 0.01 * rd(); break;                                     // mostly a chain
        case 3: x = (i % 3) * 4 + (k % 2 ? -1 : 1) * t + 0.1 * rd(); break;           // a few layers
        case 4: x = (rr(-1, 1) + u) * std::pow(1e3, k); break;                        // badly scaled
        case 5: x = double(ri(0, 3)); break;
        case 6: x = 1; break;
        case 7: x = k == 0 ? double(ri(0, 5)) : double(-ri(0, 5)); break;
        case 8: x = k == 0 ? 2.5 : rr(0, 1); break;
      }
      g.fitness[k] = x;
    }
  }
  s._generation = 1;
  s._failTimes = 0;
}
template <class S>
std::vector<int> ranks(const std::vector<Img<S>> &b, bool greater) {
  std::vector<int> r(b.size(), 0);
  for (size_t i = 0; i < b.size(); i++)
    for (size_t j = 0; j < b.size(); j++) r[i] += i != j && dom<S>(b[j].f, b[i].f, greater);
  return r;
}
template <class S>
std::string descrMO(const std::vector<Img<S>> &b, const std::vector<int> &r, const S &s) {
  std::string t = fmt("%zu->%zu (configured %zu):", b.size(), s.population().size(), s.option().populationSize);
  for (size_t i = 0; i < b.size() && t.size() < 1100; i++) {
    bool kept = false;
    for (auto &g : s.population()) kept = kept || &g == b[i].p;
    t += fmt(" %s#%d", kept ? "kept" : "gone", r[i]) + sf(b[i].f);
  }
  return t;
}
// which of the old individuals survived, all of them unaltered and nothing else present
template <class S>
std::vector<char> survivors(const std::vector<Img<S>> &b, const S &s) {
  std::vector<char> kept(b.size(), 0);
  size_t n = 0;
  for (auto &g : s.population()) {
    size_t j = 0;
    while (j < b.size() && b[j].p != &g) ++j;
    REQ(j < b.size(), "an individual that was not there before");
    if (j == b.size()) continue;
    REQ(!kept[j], "an individual twice");
    kept[j] = 1;
    ++n;
    REQ(sameV(b[j].v, g.decision_variable) && sameF(b[j].f, g.fitness) && g.is_fitness_computed, "survivor %zu altered", j);
  }
  return kept;
}
template <class S>
void legal(const std::vector<Img<S>> &b, const std::vector<int> &r, const std::vector<char> &kept, const S &s) {
  REQ(s.population().size() == std::min(b.size(), s.option().populationSize), "%zu individuals left", s.population().size());
  int mk = -1, md = 1 << 30;
  for (size_t i = 0; i < b.size(); i++)
    if (kept[i]) mk = std::max(mk, r[i]);
    else md = std::min(md, r[i]);
  REQ(mk <= md, "individual of rank %d discarded, one of rank %d kept", md, mk);
}
