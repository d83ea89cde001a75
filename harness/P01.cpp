#include "pso.hpp"

template <class V, BoxShape B, class P>
void inside(const P &p, const Cfg<V, B> &g, const char *when) {
  for (size_t k = 0; k < p.population().size(); k++) {
    auto &q = p.population()[k];
    ctx = std::string(when) + ": x=" + sv(q.position) + " v=" + sv(q.velocity);
    REQ(int(q.position.size()) == g.n && int(q.velocity.size()) == g.n, "sizes");
    for (int i = 0; i < g.n; i++) {
      double x = heu::at(q.position, i), v = heu::at(q.velocity, i);
      REQ(x >= g.lo[i] && x <= g.hi[i], "position %d outside [%.17g,%.17g]", i, g.lo[i], g.hi[i]);
      REQ(std::fabs(v) <= g.vm[i], "velocity %d above %.17g", i, g.vm[i]);
    }
  }
}

template <class V, BoxShape B, FitnessOption FO, class P>
void body(P &p) {
  for (int it = 0; it < scale(25, 600); it++) {
    auto g = setup<V, B>(p);
    PSOOption o;
    o.populationSize = ri(1, 9);
    o.maxGeneration = 6;
    o.inertiaFactor = ri(0, 2) ? rr(-1.5, 1.5) : ri(0, 1) ? 0 : 0.8;
    o.learnFactorP = ri(0, 3) ? rr(-3, 3) : 0;
    o.learnFactorG = ri(0, 3) ? rr(-3, 3) : 0;
    p.setOption(o);
    REQ(p.dimensions() == g.n, "dimensions()");
    for (int i = 0; i < g.n; i++) REQ(p.posMin(i) == g.lo[i] && p.posMax(i) == g.hi[i] && p.maxVelocity(i) == g.vm[i], "limits %d", i);
    if (it % 3 == 0) omp_set_num_threads(1);
    else omp_set_num_threads(int(ri(1, 4)));
    p.initializePop();
    REQ(p.population().size() == o.populationSize, "population size");
    inside<V, B>(p, g, "initialization");
    for (auto &q : p.population())
      for (int i = 0; i < g.n; i++) REQ(heu::at(q.velocity, i) == 0, "initial velocity");
    // one movement round from an arbitrary legal state
    for (int rd = 0; rd < 4; rd++) {
      double sc = ri(0, 1) ? 1 : 1e-3;
      for (auto &q : p._population)
        for (int i = 0; i < g.n; i++) {
          heu::at(q.position, i) = inr(g.lo[i], g.hi[i]);
          heu::at(q.velocity, i) = sc * inr(-g.vm[i], g.vm[i]);
          heu::at(q.pBest.position, i) = inr(g.lo[i], g.hi[i]);
        }
      for (int i = 0; i < g.n; i++) heu::at(p.gBest.position, i) = inr(g.lo[i], g.hi[i]);
      auto before = p._population;
      auto gb = p.gBest;
      p.__impl_updatePopulation();
      inside<V, B>(p, g, "movement");
      for (int i = 0; i < g.n; i++) REQ(heu::at(gb.position, i) == heu::at(p.gBest.position, i), "global best changed by movement");
      for (size_t k = 0; k < before.size(); k++) {
        auto &a = before[k], &b = p._population[k];
        ctx = "movement: x=" + sv(a.position) + " v=" + sv(a.velocity) + " pb=" + sv(a.pBest.position) + " gb=" + sv(gb.position) + " -> x=" +
              sv(b.position) + " v=" + sv(b.velocity) + fmt(" w=%.17g cP=%.17g cG=%.17g", o.inertiaFactor, o.learnFactorP, o.learnFactorG);
        // position = clamp(x + v)
        for (int i = 0; i < g.n; i++) {
          double e = heu::at(a.position, i) + heu::at(b.velocity, i);
          e = std::min(g.hi[i], std::max(g.lo[i], e));
          REQ(heu::at(b.position, i) == e, "new position %d is not the clamped sum", i);
          REQ(heu::at(a.pBest.position, i) == heu::at(b.pBest.position, i), "own best changed");
        }
        // find the draws from unclamped components, then every component must agree
        int n = g.n;
        auto B0 = [&](int i) { return o.inertiaFactor * heu::at(a.velocity, i); };
        auto U = [&](int i) { return o.learnFactorP * (heu::at(a.pBest.position, i) - heu::at(a.position, i)); };
        auto W = [&](int i) { return o.learnFactorG * (heu::at(gb.position, i) - heu::at(a.position, i)); };
        auto Vn = [&](int i) { return heu::at(b.velocity, i); };
        auto mag = [&](int i) { return std::fabs(B0(i)) + std::fabs(U(i)) + std::fabs(W(i)); };
        // every component: some pair of draws in [0,1] explains it
        for (int i = 0; i < n; i++) {
          double l = B0(i) + std::min(0., U(i)) + std::min(0., W(i)), h = B0(i) + std::max(0., U(i)) + std::max(0., W(i)), t = 1e-9 * mag(i);
          REQ(Vn(i) >= std::max(-g.vm[i], std::min(g.vm[i], l - t)) && Vn(i) <= std::min(g.vm[i], std::max(-g.vm[i], h + t)), "velocity %d cannot come from the formula", i);
        }
        int bi = -1, bj = -1;
        double best = 0;
        for (int i = 0; i < n; i++)
          for (int j = 0; j < i; j++) {
            if (!(std::fabs(Vn(i)) < g.vm[i] * (1 - 1e-9)) || !(std::fabs(Vn(j)) < g.vm[j] * (1 - 1e-9))) continue;
            double si = mag(i), sj = mag(j);
            if (!(si > 0) || !(sj > 0)) continue;
            double det = std::fabs(U(i) / si * (W(j) / sj) - U(j) / sj * (W(i) / si));
            if (det > best) best = det, bi = i, bj = j;
          }
        if (best > 1e-2) {
          double si = mag(bi), sj = mag(bj);
          double a1 = U(bi) / si, a2 = W(bi) / si, c1 = (Vn(bi) - B0(bi)) / si, b1 = U(bj) / sj, b2 = W(bj) / sj, c2 = (Vn(bj) - B0(bj)) / sj;
          double det = a1 * b2 - a2 * b1, rP = (c1 * b2 - a2 * c2) / det, rG = (a1 * c2 - b1 * c1) / det;
          REQ(rP > -1e-9 && rP < 1 + 1e-9 && rG > -1e-9 && rG < 1 + 1e-9, "draws rP=%.12g rG=%.12g", rP, rG);
          for (int i = 0; i < n; i++) {
            double e = B0(i) + rP * U(i) + rG * W(i), t = 1e-6 * mag(i) + 1e-300;
            e = std::min(g.vm[i], std::max(-g.vm[i], e));
            REQ(std::fabs(e - Vn(i)) <= t, "velocity %d is %.17g, formula %.17g (rP=%.9g rG=%.9g)", i, Vn(i), e, rP, rG);
          }
        }
        count(hd(hd(k, heu::at(a.position, 0)), Vn(0)), ctx);
      }
    }
    // and in a real run
    p.initializePop();
    p.run();
    inside<V, B>(p, g, "after a run");
    for (int i = 0; i < g.n; i++) {
      double x = heu::at(p.globalBest().position, i);
      REQ(x >= g.lo[i] && x <= g.hi[i], "global best outside");
    }
  }
}
template <class V, BoxShape B>
void both() {
  {
    PSO<V, B, FITNESS_LESS_BETTER, RECORD_FITNESS> p;
    p.setfFun(fit<V>);
    body<V, B, FITNESS_LESS_BETTER>(p);
  }
  {
    PSO<V, B, FITNESS_GREATER_BETTER, DONT_RECORD_FITNESS, Arg> p;
    p.setArgs(Arg{1.5});
    p.setfFun(fitA<V>);
    body<V, B, FITNESS_GREATER_BETTER>(p);
  }
}
#define M(V) \
  CASE("square " #V) { both<V, SQ>(); } \
  CASE("rectangle " #V) { both<V, RE>(); }
FORALL_V(M)
CASE("constraints on arbitrary vectors") {
  for (int it = 0; it < scale(2000, 50000); it++) {
    PSO<VD, RE, FITNESS_LESS_BETTER> p;
    auto g = setup<VD, RE>(p);
    VD x(g.n), v(g.n);
    for (int i = 0; i < g.n; i++) x[i] = ri(0, 3) ? rr(-100, 100) : 1e300, v[i] = ri(0, 3) ? rr(-5, 5) : -1e300;
    VD x0 = x, v0 = v;
    p.applyConstraint4Position(&x);
    p.applyConstraint4Velocity(&v);
    ctx = sv(x0) + " -> " + sv(x) + " " + sv(v0) + " -> " + sv(v);
    for (int i = 0; i < g.n; i++) {
      REQ(x[i] == std::min(g.hi[i], std::max(g.lo[i], x0[i])), "position %d", i);
      REQ(v[i] == std::min(g.vm[i], std::max(-g.vm[i], v0[i])), "velocity %d", i);
    }
    count(hd(hd(0, x0[0]), v0[0]), ctx);
  }
}
