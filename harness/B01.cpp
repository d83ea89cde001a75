#include "boxes.hpp"

template <class Box, class S>
void range(Box &b, const Lim<S> &l) {
  typedef typename Box::Var_t V;
  const Box &cb = b;
  int n = l.n();
  REQ(cb.dimensions() == n, "dimensions() %d instead of %d", cb.dimensions(), n);
  for (int i = 0; i < n; i++) REQ(cb.min(i) == l.lo[i] && cb.max(i) == l.hi[i], "limits of component %d", i);
  for (int k = 0; k < 6; k++) {
    V v;
    if (!isFix<V> && k % 2) shape(v, int(ri(1, 7)), int(ri(1, 7)));
    cb.initialize(&v);
    ctx = "initialize: v=" + showv(v);
    REQ(int(v.size()) == n, "size after initialize");
    if constexpr (isMat<V>) REQ(int(v.rows()) == l.r && int(v.cols()) == l.c, "shape after initialize");
    uint64_t h = n;
    for (int i = 0; i < n && i < int(v.size()); i++) {
      S x = heu::at(v, i);
      h = hd(h, double(x));
      REQ(x >= l.lo[i] && x <= l.hi[i], "component %d=%.17g outside [%.17g,%.17g]", i, double(x), double(l.lo[i]), double(l.hi[i]));
    }
    // constraint on arbitrary values
    V w = v;
    for (int i = 0; i < n; i++) heu::at(w, i) = anyval<S>(l.lo[i], l.hi[i]);
    V w0 = w, w1 = w;
    cb.applyConstraint(&w);
    ctx = "applyConstraint: before=" + showv(w0) + " after=" + showv(w);
    REQ(int(w.size()) == n, "size after applyConstraint");
    for (int i = 0; i < n; i++) {
      S x = heu::at(w0, i), y = heu::at(w, i), e = x < l.lo[i] ? l.lo[i] : x > l.hi[i] ? l.hi[i] : x;
      REQ(y == e, "component %d=%.17g, nearest point is %.17g", i, double(y), double(e));
    }
    int j = int(ri(0, n - 1));
    cb.applyConstraint(&w1, j);
    ctx = "applyConstraint(idx): before=" + showv(w0) + " after=" + showv(w1);
    for (int i = 0; i < n; i++) {
      S x = heu::at(w0, i), y = heu::at(w1, i), e = x;
      if (i == j) e = x < l.lo[i] ? l.lo[i] : x > l.hi[i] ? l.hi[i] : x;
      REQ(y == e, "one-component form (%d): component %d=%.17g instead of %.17g", j, i, double(y), double(e));
    }
    // mutation stays inside
    for (int i = 0; i < n; i++) heu::at(w, i) = inval<S>(l.lo[i], l.hi[i]);
    w0 = w;
    for (int q = 0; q < 6; q++) {
      cb.applyDelta(&w);
      ctx = "applyDelta: start=" + showv(w0) + " after=" + showv(w);
      REQ(int(w.size()) == n, "size after applyDelta");
      for (int i = 0; i < n; i++) REQ(heu::at(w, i) >= l.lo[i] && heu::at(w, i) <= l.hi[i], "component %d outside", i);
    }
    count(h, ctx);
  }
}
#define D(V, S_) CASE("discrete " #V " " #S_) { discreteBoxes<DiscretBox<V, S_>>([](auto &b, const auto &l) { range(b, l); }); }
#define C(V, S_) CASE("continuous " #V " " #S_) { contBoxes<ContinousBox<V, S_>>([](auto &b, const auto &l) { range(b, l); }); }
FORALL_INT(D)
FORALL_BOOL(D)
FORALL_REAL(C)
#define CT(V, S, lo, hi, nm) \
  CASE("compile-time discrete " #V " " nm) { ctBoxes<FixedDiscreteBox<V, lo, hi>>(S(lo), S(hi), S(1), [](auto &b, const auto &l) { range(b, l); }); }
CT(AI4, int, -3, 5, "")
CT(VI, int, 0, 1, "01")
CT(EIX, int, -7, 100, "")
CT(EI32, int, -7, 100, "")
CT(EIXX, int, 2, 3, "")
CT(VU8, uint8_t, 0, 255, "full")
CT(VS8, int8_t, -128, 127, "full")
template <class V, class F>
void ct17(F f) {
  typedef Sc<V> S;
  ctBoxes<FixedContinousBox17<V, encode(S(-2.5)), encode(S(3.75)), encode(S(0.5))>>(S(-2.5), S(3.75), S(0.5), f);
  ctBoxes<FixedContinousBox17<V, encode(S(0.1)), encode(S(0.2)), encode(S(0.7))>>(S(0.1), S(0.2), S(0.7), f);
  ctBoxes<FixedDiscreteBox17<V, encode(S(-2.5)), encode(S(3.75))>>(S(-2.5), S(3.75), S(1), f);
}
#define C17(V) CASE("compile-time continuous " #V) { ct17<V>([](auto &b, const auto &l) { range(b, l); }); }
C17(AD3) C17(VD) C17(VF) C17(EDX) C17(EM23) C17(EMX)
CASE("gaussian box: size only") {
  for (int it = 0; it < 200; it++) {
    GaussianBox<VD> g;
    int n = int(ri(1, 9));
    g.setDimensions(n);
    g.setMu(rr(-5, 5));
    g.setSigma(rr(0.1, 3));
    g.setDelta(0.25);
    VD v;
    g.initialize(&v);
    REQ(int(v.size()) == n, "size");
    VD w = v;
    g.applyConstraint(&w);
    g.applyConstraint(&w, 0);
    REQ(w == v, "constraint of an unbounded box changes nothing");
    count(hd(n, v[0]));
  }
}
