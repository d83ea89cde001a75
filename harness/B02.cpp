#include "boxes.hpp"

template <class Box, class S>
void step(Box &b, const Lim<S> &l, bool unbounded = false) {
  typedef typename Box::Var_t V;
  const Box &cb = b;
  int n = l.n();
  V w;
  shape(w, l.r, l.c);
  std::vector<int> hit(n, 0);
  for (int i = 0; i < n; i++) heu::at(w, i) = inval<S>(l.lo[i], l.hi[i]);
  for (int k = 0; k < 12; k++) {
    V w0 = w, src = w, dst;
    bool op = k % 3 == 2;
    if (op) {
      if (!isFix<V> && k % 2) shape(dst, int(ri(1, 7)), int(ri(1, 7)));
      GADefaults<V, Box>::template mFun<>(&src, &dst, &b);
      w = dst;
    } else
      cb.applyDelta(&w);
    ctx = std::string(op ? "mFun" : "applyDelta") + ": before=" + showv(w0) + " after=" + showv(w);
    REQ(int(w.size()) == n, "size");
    if constexpr (isMat<V>) REQ(int(w.rows()) == l.r && int(w.cols()) == l.c, "shape");
    int ch = 0;
    for (int i = 0; i < n && i < int(w.size()); i++) {
      REQ(same(heu::at(src, i), heu::at(w0, i)) || !op, "source changed");
      S x = heu::at(w0, i), y = heu::at(w, i);
      if (memcmp(&x, &y, sizeof x) == 0) continue;
      if (!(x == y)) hit[i]++;
      ch++;
      if constexpr (std::is_same_v<S, bool>) continue;
      else if constexpr (std::is_integral_v<S>) REQ((x > y ? x - y : y - x) <= 1, "component %d moved from %.17g to %.17g", i, double(x), double(y));
      else {
        double tol = 4 * std::numeric_limits<S>::epsilon() * std::max({std::fabs(double(x)), std::fabs(double(y)), double(l.de[i])});
        REQ(std::fabs(double(y) - double(x)) <= double(l.de[i]) + tol, "component %d moved by %.17g, rate %.17g", i, double(y) - double(x), double(l.de[i]));
      }
      if (!unbounded) REQ(y >= l.lo[i] && y <= l.hi[i], "component %d outside", i);
    }
    REQ(ch <= 1, "%d components changed", ch);
    if constexpr (std::is_same_v<S, bool>) REQ(ch == 1, "%d components flipped", ch);
    count(hmix(hd(n, double(heu::at(w, 0))), ch), ctx);
  }
}
#define D(V, S_) CASE("discrete " #V " " #S_) { discreteBoxes<DiscretBox<V, S_>>([](auto &b, const auto &l) { step(b, l); }); }
#define C(V, S_) CASE("continuous " #V " " #S_) { contBoxes<ContinousBox<V, S_>>([](auto &b, const auto &l) { step(b, l); }); }
FORALL_INT(D)
FORALL_BOOL(D)
FORALL_REAL(C)
#define CT(V, S, lo, hi, nm) \
  CASE("compile-time discrete " #V " " nm) { ctBoxes<FixedDiscreteBox<V, lo, hi>>(S(lo), S(hi), S(1), [](auto &b, const auto &l) { step(b, l); }); }
CT(AI4, int, -3, 5, "")
CT(VI, int, 0, 1, "01")
CT(EIX, int, -7, 100, "")
CT(EI32, int, -7, 100, "")
CT(VU8, uint8_t, 0, 255, "full")
CT(VS8, int8_t, -128, 127, "full")
template <class V, class F>
void ct17(F f) {
  typedef Sc<V> S;
  ctBoxes<FixedContinousBox17<V, encode(S(-2.5)), encode(S(3.75)), encode(S(0.5))>>(S(-2.5), S(3.75), S(0.5), f);
  ctBoxes<FixedContinousBox17<V, encode(S(0.1)), encode(S(0.2)), encode(S(0.01))>>(S(0.1), S(0.2), S(0.01), f);
}
#define C17(V) CASE("compile-time continuous " #V) { ct17<V>([](auto &b, const auto &l) { step(b, l); }); }
C17(AD3) C17(VD) C17(VF) C17(EDX) C17(EM23) C17(EMX)
CASE("gaussian box") {
  for (int it = 0; it < 300; it++) {
    GaussianBox<VD> g;
    int n = int(ri(1, 9));
    g.setDimensions(n);
    g.setMu(rr(-5, 5));
    g.setSigma(rr(0.1, 3));
    double de = rr(0.01, 2);
    g.setDelta(de);
    Lim<double> l{n, 1, std::vector<double>(n, -100.), std::vector<double>(n, 100.), std::vector<double>(n, de)};
    step(g, l, true);
  }
}
// the changed component varies and, away from the limits, really moves
CASE("mutation reaches every component and both directions") {
  ContinousBox<VD, SQ> b;
  b.setDimensions(4);
  b.setRange(-10, 10);
  b.setDelta(0.5);
  DiscretBox<VI, SQ> d;
  d.setDimensions(4);
  d.setRange(-10, 10);
  int up[2][4] = {}, dn[2][4] = {};
  for (int it = 0; it < 4000; it++) {
    VD v(4, 0.);
    VI w(4, 0);
    b.applyDelta(&v);
    d.applyDelta(&w);
    for (int i = 0; i < 4; i++) up[0][i] += v[i] > 0, dn[0][i] += v[i] < 0, up[1][i] += w[i] > 0, dn[1][i] += w[i] < 0;
  }
  for (int q = 0; q < 2; q++)
    for (int i = 0; i < 4; i++) REQ(up[q][i] > 200 && dn[q][i] > 200, "component %d up %d down %d", i, up[q][i], dn[q][i]);
  count(1);
}
