#include "B01.cpp"
namespace vroot {
#define G_(V)                                                                \
  typedef GaussianBox<V> gau_##V##_t;                                        \
  int gau_##V##_dim(const gau_##V##_t *b) { return b->dimensions(); }        \
  auto gau_##V##_de(const gau_##V##_t *b, int k) { return b->delta(k); }     \
  void gau_##V##_con(const gau_##V##_t *b, V *v) { b->applyConstraint(v); }  \
  void gau_##V##_mut(const gau_##V##_t *b, V *v) { b->applyDelta(v); }       \
  void gau_##V##_op(const V *s, V *v, const gau_##V##_t *b) { GADefaults<V, gau_##V##_t>::template mFun<>(s, v, b); }
G_(AD4) G_(VD) G_(EDX)
}
