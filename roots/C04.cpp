// fixed-size, dynamic and mapped matrices over a trivial and a non-trivial element type
#include <cstdint>
#include <cstring>
#include <iostream>
#include <HeuristicFlow/SimpleMatrix>
namespace vroot {
using namespace heu;
void need(bool ok);  // ghost: obligation
// an element that knows whether its storage holds an object
struct Nt {
  int v;
  bool alive;
  Nt() {
    need(!alive);
    v = 0;
    alive = true;
  }
  Nt(const Nt &o) {
    need(!alive);
    need(o.alive);
    v = o.v;
    alive = true;
  }
  Nt(Nt &&o) {
    need(!alive);
    need(o.alive);
    v = o.v;
    alive = true;
  }
  ~Nt() {
    need(alive);
    alive = false;
  }
  Nt &operator=(const Nt &o) {
    need(alive);
    need(o.alive);
    v = o.v;
    return *this;
  }
  Nt &operator=(Nt &&o) {
    need(alive);
    need(o.alive);
    v = o.v;
    return *this;
  }
};
inline void nt_use(Nt &a) {
  Nt b;
  Nt c(a);
  Nt d(std::move(a));
}
template <class E>
struct Ops {
  typedef MatrixDynamicSize<E> D;
  typedef MatrixFixedSize<E, 3, 4> F;
  typedef MatrixMap<E> M;
};
#define DYN_(p, E)                                                       \
  typedef Ops<E>::D p##D;                                                \
  typedef Ops<E>::F p##F;                                                \
  typedef Ops<E>::M p##M;                                                \
  void p##_types(p##D *a, p##F *b, p##M *c, E *e) {}                      \
  p##D p##D_ctor0() { return p##D(); }                                   \
  p##D p##D_ctor(int r, int c) { return p##D(r, c); }                    \
  p##D p##D_copy(const p##D &s) { return p##D(s); }                      \
  p##D p##D_move(p##D &s) { return p##D(std::move(s)); }                 \
  void p##D_dtor(p##D *d) { d->~p##D(); }                                \
  void p##D_asg(p##D *d, const p##D *s) { *d = *s; }                     \
  void p##D_masg(p##D *d, p##D *s) { *d = std::move(*s); }               \
  void p##D_asgF(p##D *d, const p##F *s) { *d = *s; }                    \
  void p##D_asgM(p##D *d, const p##M *s) { *d = *s; }                    \
  void p##D_reserve(p##D *d, int n) { d->reserve(n); }                   \
  void p##D_resize(p##D *d, int r, int c) { d->resize(r, c); }           \
  int p##D_rows(const p##D *d) { return d->rows(); }                     \
  int p##D_cols(const p##D *d) { return d->cols(); }                     \
  int p##D_size(const p##D *d) { return d->size(); }                     \
  int p##D_capacity(const p##D *d) { return d->capacity(); }             \
  p##F p##F_copy(const p##F &s) { return p##F(s); }                      \
  void p##F_asg(p##F *d, const p##F *s) { *d = *s; }                     \
  void p##F_asgD(p##F *d, const p##D *s) { *d = *s; }                    \
  void p##F_asgM(p##F *d, const p##M *s) { *d = *s; }                    \
  size_t p##F_rows(const p##F *d) { return d->rows(); }                  \
  size_t p##F_cols(const p##F *d) { return d->cols(); }                  \
  size_t p##F_size(const p##F *d) { return d->size(); }                  \
  p##M p##M_ctor(E *e, size_t r, size_t c) { return p##M(e, r, c); }     \
  p##M p##M_copy(const p##M &s) { return p##M(s); }                      \
  void p##M_asg(p##M *d, const p##M *s) { *d = *s; }                     \
  void p##M_asgD(p##M *d, const p##D *s) { *d = *s; }                    \
  void p##M_asgF(p##M *d, const p##F *s) { *d = *s; }                    \
  size_t p##M_rows(const p##M *d) { return d->rows(); }                  \
  size_t p##M_cols(const p##M *d) { return d->cols(); }                  \
  size_t p##M_size(const p##M *d) { return d->size(); }                  \
  ACC_(p##D, E, int)                                                     \
  ACC_(p##F, E, size_t)                                                  \
  ACC_(p##M, E, size_t)                                                  \
  E *p##D_end(p##D *d) { return d->end(); }                              \
  E *p##F_end(p##F *d) { return d->end(); }                              \
  E *p##M_end(p##M *d) { return d->end(); }                              \
  const E *p##D_cend(const p##D *d) { return d->end(); }                 \
  const E *p##F_cend(const p##F *d) { return d->end(); }                 \
  const E *p##M_cend(const p##M *d) { return d->cend(); }
#define ACC_(T, E, I)                                                    \
  E *T##_at(T *d, I r, I c) { return &(*d)(r, c); }                      \
  E *T##_lin(T *d, I n) { return &(*d)(n); }                             \
  E *T##_idx(T *d, I n) { return &(*d)[n]; }                             \
  const E *T##_cat(const T *d, I r, I c) { return &(*d)(r, c); }         \
  const E *T##_clin(const T *d, I n) { return &(*d)(n); }                \
  const E *T##_cidx(const T *d, I n) { return &(*d)[n]; }                \
  E *T##_data(T *d) { return d->data(); }                                \
  const E *T##_cdata(const T *d) { return d->data(); }                   \
  E *T##_begin(T *d) { return d->begin(); }                              \
  void T##_fill(T *d, const E *x) { d->fill(*x); }
DYN_(p, double)
DYN_(q, Nt)
}  // namespace vroot
