#include <cstdint>
#include <iostream>
#include <HeuristicFlow/EAGlobal>
#include <HeuristicFlow/Genetic>
namespace vroot {
using namespace heu;
typedef std::array<double, 4> AD4;
typedef std::vector<double> VD;
typedef std::vector<float> VF;
typedef Eigen::Array<double, 5, 1> ED5;
typedef Eigen::Array<double, Eigen::Dynamic, 1> EDX;
typedef Eigen::Array<float, Eigen::Dynamic, 1> EFX;
typedef Eigen::Array<double, 2, 3> EM23;
typedef Eigen::Array<double, Eigen::Dynamic, Eigen::Dynamic> EMX;
typedef std::array<int, 4> AI4;
typedef std::vector<int> VI;
typedef std::vector<uint8_t> VU8;
typedef std::vector<int16_t> VS16;
typedef std::vector<uint32_t> VU32;
typedef Eigen::Array<int, Eigen::Dynamic, 1> EIX;
typedef Eigen::Array<int, 3, 1> EI3;
typedef Eigen::Array<int, 3, 2> EI32;
typedef Eigen::Array<int, Eigen::Dynamic, Eigen::Dynamic> EIXX;
typedef std::array<bool, 6> AB6;
typedef Eigen::Array<bool, Eigen::Dynamic, 1> EBX;
typedef Eigen::Array<bool, Eigen::Dynamic, Eigen::Dynamic> EBXX;
#define BOX_(n, V, ...)                                                     \
  typedef __VA_ARGS__ n##_t;                                                \
  int n##_dim(const n##_t *b) { return b->dimensions(); }                   \
  auto n##_lo(const n##_t *b, int k) { return b->min(k); }                  \
  auto n##_hi(const n##_t *b, int k) { return b->max(k); }                  \
  void n##_init(const n##_t *b, V *v) { b->initialize(v); }                 \
  void n##_con(const n##_t *b, V *v) { b->applyConstraint(v); }             \
  void n##_one(const n##_t *b, V *v, int i) { b->applyConstraint(v, i); }   \
  void n##_mut(const n##_t *b, V *v) { b->applyDelta(v); }                  \
  void n##_op(const V *s, V *v, const n##_t *b) { GADefaults<V, n##_t>::template mFun<>(s, v, b); } \
  void n##_ini(V *v, const n##_t *b) { GADefaults<V, n##_t>::template iFun<>(v, b); }
#define SQ BoxShape::SQUARE_BOX
#define RE BoxShape::RECTANGLE_BOX
#define D_(V) BOX_(dsq_##V, V, DiscretBox<V, SQ>) BOX_(dre_##V, V, DiscretBox<V, RE>) 
#define C_(V) BOX_(csq_##V, V, ContinousBox<V, SQ>) BOX_(cre_##V, V, ContinousBox<V, RE>)                 \
  auto csq_##V##_de(const csq_##V##_t *b, int k) { return b->delta(k); }                                    \
  auto cre_##V##_de(const cre_##V##_t *b, int k) { return b->delta(k); }
D_(AI4) D_(VI) D_(VU8) D_(VS16) D_(VU32) D_(EIX) D_(EI3) D_(EI32) D_(EIXX)
C_(AD4) C_(VD) C_(VF) C_(ED5) C_(EDX) C_(EFX) C_(EM23) C_(EMX)
BOX_(bsq_AB6, AB6, DiscretBox<AB6, SQ>)
BOX_(bsq_EBX, EBX, DiscretBox<EBX, SQ>)
BOX_(bsq_EBXX, EBXX, DiscretBox<EBXX, SQ>)
BOX_(fix_AI4, AI4, FixedDiscreteBox<AI4, -3, 5>)
BOX_(fix_VI, VI, FixedDiscreteBox<VI, 0, 1>)
BOX_(fix_VU8, VU8, FixedDiscreteBox<VU8, 0, 255>)
BOX_(fix_EIX, EIX, FixedDiscreteBox<EIX, -7, 100>)
#define F_(V, S)                                                                                            \
  BOX_(fcx_##V, V, FixedContinousBox17<V, encode(S(-2.5)), encode(S(3.75)), encode(S(0.5))>)                \
  auto fcx_##V##_de(const fcx_##V##_t *b, int k) { return b->delta(k); }
F_(AD4, double) F_(VD, double) F_(VF, float) F_(EDX, double) F_(EMX, double)
}
