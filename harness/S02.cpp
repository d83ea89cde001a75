// PARTS: 8
#include "soga.hpp"
#define M(sm, d) \
  CASE(#sm " less") { s02<A4, SelectMethod::sm, LB>(); } \
  CASE(#sm " greater") { s02<VD, SelectMethod::sm, GB>(); }
FORALL_SM(M)
CASE("run-time method") {
  s02<E3, SelectMethod::RunTimeSelectMethod, LB>();
  s02<EX, SelectMethod::RunTimeSelectMethod, GB>();
}
