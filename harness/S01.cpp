// PARTS: 8
#include "soga.hpp"
#define M(sm, d) \
  CASE(#sm " less") { s01<A4, SelectMethod::sm, LB, d>(); } \
  CASE(#sm " greater") { s01<VD, SelectMethod::sm, GB, d>(); }
FORALL_SM(M)
CASE("run-time method") {
  s01<E3, SelectMethod::RunTimeSelectMethod, LB, false>();
  s01<EX, SelectMethod::RunTimeSelectMethod, GB, false>();
}
