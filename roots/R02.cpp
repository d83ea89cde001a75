#include <cstdint>
#include <iostream>
#include <HeuristicFlow/Global>
#include <HeuristicFlow/src/Global/LogisticChaos.hpp>
namespace vroot {
using namespace heu;
void mk(double s) { LogisticChaos c(s); c.value(); }
double start(double s) { LogisticChaos c(s); return c.value(); }
double dstart() { LogisticChaos c; return c.value(); }
double step(LogisticChaos *c) { return (*c)(); }
double val(const LogisticChaos *c) { return c->value(); }
void seq(LogisticChaos *c, double *d, size_t n) { c->makeSequence(d, n); }
void skip(LogisticChaos *c, size_t n) { c->iterate(n); }
}
