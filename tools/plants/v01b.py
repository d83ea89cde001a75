ID='V01-stale-child-size'
PROPERTY='V01'
EDITS=[('Genetic/Miscellaneous4GA.hpp','''  c1->resize(p1->size());     \\
  c2->resize(p2->size());''','''  if (c1->size() < p1->size()) c1->resize(p1->size());     \\
  if (c2->size() < p2->size()) c2->resize(p2->size());''')]
NEEDS='a child object that was longer than the parents before the operator was called'
BREAKS='children of the run-time sized operators keep surplus components which come from no parent'
DEMO=r'''
#include <cstdint>
#include <iostream>
#include <HeuristicFlow/EAGlobal>
#include <HeuristicFlow/Genetic>
int main() {
  typedef std::vector<double> V;
  V a{1, 2, 3}, b{4, 5, 6}, c(5, 9.), d(1, 9.);
  heu::GADefaults<V>::cFunXd<>(&a, &b, &c, &d);
  if (c.size() != 3 || d.size() != 3) { std::cout << c.size() << "\n"; return 1; }
}
'''
