ID='V01-onepoint-eigen-last'
PROPERTY='V01'
EDITS=[('Genetic/Miscellaneous4GA.hpp','''        c1->operator[](i) = p1->operator[](i);
        c2->operator[](i) = p2->operator[](i);
      } else {
        c1->operator[](i) = p2->operator[](i);''','''        c1->operator[](i) = p1->operator[](i);
        c2->operator[](i) = p2->operator[](i);
      } else {
        c1->operator[](i) = (i == N - 1 && idx + 1 == N) ? p1->operator[](i) : p2->operator[](i);''')]
NEEDS='an Eigen decision variable and a cut drawn at the last element'
BREAKS='the two children are no longer complementary in the last component, a value of the second parent is lost'
DEMO=r'''
#include <cstdint>
#include <iostream>
#include <HeuristicFlow/EAGlobal>
#include <HeuristicFlow/Genetic>
int main() {
  typedef Eigen::ArrayXd V;
  for (int it = 0; it < 2000; it++) {
    V a(4), b(4), c(4), d(4);
    for (int i = 0; i < 4; i++) a[i] = i, b[i] = 10 + i;
    heu::GADefaults<V>::cFunSwapNs(&a, &b, &c, &d);
    for (int i = 0; i < 4; i++)
      if (!((c[i] == a[i] && d[i] == b[i]) || (c[i] == b[i] && d[i] == a[i]))) { std::cout << "not complementary\n"; return 1; }
  }
}
'''
