ID='V01-arithmetic-unrolled-tail'
PROPERTY='V01'
EDITS=[('Genetic/Miscellaneous4GA.hpp','''    const size_t N = p1->size();
    for (size_t i = 0; i < N; i++) {
      c1->operator[](i) = r * (p1->operator[](i)) + (1 - r) * (p2->operator[](i));
      c2->operator[](i) = r * (p2->operator[](i)) + (1 - r) * (p1->operator[](i));
    }''','''    const size_t N = p1->size();
    const size_t body = N - N % 4;
    for (size_t i = 0; i < body; i++) {
      c1->operator[](i) = r * (p1->operator[](i)) + (1 - r) * (p2->operator[](i));
      c2->operator[](i) = r * (p2->operator[](i)) + (1 - r) * (p1->operator[](i));
    }
    for (size_t i = body; i < N; i++) {
      const double a = p1->operator[](i), b = p2->operator[](i);
      c1->operator[](i) = b + r * (a - b);
      c2->operator[](i) = (i > 8) ? a + r * (a - b) : a + r * (b - a);
    }''')]
NEEDS='a std container of more than 9 elements whose size is not a multiple of four'
BREAKS='the second child of arithmetic crossover leaves the segment between its parents in the last components'
DEMO=r'''
#include <cstdint>
#include <cmath>
#include <iostream>
#include <HeuristicFlow/EAGlobal>
#include <HeuristicFlow/Genetic>
int main() {
  typedef std::vector<double> V;
  for (int n = 1; n < 30; n++) {
    V a(n), b(n), c(n), d(n);
    for (int i = 0; i < n; i++) a[i] = i, b[i] = 10 - 3 * i;
    heu::GADefaults<V>::cFunNd<>(&a, &b, &c, &d);
    for (int i = 0; i < n; i++)
      if (std::fabs(d[i] - (0.2 * b[i] + 0.8 * a[i])) > 1e-9 || std::fabs(c[i] - (0.2 * a[i] + 0.8 * b[i])) > 1e-9) return 1;
  }
}
'''
