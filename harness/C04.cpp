// PARTS: 4
#include <cstdint>
#include <iostream>
#include <HeuristicFlow/SimpleMatrix>
#include <map>
#include "h.hpp"
using namespace hh;
using namespace heu;
static long objs = 0, blocks_ = 0;
static std::map<void *, size_t> *sizes() {
  static std::map<void *, size_t> m;
  return &m;
}
// counts its live objects and notices uses of storage that holds none
struct Obj {
  int v;
  Obj *self;
  Obj(int x = 0) : v(x), self(this) { ++objs; }
  Obj(const Obj &o) : v(o.get()), self(this) { ++objs; }
  Obj(Obj &&o) : v(o.get()), self(this) { ++objs, o.v = -1; }
  ~Obj() {
    REQ(self == this, "destroying storage that holds no object");
    self = nullptr, --objs;
  }
  Obj &operator=(const Obj &o) {
    REQ(self == this, "assigning to storage that holds no object");
    v = o.get();
    return *this;
  }
  Obj &operator=(Obj &&o) {
    REQ(self == this, "assigning to storage that holds no object");
    v = o.get();
    return *this;
  }
  int get() const {
    REQ(self == this, "reading storage that holds no object");
    return v;
  }
};
template <class T>
struct Guard {
  typedef T value_type;
  Guard() {}
  T *allocate(size_t n) {
    ++blocks_;
    char *p = (char *)malloc(n * sizeof(T) + (n == 0));
    memset(p, 0xA5, n * sizeof(T));
    (*sizes())[p] = n;
    return (T *)p;
  }
  void deallocate(T *p, size_t n) {
    if (!p) return;
    --blocks_;
    auto it = sizes()->find(p);
    if (it == sizes()->end()) {
      REQ(false, "freeing a block that is not allocated");
      return;
    }
    REQ(it->second == n, "block of %zu elements freed as %zu", it->second, n);
    sizes()->erase(it);
    memset((void *)p, 0x5A, n * sizeof(T));
    free(p);
  }
};
template <class T>
struct Mk;
template <>
struct Mk<int> {
  static int mk(int i) { return i; }
  static int rd(const int &x) { return x; }
};
template <>
struct Mk<double> {
  static double mk(int i) { return i * 0.5; }
  static int rd(const double &x) { return int(x * 2); }
};
template <>
struct Mk<unsigned char> {
  static unsigned char mk(int i) { return (unsigned char)i; }
  static int rd(const unsigned char &x) { return x; }
};
struct Pod {
  long a;
  int b[6];
};
template <>
struct Mk<Pod> {
  static Pod mk(int i) { return Pod{i, {i + 1, i + 2, i + 3, 0, 0, i}}; }
  static int rd(const Pod &x) { return x.b[0] == x.a + 1 && x.b[5] == x.a ? int(x.a) : -99; }
};
template <>
struct Mk<Obj> {
  static Obj mk(int i) { return Obj(i); }
  static int rd(const Obj &x) { return x.get(); }
};
template <>
struct Mk<std::string> {
  static std::string mk(int i) { return std::string(size_t(i % 40), 'x') + std::to_string(i); }
  static int rd(const std::string &x) {
    size_t p = x.find_first_not_of('x');
    return p == std::string::npos ? -1 : atoi(x.c_str() + p);
  }
};
struct Model {
  int r = 0, c = 0;
  std::vector<int> v;
};
static std::string ops;
template <class M>
static void chk(M &m, const Model &s, const char *what) {
  typedef typename M::Scalar_t T;
  const M &k = m;
  REQS(int(m.rows()) == s.r && int(m.cols()) == s.c && int(m.size()) == s.r * s.c, what, ops + fmt(" shape %dx%d (%d), expected %dx%d", int(m.rows()), int(m.cols()), int(m.size()), s.r, s.c));
  if (int(m.size()) != s.r * s.c || int(m.rows()) != s.r) return;
  REQS(m.data() == k.data(), what, ops + " data()");
  for (int c = 0; c < s.c; c++)
    for (int r = 0; r < s.r; r++) {
      int i = s.r * c + r;
      REQS(&m(r, c) == m.data() + i && &m(i) == m.data() + i && &m[i] == m.data() + i, what, ops + fmt(" address of (%d,%d)", r, c));
      REQS(&k(r, c) == m.data() + i && &k(i) == m.data() + i && &k[i] == m.data() + i, what, ops + fmt(" const address of (%d,%d)", r, c));
      REQS(Mk<T>::rd(m(r, c)) == s.v[size_t(i)], what, ops + fmt(" element (%d,%d) is %d, expected %d", r, c, Mk<T>::rd(m(r, c)), s.v[size_t(i)]));
    }
  int n = 0;
  for (auto it = m.begin(); it != m.end(); ++it) n += it == m.data() + n;
  REQS(n == s.r * s.c, what, ops + " begin/end");
}
template <class M>
static void put(M &m, Model &s) {
  typedef typename M::Scalar_t T;
  for (auto &x : s.v) x = int(ri(1, 200));
  for (int c = 0; c < s.c; c++)
    for (int r = 0; r < s.r; r++) m(r, c) = Mk<T>::mk(s.v[size_t(s.r * c + r)]);
}
template <class T, int R, int C>
static void body() {
  typedef MatrixDynamicSize<T, Guard<T>> D;
  typedef MatrixFixedSize<T, R, C> X;
  typedef MatrixMap<T> P;
  for (int rep = 0; rep < scale(250, 4000); rep++) {
    long o0 = objs, b0 = blocks_;
    {
      ops = fmt("%dx%d", R, C);
      Model sd, se, sx, sp;
      D d, e(int(ri(0, 5)), int(ri(0, 5)));
      chk(d, sd, "default constructor");
      se.r = e.rows(), se.c = e.cols(), se.v.resize(size_t(e.size()));
      REQS(e.capacity() >= e.size(), "capacity", ops);
      put(e, se);
      X x;
      sx.r = R, sx.c = C, sx.v.resize(R * C);
      put(x, sx);
      std::vector<T> buf(R * C + 6, Mk<T>::mk(77));
      P p(buf.data() + 3, R, C);
      sp = sx;
      put(p, sp);
      for (int k = 0; k < 25; k++) {
        int op = int(ri(0, 14));
        ops += fmt(" %d", op);
        switch (op) {
          case 0: d = e, sd = se; break;
          case 1: e = std::move(d), se = sd, sd = Model(); d = D(); break;
          case 2: {
            D c(e);
            chk(c, se, "copy constructor");
            if (c.size()) c.fill(Mk<T>::mk(3));
            chk(e, se, "copy shares storage");
            c = c;
            D f(std::move(c));
            for (int i = 0; i < f.size(); i++) REQS(Mk<T>::rd(f(i)) == 3, "move constructor", ops);
            REQS(f.rows() == se.r && f.cols() == se.c, "move constructor shape", ops);
            break;
          }
          case 3: {
            int n = int(ri(0, 40)), was = e.capacity();
            e.reserve(n);
            ops += fmt("(%d)", n);
            REQS(e.capacity() >= n && e.capacity() >= was, "reserve", ops);
            break;
          }
          case 4: {
            int r = int(ri(0, 6)), c = int(ri(0, 6));
            bool in = r * c <= e.capacity();
            int capn = e.capacity();
            ops += fmt("(%dx%d)", r, c);
            std::vector<int> lin = se.v;
            e.resize(r, c);
            REQS(e.rows() == r && e.cols() == c && e.size() == r * c && e.capacity() >= r * c, "resize", ops);
            if (in) {
              REQS(e.capacity() == capn, "resize within capacity reallocates", ops);
              for (int i = 0; i < r * c && i < int(lin.size()); i++) REQS(Mk<T>::rd(e(i)) == lin[size_t(i)], "resize within capacity loses the contents", ops);
            }
            se.r = r, se.c = c, se.v.assign(size_t(r * c), 0);
            put(e, se);
            break;
          }
          case 5: {
            int i = int(ri(1, 200));
            e.fill(Mk<T>::mk(i));
            for (auto &z : se.v) z = i;
            break;
          }
          case 6: {
            int i = int(ri(1, 200));
            x.fill(Mk<T>::mk(i));
            for (auto &z : sx.v) z = i;
            break;
          }
          case 7: {
            int i = int(ri(1, 200));
            p.fill(Mk<T>::mk(i));
            for (auto &z : sp.v) z = i;
            break;
          }
          case 8: d = x, sd = sx; break;
          case 9: e = p, se = sp; break;
          case 10: {
            D t(R, C);
            Model st = sx;
            put(t, st);
            if (ri(0, 1)) x = t, sx = st;
            else p = t, sp = st;
            chk(t, st, "source of a mixed assignment");
            break;
          }
          case 11: x = p, sx = sp; break;
          case 12: p = x, sp = sx; break;
          case 13: {
            X y(x);
            chk(y, sx, "copy constructor");
            y.fill(Mk<T>::mk(9));
            chk(x, sx, "copy shares storage");
            y = x;
            chk(y, sx, "copy assignment");
            P q(p);
            REQS(q.data() == p.data() && q.rows() == p.rows() && q.cols() == p.cols(), "copy of a map", ops);
            break;
          }
          default: {
            std::vector<T> b2(R * C);
            P q(b2.data(), R, C);
            q = p;
            chk(q, sp, "assignment between maps");
            REQS(q.data() == b2.data(), "assignment between maps moves the target", ops);
            q.fill(Mk<T>::mk(1));
            put(d, sd);
            break;
          }
        }
        chk(d, sd, "first dynamic matrix");
        chk(e, se, "second dynamic matrix");
        chk(x, sx, "fixed matrix");
        chk(p, sp, "mapped matrix");
        REQS(d.data() == nullptr || d.data() != e.data(), "two matrices share storage", ops);
        REQS(p.data() == buf.data() + 3, "map moved", ops);
        for (int g = 0; g < 3; g++) REQS(Mk<T>::rd(buf[size_t(g)]) == 77 && Mk<T>::rd(buf[size_t(R * C + 3 + g)]) == 77, "written outside the mapped memory", ops);
      }
      uint64_t h = R * 10 + C;
      for (int z : se.v) h = hmix(h, uint64_t(z));
      count(h, ops.substr(0, 200));
    }
    REQS(objs == o0, "objects leaked or destroyed twice", ops + fmt(" %ld", objs - o0));
    REQS(blocks_ == b0, "memory leaked or freed twice", ops + fmt(" %ld", blocks_ - b0));
  }
}
#define S_(T) \
  CASE(#T) { \
    body<T, 3, 4>(); \
    body<T, 1, 1>(); \
    body<T, 5, 2>(); \
    body<T, 1, 7>(); \
  }
S_(int) S_(double) S_(std::string) S_(Obj) S_(Pod)
CASE("unsigned char") {
  body<unsigned char, 4, 4>();
  body<unsigned char, 3, 5>();
}
