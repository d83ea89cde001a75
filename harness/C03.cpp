// PARTS: 4
#include <cstdint>
#include <iostream>
#include <HeuristicFlow/SimpleMatrix>
#include "h.hpp"
using namespace hh;
using namespace heu;
// allocator that fills fresh storage with garbage and surrounds it with guards
static long live = 0;
template <class T>
struct Guard {
  typedef T value_type;
  T *allocate(size_t n) {
    ++live;
    T *p = (T *)malloc(n * sizeof(T) + (n == 0));
    memset(p, 0xA5, n * sizeof(T));
    return p;
  }
  void deallocate(T *p, size_t n) {
    if (!p) return;
    --live;
    memset(p, 0x5A, n * sizeof(T));
    free(p);
  }
};
template <int B, class K>
static void body() {
  typedef multiBitSet<B, K, Guard<K>> S;
  const uint64_t mask = B == 64 ? ~0ull : ((1ull << B) - 1);
  for (int rep = 0; rep < scale(10, 150); rep++) {
    live = 0;
    {
      size_t n0 = size_t(ri(0, ri(0, 1) ? 5 : 70));
      S s(n0);
      std::vector<uint64_t> v(n0, 0);
      std::string ops = fmt("B=%d block=%zu n=%zu", B, sizeof(K) * 8, n0);
      auto same = [&](const S &x) {
        if (x.size() != v.size()) return false;
        for (size_t i = 0; i < v.size(); i++)
          if (uint64_t(x[i]) != v[i]) return false;
        return true;
      };
      auto chk = [&](S &x) {
        REQS(x.size() == v.size(), "size", ops);
        REQS(x.capacity() >= x.size(), "capacity below size", ops);
        REQS(x.blocks() * sizeof(K) * 8 >= x.size() * B, "too few blocks", ops);
        const S &c = x;
        for (size_t i = 0; i < v.size(); i++) {
          REQS(uint64_t(x[i]) == v[i], "element through operator[]", ops + fmt(" [%zu]=%llx want %llx", i, (unsigned long long)uint64_t(x[i]), (unsigned long long)v[i]));
          REQS(uint64_t(c[i]) == v[i] && uint64_t(c.at(i)) == v[i] && uint64_t(x.at(i)) == v[i], "element through const access or at()", ops);
        }
        size_t i = 0;
        for (auto it = x.begin(); it != x.end(); ++it, ++i) REQS(i < v.size() && uint64_t(*it) == v[i], "iteration", ops);
        REQS(i == v.size(), "iteration length", ops);
        i = 0;
        for (auto it = c.begin(); it != c.end(); it++, ++i) REQS(i < v.size() && uint64_t(*it) == v[i], "const iteration", ops);
        if (v.size()) REQS(uint64_t(x.front()) == v.front() && uint64_t(c.back()) == v.back() && uint64_t(x.back()) == v.back() && uint64_t(c.front()) == v.front(), "front/back", ops);
      };
      chk(s);
      for (int k = 0; k < 60; k++) {
        uint64_t x = ri(0, 3) ? u64() : ri(0, 1) ? ~0ull : 0;
        switch (ri(0, 11)) {
          case 0:
          case 1:
            s.push_back(typename S::value_t(x)), v.push_back(x & mask), ops += " push";
            break;
          case 2:
            if (v.size()) s.pop_back(), v.pop_back(), ops += " pop";
            break;
          case 3:
          case 4:
            if (v.size()) {
              size_t i = size_t(ri(0, long(v.size()) - 1));
              ops += fmt(" set%zu", i);
              if (ri(0, 1)) s[i] = typename S::value_t(x);
              else s.at(i) = typename S::value_t(x);
              v[i] = x & mask;
            }
            break;
          case 5: {
            size_t c = size_t(ri(0, 120));
            s.reserve(c);
            ops += fmt(" reserve%zu", c);
            REQS(s.capacity() >= c, "reserve gives less capacity", ops);
            break;
          }
          case 6: s.shrink_to_fit(), ops += " shrink"; break;
          case 7: {
            size_t n = size_t(ri(0, 60)), o = v.size();
            s.resize(n), v.resize(n), ops += fmt(" resize%zu", n);
            REQS(s.size() == n, "size after resize", ops);
            for (size_t i = o; i < n; i++) s[i] = typename S::value_t(x + i), v[i] = (x + i) & mask;
            break;
          }
          case 8: {
            S c(s), d;
            ops += " copy";
            REQS(same(c), "copy constructor", ops);
            d = c;
            REQS(same(d), "copy assignment", ops);
            S e(size_t(ri(0, 90)));
            e = s;
            REQS(same(e), "copy assignment onto a filled container", ops);
            for (size_t i = 0; i < c.size(); i++) c[i] = typename S::value_t(~uint64_t(c[i])), e[i] = 0;
            c.clear();
            REQS(same(s) && same(d), "copies share storage", ops);
            s = d;
            break;
          }
          case 9: {
            S c(s);
            S d(std::move(c));
            ops += " move";
            REQS(same(d), "move constructor", ops);
            s = d;
            s = *&s;
            break;
          }
          case 10:
            if (v.size() > 1) {
              size_t i = size_t(ri(0, long(v.size()) - 1)), j = size_t(ri(0, long(v.size()) - 1));
              s[i] = s[j], v[i] = v[j], ops += fmt(" %zu<-%zu", i, j);
            }
            break;
          default:
            if (ri(0, 9) == 0) s.clear(), v.clear(), ops += " clear";
            else if (v.size()) s.emplace_back(typename S::value_t(x)), v.push_back(x & mask), ops += " emplace";
        }
        chk(s);
      }
      uint64_t h = B * 100 + sizeof(K);
      for (auto x : v) h = hmix(h, x);
      count(h, ops.substr(0, 120));
    }
    REQ(live == 0, "B=%d block=%zu: %ld blocks leaked or freed twice", B, sizeof(K) * 8, live);
  }
}
template <class K, int O, int... I>
static void all(std::integer_sequence<int, I...>) {
  (body<I + 1 + O, K>(), ...);
}
CASE("blocks of 8") { all<uint8_t, 0>(std::make_integer_sequence<int, 8>{}); }
CASE("blocks of 16") { all<uint16_t, 0>(std::make_integer_sequence<int, 16>{}); }
CASE("blocks of 32 a") { all<uint32_t, 0>(std::make_integer_sequence<int, 16>{}); }
CASE("blocks of 32 b") { all<uint32_t, 16>(std::make_integer_sequence<int, 16>{}); }
CASE("blocks of 64 a") { all<uint64_t, 0>(std::make_integer_sequence<int, 16>{}); }
CASE("blocks of 64 b") { all<uint64_t, 16>(std::make_integer_sequence<int, 16>{}); }
CASE("blocks of 64 c") { all<uint64_t, 32>(std::make_integer_sequence<int, 16>{}); }
CASE("blocks of 64 d") { all<uint64_t, 48>(std::make_integer_sequence<int, 16>{}); }
CASE("large sizes") {
  for (size_t n : {20000001ul, 16777217ul, 33554435ul}) {
    multiBitSet<7> big(n);
    REQ(big.size() == n && big.capacity() >= n && big.blocks() * 64 >= n * 7, "size %zu capacity %zu", n, big.capacity());
    big[n - 1] = 99;
    big[0] = 5;
    REQ(uint64_t(big[n - 1]) == 99 && uint64_t(big[0]) == 5 && uint64_t(big[n - 2]) == 0 && uint64_t(big[1]) == 0, "ends of %zu elements", n);
    count(n);
  }
}
