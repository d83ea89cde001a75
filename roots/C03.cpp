// packed containers of every element width and block type
#include <cstdint>
#include <cstring>
#include <cassert>
#include <iostream>
#include <utility>
#include <HeuristicFlow/EAGlobal>
#include <HeuristicFlow/SimpleMatrix>
namespace vroot {
using namespace heu;
template <int W, class B>
struct Ops {
  typedef multiBitSet<W, B> S;
  typedef typename S::value_t V;
  static V set(S *s, size_t i, B v) { return s->setValue(i, v); }
  static V get(const S *s, size_t i) { return s->getValue(i); }
  static S ctor0() { return S(); }
  static S ctor(size_t n) { return S(n); }
  static S copy(const S &s) { return S(s); }
  static S move(S &s) { return S(std::move(s)); }
  static void dtor(S *s) { s->~S(); }
  static void asg(S *d, const S *s) { *d = *s; }
  static void masg(S *d, S *s) { *d = std::move(*s); }
  static void resize(S *s, size_t n) { s->resize(n); }
  static void reserve(S *s, size_t n) { s->reserve(n); }
  static void shrink(S *s) { s->shrink_to_fit(); }
  static void push(S *s, V v) { s->push_back(v); }
  static void emplace(S *s, V v) { s->emplace_back(v); }
  static void pop(S *s) { s->pop_back(); }
  static void clear(S *s) { s->clear(); }
  static size_t size(const S *s) { return s->size(); }
  static size_t capacity(const S *s) { return s->capacity(); }
  static size_t blocks(const S *s) { return s->blocks(); }
  static V cat(const S *s, size_t i) { return s->at(i); }
  static V cidx(const S *s, size_t i) { return (*s)[i]; }
  static V cfront(const S *s) { return s->front(); }
  static V cback(const S *s) { return s->back(); }
  static V at(S *s, size_t i) { return s->at(i); }
  static V idx(S *s, size_t i) { return (*s)[i]; }
  static V front(S *s) { return s->front(); }
  static V back(S *s) { return s->back(); }
  static void wat(S *s, size_t i, V v) { s->at(i) = v; }
  static void widx(S *s, size_t i, V v) { (*s)[i] = v; }
  static void wfront(S *s, V v) { s->front() = v; }
  static void wback(S *s, V v) { s->back() = v; }
  static void wref(S *s, size_t i, size_t j) { (*s)[i] = (*s)[j]; }
  static V it(S *s, size_t i) { return *(s->begin() + i); }
  static V cit(const S *s, size_t i) { return *(s->begin() + i); }
  static void wit(S *s, size_t i, V v) { *(s->begin() + i) = v; }
  static V rit(S *s, size_t i) { return *(s->end() - i); }
  static V itinc(S *s) {
    auto it = s->begin();
    ++it;
    it++;
    --it;
    return *it;
  }
  static bool itend(S *s, size_t i) { return s->begin() + i == s->end(); }
  static bool itne(const S *s, size_t i) { return s->begin() + i != s->end(); }
};
template <int W, class B>
void bits() {
  typedef Ops<W, B> O;
  typedef typename O::S S;
  S *p = nullptr;
  const S *q = p;
  O::set(p, 0, 0), O::get(q, 0), O::ctor0(), O::ctor(1), O::copy(*q), O::move(*p), O::dtor(p), O::asg(p, q), O::masg(p, p);
  O::resize(p, 0), O::reserve(p, 0), O::shrink(p), O::push(p, 0), O::emplace(p, 0), O::pop(p), O::clear(p);
  O::size(q), O::capacity(q), O::blocks(q), O::cat(q, 0), O::cidx(q, 0), O::cfront(q), O::cback(q), O::at(p, 0), O::idx(p, 0);
  O::front(p), O::back(p), O::wat(p, 0, 0), O::widx(p, 0, 0), O::wfront(p, 0), O::wback(p, 0), O::wref(p, 0, 0);
  O::it(p, 0), O::cit(q, 0), O::wit(p, 0, 0), O::rit(p, 0), O::itinc(p), O::itend(p, 0), O::itne(q, 0);
}
template <class B, int... I>
void widths(std::integer_sequence<int, I...>) {
  (bits<I + 1, B>(), ...);
}
void all() {
  widths<uint8_t>(std::make_integer_sequence<int, 8>());
  widths<uint16_t>(std::make_integer_sequence<int, 16>());
  widths<uint32_t>(std::make_integer_sequence<int, 32>());
  widths<uint64_t>(std::make_integer_sequence<int, 64>());
}
}  // namespace vroot
