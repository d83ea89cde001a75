// Executable-contract harness: every CASE runs in a forked child (crashes and hangs are contained and
// reported), failures are reported with the input that failed.
#pragma once
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <limits>
#include <list>
#include <memory>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#ifdef HH_RESEED
#include <HeuristicFlow/EAGlobal>
#endif

namespace hh {
struct Case {
  const char *name;
  void (*fn)();
  int limit;
};
inline std::vector<Case> &cases() {
  static std::vector<Case> c;
  return c;
}
struct Reg {
  Reg() {}
  Reg(const char *n, void (*f)(), int limit = 60) { cases().push_back({n, f, limit}); }
};
inline uint64_t seed = 1;
inline bool thorough = false;
inline std::mt19937_64 rng;
inline long evals = 0;
inline std::set<uint64_t> distinct;
inline std::vector<std::string> samples;
inline int fails = 0;
inline const char *cur = "";
inline std::string ctx;

inline uint64_t u64() { return rng(); }
inline long ri(long lo, long hi) { return lo + long(rng() % uint64_t(hi - lo + 1)); }
inline double rd() { return double(rng() >> 11) * 0x1p-53; }
inline double rr(double lo, double hi) { return lo + (hi - lo) * rd(); }
inline int scale(int q, int t) { return thorough ? t : q; }
inline uint64_t hmix(uint64_t h, uint64_t x) {
  h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  return h * 0xff51afd7ed558ccdull;
}
inline uint64_t hd(uint64_t h, double d) {
  uint64_t u;
  memcpy(&u, &d, 8);
  return hmix(h, u);
}
// one evaluated case with a hash of its content
inline void count(uint64_t h, const std::string &sample = "") {
  ++evals;
  distinct.insert(h);
  if (samples.size() < 2 && !sample.empty()) samples.push_back(sample);
}
inline void fail(const char *file, int line, const char *what, const std::string &more) {
  if (fails++ < 5) {
    printf("FAIL %s :: %s :: %s\n", cur, what, (ctx + " " + more).substr(0, 1500).c_str());
    fflush(stdout);
  }
  if (fails >= 20) _exit(3);
}
inline std::string fmt(const char *f, ...) {
  char b[2048];
  va_list a;
  va_start(a, f);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  return b;
}
template <class V>
std::string show(const V &v) {
  std::ostringstream o;
  o.precision(17);
  o << '[';
  for (size_t i = 0; i < size_t(v.size()); i++) o << (i ? "," : "") << +v[i];
  o << ']';
  return o.str();
}
inline bool near(double a, double b, double rel = 1e-9, double abs = 1e-12) {
  if (a == b) return true;
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
}

inline int main_(int argc, char **argv) {
  seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1;
  thorough = argc > 2 && !strcmp(argv[2], "thorough");
  const char *only = argc > 3 ? argv[3] : nullptr;
  int jobs = argc > 4 ? atoi(argv[4]) : 4;
  struct Job {
    int fd;
    pid_t pid;
    size_t ci;
    std::string buf;
  };
  std::vector<Job> live;
  int bad = 0;
  size_t next = 0;
  auto start = [&](size_t ci) {
    int p[2];
    if (pipe(p)) exit(9);
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      close(p[0]);
      dup2(p[1], 1);
      dup2(p[1], 2);
      close(p[1]);
      cur = cases()[ci].name;
      uint64_t h = seed * 1000003ull;
      for (const char *c = cur; *c; ++c) h = hmix(h, *c);
      rng.seed(h);
#ifdef HH_RESEED
      heu::internal::global_mt19937().seed((uint32_t)rng());
#endif
      int lim = cases()[ci].limit * (thorough ? 6 : 1);
      alarm(lim);
      cases()[ci].fn();
      printf("STAT %s %ld %zu\n", cur, evals, distinct.size());
      for (auto &s : samples) printf("SAMPLE %s %s\n", cur, s.c_str());
      fflush(stdout);
      _exit(fails ? 1 : 0);
    }
    close(p[1]);
    live.push_back({p[0], pid, ci, ""});
  };
  while (next < cases().size() || !live.empty()) {
    while (next < cases().size() && (int)live.size() < jobs) {
      if (!only || strstr(cases()[next].name, only)) start(next);
      ++next;
    }
    if (live.empty()) break;
    fd_set s;
    FD_ZERO(&s);
    int mx = 0;
    for (auto &j : live) {
      FD_SET(j.fd, &s);
      mx = std::max(mx, j.fd);
    }
    if (select(mx + 1, &s, 0, 0, 0) < 0) continue;
    for (size_t i = 0; i < live.size();) {
      if (!FD_ISSET(live[i].fd, &s)) {
        ++i;
        continue;
      }
      char b[65536];
      ssize_t n = read(live[i].fd, b, sizeof b);
      if (n > 0) {
        if (live[i].buf.size() < 400000) live[i].buf.append(b, n);
        ++i;
        continue;
      }
      int st = 0;
      waitpid(live[i].pid, &st, 0);
      close(live[i].fd);
      const char *nm = cases()[live[i].ci].name;
      bool printed = live[i].buf.find("FAIL ") != std::string::npos;
      fputs(live[i].buf.c_str(), stdout);
      if (WIFSIGNALED(st)) {
        if (WTERMSIG(st) == SIGALRM)
          printf("FAIL %s :: does not terminate within the time limit ::\n", nm);
        else
          printf("FAIL %s :: killed by signal %d ::\n", nm, WTERMSIG(st));
        bad = 1;
      } else if (WEXITSTATUS(st)) {
        if (!printed) printf("FAIL %s :: exit status %d (sanitizer or assertion) ::\n", nm, WEXITSTATUS(st));
        bad = 1;
      }
      fflush(stdout);
      live.erase(live.begin() + i);
    }
  }
  return bad;
}
}  // namespace hh

// a solver that mostly lives on from one generated configuration to the next: histories of several initializations,
// runs and option changes on one object are part of what is explored
#define SOLVER(S, s)                             \
  static std::unique_ptr<S> s##_holder;          \
  if (!s##_holder || hh::ri(0, 2) == 0) s##_holder.reset(new S()); \
  S &s = *s##_holder
// the harness can be compiled in HH_PARTS executables, each with every HH_PARTS-th case
#ifndef HH_PARTS
#define HH_PARTS 1
#define HH_PART 0
#endif
namespace hh {
template <bool mine, class F>
Reg mk(const char *n, int lim, F f) {
  if constexpr (mine) return Reg(n, f(std::integral_constant<int, 0>{}), lim);
  else return Reg();
}
}  // namespace hh
#define CASE_(n, id, lim)                                                                                   \
  template <int>                                                                                            \
  static void case_##id();                                                                                  \
  static hh::Reg reg_##id =                                                                                 \
      hh::mk<((id) % HH_PARTS) == HH_PART>(n, lim, [](auto z) { return &case_##id<decltype(z)::value>; }); \
  template <int>                                                                                            \
  static void case_##id()
#define CASE__(n, id, lim) CASE_(n, id, lim)
#define CASE(n) CASE__(n, __COUNTER__, 60)
#define CASEL(n, lim) CASE__(n, __COUNTER__, lim)
#define REQ(c, ...)                                                          \
  do {                                                                       \
    if (!(c)) hh::fail(__FILE__, __LINE__, #c, hh::fmt("" __VA_ARGS__));      \
  } while (0)
#define REQS(c, what, more)                                                  \
  do {                                                                       \
    if (!(c)) hh::fail(__FILE__, __LINE__, what, more);                      \
  } while (0)
int main(int argc, char **argv) { return hh::main_(argc, argv); }
