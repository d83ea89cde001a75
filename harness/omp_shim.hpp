// A stand-in for the OpenMP runtime, built on std::thread so that ThreadSanitizer sees the fork and the join of every
// parallel region, and no other ordering: loop iterations are dealt to the threads beforehand (no shared counter),
// so two iterations that ran in different threads are unordered whatever the timing was. The harness chooses team
// size, order and dealing. Work-sharing calls with an invalid chunk are recorded instead of looping for ever.
#pragma once
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <thread>
#include <vector>
namespace shim {
inline int team = 3;              // threads of the next region
inline unsigned dealing = 1;      // seed of the dealing of chunks
inline bool unit = false;         // deal single iterations instead of chunks
inline std::atomic<long> badChunk{0}, loops{0}, iters{0};
struct Team {
  int n = 1;
  std::mutex m;
  std::condition_variable cv;
  int waiting = 0;
  long gen = 0;
  // the current loop (written by the constructing thread only before the fork, or identically by each thread)
};
struct Me {
  Team *t = nullptr;
  int id = 0;
  // current work-sharing loop
  long long s = 0, e = 0, inc = 1, chunk = 1;
  long long next = 0, total = 0;
  long nth = 0;
};
inline thread_local Me me;
inline unsigned mix(unsigned a) {
  a ^= a >> 16, a *= 0x7feb352du, a ^= a >> 15, a *= 0x846ca68bu, a ^= a >> 16;
  return a;
}
inline void region(void (*fn)(void *), void *data, unsigned nt, void (*prep)(void *), void *pd) {
  int n = nt ? int(nt) : team;
  if (me.t) n = 1;  // nested region: one thread
  Team t;
  t.n = n;
  auto body = [&](int i) {
    Me save = me;
    me = Me();
    me.t = &t, me.id = i;
    if (prep) prep(pd);
    fn(data);
    me = save;
  };
  std::vector<std::thread> th;
  for (int i = 1; i < n; i++) th.emplace_back(body, i);
  body(0);
  for (auto &x : th) x.join();
}
inline void setLoop(long long s, long long e, long long inc, long long chunk) {
  me.s = s, me.e = e, me.inc = inc, me.nth++;
  me.total = inc > 0 ? (e > s ? (e - s + inc - 1) / inc : 0) : (s > e ? (s - e - inc - 1) / -inc : 0);
  if (me.id == 0) loops++, iters += me.total;
  if (chunk < 1) {
    if (me.id == 0) badChunk++;
    chunk = 1;
  }
  me.chunk = unit ? 1 : chunk;
  me.next = 0;
}
template <class T>
inline bool nextChunk(T *s, T *e) {
  int n = me.t ? me.t->n : 1;
  while (me.next * me.chunk < me.total) {
    long long k = me.next++;
    int owner = n == 1 ? 0 : int(dealing == 0 ? k % n : mix(unsigned(k) * 2654435761u + dealing + unsigned(me.nth) * 977u) % unsigned(n));
    if (owner != me.id) continue;
    *s = T(me.s + k * me.chunk * me.inc);
    long long last = std::min(me.total, (k + 1) * me.chunk);
    *e = T(me.s + last * me.inc);
    return true;
  }
  return false;
}
inline void barrier() {
  Team *t = me.t;
  if (!t || t->n == 1) return;
  std::unique_lock<std::mutex> l(t->m);
  long g = t->gen;
  if (++t->waiting == t->n) t->waiting = 0, t->gen++, t->cv.notify_all();
  else t->cv.wait(l, [&] { return t->gen != g; });
}
inline std::recursive_mutex crit;
struct L4 {
  long s, e, i, c;
};
}  // namespace shim
extern "C" {
void GOMP_parallel(void (*f)(void *), void *d, unsigned n, unsigned) { shim::region(f, d, n, nullptr, nullptr); }
#define SH_PLOOP(N)                                                                                              \
  void GOMP_parallel_loop_##N(void (*f)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned) { \
    shim::L4 x{s, e, i, c};                                                                                      \
    shim::region(f, d, n, [](void *p) { auto *q = (shim::L4 *)p; shim::setLoop(q->s, q->e, q->i, q->c); }, &x);   \
  }
SH_PLOOP(dynamic) SH_PLOOP(nonmonotonic_dynamic) SH_PLOOP(guided) SH_PLOOP(nonmonotonic_guided)
void GOMP_parallel_loop_static(void (*f)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned) {
  shim::L4 x{s, e, i, c > 0 ? c : 1};
  shim::region(f, d, n, [](void *p) { auto *q = (shim::L4 *)p; shim::setLoop(q->s, q->e, q->i, q->c); }, &x);
}
#define SH_PRT(N)                                                                                       \
  void GOMP_parallel_loop_##N(void (*f)(void *), void *d, unsigned n, long s, long e, long i, unsigned) { \
    shim::L4 x{s, e, i, 1};                                                                             \
    shim::region(f, d, n, [](void *p) { auto *q = (shim::L4 *)p; shim::setLoop(q->s, q->e, q->i, q->c); }, &x); \
  }
SH_PRT(runtime) SH_PRT(nonmonotonic_runtime) SH_PRT(maybe_nonmonotonic_runtime)
#define SH_LOOP(N)                                                             \
  bool GOMP_loop_##N##_start(long s, long e, long i, long c, long *a, long *b) { \
    shim::setLoop(s, e, i, c);                                                 \
    return shim::nextChunk(a, b);                                              \
  }                                                                            \
  bool GOMP_loop_##N##_next(long *a, long *b) { return shim::nextChunk(a, b); }
SH_LOOP(dynamic) SH_LOOP(nonmonotonic_dynamic) SH_LOOP(guided) SH_LOOP(nonmonotonic_guided) SH_LOOP(static)
typedef unsigned long long ull;
#define SH_ULL(N)                                                                                \
  bool GOMP_loop_ull_##N##_start(bool up, ull s, ull e, ull i, ull c, ull *a, ull *b) {           \
    shim::setLoop((long long)s, (long long)e, (long long)i, (long long)c);                        \
    return shim::nextChunk(a, b);                                                                 \
  }                                                                                               \
  bool GOMP_loop_ull_##N##_next(ull *a, ull *b) { return shim::nextChunk(a, b); }
SH_ULL(dynamic) SH_ULL(nonmonotonic_dynamic) SH_ULL(guided) SH_ULL(nonmonotonic_guided) SH_ULL(static)
void GOMP_loop_end() { shim::barrier(); }
void GOMP_loop_end_nowait() {}
void GOMP_barrier() { shim::barrier(); }
void GOMP_critical_start() { shim::crit.lock(); }
void GOMP_critical_end() { shim::crit.unlock(); }
void GOMP_critical_name_start(void **) { shim::crit.lock(); }
void GOMP_critical_name_end(void **) { shim::crit.unlock(); }
void GOMP_atomic_start() { shim::crit.lock(); }
void GOMP_atomic_end() { shim::crit.unlock(); }
bool GOMP_single_start() { return shim::me.id == 0; }
int omp_get_thread_num() noexcept { return shim::me.id; }
int omp_get_num_threads() noexcept { return shim::me.t ? shim::me.t->n : 1; }
int omp_get_max_threads() noexcept { return shim::team; }
int omp_get_num_procs() noexcept { return shim::team; }
int omp_in_parallel() noexcept { return shim::me.t && shim::me.t->n > 1; }
void omp_set_num_threads(int) noexcept {}
int omp_get_level() noexcept { return shim::me.t != nullptr; }
double omp_get_wtime() noexcept { return 0; }
// constructs the stand-in does not implement: no verdict
#define SH_NO(N) void N() { fputs("NOTE: OpenMP construct " #N " is not modelled\n", stdout), fflush(stdout), _exit(0); }
SH_NO(GOMP_task) SH_NO(GOMP_taskloop) SH_NO(GOMP_taskwait) SH_NO(GOMP_sections_start) SH_NO(GOMP_parallel_sections)
SH_NO(GOMP_loop_start) SH_NO(GOMP_loop_ull_start) SH_NO(GOMP_parallel_reductions) SH_NO(GOMP_ordered_start) SH_NO(GOMP_loop_ordered_start)
SH_NO(GOMP_loop_ordered_static_start) SH_NO(GOMP_loop_ordered_dynamic_start) SH_NO(GOMP_loop_runtime_start) SH_NO(GOMP_target_ext)
SH_NO(GOMP_teams4) SH_NO(GOMP_single_copy_start) SH_NO(GOMP_loop_doacross_dynamic_start)
}
