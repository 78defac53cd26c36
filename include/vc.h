// Contract language of the proof harnesses.
// Symbolic build (-DVC_SYM): the __vc_* functions are intrinsics of the verifier (all inputs at once).
// Native build: the same harness runs on one concrete input, read from a values file (replay of a counterexample) or
// drawn from a seeded generator (search for a failing input). A failed vc_assume discards the run.
#pragma once
#include <cstddef>
#include <cstdint>
#include <type_traits>
#include <utility>
#define VC_PROOF(name) extern "C" void proof_##name()
#ifdef VC_SYM
extern "C" {
uint64_t __vc_int(const char *name, int bits);
float __vc_f32(const char *name);
double __vc_f64(const char *name);
void *__vc_buf(const char *name, uint64_t n, uint64_t elem, int kind);
void __vc_assume(bool c);
void __vc_check(bool c, const char *name);
void __vc_cover(const char *name);
[[noreturn]] void __vc_stop();
bool __vc_fork(bool c);
bool __vc_all(uint64_t lo, uint64_t hi, bool (*fn)(void *, uint64_t), void *ctx);
bool __vc_exists(uint64_t lo, uint64_t hi, bool (*fn)(void *, uint64_t), void *ctx);
bool __vc_all2(uint64_t lo, uint64_t hi, bool (*fn)(void *, uint64_t, uint64_t), void *ctx);
double __vc_sum(const char *name, uint64_t n, double (*fn)(void *, uint64_t), void *ctx);
void __vc_loop(const char *fn, bool (*f)(void *, uint64_t), void *ctx);
void __vc_pred(const char *fn, bool (*f)(void *, uint64_t), void *ctx);
void __vc_track(const char *fn, uint64_t (*f)(void *, uint64_t), void *ctx);
uint64_t __vc_outer();
uint64_t __vc_uf(const char *name, uint64_t a, uint64_t b);
float __vc_uff(const char *name, uint64_t a, uint64_t b);
}
#else
#include "vc_native.h"
#endif
namespace vc {
inline uint64_t u64(const char *n) { return __vc_int(n, 64); }
inline uint32_t u32(const char *n) { return (uint32_t)__vc_int(n, 32); }
inline uint16_t u16(const char *n) { return (uint16_t)__vc_int(n, 16); }
inline uint8_t u8(const char *n) { return (uint8_t)__vc_int(n, 8); }
inline int64_t i64(const char *n) { return (int64_t)__vc_int(n, 64); }
inline int32_t i32(const char *n) { return (int32_t)(uint32_t)__vc_int(n, 32); }
inline bool b(const char *n) { return __vc_int(n, 1) != 0; }
inline float f32(const char *n) { return __vc_f32(n); }
inline double f64(const char *n) { return __vc_f64(n); }
inline void assume(bool c) { __vc_assume(c); }
inline void check(bool c, const char *n) { __vc_check(c, n); }
inline void cover(const char *n) { __vc_cover(n); }
inline void stop() { __vc_stop(); }
// an integer in [lo, hi] (native runs draw from that range)
inline uint64_t in(const char *n, uint64_t lo, uint64_t hi) {
#ifdef VC_SYM
  uint64_t v = __vc_int(n, 64);
  __vc_assume(v >= lo);
  __vc_assume(v <= hi);
  return v;
#else
  return __vc_range(n, lo, hi);
#endif
}
// proved for every size up to 2^40; native runs stay small
inline uint64_t len(const char *n, uint64_t lo = 0, uint64_t small = 24) {
#ifdef VC_SYM
  uint64_t v = __vc_int(n, 64);
  __vc_assume(v >= lo);
  __vc_assume(v <= (1ULL << 40));
  (void)small;
  return v;
#else
  return __vc_len(n, lo, lo + small);
#endif
}
template <class T> T *buf(const char *n, uint64_t count) { return (T *)__vc_buf(n, count, sizeof(T), std::is_floating_point_v<T> ? 1 : 0); }
template <class F> bool all(uint64_t lo, uint64_t hi, F f) {
  return __vc_all(lo, hi, [](void *c, uint64_t k) -> bool { return (*(F *)c)(k); }, &f);
}
template <class F> bool exists(uint64_t lo, uint64_t hi, F f) {
  return __vc_exists(lo, hi, [](void *c, uint64_t k) -> bool { return (*(F *)c)(k); }, &f);
}
// for all lo <= i < j < hi
template <class F> bool all2(uint64_t lo, uint64_t hi, F f) {
  return __vc_all2(lo, hi, [](void *c, uint64_t i, uint64_t j) -> bool { return (*(F *)c)(i, j); }, &f);
}
template <class F> double sum(const char *name, uint64_t n, F f) {
  return __vc_sum(name, n, [](void *c, uint64_t k) -> double { return (double)(*(F *)c)(k); }, &f);
}
// a loop invariant for the loops of the functions whose name contains `fn` ("fn#k": its k-th loop); f(iterations done)
template <class F> void loop(const char *fn, F &f) { __vc_loop(fn, [](void *c, uint64_t k) -> bool { return (*(F *)c)(k); }, &f); }
// inside a loop invariant: iterations done by the loop around it
inline uint64_t outer() { return __vc_outer(); }
// after k iterations of the loops of the functions whose name contains `fn` some integer of the loop equals f(k) (tried as an invariant)
template <class F> void track(const char *fn, F &f) { __vc_track(fn, [](void *c, uint64_t k) -> uint64_t { return (*(F *)c)(k); }, &f); }
// a predicate over positions; "it holds at every position below / from x" is tried as an invariant for every index x of
// the loops of the functions whose name contains `fn`
template <class F> void pred(const char *fn, F &f) { __vc_pred(fn, [](void *c, uint64_t k) -> bool { return (*(F *)c)(k); }, &f); }
inline uint64_t uf(const char *n, uint64_t a, uint64_t b = 0) { return __vc_uf(n, a, b); }
inline float uff(const char *n, uint64_t a, uint64_t b = 0) { return __vc_uff(n, a, b); }
inline bool fork(bool c) {
#ifdef VC_SYM
  return __vc_fork(c);
#else
  return c;
#endif
}
// make an existing std::vector view a proof buffer of n elements and the given capacity
template <class V> void vec(V &v, const char *name, uint64_t n, uint64_t cap = 0) {
  using T = typename V::value_type;
  if (cap < n) cap = n;
  T *p = (T *)__vc_buf(name, cap, sizeof(T), std::is_floating_point_v<T> ? 1 : 0);
#ifdef VC_SYM
  v._M_impl._M_start = p;
  v._M_impl._M_finish = p + n;
  v._M_impl._M_end_of_storage = p + cap;
#else
  v.reserve(cap);
  v.assign(p, p + n);
#endif
}
// make an existing (empty) std::string hold n arbitrary bytes
template <class S> void str(S &v, const char *name, uint64_t n) {
#ifdef VC_SYM
  char *p = (char *)__vc_buf(name, n + 16, 1, 0);
  v._M_dataplus._M_p = p;
  v._M_string_length = n;
  v._M_allocated_capacity = n + 15;
#else
  char *p = (char *)__vc_buf(name, n, 1, 0);
  v.assign(p, n);
#endif
}
// floats equal up to rounding (native) / as real numbers (proof)
inline bool near(double a, double b, double scale = 1.0) {
#ifdef VC_SYM
  (void)scale;
  return a == b;
#else
  double d = a - b, m = (a < 0 ? -a : a) + (b < 0 ? -b : b) + scale;
  if (d < 0) d = -d;
  return d <= 1e-4 * m;
#endif
}
}  // namespace vc
