#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
struct VcDiscard {};
struct VcStop {};
struct VcState {
  bool file = false; uint64_t rng = 1; int fails = 0; std::string first;
  std::map<std::string, std::vector<std::string>> vals; std::map<std::string, size_t> pos;
  std::vector<void *> bufs; std::string log;
  std::vector<std::pair<void *, size_t>> owned;
  uint64_t next() { rng += 0x9E3779B97F4A7C15ULL; uint64_t z = rng; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
  const std::string *take(const std::string &n) {
    auto it = vals.find(n); if (it == vals.end()) return nullptr;
    size_t &p = pos[n]; if (p >= it->second.size()) return nullptr; return &it->second[p++];
  }
  void rec(const char *n, const std::string &v) { log += std::string(n) + " " + v + "\n"; }
};
inline VcState &vcs() { static VcState s; return s; }
inline uint64_t vc_small_int(int bits) {
  auto &s = vcs(); uint64_t r = s.next();
  uint64_t m = bits >= 64 ? ~0ULL : ((1ULL << bits) - 1);
  switch (r % 8) { case 0: case 1: case 2: return (r >> 8) % 8 & m; case 3: return (r >> 8) % 100 & m; case 4: return m - (r >> 8) % 3; case 5: return ((1ULL << ((r >> 8) % (bits ? bits : 1))) + ((r >> 20) % 3) - 1) & m; case 6: return (m >> 1) + (r >> 8) % 2; default: return s.next() & m; }
}
inline float vc_small_f32() { auto &s = vcs(); uint64_t r = s.next(); switch (r % 4) { case 0: return (float)((int)((r >> 8) % 9) - 4); case 1: return (float)((int)((r >> 8) % 2001) - 1000) / 16.0f; case 2: return (float)((r >> 8) % 3); default: return (float)((double)(int64_t)((r >> 8) % 20001) / 10000.0 - 1.0); } }
inline uint64_t __vc_int(const char *n, int bits) {
  auto &s = vcs(); uint64_t v;
  const std::string *t = s.file ? s.take(n) : nullptr;
  v = t ? strtoull(t->c_str(), nullptr, 10) : (s.file ? 0 : vc_small_int(bits));
  s.rec(n, std::to_string(v)); return v;
}
inline uint64_t __vc_range(const char *n, uint64_t lo, uint64_t hi) {
  auto &s = vcs(); uint64_t v; const std::string *t = s.file ? s.take(n) : nullptr;
  if (t) v = strtoull(t->c_str(), nullptr, 10);
  else { uint64_t span = hi - lo; uint64_t r = s.next(); if (span == ~0ULL) v = r; else if (r % 4 == 0) v = lo + (r >> 8) % (span < 4 ? span + 1 : 4); else if (r % 16 == 1) v = hi - (r >> 8) % (span < 2 ? span + 1 : 2); else v = lo + (r >> 8) % (span + 1); }
  if (v < lo || v > hi) throw VcDiscard{};
  s.rec(n, std::to_string(v)); return v;
}
inline uint64_t __vc_len(const char *n, uint64_t lo, uint64_t hi) {
  auto &s = vcs(); uint64_t v; const std::string *t = s.file ? s.take(n) : nullptr;
  if (t) { v = strtoull(t->c_str(), nullptr, 10); if (v > 100000000ULL) throw VcDiscard{}; } else v = lo + s.next() % (hi - lo + 1);
  if (v < lo) throw VcDiscard{};
  s.rec(n, std::to_string(v)); return v;
}
inline float __vc_f32(const char *n) { auto &s = vcs(); const std::string *t = s.file ? s.take(n) : nullptr; float v = t ? strtof(t->c_str(), nullptr) : (s.file ? 0.f : vc_small_f32()); char b[64]; snprintf(b, 64, "%.9g", v); s.rec(n, b); return v; }
inline double __vc_f64(const char *n) { auto &s = vcs(); const std::string *t = s.file ? s.take(n) : nullptr; double v = t ? strtod(t->c_str(), nullptr) : (s.file ? 0.0 : (double)vc_small_f32()); char b[64]; snprintf(b, 64, "%.17g", v); s.rec(n, b); return v; }
// contents come element by element: "name[k]" hex bytes, or random
inline void *__vc_buf(const char *n, uint64_t cnt, uint64_t es, int kind) {
  auto &s = vcs(); size_t bytes = cnt * es;
  unsigned char *p = (unsigned char *)::operator new(bytes ? bytes : 1);
  memset(p, 0, bytes ? bytes : 1);
  s.bufs.push_back(p);
  const std::string *t = s.file ? s.take(n) : nullptr;
  if (t) { size_t nb = t->size() / 2; for (size_t i = 0; i < nb && i < bytes; ++i) { unsigned x; sscanf(t->c_str() + 2 * i, "%2x", &x); p[i] = (unsigned char)x; } }
  else if (!s.file) {
    uint64_t mode = s.next() % 4;
    if (kind == 1 && es == 4) for (uint64_t i = 0; i < cnt; ++i) { float f = vc_small_f32(); memcpy(p + 4 * i, &f, 4); }
    else if (kind == 1 && es == 8) for (uint64_t i = 0; i < cnt; ++i) { double f = vc_small_f32(); memcpy(p + 8 * i, &f, 8); }
    else if (es == 1) { for (uint64_t i = 0; i < cnt; ++i) p[i] = (unsigned char)(mode == 0 ? 0 : mode == 1 ? s.next() % 4 : mode == 2 ? 0xFF : s.next()); }
    else if (es == 8 || es == 4 || es == 2) for (uint64_t i = 0; i < cnt; ++i) { uint64_t v = mode == 0 ? 0 : mode == 1 ? s.next() & s.next() & s.next() : mode == 2 ? (vc_small_int((int)es * 8)) : s.next(); memcpy(p + es * i, &v, es); }
    else for (size_t i = 0; i + 4 <= bytes; i += 4) { uint32_t v = mode & 1 ? (uint32_t)(s.next() % 8) : 0; float f = vc_small_f32(); if (s.next() & 1) memcpy(p + i, &v, 4); else memcpy(p + i, &f, 4); }
  }
  std::string h; static const char *hx = "0123456789abcdef"; if (bytes <= 65536) for (size_t i = 0; i < bytes; ++i) { h += hx[p[i] >> 4]; h += hx[p[i] & 15]; }
  s.rec(n, h.empty() ? "-" : h);
  return p;
}
inline uint64_t __vc_outer() { return 0; }
inline void __vc_loop(const char *, bool (*)(void *, uint64_t), void *) {}
inline void __vc_pred(const char *, bool (*)(void *, uint64_t), void *) {}
inline void __vc_track(const char *, uint64_t (*)(void *, uint64_t), void *) {}
inline void __vc_assume(bool c) { if (!c) throw VcDiscard{}; }
inline void __vc_check(bool c, const char *n) { auto &s = vcs(); if (!c) { if (!s.fails++) s.first = n; throw VcStop{}; } }
inline void __vc_cover(const char *) {}
[[noreturn]] inline void __vc_stop() { throw VcStop{}; }
inline bool __vc_all(uint64_t lo, uint64_t hi, bool (*f)(void *, uint64_t), void *c) { for (uint64_t k = lo; k < hi; ++k) if (!f(c, k)) return false; return true; }
inline bool __vc_exists(uint64_t lo, uint64_t hi, bool (*f)(void *, uint64_t), void *c) { for (uint64_t k = lo; k < hi; ++k) if (f(c, k)) return true; return false; }
inline bool __vc_all2(uint64_t lo, uint64_t hi, bool (*f)(void *, uint64_t, uint64_t), void *c) { for (uint64_t i = lo; i < hi; ++i) for (uint64_t j = i + 1; j < hi; ++j) if (!f(c, i, j)) return false; return true; }
inline double __vc_sum(const char *, uint64_t n, double (*f)(void *, uint64_t), void *c) { double s = 0; for (uint64_t k = 0; k < n; ++k) s += f(c, k); return s; }
inline uint64_t __vc_uf(const char *n, uint64_t a, uint64_t b) { uint64_t h = vcs().file ? 7 : 1469598103934665603ULL ^ 11; for (const char *p = n; *p; ++p) h = (h ^ (unsigned char)*p) * 1099511628211ULL; h = (h ^ a) * 0x9E3779B97F4A7C15ULL; h ^= h >> 29; h = (h ^ b) * 0xBF58476D1CE4E5B9ULL; h ^= h >> 32; return h; }
inline float __vc_uff(const char *n, uint64_t a, uint64_t b) { return (float)(__vc_uf(n, a, b) % 64) / 4.0f; }
