// native driver of a proof harness: replay of a values file, or seeded search
#pragma once
#include "vc.h"
#ifndef VC_SYM
#include <chrono>
#include <exception>
#include <csignal>
#include <unordered_set>
#include <unistd.h>
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
inline const char *&vc_logfile() { static const char *p = nullptr; return p; }
inline const char *&vc_cur() { static const char *p = ""; return p; }
inline void vc_death() { printf("FAIL %s memory-error\n", vc_cur()); fflush(stdout); if (vc_logfile()) { FILE *f = fopen(vc_logfile(), "w"); if (f) { fputs(vcs().log.c_str(), f); fclose(f); } } }
inline void vc_alarm(int) { printf("FAIL %s non-termination\n", vc_cur()); fflush(stdout); if (vc_logfile()) { FILE *f = fopen(vc_logfile(), "w"); if (f) { fputs(vcs().log.c_str(), f); fclose(f); } } _exit(1); }
struct VcEntry { const char *name; void (*fn)(); };
// returns: 0 held, 1 violated, 2 discarded
inline int vc_run_one(const VcEntry &e) {
  auto &s = vcs(); s.fails = 0; s.first.clear(); s.log.clear(); s.pos.clear();
  int r = 0; vc_cur() = e.name; alarm(30);
  try { e.fn(); } catch (VcDiscard &) { r = 2; } catch (VcStop &) {} catch (std::exception &x) { s.fails++; s.first = std::string("no-uncaught-exception: ") + x.what(); }
  if (s.fails) r = 1;
  for (void *p : s.bufs) ::operator delete(p);
  s.bufs.clear();
  return r;
}
inline int vc_main(int argc, char **argv, const VcEntry *es, size_t n) {
  auto &s = vcs(); signal(SIGALRM, vc_alarm);
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(vc_death);
  if (argc >= 4 && !strcmp(argv[1], "replay")) {   // replay <proof> <file>
    s.file = true;
    FILE *f = fopen(argv[3], "r"); if (!f) return 3;
    static char buf[1 << 20]; 
    while (fgets(buf, sizeof buf, f)) { std::string l(buf); while (!l.empty() && (l.back() == '\n' || l.back() == '\r')) l.pop_back(); size_t p = l.find(' '); if (p == std::string::npos) continue; s.vals[l.substr(0, p)].push_back(l.substr(p + 1)); }
    fclose(f);
    for (size_t i = 0; i < n; ++i) if (!strcmp(es[i].name, argv[2])) { int r = vc_run_one(es[i]); printf("%s %s %s\n", r == 1 ? "FAIL" : r == 2 ? "DISCARD" : "OK", es[i].name, s.first.c_str()); fflush(stdout); return r == 1 ? 1 : 0; }
    return 3;
  }
  if (argc >= 5 && !strcmp(argv[1], "search")) {   // search <proof|*> <seed> <seconds> <logfile>
    uint64_t seed = strtoull(argv[3], nullptr, 10); double lim = atof(argv[4]);
    const char *lf = argc > 5 ? argv[5] : nullptr; uint64_t runs = 0, disc = 0; std::unordered_set<uint64_t> seen; std::string sample; vc_logfile() = lf;
    for (size_t i = 0; i < n; ++i) {
      if (strcmp(argv[2], "*") && strcmp(es[i].name, argv[2])) continue;
      auto t0 = std::chrono::steady_clock::now(); uint64_t k = 0;
      while (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < lim) {
        s.file = false; s.rng = seed * 1000003ULL + (k++) * 7919ULL;
        int r = vc_run_one(es[i]); runs++; disc += r == 2;
        if (r != 2 && !s.log.empty()) { if (seen.size() < 200000) seen.insert(std::hash<std::string>()(s.log)); if (sample.empty() || (k < 64 && s.log.size() < sample.size() && s.log.size() > 20)) sample = s.log; }
        if (r == 1) { printf("FAIL %s %s\n", es[i].name, s.first.c_str()); if (lf) { FILE *f = fopen(lf, "w"); if (f) { fputs(s.log.c_str(), f); fclose(f); } } fflush(stdout); return 1; }
      }
    }
    for (char &c : sample) if (c == '\n') c = ';';
    printf("SAMPLE %.280s\n", sample.c_str());
    printf("SEARCHED runs=%llu discarded=%llu distinct=%llu\n", (unsigned long long)runs, (unsigned long long)disc, (unsigned long long)seen.size()); return 0;
  }
  return 3;
}
#endif
