// ghost files and streams for the proof harnesses (natively: real files in the scratch directory, string streams)
#pragma once
#include "vc.h"
#include <fstream>
#include <istream>
#include <ostream>
#include <sstream>
#ifdef VC_SYM
extern "C" {
void __vc_file(const char *path, const void *data, uint64_t n);
const void *__vc_content(const char *path, uint64_t *n);
void *__vc_istream(const void *data, uint64_t n);
void *__vc_ostream();
const void *__vc_written(void *os, uint64_t *n);
void __vc_io_faults();
}
#endif
namespace vc {
#ifdef VC_SYM
inline void file(const char *path, const void *data, uint64_t n) { __vc_file(path, data, n); }
inline const uint8_t *content(const char *path, uint64_t &n) { return (const uint8_t *)__vc_content(path, &n); }
inline std::istream &istream(const void *data, uint64_t n) { return *(std::istream *)__vc_istream(data, n); }
inline std::ostream &ostream() { return *(std::ostream *)__vc_ostream(); }
inline const uint8_t *written(std::ostream &os, uint64_t &n) { return (const uint8_t *)__vc_written((void *)&os, &n); }
inline void io_faults() { __vc_io_faults(); }
#else
inline void file(const char *path, const void *data, uint64_t n) { std::ofstream f(path, std::ios::binary); f.write((const char *)data, (std::streamsize)n); }
inline const uint8_t *content(const char *path, uint64_t &n) { static std::vector<uint8_t> b; std::ifstream f(path, std::ios::binary); b.assign(std::istreambuf_iterator<char>(f), {}); n = b.size(); return b.data(); }
inline std::istream &istream(const void *data, uint64_t n) { static std::istringstream s; s = std::istringstream(std::string((const char *)data, n)); return s; }
inline std::ostream &ostream() { static std::ostringstream s; s = std::ostringstream(); return s; }
inline const uint8_t *written(std::ostream &os, uint64_t &n) { static std::vector<uint8_t> b; auto t = static_cast<std::ostringstream &>(os).str(); b.assign(t.begin(), t.end()); n = b.size(); return b.data(); }
inline void io_faults() {}
#endif
}  // namespace vc
