// bounded stand-in: WAL histories with crashes, torn tails and failed writes; snapshot publication with a crash at every system call
#include "vc.h"
// @natlibs -lspdlog -lfmt -ldl
// @flags -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL
#include <dlfcn.h>
#include <csignal>
#include <map>
#include <set>
#include <string>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <iostream>
#include "recovery/recovery_manager.hpp"
using namespace alaya::recovery;
// crash point: the process ends just before its n-th file-changing call
static long g_crash = -1;
static void step() { if (g_crash >= 0 && g_crash-- == 0) _exit(77); }
#define REAL(f) ((decltype(&f))dlsym(RTLD_NEXT, #f))
extern "C" int rename(const char *a, const char *b) noexcept { step(); static auto r = REAL(rename); return r(a, b); }
extern "C" int remove(const char *a) noexcept { step(); static auto r = REAL(remove); return r(a); }
extern "C" int unlink(const char *a) noexcept { step(); static auto r = REAL(unlink); return r(a); }
extern "C" int unlinkat(int d, const char *a, int f) noexcept { step(); static auto r = REAL(unlinkat); return r(d, a, f); }
extern "C" int mkdir(const char *a, mode_t m) noexcept { step(); static auto r = REAL(mkdir); return r(a, m); }
extern "C" int fsync(int fd) { step(); static auto r = REAL(fsync); (void)r; return 0; }
extern "C" ssize_t write(int fd, const void *p, size_t n) { if (g_crash == 0 && n > 1) { static auto r = REAL(write); r(fd, p, n / 2); } step(); static auto r = REAL(write); return r(fd, p, n); }
extern "C" ssize_t writev(int fd, const struct iovec *v, int n) { step(); static auto r = REAL(writev); return r(fd, v, n); }
struct Frame { bool prep; uint64_t op; int type; std::string pay; size_t end; };
struct Model {
  std::vector<Frame> fr; size_t size = 0;
  void add(bool prep, uint64_t op, int type, const std::string &pay) { size += 28 + pay.size(); fr.push_back({prep, op, type, pay, size}); }
  void cut(size_t c) { if (c >= size) return; while (!fr.empty() && fr.back().end > c) fr.pop_back(); size = fr.empty() ? 0 : fr.back().end; }
  std::vector<Frame> replay(uint64_t thr, uint64_t &mx) const {
    mx = thr; std::map<uint64_t, Frame> pend; std::vector<Frame> out;
    for (auto &f : fr) { mx = std::max(mx, f.op); if (f.prep) { pend.insert_or_assign(f.op, f); continue; }
      auto it = pend.find(f.op); if (it == pend.end()) continue; if (it->second.type == f.type && f.op > thr) out.push_back(it->second); pend.erase(it); }
    std::stable_sort(out.begin(), out.end(), [](auto &a, auto &b) { return a.op < b.op; }); return out;
  }
};
static void compare(const WriteAheadLog &w, const Model &m, uint64_t thr) {
  uint64_t mx = 0, got = 12345; auto want = m.replay(thr, mx); auto r = w.replayable_records(thr, &got);
  vc::check(r.size() == want.size(), "replay returns exactly the committed operations"); vc::check(got == mx, "the largest operation id of the complete frames is reported");
  for (size_t k = 0; k < r.size() && k < want.size(); ++k) { vc::check(r[k].op_id_ == want[k].op, "committed operations come in operation order"); }
  std::multiset<std::string> a, b; auto key = [](uint64_t o, int t, const std::string &p) { return std::to_string(o) + "/" + std::to_string(t) + "/" + p; };
  for (auto &x : r) a.insert(key(x.op_id_, (int)x.mutation_type_, std::string(x.payload_.begin(), x.payload_.end()))); for (auto &x : want) b.insert(key(x.op, x.type, x.pay));
  vc::check(a == b, "every committed operation comes back with its own payload and kind");
}
static std::string payload() { std::string s; for (uint64_t n = vc::in("len", 0, 40); n > 0; --n) s += (char)vc::in("byte", 0, 255); if (vc::in("big", 0, 9) == 0) s += std::string(vc::in("many", 1, 20000), 'z'); return s; }
VC_PROOF(wal_history) {
  spdlog::set_level(spdlog::level::off); std::filesystem::remove_all("w"); fs::path p = "w/d/wal.bin"; auto w = std::make_unique<WriteAheadLog>(p); Model m;
  auto rec = [](uint64_t op, int t, const std::string &s) { WalRecord r; r.op_id_ = op; r.mutation_type_ = (MutationType)t; r.payload_.assign(s.begin(), s.end()); return r; };
  uint64_t ops = vc::in("ops", 1, 40);
  for (uint64_t o = 0; o < ops; ++o) {
    uint64_t k = vc::in("op", 0, 15), id = vc::in("id", 0, 9) ? vc::in("small", 1, 8) : vc::in("large", UINT64_MAX - 2, UINT64_MAX); int t = (int)vc::in("type", 1, 4);
    if (k < 5) { auto s = payload(); w->append_prepare(rec(id, t, s)); m.add(true, id, t, s); }
    else if (k < 8) { w->append_commit(id, (MutationType)t); m.add(false, id, t, ""); }
    else if (k < 10) { auto s = payload(); w->append_prepare(rec(id, t, s)); m.add(true, id, t, s); w->append_commit(id, (MutationType)t); m.add(false, id, t, ""); }
    else if (k == 10) { w->truncate(); m = Model(); vc::check(!fs::exists(p), "truncation removes the log"); }
    else if (k == 11) { w.reset(); w = std::make_unique<WriteAheadLog>(p); }
    else if (k == 12) {   // crash: any prefix of the file survives, possibly followed by garbage
      w.reset(); size_t sz = fs::exists(p) ? fs::file_size(p) : 0; size_t c = vc::in("cut", 0, sz);
      if (sz) { fs::resize_file(p, c); m.cut(c); if (vc::in("junk", 0, 3) == 0) { std::ofstream f(p, std::ios::binary | std::ios::app); for (uint64_t j = vc::in("jn", 1, 40); j > 0; --j) f.put((char)vc::in("jb", 0, 255)); f.close(); if (m.size != c) {} } }
      w = std::make_unique<WriteAheadLog>(p); }
    else if (k == 13) {   // the disk is full: the append fails, and says so
      std::signal(SIGXFSZ, SIG_IGN); size_t have = fs::exists(p) ? fs::file_size(p) : 0; auto s = payload(); struct rlimit old, lim; getrlimit(RLIMIT_FSIZE, &old); lim = old;
      if (have > 0) { size_t room = vc::in("room", 0, 27 + s.size()); w.reset(); w = std::make_unique<WriteAheadLog>(p); bool threw = false, commit = vc::b("commit"); if (commit) s.clear(), room = room % 28;
        // trimming of a torn tail comes first, so limit relative to the complete frames
        lim.rlim_cur = m.size + room; std::error_code ec; setrlimit(RLIMIT_FSIZE, &lim); try { if (commit) w->append_commit(id, (MutationType)t); else w->append_prepare(rec(id, t, s)); } catch (const std::exception &) { threw = true; } setrlimit(RLIMIT_FSIZE, &old);
        vc::check(threw, "a frame that could not be written is reported"); } }
    else compare(*w, m, vc::in("thr", 0, 9));
  }
  compare(*w, m, 0); compare(*w, m, vc::in("thr2", 0, 9)); w.reset(); w = std::make_unique<WriteAheadLog>(p); compare(*w, m, 0);
}
// one damaged byte: everything committed before the damaged frame is still replayed, and nothing bad happens
VC_PROOF(wal_damage) {
  spdlog::set_level(spdlog::level::off); std::filesystem::remove_all("w"); fs::path p = "w/wal.bin"; WriteAheadLog w(p); Model m; uint64_t n = vc::in("n", 1, 8);
  for (uint64_t k = 1; k <= n; ++k) { std::string s = payload(); if (s.size() > 100) s.resize(100); WalRecord r; r.op_id_ = k; r.mutation_type_ = MutationType::kUpsert; r.payload_.assign(s.begin(), s.end()); w.append_prepare(r); m.add(true, k, 2, s); w.append_commit(k, MutationType::kUpsert); m.add(false, k, 2, ""); }
  size_t at = vc::in("at", 0, m.size - 1); { std::fstream f(p, std::ios::in | std::ios::out | std::ios::binary); f.seekg(at); int c = f.get(); f.seekp(at); f.put((char)(c ^ (1 << vc::in("bit", 0, 7)))); }
  auto r = w.replayable_records(0); size_t k = 0; uint64_t mx;
  Model before = m; while (!before.fr.empty() && before.fr.back().end > at) before.fr.pop_back();
  auto want = before.replay(0, mx); std::set<uint64_t> have; for (auto &x : r) have.insert(x.op_id_);
  for (auto &x : want) vc::check(have.count(x.op), "operations committed before the damage are replayed"); (void)k;
  size_t prev = 0; for (auto &f : m.fr) { size_t off = at - prev; if (at >= prev && at < f.end && (off < 6 || off >= f.end - prev - 4)) { vc::check(r.size() == want.size() , "replay stops at a frame whose magic, version, kind or trailer is damaged"); } prev = f.end; }
}
// ---- snapshots
static bool equal(const SnapshotManifest &a, const SnapshotManifest &b) { return a.format_version_ == b.format_version_ && a.snapshot_id_ == b.snapshot_id_ && a.reason_ == b.reason_ && a.applied_through_op_id_ == b.applied_through_op_id_ && a.created_unix_ms_ == b.created_unix_ms_ && a.graph_file_ == b.graph_file_ && a.data_file_ == b.data_file_ && a.quant_file_ == b.quant_file_ && a.rocksdb_dir_ == b.rocksdb_dir_; }
static std::string line() { static const char *v[] = {"", "a", "graph.snapshot", "x=y", "=", " lead", "trail ", "sub/dir", "snapshot_id=7"}; return v[vc::in("line", 0, 8)]; }
static SnapshotManifest manifest() { SnapshotManifest m; m.snapshot_id_ = "snapshot-" + std::to_string(vc::in("sid", 1, 5)); m.reason_ = line(); m.applied_through_op_id_ = vc::b("big") ? vc::u64("a") : vc::in("a", 0, 9); m.created_unix_ms_ = vc::u64("c"); m.format_version_ = vc::u32("v"); m.graph_file_ = line(); m.data_file_ = line(); m.quant_file_ = line(); m.rocksdb_dir_ = line(); return m; }
VC_PROOF(manifest_text) {
  SnapshotManifest m = manifest(); std::string t = m.serialize(); auto r = SnapshotManifest::deserialize(t); vc::check(r.has_value() && equal(*r, m), "a manifest reads back as written");
  std::string crlf; for (char c : t) { if (c == '\n') crlf += '\r'; crlf += c; } r = SnapshotManifest::deserialize(crlf + "future_key=1\nno delimiter\n"); vc::check(r.has_value() && equal(*r, m), "unknown lines and CRLF are ignored");
  static const char *bad[] = {"", "x", "-1", "1x", " 1", "18446744073709551616", "4294967296", "0x10", "1.5", "+1"}; std::string b = bad[vc::in("bad", 0, 9)]; int f = (int)vc::in("numeric", 0, 2); const char *keys[] = {"format_version", "applied_through_op_id", "created_unix_ms"}; bool ok32 = b == "4294967296" && f != 0;
  auto q = SnapshotManifest::deserialize(t + keys[f] + "=" + b + "\n"); vc::check(q.has_value() == ok32, "malformed numbers are rejected");
  m.snapshot_id_.clear(); vc::check(!SnapshotManifest::deserialize(m.serialize()).has_value(), "a manifest without an id is rejected");
}
struct Recovery {
  fs::path root = "r/rec", db = "r/db";
  static void file(const fs::path &p, const std::string &s) { fs::create_directories(p.parent_path()); std::ofstream(p, std::ios::binary) << s; }
  static std::string read(const fs::path &p) { std::ifstream f(p, std::ios::binary); return std::string(std::istreambuf_iterator<char>(f), {}); }
  // one snapshot: its files, then publication
  static void snap(const RecoveryManager &r, uint64_t thr, const std::string &tag) {
    auto d = r.create_snapshot_dir(); file(d / "graph.snapshot", "graph " + tag); file(d / "rocksdb" / "sub" / "x", "db " + tag); file(d / "rocksdb" / "y", "");
    SnapshotManifest m; m.snapshot_id_ = d.filename().string(); m.reason_ = tag; m.applied_through_op_id_ = thr; m.created_unix_ms_ = 1; m.graph_file_ = "graph.snapshot"; m.rocksdb_dir_ = "rocksdb"; r.publish_snapshot(m, d);
  }
  static void op(const RecoveryManager &r, uint64_t id, const std::string &pay) { WalRecord w; w.op_id_ = id; w.mutation_type_ = MutationType::kUpsert; w.payload_.assign(pay.begin(), pay.end()); r.append_prepare(w); r.append_commit(id, MutationType::kUpsert); }
};
VC_PROOF(recovery_crash) {
  spdlog::set_level(spdlog::level::off); std::filesystem::remove_all("r"); Recovery c; uint64_t n = 0, covered = 0; std::string tag; bool any = false; std::set<uint64_t> ok;
  { RecoveryManager r(c.root, c.db); r.ensure_layout(); vc::check(!r.current_snapshot().has_value() && r.next_operation_id() == 1, "a fresh layout has no snapshot and starts at operation 1"); }
  uint64_t rounds = vc::in("rounds", 1, 4);
  for (uint64_t q = 0; q < rounds; ++q) {
    uint64_t more = vc::in("more", 0, 3); bool snap = vc::b("snap"); std::string t2 = "s" + std::to_string(q); long at = (long)vc::in("crash", 0, 40); bool crash = vc::b("do"); uint64_t thr = vc::in("thr", 0, n + more);
    if (thr < covered) thr = covered;
    int fd[2]; if (pipe(fd)) throw VcDiscard{};
    pid_t pid = fork();
    if (pid == 0) {
      // the child is the process that crashes; it tells how many operations were acknowledged and whether the snapshot was
      static auto rw = REAL(write); int rc = 0;
      try { RecoveryManager r(c.root, c.db); if (crash) g_crash = at; for (uint64_t k = 0; k < more; ++k) { Recovery::op(r, n + 1 + k, "p" + std::to_string(n + 1 + k)); rw(fd[1], "o", 1); } if (snap) { rw(fd[1], "b", 1); Recovery::snap(r, thr, t2); rw(fd[1], "s", 1); } g_crash = -1; } catch (...) { rc = 5; }
      _exit(rc);
    }
    close(fd[1]); std::string said; char ch; while (read(fd[0], &ch, 1) == 1) said += ch; close(fd[0]); int st = 0; waitpid(pid, &st, 0);
    vc::check(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 77), "no failure other than the crash");
    uint64_t acked = n + std::count(said.begin(), said.end(), 'o'); for (uint64_t k = n + 1; k <= acked; ++k) ok.insert(k); bool began = said.find('b') != std::string::npos, done = said.find('s') != std::string::npos;
    RecoveryManager r(c.root, c.db); auto cur = r.current_snapshot(); auto dir = r.current_snapshot_dir();
    if (done) vc::check(cur.has_value() && cur->reason_ == t2 && cur->applied_through_op_id_ == thr, "a published snapshot is the current one");
    if (!began) vc::check(cur.has_value() == any && (!any || cur->reason_ == tag), "the current snapshot stays");
    if (began && !done) vc::check(cur.has_value() ? (cur->reason_ == t2 ? cur->applied_through_op_id_ == thr : any && cur->reason_ == tag && cur->applied_through_op_id_ == covered) : !any, "a crash leaves the old or the new snapshot current");
    if (cur.has_value()) { any = true; tag = cur->reason_; covered = cur->applied_through_op_id_;
      vc::check(dir.has_value() && Recovery::read(fs::path(cur->graph_path(*dir))) == "graph " + tag, "the current snapshot has all its files");
      Recovery::file(c.db / "stale", "x"); r.restore_active_rocksdb_from_snapshot(*cur, *dir);
      vc::check(Recovery::read(c.db / "sub" / "x") == "db " + tag && fs::exists(c.db / "y") && !fs::exists(c.db / "stale"), "the checkpoint is restored exactly"); }
    // every acknowledged operation is in the snapshot or replayable; operations it covers are not replayed
    uint64_t mx = 0; auto rec = r.replayable_records(covered, &mx); std::map<uint64_t, std::string> have; for (auto &x : rec) { vc::check(x.op_id_ > covered && !have.count(x.op_id_), "only operations beyond the snapshot are replayed, each once"); have[x.op_id_] = std::string(x.payload_.begin(), x.payload_.end()); }
    bool gone = done || (cur.has_value() && cur->reason_ == t2 && began);   // publication discards the log: the caller's snapshot covers what was acknowledged
    if (!gone) for (uint64_t k : ok) if (k > covered) vc::check(have.count(k) && have[k] == "p" + std::to_string(k), "no acknowledged operation is lost");
    if (done) { vc::check(rec.empty(), "publication empties the log"); size_t dirs = 0; for (auto &e : fs::directory_iterator(c.root / "snapshots")) { (void)e; ++dirs; } vc::check(dirs == 1, "old snapshots are removed"); }
    uint64_t next = r.next_operation_id(); vc::check(next > covered && (gone || next > acked), "new operations get ids above every earlier one");
    n = std::max(next - 1, gone ? thr : acked);
    auto d1 = r.create_snapshot_dir(), d2 = r.create_snapshot_dir(); vc::check(d1 != d2 && (!dir || (d1 != *dir && d2 != *dir)), "every snapshot gets its own directory"); fs::remove_all(d1); fs::remove_all(d2);
    if (gone) { covered = thr; ok.clear(); }
    // after a publication with uncovered operations the log is gone by contract: continue from there
    if (gone && n > thr) { Recovery::snap(r, n, t2); covered = n; tag = t2; any = true; }
  }
}
// the disk fills up during a publication: it is either complete or reported, and then nothing is lost
VC_PROOF(publish_full) {
  spdlog::set_level(spdlog::level::off); std::signal(SIGXFSZ, SIG_IGN); std::filesystem::remove_all("r"); Recovery c; RecoveryManager r(c.root, c.db); bool old = vc::b("old"); uint64_t n = vc::in("n", 1, 3);
  if (old) { Recovery::op(r, 1, "p"); Recovery::snap(r, 1, "old"); } uint64_t base = old ? 1 : 0; for (uint64_t k = 1; k <= n; ++k) Recovery::op(r, base + k, "q");
  auto d = r.create_snapshot_dir(); Recovery::file(d / "graph.snapshot", "graph new"); SnapshotManifest m; m.snapshot_id_ = d.filename().string(); m.reason_ = "new" + std::string(vc::in("long", 0, 300), 'x'); m.applied_through_op_id_ = base + n; m.graph_file_ = "graph.snapshot";
  struct rlimit was, lim; getrlimit(RLIMIT_FSIZE, &was); lim = was; lim.rlim_cur = vc::in("room", 0, 700); setrlimit(RLIMIT_FSIZE, &lim); bool threw = false; try { r.publish_snapshot(m, d); } catch (const std::exception &) { threw = true; } setrlimit(RLIMIT_FSIZE, &was);
  RecoveryManager s(c.root, c.db); auto cur = s.current_snapshot(); auto rec = s.replayable_records(cur ? cur->applied_through_op_id_ : 0);
  if (!threw) vc::check(cur.has_value() && equal(*cur, m) && rec.empty(), "a publication that returns is complete");
  else { vc::check(cur.has_value() == old && (!old || cur->reason_ == "old"), "a publication whose writes fail keeps the previous snapshot"); vc::check(rec.size() == n, "a publication whose writes fail loses no operation"); }
}
