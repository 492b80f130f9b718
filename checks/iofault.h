// Interposed file-system calls of one target file: recording of the write history and error injection.
// Included by exactly one translation unit of a harness executable; libstdc++ and HDF5 call through the PLT.
#pragma once
#include "fileio.h"
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <mutex>
#include <signal.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include "Field3D/Field3DFile.h"
#include <dlfcn.h>
namespace iof {
struct Op { bool trunc; uint64_t off; std::string data; };
static std::string target;                 // path of the file observed, "" = none
static std::vector<Op> *record = 0;        // history being recorded
static int calls = 0, failAt = -1, mode = 0, injected = 0;
static std::recursive_mutex mu;
enum { ONCE_NOSPC, FROM_NOSPC, ONCE_IO, TORN_FROM, SHORT_LEGAL, EINTR_LEGAL, MODES };
static const char *modeName[] = {"ENOSPC once", "ENOSPC from there on", "EIO once", "partial write, then ENOSPC", "legal short write", "EINTR once"};
static bool isTarget(int fd) { if (target.empty() || fd < 3) return false; char l[64], b[512]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd); ssize_t n = readlink(l, b, sizeof b - 1); return n > 0 && std::string(b, n) == target; }
// what to do with the next write of len bytes: 0 perform, else -errno; *part = number of bytes to write
static int decide(size_t len, size_t *part) {
  *part = len; int i = calls++; if (failAt < 0 || i < failAt) return 0; bool at = i == failAt;
  switch (mode) {
  case ONCE_NOSPC: if (at) { ++injected; return -ENOSPC; } return 0;
  case FROM_NOSPC: ++injected; return -ENOSPC;
  case ONCE_IO: if (at) { ++injected; return -EIO; } return 0;
  case TORN_FROM: ++injected; if (at && len > 1) { *part = len / 2; return 0; } return -ENOSPC;
  case SHORT_LEGAL: if (at && len > 1) { ++injected; *part = len / 2; } return 0;
  default: if (at) { ++injected; return -EINTR; } return 0;
  }
}
static ssize_t doWrite(int fd, const void *p, size_t n, off_t off, bool positioned) {
  std::lock_guard<std::recursive_mutex> l(mu); size_t part; int r = decide(n, &part); if (r) { errno = -r; return -1; }
  if (!positioned) off = lseek(fd, 0, SEEK_CUR);
  ssize_t w = positioned ? syscall(SYS_pwrite64, fd, p, part, off) : syscall(SYS_write, fd, p, part);
  if (w > 0 && record) record->push_back(Op{false, (uint64_t)off, std::string((const char *)p, w)});
  return w;
}
static int doTrunc(int fd, off_t n) { std::lock_guard<std::recursive_mutex> l(mu); size_t part; int r = decide(0, &part); if (r) { errno = -r; return -1; } int w = syscall(SYS_ftruncate, fd, n); if (!w && record) record->push_back(Op{true, (uint64_t)n, ""}); return w; }
static int decideOpen(const char *path, bool writing) { if (target.empty() || target != path || !writing) return 0; std::lock_guard<std::recursive_mutex> l(mu); size_t part; return decide(0, &part); }
}
extern "C" {
ssize_t write(int fd, const void *p, size_t n) { if (!iof::isTarget(fd)) return syscall(SYS_write, fd, p, n); return iof::doWrite(fd, p, n, 0, false); }
ssize_t pwrite(int fd, const void *p, size_t n, off_t o) { if (!iof::isTarget(fd)) return syscall(SYS_pwrite64, fd, p, n, o); return iof::doWrite(fd, p, n, o, true); }
ssize_t pwrite64(int fd, const void *p, size_t n, off64_t o) { return pwrite(fd, p, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) { if (!iof::isTarget(fd)) return syscall(SYS_writev, fd, v, c); std::string s; for (int i = 0; i < c; ++i) s.append((const char *)v[i].iov_base, v[i].iov_len); return iof::doWrite(fd, s.data(), s.size(), 0, false); }
int ftruncate(int fd, off_t n) noexcept { if (!iof::isTarget(fd)) return syscall(SYS_ftruncate, fd, n); return iof::doTrunc(fd, n); }
int ftruncate64(int fd, off64_t n) noexcept { return ftruncate(fd, n); }
int open(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); int r = iof::decideOpen(p, fl & (O_WRONLY | O_RDWR | O_CREAT)); if (r) { errno = -r; return -1; } return syscall(SYS_openat, AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return open(p, fl, m); }
FILE *fopen(const char *p, const char *m) { static FILE *(*real)(const char *, const char *) = (FILE * (*)(const char *, const char *)) dlsym(RTLD_NEXT, "fopen"); int r = iof::decideOpen(p, strchr(m, 'w') || strchr(m, '+') || strchr(m, 'a')); if (r) { errno = -r; return 0; } return real(p, m); }
FILE *fopen64(const char *p, const char *m) { return fopen(p, m); }
}
namespace iof {
struct Layer { std::string part, layer; int ty; FieldRes::Ptr f; bool ok; };
struct History { std::string name; bool ogawa; std::vector<Spec> layers; bool globalMeta = false; int threads = 1; };
inline FieldMetadata &wantGlobal() { static FieldMetadata m(0); m.setStrMetadata("show", "x"); m.setIntMetadata("frame", 17); m.setVecFloatMetadata("v", V3f(1, 2, 3)); return m; }
inline Spec sp(int st, int ty, int content, Box3i d, int map, const char *part, const char *attr, int salt, bool meta = false, int order = 1) { Spec s; s.st = st; s.ty = ty; s.content = content; s.e = s.d = d; s.map = map; s.name = part; s.attr = attr; s.salt = salt; s.meta = meta; s.order = order; return s; }
// write histories: every structure, one and several layers and partitions, with and without metadata, both formats
inline std::vector<History> histories(bool th) {
  std::vector<History> r; Box3i b1 = box(0, 0, 0, 1, 1, 0), b2 = box(-1, 2, 0, 1, 3, 2), b3 = box(0, 0, 0, 3, 3, 1);
  for (int og = 1; og >= 0; --og) {
    auto add = [&](const char *n, std::vector<Spec> l, bool gm = false, int thr = 1) { History h; h.name = VS() << fmtName(og) << " " << n; h.ogawa = og; h.layers = l; h.globalMeta = gm; h.threads = thr; r.push_back(h); };
    add("dense", {sp(ST_DENSE, TY_FLOAT, CO_VARY, b2, MK_MAT, "p", "l", 1)});
    add("sparse", {sp(ST_SPARSE, TY_V3H, CO_CHECKER, b3, MK_MAT_TV, "p", "l", 2, true)}, true);
    add("sparse threaded", {sp(ST_SPARSE, TY_FLOAT, CO_VARY, b3, MK_MAT, "p", "l", 3)}, false, 2);
    if (og) add("MIP dense", {sp(ST_MIPD, TY_FLOAT, CO_VARY, b2, MK_FRUST, "p", "l", 4)}); else add("MAC", {sp(ST_MAC, TY_V3F, CO_VARY, b1, MK_FRUST, "p", "l", 4)});
    add("MIP sparse", {sp(ST_MIPS, TY_V3F, CO_CHECKER, b3, MK_MAT, "p", "l", 5)});
    add("two layers one partition", {sp(ST_DENSE, TY_HALF, CO_VARY, b1, MK_MAT, "p", "a", 6, true), sp(ST_SPARSE, TY_V3D, CO_ONE, b3, MK_MAT, "p", "b", 7)}, true);
    add("two partitions", {sp(ST_SPARSE, TY_FLOAT, CO_ONE, b3, MK_MAT, "p", "a", 8), sp(ST_DENSE, TY_V3F, CO_SPECIAL, b1, MK_MAT2, "q", "a", 9, true)}, false);
    add("same name, other mapping", {sp(ST_DENSE, TY_FLOAT, CO_VARY, b1, MK_MAT, "p", "a", 10), sp(ST_DENSE, TY_FLOAT, CO_VARY, b1, MK_FRUST_TV, "p", "a", 11)}, true);
    add("no layers", {}, true);
    if (th) { add("double sparse 2 block sizes", {sp(ST_SPARSE, TY_DOUBLE, CO_CHECKER, b3, MK_NULL, "p", "a", 12, true, 0), sp(ST_SPARSE, TY_DOUBLE, CO_VARY, b3, MK_NULL, "p", "b", 13, false, 2)}, true, 3);
      add("many layers", {sp(ST_DENSE, TY_FLOAT, CO_VARY, b1, MK_MAT, "p", "a", 1), sp(ST_DENSE, TY_V3F, CO_VARY, b1, MK_MAT, "p", "b", 2), sp(ST_SPARSE, TY_HALF, CO_VARY, b2, MK_MAT, "p", "c", 3), sp(ST_DENSE, TY_DOUBLE, CO_ONE, b2, MK_MAT2, "q", "d", 4, true)}, true); }
  }
  return r;
}
struct Result { bool reported = false; std::vector<char> ok; };
// performs the history through the public interface; every reported failure is noted
inline Result perform(const History &h, const std::string &path, const std::vector<Layer> &fs) {
  Result r; Format fm(h.ogawa); Threads t(h.threads);
  try { Field3DOutputFile out; bool open = false;
    try { open = out.create(path); } catch (std::exception &) {}
    if (!open) { r.reported = true; r.ok.assign(fs.size(), 0); return r; }
    for (auto &l : fs) { bool ok = false; try { ok = writeAny(out, l.ty, l.part, l.layer, l.f); } catch (std::exception &) {} r.ok.push_back(ok); if (!ok) r.reported = true; }
    if (h.globalMeta) { FieldMetadata &m = wantGlobal(); for (auto &e : m.strMetadata()) out.metadata().setStrMetadata(e.first, e.second); for (auto &e : m.intMetadata()) out.metadata().setIntMetadata(e.first, e.second); for (auto &e : m.vecFloatMetadata()) out.metadata().setVecFloatMetadata(e.first, e.second);
      bool ok = false; try { ok = out.writeGlobalMetadata(); } catch (std::exception &) {} if (!ok) r.reported = true; }
    bool ok = false; try { ok = out.close(); } catch (std::exception &) {} if (!ok) r.reported = true;
  } catch (std::exception &) { r.reported = true; }
  return r;
}
inline std::vector<Layer> fieldsOf(const History &h) { std::vector<Layer> r; for (auto &s : h.layers) r.push_back(Layer{s.name, s.attr, s.ty, mkField(s), true}); return r; }
struct Seen { bool opened = false; int layers = 0; bool meta = false; std::string bad, detail; };
// opens the file and compares everything it presents with what was written. complete: everything must be there
inline Seen inspect(const std::string &path, const std::vector<Layer> &fs, bool globalMeta) {
  Seen s; auto bad = [&](const std::string &a, const std::string &b) { if (s.bad.empty()) { s.bad = a; s.detail = b; } };
  try { Field3DInputFile in; bool o = false; try { o = in.open(path); } catch (std::exception &) {} if (!o) return s; s.opened = true;
    std::vector<std::string> ps; in.getPartitionNames(ps); std::vector<char> got(fs.size(), 0);
    for (auto &p : ps) { bool known = false; for (auto &l : fs) known = known || l.part == p; if (!known) bad("a partition shows that was never written", p); }
    for (auto &p : std::set<std::string>(ps.begin(), ps.end())) {
      std::vector<std::string> sl, vl; in.getScalarLayerNames(sl, p); in.getVectorLayerNames(vl, p); std::set<std::string> names(sl.begin(), sl.end()); names.insert(vl.begin(), vl.end());
      for (auto &n : names) { bool known = false; std::set<int> tys; for (auto &l : fs) if (l.part == p && l.layer == n) { known = true; tys.insert(l.ty); } if (!known) { bad("a layer shows that was never written", p + ":" + n); continue; }
        for (int ty : tys) { FList r; try { r = readAny(in, ty, &p, n); } catch (std::exception &) { continue; }
          for (auto &f : r) { std::string why = "no such layer"; bool match = false;
            for (size_t i = 0; i < fs.size() && !match; ++i) { const Layer &l = fs[i]; if (l.part != p || l.layer != n || l.ty != ty || got[i]) continue; std::string d;
              try { d = diffAny(ty, l.f.get(), f.get()); } catch (std::exception &) { d = "-"; }       // lazily loaded contents that cannot be loaded report it by an exception
              if (d == "-") { match = true; continue; } if (d.empty()) { d = diffMapping(l.f->mapping().get(), f->mapping().get(), 1e-12); if (!d.empty()) d = "mapping: " + d; } if (d.empty()) { d = diffMetadata(l.f->metadata(), f->metadata()); if (!d.empty()) d = "metadata: " + d; }
              if (d.empty()) { got[i] = 1; match = true; } else why = d; }
            if (!match) bad("a layer comes back wrong: " + kindVox(why), p + ":" + n + " " + why); } }
      } }
    for (char g : got) s.layers += g; const FieldMetadata &w = wantGlobal(), &g = in.metadata(); std::string d = diffMetadata(w, g); s.meta = d.empty();
    if (!globalMeta) { if (!g.strMetadata().empty() || !g.intMetadata().empty() || !g.floatMetadata().empty() || !g.vecIntMetadata().empty() || !g.vecFloatMetadata().empty()) bad("global metadata shows that was never written", ""); }
    else { for (auto &e : g.strMetadata()) if (!w.strMetadata().count(e.first) || w.strMetadata().at(e.first) != e.second) bad("wrong global metadata", e.first); for (auto &e : g.intMetadata()) if (!w.intMetadata().count(e.first) || w.intMetadata().at(e.first) != e.second) bad("wrong global metadata", e.first); for (auto &e : g.vecFloatMetadata()) if (!w.vecFloatMetadata().count(e.first) || w.vecFloatMetadata().at(e.first) != e.second) bad("wrong global metadata", e.first); if (!g.floatMetadata().empty() || !g.vecIntMetadata().empty()) bad("wrong global metadata", "extra"); }
  } catch (std::exception &e) { bad("an exception escapes while the file is listed", e.what()); }
  return s;
}
}
