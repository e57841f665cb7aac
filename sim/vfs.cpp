// In-memory disk. Interposes the libc entry points iostreams and stdio use; while a run is active
// and the disk is enabled every path lives here, otherwise calls pass through.
#include "vfs.h"
#include <cerrno>
#include <cstdio>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>
#include <algorithm>

namespace sim { namespace vfs {
const char* const faultName[NKINDS] = {"open-fail", "write-eio", "write-torn", "disk-full", "write-short", "write-eintr",
                                       "close-fail", "crash", "read-eio", "read-eintr", "read-short"};
struct File { std::string data; };
typedef std::shared_ptr<File> FileP;
struct Handle { FileP f; std::string path; bool rd = false, wr = false, app = false; size_t pos = 0; bool used = false; FILE* fp = nullptr; bool err = false; };
struct State {
  std::map<std::string, FileP> files;
  std::vector<Handle> h;
  std::vector<Fault> faults;
  std::vector<Op> hist;
  std::vector<std::string> nowrite, quiet;
  u64 nopen = 0, nwrite = 0, nread = 0, nclose = 0, fired = 0, chunk = 0;
  int stamp = 0;
};
static State* S = nullptr;
static bool g_on = false;
static void (*g_yield)() = nullptr;
static const int FDBASE = 1000000;
static State& st() { if (!S) S = new State; return *S; }

void reset() { Host hg; delete S; S = new State; }
void enable(bool on) { st(); g_on = on; }
static std::string norm(const std::string& p) { std::string q = p; while (q.compare(0, 2, "./") == 0) q = q.substr(2); return q; }
void put(const std::string& path, const std::string& data) { Host hg; auto f = std::make_shared<File>(); f->data = data; st().files[norm(path)] = f; }
bool exists(const std::string& p) { return st().files.count(norm(p)) > 0; }
std::string get(const std::string& p) { auto i = st().files.find(norm(p)); return i == st().files.end() ? std::string() : i->second->data; }
std::vector<std::string> list() { std::vector<std::string> r; for (auto& f : st().files) r.push_back(f.first); return r; }
void erase(const std::string& p) { st().files.erase(norm(p)); }
void addFault(const Fault& f) { Host hg; st().faults.push_back(f); }
void clearFaults() { st().faults.clear(); }
u64 firedFaults() { return st().fired; }
void readChunk(u64 n) { st().chunk = n; }
void noWrite(const std::string& p) { st().nowrite.push_back(norm(p)); }
u64 opens() { return st().nopen; } u64 writes() { return st().nwrite; } u64 reads() { return st().nread; } u64 closes() { return st().nclose; }
std::vector<Op>& history() { return st().hist; }
void setStamp(int s) { st().stamp = s; }
void yieldHook(void (*f)()) { g_yield = f; }
void ignoreInHash(const std::string& p) { st().quiet.push_back(norm(p)); }

static bool quiet(const std::string& p) { return std::find(st().quiet.begin(), st().quiet.end(), p) != st().quiet.end(); }
static bool isWriteFault(FaultKind k) { return k == WRITE_EIO || k == WRITE_TORN || k == DISK_FULL || k == WRITE_SHORT || k == WRITE_EINTR || k == CRASH_AT; }
static bool isReadFault(FaultKind k) { return k == READ_EIO || k == READ_EINTR || k == READ_SHORT; }
// cls: 'o' open, 'w' write, 'r' read, 'c' close. Returns the fault to apply to this operation, if any.
static Fault* match(char cls, const std::string& path) {
  Fault* hit = nullptr;
  for (auto& f : st().faults) {
    bool mine = cls == 'o' ? f.kind == OPEN_FAIL : cls == 'w' ? isWriteFault(f.kind) : cls == 'r' ? isReadFault(f.kind) : f.kind == CLOSE_FAIL;
    if (!mine) continue;
    if (!f.path.empty() && f.path != path) continue;
    f.seen++;
    if (f.active) { if (f.left > 0) { f.left--; if (!hit) hit = &f; } else f.active = false; continue; }
    if (!f.fired && f.seen == f.n) {
      f.fired = true;
      if (f.kind == DISK_FULL) { f.active = true; f.left = f.arg; }
      if (!hit) hit = &f;
    }
  }
  if (hit) { st().fired++; stat((std::string("fault.") + faultName[hit->kind]).c_str()); ev("fault %s %s", faultName[hit->kind], path.c_str()); }
  return hit;
}
static void record(char t, const std::string& p, u64 len, bool ok, const std::string& d = std::string()) {
  st().hist.push_back({t, p, len, ok, d, st().stamp});
  if (!quiet(p)) { ev("%c %s %llu %d", t, p.c_str(), (unsigned long long)len, (int)ok); if (ok && t == 'w') hashBytes(d.data(), d.size()); }
}

static int doOpen(const char* path, bool rd, bool wr, bool app, bool trunc, bool create, bool excl) {
  Host hg;
  if (g_yield && !quiet(norm(path))) g_yield();
  step();
  st().nopen++;
  std::string p = norm(path);
  Fault* f = match('o', p);
  bool denied = wr && std::find(st().nowrite.begin(), st().nowrite.end(), p) != st().nowrite.end();
  auto it = st().files.find(p);
  if (f || denied || (it == st().files.end() && !create) || p.empty() || p.back() == '/' || (it != st().files.end() && create && excl)) {
    record('o', p, wr, false);
    errno = f ? EMFILE : denied ? EACCES : it == st().files.end() ? ENOENT : EEXIST;
    return -1;
  }
  if (it == st().files.end()) it = st().files.insert({p, std::make_shared<File>()}).first;
  if (trunc) it->second->data.clear();
  size_t i = 0; while (i < st().h.size() && st().h[i].used) i++;
  if (i == st().h.size()) st().h.push_back(Handle());
  Handle& h = st().h[i]; h = Handle(); h.used = true; h.f = it->second; h.path = p; h.rd = rd; h.wr = wr; h.app = app;
  record('o', p, wr ? (trunc ? 2 : 1) : 0, true);
  return FDBASE + (int)i;
}
static Handle* handle(int fd) { if (!S || fd < FDBASE || fd >= FDBASE + (int)S->h.size()) return nullptr; Handle* h = &S->h[fd - FDBASE]; return h->used ? h : nullptr; }
static ssize_t doWrite(int fd, const char* b, size_t n) {
  Host hg;
  Handle* h = handle(fd);
  if (!h || !h->wr) { errno = EBADF; return -1; }
  if (g_yield && !quiet(h->path)) { g_yield(); h = handle(fd); if (!h) { errno = EBADF; return -1; } }
  step();
  st().nwrite++;
  Fault* f = match('w', h->path);
  size_t m = n; int err = 0; bool crash = false;
  if (f) switch (f->kind) {
    case WRITE_EIO: m = 0; err = EIO; break;
    case DISK_FULL: m = 0; err = ENOSPC; break;
    case WRITE_EINTR: m = 0; err = EINTR; break;
    case WRITE_SHORT: m = n > 1 ? 1 + f->arg % (n - 1) : n; break;
    case WRITE_TORN: m = std::min<size_t>(f->arg, n ? n - 1 : 0); err = EIO; break;
    case CRASH_AT: m = std::min<size_t>(f->arg, n); crash = true; break;
    default: break;
  }
  if (h->app) h->pos = h->f->data.size();
  if (m) {
    if (h->f->data.size() < h->pos + m) h->f->data.resize(h->pos + m);
    memcpy(&h->f->data[h->pos], b, m);
    h->pos += m;
  }
  if (err && err != EINTR) h->err = true;
  record('w', h->path, m, err == 0, std::string(b, m));
  if (crash) { if (n != m) st().hist.back().ok = false; crashNow(); }
  if (err) { errno = err; return -1; }
  return (ssize_t)m;
}
static ssize_t doRead(int fd, char* b, size_t n) {
  Host hg;
  Handle* h = handle(fd);
  if (!h || !h->rd) { errno = EBADF; return -1; }
  step();
  st().nread++;
  Fault* f = match('r', h->path);
  size_t avail = h->pos < h->f->data.size() ? h->f->data.size() - h->pos : 0;
  size_t m = std::min(n, avail);
  if (st().chunk) m = std::min<size_t>(m, st().chunk);
  if (f) switch (f->kind) {
    case READ_EIO: errno = EIO; record('r', h->path, 0, false); return -1;
    case READ_EINTR: errno = EINTR; record('r', h->path, 0, false); return -1;
    case READ_SHORT: if (m > 1) m = 1 + f->arg % (m - 1); break;
    default: break;
  }
  memcpy(b, h->f->data.data() + h->pos, m); h->pos += m;
  record('r', h->path, m, true);
  return (ssize_t)m;
}
static off64_t doSeek(int fd, off64_t off, int wh) {
  Handle* h = handle(fd);
  if (!h) { errno = EBADF; return -1; }
  off64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off64_t)h->pos : (off64_t)h->f->data.size();
  if (base + off < 0) { errno = EINVAL; return -1; }
  h->pos = base + off; return h->pos;
}
static int doClose(int fd) {
  Host hg;
  Handle* h = handle(fd);
  if (!h) { errno = EBADF; return -1; }
  st().nclose++;
  Fault* f = match('c', h->path);
  record('c', h->path, 0, !f);
  h->used = false; h->f.reset();
  if (f) { errno = EIO; return -1; }
  return 0;
}
struct Cookie { int fd; };
static std::map<FILE*, int>& fpmap() { static std::map<FILE*, int> m; return m; }
static ssize_t ck_read(void* c, char* b, size_t n) { return doRead(((Cookie*)c)->fd, b, n); }
static ssize_t ck_write(void* c, const char* b, size_t n) { ssize_t r = doWrite(((Cookie*)c)->fd, b, n); return r < 0 ? 0 : r; }
static int ck_seek(void* c, off64_t* o, int w) { off64_t r = doSeek(((Cookie*)c)->fd, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void* c) { Cookie* k = (Cookie*)c; int r = doClose(k->fd); free(k); return r; }
static FILE* openStream(const char* path, const char* mode) {
  Host hg;
  bool plus = strchr(mode, '+'), rd = mode[0] == 'r' || plus, wr = mode[0] != 'r' || plus;
  int fd = doOpen(path, rd, wr, mode[0] == 'a', mode[0] == 'w', mode[0] != 'r', strchr(mode, 'x') != nullptr);
  if (fd < 0) return nullptr;
  Cookie* c = (Cookie*)malloc(sizeof(Cookie)); c->fd = fd;
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  FILE* f = fopencookie(c, mode, io);
  fpmap()[f] = fd; handle(fd)->fp = f;
  return f;
}
static bool on() { return g_on; }
}}  // namespace sim::vfs

using namespace sim::vfs;
#define REALF(ret, name, ...) static ret (*real)(__VA_ARGS__) = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

extern "C" {
FILE* fopen(const char* p, const char* m) { REALF(FILE*, fopen, const char*, const char*); return on() ? openStream(p, m) : real(p, m); }
FILE* fopen64(const char* p, const char* m) { REALF(FILE*, fopen64, const char*, const char*); return on() ? openStream(p, m) : real(p, m); }
int fileno(FILE* f) noexcept {
  REALF(int, fileno, FILE*);
  if (S) { auto i = fpmap().find(f); if (i != fpmap().end()) return i->second; }
  return real(f);
}
int fclose(FILE* f) {
  REALF(int, fclose, FILE*);
  if (S) { sim::Host hg; auto i = fpmap().find(f); if (i != fpmap().end()) { fpmap().erase(i); return real(f); } }
  return real(f);
}
ssize_t write(int fd, const void* b, size_t n) { REALF(ssize_t, write, int, const void*, size_t); return fd >= FDBASE ? doWrite(fd, (const char*)b, n) : real(fd, b, n); }
ssize_t read(int fd, void* b, size_t n) { REALF(ssize_t, read, int, void*, size_t); return fd >= FDBASE ? doRead(fd, (char*)b, n) : real(fd, b, n); }
ssize_t writev(int fd, const struct iovec* v, int c) {
  REALF(ssize_t, writev, int, const struct iovec*, int);
  if (fd < FDBASE) return real(fd, v, c);
  std::string all; { sim::Host hg; for (int i = 0; i < c; i++) all.append((const char*)v[i].iov_base, v[i].iov_len); }
  return doWrite(fd, all.data(), all.size());
}
off_t lseek(int fd, off_t o, int w) noexcept { REALF(off_t, lseek, int, off_t, int); return fd >= FDBASE ? (off_t)doSeek(fd, o, w) : real(fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) noexcept { REALF(off64_t, lseek64, int, off64_t, int); return fd >= FDBASE ? doSeek(fd, o, w) : real(fd, o, w); }
int close(int fd) { REALF(int, close, int); return fd >= FDBASE ? doClose(fd) : real(fd); }
int fsync(int fd) { REALF(int, fsync, int); return fd >= FDBASE ? 0 : real(fd); }
int ftruncate(int fd, off_t n) noexcept {
  REALF(int, ftruncate, int, off_t);
  if (fd < FDBASE) return real(fd, n);
  sim::Host hg; Handle* h = handle(fd); if (!h) { errno = EBADF; return -1; } h->f->data.resize(n); return 0;
}
int fstat64(int fd, struct stat64* s) noexcept {
  REALF(int, fstat64, int, struct stat64*);
  if (fd < FDBASE) return real(fd, s);
  Handle* h = handle(fd); if (!h) { errno = EBADF; return -1; }
  memset(s, 0, sizeof *s); s->st_mode = S_IFREG | 0644; s->st_size = h->f->data.size(); return 0;
}
int fstat(int fd, struct stat* s) noexcept {
  REALF(int, fstat, int, struct stat*);
  if (fd < FDBASE) return real(fd, s);
  Handle* h = handle(fd); if (!h) { errno = EBADF; return -1; }
  memset(s, 0, sizeof *s); s->st_mode = S_IFREG | 0644; s->st_size = h->f->data.size(); return 0;
}
int stat(const char* p, struct stat* s) noexcept {
  REALF(int, stat, const char*, struct stat*);
  if (!on()) return real(p, s);
  sim::Host hg; auto i = st().files.find(norm(p)); if (i == st().files.end()) { errno = ENOENT; return -1; }
  memset(s, 0, sizeof *s); s->st_mode = S_IFREG | 0644; s->st_size = i->second->data.size(); return 0;
}
int access(const char* p, int m) noexcept {
  REALF(int, access, const char*, int);
  if (!on()) return real(p, m);
  sim::Host hg; if (st().files.count(norm(p))) return 0; errno = ENOENT; return -1;
}
int unlink(const char* p) noexcept {
  REALF(int, unlink, const char*);
  if (!on()) return real(p);
  sim::Host hg; std::string q = norm(p); bool ok = st().files.erase(q) > 0; record('u', q, 0, ok); if (!ok) { errno = ENOENT; return -1; } return 0;
}
int remove(const char* p) noexcept { REALF(int, remove, const char*); return on() ? unlink(p) : real(p); }
int rename(const char* a, const char* b) noexcept {
  REALF(int, rename, const char*, const char*);
  if (!on()) return real(a, b);
  sim::Host hg; std::string x = norm(a), y = norm(b); auto i = st().files.find(x); bool ok = i != st().files.end();
  if (ok) { FileP f = i->second; st().files.erase(i); st().files[y] = f; }
  record('m', x + ">" + y, 0, ok); if (!ok) { errno = ENOENT; return -1; } return 0;
}
int open(const char* p, int fl, ...) {
  va_list a; va_start(a, fl); int mode = (fl & O_CREAT) ? va_arg(a, int) : 0; va_end(a);
  REALF(int, open, const char*, int, int);
  if (!on()) return real(p, fl, mode);
  int acc = fl & O_ACCMODE;
  return doOpen(p, acc != O_WRONLY, acc != O_RDONLY, fl & O_APPEND, fl & O_TRUNC, fl & O_CREAT, fl & O_EXCL);
}
int open64(const char* p, int fl, ...) {
  va_list a; va_start(a, fl); int mode = (fl & O_CREAT) ? va_arg(a, int) : 0; va_end(a);
  REALF(int, open64, const char*, int, int);
  if (!on()) return real(p, fl, mode);
  int acc = fl & O_ACCMODE;
  return doOpen(p, acc != O_WRONLY, acc != O_RDONLY, fl & O_APPEND, fl & O_TRUNC, fl & O_CREAT, fl & O_EXCL);
}
int mkdir(const char* p, mode_t m) noexcept { REALF(int, mkdir, const char*, mode_t); if (!on()) return real(p, m); return 0; }
}
