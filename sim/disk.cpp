// Disk seam: files opened by the code under test through relative paths. Compiled WITHOUT instrumentation.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "internal.hpp"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim {

enum { MAXFD = 1024 };
struct FdInfo { bool tracked, write, broken;   // broken: a write failed, all later ones do (libstdc++ hides an error that passes when an empty string meets a full buffer)
                char path[64]; };
static FdInfo fdt[MAXFD];
static DiskFaults DF;
static DiskStats DS;
static bool crashed = false;
static i64 bounds[64]; static int nbounds = 0;      // offsets at which short reads like to end

template <class F> static F real_(const char* n) { return (F)dlsym(RTLD_NEXT, n); }

void reset_disk_state() { nbounds = 0; memset(fdt, 0, sizeof fdt); DF = DiskFaults(); DS = DiskStats(); crashed = false; }
void disk_bounds(const std::vector<i64>& b) { nbounds = 0; for (i64 x : b) if (nbounds < 64) bounds[nbounds++] = x; }
void disk_set(const DiskFaults& f) { DF = f; DS = DiskStats(); crashed = false; }
void disk_clear() { DF = DiskFaults(); DS = DiskStats(); crashed = false; }
DiskStats disk_stats() { return DS; }

static bool rel(const char* p) { return p && p[0] && p[0] != '/'; }
static bool hit(const char* kind, double p) {
  if (p <= 0) return false;
  double cum[1] = {p};
  if (draw(kind, 2, cum)) { count_fault(kind); return true; }
  return false;
}
// 1..n-1, recorded in sixteenths; the minimised value is 1
static size_t cut(const char* kind, size_t n) {
  i64 k = draw(kind, 16, nullptr);
  size_t c = 1 + (n - 1) * (size_t)k / 16;
  return c >= n ? n - 1 : c;
}
static size_t short_read(int fd, size_t n) {
  size_t at[64]; i64 m = 0;
  i64 pos = nbounds ? ::syscall(SYS_lseek, fd, 0, SEEK_CUR) : 0;
  for (int k = 0; k < nbounds; k++) if (bounds[k] > pos && (size_t)(bounds[k] - pos) < n) at[m++] = (size_t)(bounds[k] - pos);
  if (m) { i64 k = draw("disk_read_bound", 2 * m, nullptr); if (k >= m) return at[k - m]; }
  return cut("disk_read_cut", n > 4096 ? 4096 : n);
}
static void track(int fd, const char* path, bool w) {
  if (fd < 0 || fd >= MAXFD) return;
  fdt[fd].tracked = true; fdt[fd].write = w; fdt[fd].broken = false;
  snprintf(fdt[fd].path, sizeof fdt[fd].path, "%s", path);
  DS.opens++;
}
static bool open_faulty(const char* path, bool w) {
  sync_point("open", path);
  if (w) g_sh->disk_used = 1;
  if (hit("disk_open_fail", DF.open_fail)) {
    DS.hard_open++;
    note("disk: open of %s fails", path);
    errno = w ? ENOSPC : EMFILE;
    return true;
  }
  return false;
}

// how many bytes of a write of n are accepted; -1: error (errno set). *drop: accept but lose
static ssize_t write_decision(int fd, size_t n, bool* drop, size_t* persist) {
  *drop = false; *persist = n;
  sync_point("write", nullptr);
  DS.writes++;
  if (n == 0) return 0;
  if (hit("disk_write_eintr", DF.write_eintr)) { DS.soft++; errno = EINTR; return -1; }
  if (fdt[fd].broken) { DS.hard_write++; note("disk: write of %zu bytes to %s fails again", n, fdt[fd].path); errno = EIO; return -1; }
  if (hit("disk_write_fail", DF.write_fail)) {
    fdt[fd].broken = true;
    DS.hard_write++; note("disk: write of %zu bytes to %s fails", n, fdt[fd].path);
    errno = EIO; return -1;
  }
  size_t acc = n;
  if (DF.space >= 0) {
    i64 left = DF.space - DS.bytes_written;
    if (left <= 0) { DS.hard_write++; count_fault("disk_full"); note("disk: full, write of %zu bytes to %s fails", n, fdt[fd].path); errno = ENOSPC; return -1; }
    if ((i64)acc > left) acc = (size_t)left;
  }
  if (acc > 1 && hit("disk_write_short", DF.write_short)) { DS.soft++; acc = cut("disk_write_cut", acc); }
  *persist = acc;
  if (DF.crash_after >= 0) {
    i64 left = DF.crash_after - DS.bytes_written;
    if (left < (i64)acc) {
      if (!crashed) { crashed = true; count_fault("crash"); note("disk: crash point inside a write to %s", fdt[fd].path); }
      *drop = true; *persist = left > 0 ? (size_t)left : 0; DS.dropped += acc - *persist;
    }
  }
  DS.bytes_written += (i64)acc;
  return (ssize_t)acc;
}
static bool is_tracked(int fd) { return fd >= 0 && fd < MAXFD && fdt[fd].tracked; }

// ---------------- oracle access
std::string file_get(const char* path, bool* ok) {
  Guard g;
  std::string r;
  long fd = ::syscall(SYS_openat, AT_FDCWD, path, O_RDONLY, 0);
  if (ok) *ok = fd >= 0;
  if (fd < 0) return r;
  char b[65536];
  for (;;) { long n = ::syscall(SYS_read, fd, b, sizeof b); if (n <= 0) break; r.append(b, n); }
  ::syscall(SYS_close, fd);
  return r;
}
void file_put(const char* path, const std::string& bytes) {
  Guard g;
  if (g_sh) g_sh->disk_used = 1;
  std::string p(path);
  for (size_t i = 1; i < p.size(); i++) if (p[i] == '/') { std::string d = p.substr(0, i); ::syscall(SYS_mkdir, d.c_str(), 0755); }
  long fd = ::syscall(SYS_openat, AT_FDCWD, path, O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd < 0) return;
  size_t o = 0;
  while (o < bytes.size()) { long n = ::syscall(SYS_write, fd, bytes.data() + o, bytes.size() - o); if (n <= 0) break; o += n; }
  ::syscall(SYS_close, fd);
}
void file_del(const char* path) { Guard g; ::syscall(SYS_unlink, path); }
bool file_exists(const char* path) { Guard g; return ::syscall(SYS_access, path, F_OK) == 0; }

}  // namespace sim
using namespace sim;

extern "C" {

static int do_open(int dirfd, const char* path, int flags, mode_t mode) {
  bool w = (flags & O_ACCMODE) != O_RDONLY;
  bool mine = in_sut() && dirfd == AT_FDCWD && rel(path);
  if (mine && open_faulty(path, w)) return -1;
  if (mine && crashed && w) { path = "/dev/null"; }
  long r = ::syscall(SYS_openat, dirfd, path, flags, mode);
  if (mine && r >= 0) track((int)r, path, w);
  return (int)r;
}
int open(const char* path, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = (mode_t)va_arg(ap, int); va_end(ap); return do_open(AT_FDCWD, path, flags, m); }
int open64(const char* path, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = (mode_t)va_arg(ap, int); va_end(ap); return do_open(AT_FDCWD, path, flags, m); }
int openat(int d, const char* path, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = (mode_t)va_arg(ap, int); va_end(ap); return do_open(d, path, flags, m); }
int creat(const char* path, mode_t m) { return do_open(AT_FDCWD, path, O_WRONLY | O_CREAT | O_TRUNC, m); }

static FILE* do_fopen(const char* path, const char* mode) {
  static auto r = real_<FILE* (*)(const char*, const char*)>("fopen64");
  bool w = strchr(mode, 'w') || strchr(mode, 'a') || strchr(mode, '+');
  bool mine = in_sut() && rel(path);
  if (mine && open_faulty(path, w)) return nullptr;
  Guard g;
  const char* p = path;
  if (mine && crashed && w) p = "/dev/null";
  FILE* f = r(p, mode);
  if (f && mine) track(fileno(f), path, w);
  return f;
}
FILE* fopen(const char* path, const char* mode) { return do_fopen(path, mode); }
FILE* fopen64(const char* path, const char* mode) { return do_fopen(path, mode); }

static int close_fault(int fd) {
  if (!is_tracked(fd)) return 0;
  bool w = fdt[fd].write;
  fdt[fd].tracked = false;
  if (!in_sut()) return 0;
  sync_point("close", nullptr);
  DS.closes++;
  if (w && hit("disk_close_fail", DF.close_fail)) {
    DS.hard_close++; note("disk: close of %s fails", fdt[fd].path);
    return 1;
  }
  return 0;
}
int close(int fd) {
  int f = close_fault(fd);
  long r = ::syscall(SYS_close, fd);
  if (f) { errno = EIO; return -1; }
  return (int)r;
}
// libstdc++ file buffers do their own buffering, so the FILE's buffer is empty; C stdio users are covered by fwrite/fflush below.
int fclose(FILE* s) {
  static auto r = real_<int (*)(FILE*)>("fclose");
  int fd = fileno(s);
  int f = close_fault(fd);
  int x;
  { Guard g; x = r(s); }
  if (f) { errno = EIO; return EOF; }
  return x;
}
ssize_t write(int fd, const void* b, size_t n) {
  if (!(is_tracked(fd) && in_sut())) return ::syscall(SYS_write, fd, b, n);
  bool drop; size_t persist;
  ssize_t a = write_decision(fd, n, &drop, &persist);
  if (a < 0) return -1;
  size_t o = 0;
  while (o < persist) { long k = ::syscall(SYS_write, fd, (const char*)b + o, persist - o); if (k <= 0) break; o += k; }
  return a;
}
ssize_t writev(int fd, const struct iovec* v, int c) {
  if (!(is_tracked(fd) && in_sut())) return ::syscall(SYS_writev, fd, v, c);
  size_t n = 0;
  for (int i = 0; i < c; i++) n += v[i].iov_len;
  bool drop; size_t persist;
  ssize_t a = write_decision(fd, n, &drop, &persist);
  if (a < 0) return -1;
  size_t left = persist;
  for (int i = 0; i < c && left; i++) {
    size_t m = v[i].iov_len < left ? v[i].iov_len : left;
    size_t o = 0;
    while (o < m) { long k = ::syscall(SYS_write, fd, (const char*)v[i].iov_base + o, m - o); if (k <= 0) break; o += k; }
    left -= m;
  }
  return a;
}
ssize_t read(int fd, void* b, size_t n) {
  if (!(is_tracked(fd) && in_sut())) return ::syscall(SYS_read, fd, b, n);
  sync_point("read", nullptr);
  DS.reads++;
  if (hit("disk_read_eintr", DF.read_eintr)) { DS.soft++; errno = EINTR; return -1; }
  if (hit("disk_read_fail", DF.read_fail)) { DS.hard_read++; note("disk: read from %s fails", fdt[fd].path); errno = EIO; return -1; }
  if (n > 1 && hit("disk_read_short", DF.read_short)) { DS.soft++; n = short_read(fd, n); }
  long r = ::syscall(SYS_read, fd, b, n);
  if (r > 0) DS.bytes_read += r;
  return r;
}
int fsync(int fd) { if (is_tracked(fd) && in_sut()) { sync_point("fsync", nullptr); return 0; } return (int)::syscall(SYS_fsync, fd); }
int rename(const char* a, const char* b) {
  if (in_sut() && rel(a) && rel(b)) { sync_point("rename", nullptr); g_sh->disk_used = 1; if (crashed) return 0; }
  return (int)::syscall(SYS_rename, a, b);
}
int unlink(const char* a) {
  if (in_sut() && rel(a)) { sync_point("unlink", nullptr); if (crashed) return 0; }
  return (int)::syscall(SYS_unlink, a);
}
}
