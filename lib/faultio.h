// Fault injection for file output/input of the code under test: open, write, close and read calls made through libstdc++
// are interposed in this executable. Include in exactly one translation unit.
#ifndef VP_FAULTIO_H
#define VP_FAULTIO_H
#include <cerrno>
#include <cstdio>
#include <dlfcn.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
namespace faultio {
struct Plan {
  bool on = false;
  long write_budget = -1;  // bytes that still reach the file; -1: unlimited
  int fail_open = -1;      // index of the open call that fails
  int fail_close = -1;     // index of the close call that reports an error
  int fail_write = -1;     // index of the write call that fails (once)
  int fail_read = -1;      // index of the read call that fails
  int err = ENOSPC;
  // observed
  long bytes = 0; int opens = 0, closes = 0, writes = 0, reads = 0, faults = 0;
};
inline Plan &P() { static Plan p; return p; }
inline void start(const Plan &q) { P() = q; P().on = true; }
inline Plan stop() { P().on = false; return P(); }
} // namespace faultio
extern "C" ssize_t write(int fd, const void *b, size_t n) {
  auto &p = faultio::P();
  if (p.on && fd > 2) {
    if (p.writes++ == p.fail_write) { p.faults++; errno = p.err; return -1; }
    if (p.write_budget >= 0) {
      if (p.write_budget == 0) { p.faults++; errno = p.err; return -1; }
      if ((long)n > p.write_budget) n = p.write_budget;
      p.write_budget -= n;
    }
    p.bytes += n;
  }
  return syscall(SYS_write, fd, b, n);
}
extern "C" ssize_t writev(int fd, const struct iovec *v, int c) {
  auto &p = faultio::P();
  if (p.on && fd > 2) { ssize_t t = 0; for (int i = 0; i < c; i++) { if (!v[i].iov_len) continue; ssize_t r = write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : -1; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
  return syscall(SYS_writev, fd, v, c);
}
extern "C" ssize_t read(int fd, void *b, size_t n) {
  auto &p = faultio::P();
  if (p.on && fd > 2 && p.reads++ == p.fail_read) { p.faults++; errno = EIO; return -1; }
  return syscall(SYS_read, fd, b, n);
}
extern "C" FILE *fopen(const char *f, const char *m) {
  static auto real = (FILE *(*)(const char *, const char *))dlsym(RTLD_NEXT, "fopen");
  auto &p = faultio::P();
  if (p.on && p.opens++ == p.fail_open) { p.faults++; errno = EACCES; return nullptr; }
  return real(f, m);
}
extern "C" FILE *fopen64(const char *f, const char *m) {
  static auto real = (FILE *(*)(const char *, const char *))dlsym(RTLD_NEXT, "fopen64");
  auto &p = faultio::P();
  if (p.on && p.opens++ == p.fail_open) { p.faults++; errno = EACCES; return nullptr; }
  return real(f, m);
}
extern "C" int fclose(FILE *f) {
  static auto real = (int (*)(FILE *))dlsym(RTLD_NEXT, "fclose");
  auto &p = faultio::P();
  if (p.on && p.closes++ == p.fail_close) { p.faults++; real(f); errno = EIO; return EOF; }
  return real(f);
}
#endif
