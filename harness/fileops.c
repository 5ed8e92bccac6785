/* Preloaded into the programs under test: records their operations on files, lets one of them fail, ends the process
   before one of them, or waits for permission before each (so that two processes can be interleaved at will).
   VFIO_LOG   file the operations are appended to, one line each:
              number, operation, open id, path, second path, flags, result, errno, size of the open file afterwards
   VFIO_FAULT list of number:errno:mode  (mode once | sticky: all later ones of the kind fail too | short: half of a write)
   VFIO_KILL  number[:half]   end the process before this operation (or in the middle of the write)
   VFIO_GATE  fd,fd           ask on the first, wait on the second */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

#define NFD 1024
static int ids[NFD];             /* open id of a descriptor, 0: not of interest */
static int next_id, count, logfd = -1, gate_out = -1, gate_in = -1, ready, kill_at, kill_half;
static struct { int at, err, mode; char kind[12]; } faults[16];
static int nfaults;
static __thread int inside;
#define REAL(t, f) static t (*real)() ; if (!real) real = (t (*)())dlsym(RTLD_NEXT, f)

static ssize_t raw_write(int fd, const void *b, size_t n) { static ssize_t (*r)(int, const void *, size_t); if (!r) r = dlsym(RTLD_NEXT, "write"); return r(fd, b, n); }
static ssize_t raw_read(int fd, void *b, size_t n) { static ssize_t (*r)(int, void *, size_t); if (!r) r = dlsym(RTLD_NEXT, "read"); return r(fd, b, n); }
__attribute__((constructor)) static void setup(void) {
  if (ready) return;
  ready = 1;
  char *s = getenv("VFIO_LOG");
  if (s) { int (*o)(const char *, int, ...) = dlsym(RTLD_NEXT, "open"); logfd = o(s, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
           if (logfd >= 0) { int d = fcntl(logfd, F_DUPFD_CLOEXEC, 900); if (d >= 0) { int (*c)(int) = dlsym(RTLD_NEXT, "close"); c(logfd); logfd = d; } } }
  if ((s = getenv("VFIO_GATE"))) sscanf(s, "%d,%d", &gate_out, &gate_in);
  if ((s = getenv("VFIO_KILL"))) { kill_at = atoi(s); kill_half = strstr(s, ":half") != NULL; }
  if ((s = getenv("VFIO_FAULT"))) {
    char *c = strdup(s), *t, *sv;
    for (t = strtok_r(c, ",", &sv); t && nfaults < 16; t = strtok_r(NULL, ",", &sv)) {
      char m[16] = "once";
      sscanf(t, "%d:%d:%15s", &faults[nfaults].at, &faults[nfaults].err, m);
      faults[nfaults].mode = m[0] == 'o' ? 0 : strcmp(m, "short") ? 1 : 2; nfaults++;
    }
    free(c);
  }
}
static int foreign(const char *p) {
  static const char *no[] = { "/dev/", "/proc/", "/sys/", "/etc/", "/usr/", "/lib", "/opt/", NULL };
  if (!p) return 1;
  for (int i = 0; no[i]; i++) if (!strncmp(p, no[i], strlen(no[i]))) return 1;
  return 0;
}
static int tracked(int fd) { return fd >= 0 && fd < NFD && ids[fd]; }

/* before an operation: its number; *err is set if it is to fail, *half if only half of it is to happen */
static int before(const char *kind, int *err, int *half, int *die) {
  setup(); *err = 0; *half = 0; *die = 0;
  int k = ++count;
  if (gate_out >= 0) { char c; raw_write(gate_out, kind, 1); if (raw_read(gate_in, &c, 1) != 1) _exit(99); }
  if (kill_at == k) { if (!kill_half) kill(getpid(), SIGKILL); *half = 1; *die = 1; }
  for (int i = 0; i < nfaults; i++) {
    if (faults[i].at == k) { strncpy(faults[i].kind, kind, 11); if (faults[i].mode == 2) *half = 1; else *err = faults[i].err; }
    else if (faults[i].mode == 1 && faults[i].kind[0] && !strcmp(faults[i].kind, kind)) *err = faults[i].err;
  }
  return k;
}
static void note(int k, const char *op, int fd, int id, const char *p, const char *q, const char *flags, long rc, int err) {
  if (logfd < 0) return;
  struct stat st; long size = -1;
  if (fd >= 0 && fstat(fd, &st) == 0) size = st.st_size;
  char b[9000];
  int n = snprintf(b, sizeof b, "%d\t%s\t%d\t%s\t%s\t%s\t%ld\t%d\t%ld\n", k, op, id, p ? p : "", q ? q : "", flags ? flags : "", rc, rc < 0 ? err : 0, size);
  raw_write(logfd, b, n);
}
static const char *oflags(int f) {
  int a = f & O_ACCMODE;
  if (a == O_RDONLY) return "r";
  if (f & O_TRUNC) return (f & O_CREAT) ? (f & O_EXCL) ? "wx" : "wt" : "t";
  if (f & O_CREAT) return (f & O_EXCL) ? "wx" : "wc";
  return "w";
}
static int opened(int fd) { int id = 0; if (fd >= 0 && fd < NFD) id = ids[fd] = ++next_id; return id; }

static int do_open(int (*real)(int, const char *, int, mode_t), int at, const char *p, int f, mode_t m) {
  int err, half, die; const char *fl = oflags(f);
  const char *kind = fl[0] == 'r' ? "open" : "create";
  int k = before(kind, &err, &half, &die), fd = -1;
  if (err) errno = err; else fd = real(at, p, f, m);
  int e = errno, id = opened(fd);
  note(k, "open", fd, id, p, NULL, fl, fd, e); errno = e; return fd;
}
static int r_open(int at, const char *p, int f, mode_t m) { static int (*r)(const char *, int, ...); if (!r) r = dlsym(RTLD_NEXT, "open"); return r(p, f, m); }
static int r_openat(int at, const char *p, int f, mode_t m) { static int (*r)(int, const char *, int, ...); if (!r) r = dlsym(RTLD_NEXT, "openat"); return r(at, p, f, m); }
#define MODE mode_t m = 0; if (f & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, f); m = va_arg(a, int); va_end(a); }
int open(const char *p, int f, ...) { MODE return foreign(p) ? r_open(0, p, f, m) : do_open(r_open, 0, p, f, m); }
int open64(const char *p, int f, ...) { MODE return foreign(p) ? r_open(0, p, f, m) : do_open(r_open, 0, p, f, m); }
int openat(int d, const char *p, int f, ...) { MODE return foreign(p) ? r_openat(d, p, f, m) : do_open(r_openat, d, p, f, m); }
int openat64(int d, const char *p, int f, ...) { MODE return foreign(p) ? r_openat(d, p, f, m) : do_open(r_openat, d, p, f, m); }
int creat(const char *p, mode_t m) { int f = O_CREAT | O_WRONLY | O_TRUNC; return foreign(p) ? r_open(0, p, f, m) : do_open(r_open, 0, p, f, m); }

static FILE *do_fopen(const char *p, const char *mode) {
  static FILE *(*real)(const char *, const char *); if (!real) real = dlsym(RTLD_NEXT, "fopen");
  if (foreign(p)) return real(p, mode);
  int err, half, die;
  const char *fl = mode[0] == 'r' ? (strchr(mode, '+') ? "w" : "r") : mode[0] == 'w' ? (strchr(mode, 'x') ? "wx" : "wt") : "wc";
  int k = before(fl[0] == 'r' ? "open" : "create", &err, &half, &die);
  FILE *f = NULL;
  if (err) errno = err; else f = real(p, mode);
  int e = errno, fd = f ? fileno(f) : -1, id = opened(fd);
  note(k, "open", fd, id, p, NULL, fl, f ? fd : -1, e); errno = e; return f;
}
FILE *fopen(const char *p, const char *m) { return do_fopen(p, m); }
FILE *fopen64(const char *p, const char *m) { return do_fopen(p, m); }

int fclose(FILE *f) {
  static int (*real)(FILE *); if (!real) real = dlsym(RTLD_NEXT, "fclose");
  int fd = f ? fileno(f) : -1;
  if (!tracked(fd)) return real(f);
  int err, half, die, id = ids[fd], k = before("close", &err, &half, &die);
  int d = fcntl(fd, F_DUPFD_CLOEXEC, 800);
  int rc = real(f), e = errno; ids[fd] = 0;
  if (err) { rc = EOF; e = err; }
  note(k, "close", d, id, NULL, NULL, NULL, rc, e);
  if (d >= 0) { static int (*c)(int); if (!c) c = dlsym(RTLD_NEXT, "close"); c(d); }
  errno = e; return rc;
}
int close(int fd) {
  static int (*real)(int); if (!real) real = dlsym(RTLD_NEXT, "close");
  if (!tracked(fd)) return real(fd);
  int err, half, die, id = ids[fd], k = before("close", &err, &half, &die), rc = real(fd), e = errno;
  ids[fd] = 0;
  if (err) { rc = -1; e = err; }
  note(k, "close", -1, id, NULL, NULL, NULL, rc, e); errno = e; return rc;
}
ssize_t read(int fd, void *b, size_t n) {
  if (!tracked(fd)) return raw_read(fd, b, n);
  int err, half, die, k = before("read", &err, &half, &die); ssize_t rc = -1;
  if (err) errno = err; else rc = raw_read(fd, b, half && n > 1 ? n / 2 : n);
  int e = errno; note(k, "read", fd, ids[fd], NULL, NULL, NULL, rc, e); errno = e; return rc;
}
ssize_t write(int fd, const void *b, size_t n) {
  if (!tracked(fd)) return raw_write(fd, b, n);
  int err, half, die, k = before("write", &err, &half, &die); ssize_t rc = -1;
  if (err) errno = err; else rc = raw_write(fd, b, half && n > 1 ? n / 2 : n);
  int e = errno; note(k, "write", fd, ids[fd], NULL, NULL, NULL, rc, e);
  if (die) kill(getpid(), SIGKILL);
  errno = e; return rc;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  static ssize_t (*real)(int, const struct iovec *, int); if (!real) real = dlsym(RTLD_NEXT, "writev");
  if (!tracked(fd)) return real(fd, v, c);
  int err, half, die, k = before("write", &err, &half, &die); ssize_t rc = -1;
  if (err) errno = err;
  else if (half) { struct iovec h = v[0]; h.iov_len = h.iov_len > 1 ? h.iov_len / 2 : h.iov_len; rc = real(fd, &h, 1); }
  else rc = real(fd, v, c);
  int e = errno; note(k, "write", fd, ids[fd], NULL, NULL, NULL, rc, e);
  if (die) kill(getpid(), SIGKILL);
  errno = e; return rc;
}
#define COPY(name, decl, call, infd, outfd) ssize_t name decl { \
  static ssize_t (*real) decl; if (!real) real = dlsym(RTLD_NEXT, #name); \
  if (!tracked(outfd) && !tracked(infd)) return real call; \
  int err, half, die, k = before("write", &err, &half, &die); ssize_t rc = -1; \
  if (err) errno = err; else rc = real call; \
  int e = errno; if (tracked(infd)) note(k, "read", infd, ids[infd], NULL, NULL, NULL, rc, e); \
  if (tracked(outfd)) note(k, "write", outfd, ids[outfd], NULL, NULL, NULL, rc, e); errno = e; return rc; }
COPY(sendfile, (int o, int i, off_t *p, size_t n), (o, i, p, n), i, o)
COPY(copy_file_range, (int i, off_t *a, int o, off_t *b, size_t n, unsigned f), (i, a, o, b, n, f), i, o)

static int named(const char *kind, const char *p, const char *q, int (*go)(const char *, const char *)) {
  int err, half, die, k = before(kind, &err, &half, &die), rc = -1;
  if (err) errno = err; else rc = go(p, q);
  int e = errno; note(k, kind, -1, 0, p, q, NULL, rc, e); errno = e; return rc;
}
#define GO1(n) static int go_##n(const char *p, const char *q) { static int (*r)(const char *); if (!r) r = dlsym(RTLD_NEXT, #n); return r(p); }
#define GO2(n) static int go_##n(const char *p, const char *q) { static int (*r)(const char *, const char *); if (!r) r = dlsym(RTLD_NEXT, #n); return r(p, q); }
GO1(unlink) GO1(remove) GO2(rename) GO2(link) GO2(symlink)
int unlink(const char *p) { return foreign(p) ? go_unlink(p, 0) : named("unlink", p, NULL, go_unlink); }
int remove(const char *p) { return foreign(p) ? go_remove(p, 0) : named("unlink", p, NULL, go_remove); }
int unlinkat(int d, const char *p, int f) { if (d == AT_FDCWD && !f) return unlink(p); static int (*r)(int, const char *, int); if (!r) r = dlsym(RTLD_NEXT, "unlinkat"); return r(d, p, f); }
int rename(const char *p, const char *q) { return foreign(p) && foreign(q) ? go_rename(p, q) : named("rename", p, q, go_rename); }
int link(const char *p, const char *q) { return foreign(p) && foreign(q) ? go_link(p, q) : named("link", p, q, go_link); }
int symlink(const char *p, const char *q) { return foreign(q) ? go_symlink(p, q) : named("symlink", p, q, go_symlink); }
static int exchange;
int renameat2(int a, const char *p, int b, const char *q, unsigned f) {
  if (a == AT_FDCWD && b == AT_FDCWD && !f) return rename(p, q);
  static int (*r)(int, const char *, int, const char *, unsigned); if (!r) r = dlsym(RTLD_NEXT, "renameat2"); return r(a, p, b, q, f);
}
int renameat(int a, const char *p, int b, const char *q) { return renameat2(a, p, b, q, 0); }
static int go_truncate(const char *p, const char *q) { static int (*r)(const char *, off_t); if (!r) r = dlsym(RTLD_NEXT, "truncate"); return r(p, atol(q)); }
int truncate(const char *p, off_t n) { char b[32]; sprintf(b, "%ld", (long)n); return foreign(p) ? go_truncate(p, b) : named("truncate", p, b, go_truncate); }
int ftruncate(int fd, off_t n) {
  static int (*real)(int, off_t); if (!real) real = dlsym(RTLD_NEXT, "ftruncate");
  if (!tracked(fd)) return real(fd, n);
  int err, half, die, k = before("write", &err, &half, &die), rc = -1;
  if (err) errno = err; else rc = real(fd, n);
  int e = errno; note(k, "write", fd, ids[fd], NULL, NULL, "t", rc, e); errno = e; return rc;
}
