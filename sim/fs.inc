// Simulated disk. Files live in a scratch directory; every system-level operation on them is counted and can
// fail, be cut short or be the last one that takes effect (crash). Included at the end of rt.cpp.
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/uio.h>

namespace sim {
static char fs_dir[256];
static size_t fs_dirlen = 0;
static int fs_armed = 0;
static u64 fs_n = 0;
static bool fs_dead = false;
static bool fs_full = false;
static u64 fs_nf = 0, fs_hard = 0, fs_unlink_failed = 0;
static u64 fs_hard_thr[64];  // the same by thread
static void hard() {
  fs_hard++;
  if (tl && tl->id < 64) fs_hard_thr[tl->id]++;
}
static u8 fs_fd[1024];
struct SimFile {
  FILE *f;
  int fd;
};
static SimFile fs_files[64];
static bool ours(const char *p) { return fs_dirlen && p && (!strncmp(p, fs_dir, fs_dirlen) || (!strncmp(p, fs_dir, fs_dirlen - 1) && !p[fs_dirlen - 1])); }
static bool ourfd(int fd) { return fs_dirlen && fd >= 0 && fd < 1024 && fs_fd[fd]; }

void fs_begin(const char *dir) {
  snprintf(fs_dir, sizeof fs_dir, "%s", dir);
  fs_dirlen = strlen(fs_dir);
  fs_n = fs_nf = fs_hard = 0;
  fs_dead = fs_full = false;
}
// what a power failure may lose: bytes written and not synced yet
struct Dirty {
  dev_t dev;
  ino_t ino;
  int fd;
  off_t synced;
};
static Dirty fs_dirty[64];
static int fs_ndirty = 0;
static u64 fs_lost = 0;
// renames the directory has not been synchronised since: a power failure may undo the latest ones
struct Ren {
  char src[256], dst[256], old[300];  // old: a second link to the file that was replaced, "" if there was none
};
static Ren fs_ren[64];
static int fs_nren = 0, fs_links = 0;
static u64 fs_undone = 0;
static void dir_synced() {
  for (int i = 0; i < fs_nren; i++)
    if (fs_ren[i].old[0]) (void)!syscall(SYS_unlinkat, AT_FDCWD, fs_ren[i].old, 0);
  fs_nren = 0;
}
static void undo_renames(int keep) {
  while (fs_nren > keep) {
    Ren &r = fs_ren[--fs_nren];
    struct stat st;
    if (::stat(r.dst, &st) == 0) (void)!syscall(SYS_renameat, AT_FDCWD, r.dst, AT_FDCWD, r.src);
    if (r.old[0]) (void)!syscall(SYS_renameat, AT_FDCWD, r.old, AT_FDCWD, r.dst);
    fs_undone++;
    trace("power failure: the renaming of %s to %s is lost", r.src + fs_dirlen, r.dst + fs_dirlen);
  }
  dir_synced();
}
static bool fs_power = false;
static u64 fs_power_arg = 0;
static Dirty *dirty_of(int fd) {
  struct stat st;
  if (fstat(fd, &st)) return nullptr;
  for (int i = 0; i < fs_ndirty; i++)
    if (fs_dirty[i].ino == st.st_ino && fs_dirty[i].dev == st.st_dev) return &fs_dirty[i];
  return nullptr;
}
static void note_open(int fd, int fl) {
  if ((fl & O_ACCMODE) == O_RDONLY) return;
  struct stat st;
  if (fstat(fd, &st)) return;
  Dirty *d = dirty_of(fd);
  if (!d && fs_ndirty < 64) {
    int k = (int)syscall(SYS_dup, fd);
    if (k < 0) return;
    d = &fs_dirty[fs_ndirty++];
    *d = Dirty{st.st_dev, st.st_ino, k, st.st_size};
  }
  if (d && st.st_size < d->synced) d->synced = st.st_size;
}
static void note_sync(int fd) {
  struct stat st;
  if (Dirty *d = dirty_of(fd))
    if (!fstat(fd, &st)) d->synced = st.st_size;
}
static void power_failure(u64 a) {
  for (int i = 0; i < fs_ndirty; i++) {
    struct stat st;
    Dirty &d = fs_dirty[i];
    if (fstat(d.fd, &st) || st.st_size <= d.synced) continue;
    off_t n = st.st_size - d.synced, keep = (off_t)(n * (double)((a >> 2) % 1000) / 1000.0);
    fs_lost += n - keep;
    (void)!syscall(SYS_ftruncate, d.fd, d.synced + keep);
    if (a & 2) (void)!syscall(SYS_ftruncate, d.fd, st.st_size);  // the size reached the disk, the data did not
    trace("power failure: %lld of %lld bytes lost", (long long)(n - keep), (long long)st.st_size);
  }
  u64 h = a * 0x9E3779B97F4A7C15ull >> 33;
  if (h & 1) undo_renames(fs_nren ? (int)((h >> 1) % fs_nren) : 0);
}

struct Quiet {
  Quiet() { if (tl) tl->inrt++; }
  ~Quiet() { if (tl) tl->inrt--; }
};
static void hit(int k) {
  fs_nf++;
  if (k != IO_SHORT && k != IO_EINTR) hard();
  res->st.fired[F_IO]++;
}
void fs_arm(int on) { fs_armed = on; }
void fs_restart() {
  if (fs_dead && fs_power) power_failure(fs_power_arg);
  fs_dead = fs_full = fs_power = false;
}
u64 fs_ops() { return fs_n; }
bool fs_crashed() { return fs_dead; }
u64 fs_faults() { return fs_nf; }
u64 fs_hard_faults() { return fs_hard; }
u64 fs_hard_faults_here() { return tl && tl->id < 64 ? fs_hard_thr[tl->id] : 0; }
u64 fs_unlink_faults() { return fs_unlink_failed; }
int fs_open_files() {
  int n = 0;
  for (int i = 0; i < 1024; i++) n += fs_fd[i];
  return n;
}
u64 fs_lost_bytes() { return fs_lost; }
void fs_settle() {  // later, everything has reached the disk
  Quiet q;
  for (int i = 0; i < fs_ndirty; i++) note_sync(fs_dirty[i].fd);
  dir_synced();
}
void fs_power_cut(u64 a) {
  Quiet q;
  hit(IO_POWER);
  power_failure(a);
}

// next operation: what happens to it
static int fs_next(const char *what, u64 *arg2) {
  if (!fs_armed) return 0;
  if (fs_dead) return IO_CRASH;
  if (tl && active && tl->lib > 0 && tl->inrt == 1) {  // another thread may come in between
    tl->inrt = 0;
    sync_point(tl);
    tl->inrt = 1;
    if (fs_dead) return IO_CRASH;
  }
  u64 n = ++fs_n;
  ileave_hash = fnv(ileave_hash, (u64)what[0] | (u64)what[1] << 8);
  Fault *f = find_fault(F_IO, n);
  if (!f) return 0;
  *arg2 = f->arg2;
  trace("file operation %llu (%s): fault kind %llu", (unsigned long long)n, what, (unsigned long long)f->arg);
  if (f->arg == IO_POWER) {
    fs_power = true;
    fs_power_arg = f->arg2;
    return IO_CRASH;
  }
  return (int)f->arg;
}
static int sys_open(const char *p, int fl, int mode) {
  u64 a2 = 0;
  int k = fs_next("open", &a2);
  if (k == IO_CRASH) {
    if (!fs_dead) hit(k);
    fs_dead = true;
    errno = EIO;
    return -1;
  }
  if (k == IO_OPEN || k == IO_EIO) {
    hit(k);
    errno = k == IO_EIO ? EIO : EMFILE;
    return -1;
  }
  if ((k == IO_ENOSPC || (fs_full && fs_armed)) && (fl & O_CREAT) && ::access(p, F_OK) != 0) {
    if (k == IO_ENOSPC) hit(k), fs_full = true;
    else hard();
    errno = ENOSPC;
    return -1;
  }
  int fd = (int)syscall(SYS_openat, AT_FDCWD, p, fl, mode);
  if (fd >= 0 && fd < 1024) fs_fd[fd] = 1, note_open(fd, fl);
  return fd;
}
// how much of n bytes a short operation moves; often up to the end of a record, where what is left looks complete
static size_t part_of(const void *b, size_t n, u64 a2) {
  if (a2 % 1000 < 900) return n ? (size_t)(n * (double)(a2 % 1000) / 900.0) : 0;
  const char *c = (const char *)b;
  size_t cut[256];
  int k = 0;
  for (size_t i = 1; i + 4 < n && k < 256; i++)
    if (c[i - 1] == '\n' && !memcmp(c + i, "  - ", 4) && c[i + 4] != '[') cut[k++] = i;
  if (!k)
    for (size_t i = 1; i < n && k < 256; i++)
      if (c[i - 1] == '\n') cut[k++] = i;
  return k ? cut[a2 % 1000 % k] : n / 2;
}
static ssize_t real_write(int fd, const void *b, size_t n) { return syscall(SYS_write, fd, b, n); }
static ssize_t sys_write(int fd, const void *b, size_t n) {
  u64 a2 = 0;
  int k = fs_next("write", &a2);
  size_t part = part_of(b, n, a2);
  switch (k) {
    case IO_CRASH:
      if (!fs_dead) {
        hit(k);
        if (part) real_write(fd, b, part);
      }
      fs_dead = true;
      errno = EIO;
      return -1;
    case IO_EIO:
      hit(k);
      errno = EIO;
      return -1;
    case IO_ENOSPC:
      hit(k);
      fs_full = true;
      if (part) return real_write(fd, b, part);
      errno = ENOSPC;
      return -1;
    case IO_SHORT:
      if (n > 1) {
        hit(k);
        if (!part) part = 1;
        return real_write(fd, b, part);
      }
      break;
    case IO_EINTR:
      hit(k);
      errno = EINTR;
      return -1;
  }
  if (fs_full && fs_armed) {
    hard();
    errno = ENOSPC;
    return -1;
  }
  return real_write(fd, b, n);
}
static ssize_t sys_read(int fd, void *b, size_t n) {
  u64 a2 = 0;
  int k = fs_next("read", &a2);
  switch (k) {
    case IO_CRASH:
      if (!fs_dead) hit(k);
      fs_dead = true;
      errno = EIO;
      return -1;
    case IO_EIO:
      hit(k);
      errno = EIO;
      return -1;
    case IO_SHORT:
      if (n > 1) {
        hit(k);
        ssize_t all = syscall(SYS_read, fd, b, n);
        if (all <= 1) return all;
        size_t part = std::max<size_t>(part_of(b, all, a2), 1);
        syscall(SYS_lseek, fd, (long)part - (long)all, SEEK_CUR);
        return part;
      }
      break;
    case IO_EINTR:
      hit(k);
      errno = EINTR;
      return -1;
  }
  return syscall(SYS_read, fd, b, n);
}
static int sys_close(int fd) {
  u64 a2 = 0;
  int k = fs_next("close", &a2);
  fs_fd[fd] = 0;
  int rc = (int)syscall(SYS_close, fd);
  if (k == IO_CRASH) {
    if (!fs_dead) hit(k);
    fs_dead = true;
    errno = EIO;
    return -1;
  }
  if (k == IO_EIO || k == IO_CLOSE || k == IO_ENOSPC) {
    hit(k);
    errno = k == IO_ENOSPC ? ENOSPC : EIO;
    return -1;
  }
  return rc;
}
// rename, unlink, fsync, truncate: all or nothing
static int sys_meta(const char *what, long rc_fn(long, long, long), long a, long b, long c) {
  u64 a2 = 0;
  int k = fs_next(what, &a2);
  if (k == IO_CRASH) {
    bool first = !fs_dead;
    if (first) hit(k);
    if (first && (a2 & 1)) rc_fn(a, b, c);  // the crash comes right after the operation took effect
    fs_dead = true;
    errno = EIO;
    return -1;
  }
  if (k == IO_EIO || k == IO_ENOSPC) {
    hit(k);
    if (what[0] == 'u') fs_unlink_failed++;
    errno = k == IO_EIO ? EIO : ENOSPC;
    return -1;
  }
  return (int)rc_fn(a, b, c);
}
static long do_rename(long a, long b, long flags) {
  char old[300] = "";
  if (ours((const char *)b)) {
    snprintf(old, sizeof old, "%s.replaced%d", fs_dir, fs_links++);
    if (syscall(SYS_linkat, AT_FDCWD, b, AT_FDCWD, old, 0)) old[0] = 0;
  }
  long rc = syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, flags);
  if (rc || !ours((const char *)a) || !ours((const char *)b) || fs_nren == 64 || flags) {
    int e = errno;
    if (old[0]) (void)!syscall(SYS_unlinkat, AT_FDCWD, old, 0);
    errno = e;
    return rc;
  }
  Ren &r = fs_ren[fs_nren++];
  snprintf(r.src, sizeof r.src, "%s", (const char *)a);
  snprintf(r.dst, sizeof r.dst, "%s", (const char *)b);
  memcpy(r.old, old, sizeof old);
  return rc;
}
static long do_unlink(long a, long, long) { return syscall(SYS_unlinkat, AT_FDCWD, a, 0); }
static long do_fsync(long a, long, long) {
  if (ourfd((int)a)) {
    struct stat st;
    if (!fstat((int)a, &st) && S_ISDIR(st.st_mode)) dir_synced();
    else note_sync((int)a);
    return 0;
  }
  return syscall(SYS_fsync, a);
}
static long do_ftrunc(long a, long b, long) { return syscall(SYS_ftruncate, a, b); }
static long do_trunc(long a, long b, long) { return syscall(SYS_truncate, a, b); }

static ssize_t ck_read(void *c, char *b, size_t n) { return sys_read((int)(long)c, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) {
  size_t k = 0;  // stdio treats a short count as an error, the kernel interface does not
  while (k < n) {
    ssize_t r = sys_write((int)(long)c, b + k, n - k);
    if (r < 0 && errno == EINTR) continue;
    if (r <= 0) return k ? (ssize_t)k : 0;
    k += r;
  }
  return (ssize_t)k;
}
static int ck_seek(void *c, off64_t *o, int w) {
  off_t r = syscall(SYS_lseek, (int)(long)c, *o, w);
  if (r == (off_t)-1) return -1;
  *o = r;
  return 0;
}
static int ck_close(void *c) { return sys_close((int)(long)c); }
}  // namespace sim

static FILE *sim_fopen(const char *p, const char *m) {
  Quiet q;
  int fl = 0;
  bool plus = strchr(m, '+') != nullptr;
  if (m[0] == 'r') fl = plus ? O_RDWR : O_RDONLY;
  else if (m[0] == 'w') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
  else fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
  if (strchr(m, 'x')) fl |= O_EXCL;
  int fd = sys_open(p, fl, 0644);
  if (fd < 0) return nullptr;
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  FILE *f = fopencookie((void *)(long)fd, m, io);
  for (auto &s : fs_files)
    if (!s.f) {
      s.f = f;
      s.fd = fd;
      break;
    }
  return f;
}
typedef FILE *(*fopen_t)(const char *, const char *);
EXPORT FILE *fopen(const char *p, const char *m) {
  static fopen_t real;
  if (ours(p)) return sim_fopen(p, m);
  if (!real) real = (fopen_t)dlsym(RTLD_NEXT, "fopen");
  return real(p, m);
}
EXPORT FILE *fopen64(const char *p, const char *m) {
  static fopen_t real;
  if (ours(p)) return sim_fopen(p, m);
  if (!real) real = (fopen_t)dlsym(RTLD_NEXT, "fopen64");
  return real(p, m);
}
EXPORT FILE *fdopen(int fd, const char *m) {
  static FILE *(*real)(int, const char *);
  if (ourfd(fd)) {
    Quiet q;
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    FILE *f = fopencookie((void *)(long)fd, m, io);
    for (auto &s : fs_files)
      if (!s.f) {
        s.f = f;
        s.fd = fd;
        break;
      }
    return f;
  }
  if (!real) real = (FILE * (*)(int, const char *)) dlsym(RTLD_NEXT, "fdopen");
  return real(fd, m);
}
EXPORT int fclose(FILE *f) {
  static int (*real)(FILE *);
  if (!real) real = (int (*)(FILE *))dlsym(RTLD_NEXT, "fclose");
  for (auto &s : fs_files)
    if (s.f == f) {
      s.f = nullptr;
      Quiet q;
      return real(f);
    }
  return real(f);
}
EXPORT int fileno(FILE *f) {
  static int (*real)(FILE *);
  for (auto &s : fs_files)
    if (s.f && s.f == f) return s.fd;
  if (!real) real = (int (*)(FILE *))dlsym(RTLD_NEXT, "fileno");
  return real(f);
}
static int open_common(const char *p, int fl, int mode) {
  if (ours(p)) {
    Quiet q;
    return sys_open(p, fl, mode);
  }
  return (int)syscall(SYS_openat, AT_FDCWD, p, fl, mode);
}
#define OPENFN(NAME)                            \
  EXPORT int NAME(const char *p, int fl, ...) { \
    va_list ap;                                 \
    va_start(ap, fl);                           \
    int mode = va_arg(ap, int);                 \
    va_end(ap);                                 \
    return open_common(p, fl, mode);            \
  }
OPENFN(open)
OPENFN(open64)
EXPORT int creat(const char *p, mode_t m) { return open_common(p, O_CREAT | O_WRONLY | O_TRUNC, (int)m); }
EXPORT int mkstemp(char *t) {
  static u64 ctr;
  size_t n = strlen(t);
  if (n < 6) {
    errno = EINVAL;
    return -1;
  }
  for (int k = 0; k < 100; k++) {
    char b[16];
    snprintf(b, sizeof b, "%06llu", (unsigned long long)++ctr);
    memcpy(t + n - 6, b, 6);
    int fd = open_common(t, O_CREAT | O_EXCL | O_RDWR, 0600);
    if (fd >= 0 || errno != EEXIST) return fd;
  }
  return -1;
}
EXPORT int close(int fd) {
  if (ourfd(fd)) {
    Quiet q;
    return sys_close(fd);
  }
  return (int)syscall(SYS_close, fd);
}
EXPORT ssize_t write(int fd, const void *b, size_t n) {
  if (ourfd(fd)) {
    Quiet q;
    return sys_write(fd, b, n);
  }
  return syscall(SYS_write, fd, b, n);
}
EXPORT ssize_t writev(int fd, const struct iovec *v, int n) {
  if (ourfd(fd)) {
    Quiet q;
    size_t tot = 0;
    for (int i = 0; i < n; i++) tot += v[i].iov_len;
    char *b = (char *)malloc(tot + 1);
    size_t k = 0;
    for (int i = 0; i < n; i++) {
      memcpy(b + k, v[i].iov_base, v[i].iov_len);
      k += v[i].iov_len;
    }
    ssize_t r = sys_write(fd, b, tot);
    int e = errno;
    free(b);
    errno = e;
    return r;
  }
  return syscall(SYS_writev, fd, v, n);
}
EXPORT ssize_t read(int fd, void *b, size_t n) {
  if (ourfd(fd)) {
    Quiet q;
    return sys_read(fd, b, n);
  }
  return syscall(SYS_read, fd, b, n);
}
EXPORT int rename(const char *a, const char *b) {
  if (ours(a) || ours(b)) {
    Quiet q;
    return sys_meta("rename", do_rename, (long)a, (long)b, 0);
  }
  return (int)do_rename((long)a, (long)b, 0);
}
EXPORT int renameat(int d, const char *a, int d2, const char *b) { return d == AT_FDCWD && d2 == AT_FDCWD ? rename(a, b) : (int)syscall(SYS_renameat, d, a, d2, b); }
EXPORT int renameat2(int d, const char *a, int d2, const char *b, unsigned fl) { return d == AT_FDCWD && d2 == AT_FDCWD && !fl ? rename(a, b) : (int)syscall(SYS_renameat2, d, a, d2, b, fl); }
EXPORT int unlink(const char *a) {
  if (ours(a)) {
    Quiet q;
    return sys_meta("unlink", do_unlink, (long)a, 0, 0);
  }
  return (int)do_unlink((long)a, 0, 0);
}
EXPORT int remove(const char *a) { return unlink(a); }
EXPORT int fsync(int fd) {
  if (ourfd(fd)) {
    Quiet q;
    return sys_meta("fsync", do_fsync, fd, 0, 0);
  }
  return (int)do_fsync(fd, 0, 0);
}
EXPORT int fdatasync(int fd) { return fsync(fd); }
EXPORT int syncfs(int fd) {
  if (!ourfd(fd)) return 0;
  Quiet q;
  for (int i = 0; i < fs_ndirty; i++) note_sync(fs_dirty[i].fd);
  dir_synced();
  return 0;
}
EXPORT void sync(void) {
  if (!fs_dirlen) return;
  Quiet q;
  for (int i = 0; i < fs_ndirty; i++) note_sync(fs_dirty[i].fd);
  dir_synced();
}
EXPORT int ftruncate(int fd, off_t n) {
  if (ourfd(fd)) {
    Quiet q;
    return sys_meta("truncate", do_ftrunc, fd, n, 0);
  }
  return (int)do_ftrunc(fd, n, 0);
}
EXPORT int truncate(const char *p, off_t n) {
  if (ours(p)) {
    Quiet q;
    return sys_meta("truncate", do_trunc, (long)p, n, 0);
  }
  return (int)do_trunc((long)p, n, 0);
}
