/* Simulated libc for silverfox.
 *
 * Loaded with LD_PRELOAD into the unmodified silverfox binary.  It stops the
 * process before main(), turns it into a fork server, and gives every forked
 * run a simulated machine: file system, clock, entropy, terminal and standard
 * streams all live in memory shared with the simulator.  Nothing the program
 * does reaches the real file system, clock or terminal. */
#define _GNU_SOURCE
/* the program may pass null pointers (std probes statx that way): without
 * these two, the checks below would be optimised away */
#define __nonnull(params)
#define __attribute_nonnull__(params)
#include "simshm.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/random.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define VFD 700
#define EXPORT __attribute__((visibility("default")))

static struct shm *S;
static struct slot *P; /* this process's slot; non-NULL once simulation is on */
static int slot_id;

/* raw system calls, so that nothing below recurses into an interposer */
static long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return r;
}
static long ret(long r) {
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}
#define RAW(n, ...) RAW_(n, __VA_ARGS__, 0, 0, 0, 0, 0, 0)
#define RAW_(n, a, b, c, d, e, f, ...) raw6(n, (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))

static void futex_wait(uint32_t *w, uint32_t v) { RAW(SYS_futex, w, FUTEX_WAIT, v, 0, 0, 0); }
static void futex_wake(uint32_t *w) { RAW(SYS_futex, w, FUTEX_WAKE, INT_MAX, 0, 0, 0); }

static void die_now(int code) {
  RAW(SYS_exit_group, code);
  for (;;) ;
}

/* ---- operations, faults, trace ------------------------------------------ */

static void park_here(void) {
  __atomic_store_n(&P->go, 0, __ATOMIC_SEQ_CST);
  __atomic_store_n(&P->state, ST_PARKED, __ATOMIC_SEQ_CST);
  futex_wake(&P->state);
  while (!__atomic_load_n(&P->go, __ATOMIC_SEQ_CST)) futex_wait(&P->go, 0);
  __atomic_store_n(&P->state, ST_RUNNING, __ATOMIC_SEQ_CST);
}

struct op { struct fault *f; int kind, ino, arg, fidx; };

static int shared_kind(int k) {
  switch (k) {
  case OP_OPEN_R: case OP_OPEN_W: case OP_READ: case OP_WRITE: case OP_STAT: case OP_TRUNC:
  case OP_SYNC: case OP_RENAME: case OP_UNLINK: case OP_LOCK: case OP_CLOSE: return 1;
  }
  return 0;
}

static struct op begin(int kind, int ino, int arg) {
  struct op o = {0, kind, ino, arg, 0};
  if (P->park && shared_kind(kind)) park_here();
  P->nops++;
  for (uint32_t i = 0; i < P->nfault && i < MAXFAULT; i++) {
    struct fault *f = &P->faults[i];
    if (f->kind != (uint32_t)kind || f->ino != ino || f->seen++ != f->nth || o.f) continue;
    f->fired = 1;
    o.f = f;
    o.fidx = (int)i + 1;
    if (f->action == F_KILL_BEFORE) {
      P->killed = 1;
      die_now(137);
    }
  }
  return o;
}
static long end(struct op *o, long res) {
  if (P->ntrace < TRACECAP) {
    struct trace *t = &P->tr[P->ntrace++];
    t->kind = (uint16_t)o->kind;
    t->ino = (int16_t)o->ino;
    t->arg = o->arg;
    t->res = (int32_t)res;
    t->fault = (uint32_t)o->fidx;
  }
  if (o->f && o->f->action == F_KILL_AFTER) {
    P->killed = 1;
    die_now(137);
  }
  if (res < 0) { errno = (int)-res; return -1; }
  return res;
}
static int failing(struct op *o) { return o->f && o->f->action == F_ERR; }

static long unsupported(const char *name) {
  if (!P->unsupported) {
    P->unsupported = 1;
    strncpy(P->unsupported_name, name, sizeof P->unsupported_name - 1);
  }
  errno = ENOSYS;
  return -1;
}

/* ---- file system -------------------------------------------------------- */

static struct dent *dent_find(const char *abs) {
  for (int i = 0; i < MAXDENT; i++)
    if (S->dents[i].used && !strcmp(S->dents[i].path, abs)) return &S->dents[i];
  return 0;
}

/* Resolves p (relative to the simulated cwd) to a normalised absolute path.
 * Every directory on the way must exist; symbolic links are followed, the last
 * one only if follow.  The last component itself need not exist. */
static int resolve(const char *p, int follow, char *out) {
  char todo[1024];
  int links = 0;
  if (!p) return -EFAULT;
  if (!*p) return -ENOENT;
  if (strlen(p) >= PATHCAP) return -ENAMETOOLONG;
  if (p[0] == '/') strcpy(out, "");
  else strcpy(out, strcmp(P->cwd, "/") ? P->cwd : "");
  strcpy(todo, p);
  char *s = todo;
  int trailing = 0;
  while (*s) {
    while (*s == '/') s++;
    if (!*s) break;
    char *e = s;
    while (*e && *e != '/') e++;
    char comp[PATHCAP];
    memcpy(comp, s, (size_t)(e - s));
    comp[e - s] = 0;
    char *rest = e;
    while (*rest == '/') rest++;
    int last = !*rest;
    trailing = last && *e == '/';
    if (!strcmp(comp, ".")) { s = rest; continue; }
    if (!strcmp(comp, "..")) {
      char *sl = strrchr(out, '/');
      if (sl) *sl = 0;
      s = rest;
      continue;
    }
    if (strlen(out) + 1 + strlen(comp) >= PATHCAP) return -ENAMETOOLONG;
    size_t keep = strlen(out);
    strcat(out, "/");
    strcat(out, comp);
    struct dent *d = dent_find(out);
    if (d && S->inodes[d->ino].kind == K_LINK && (!last || follow)) {
      if (++links > 8) return -ELOOP;
      struct inode *l = &S->inodes[d->ino];
      char nt[1024];
      if (l->size + strlen(rest) + 2 >= sizeof nt) return -ENAMETOOLONG;
      memcpy(nt, l->data, l->size);
      nt[l->size] = 0;
      if (!last) { strcat(nt, "/"); strcat(nt, rest); }
      if (l->data[0] == '/') out[0] = 0;
      else out[keep] = 0;
      strcpy(todo, nt);
      s = todo;
      continue;
    }
    if (!last) {
      if (!d) return -ENOENT;
      if (S->inodes[d->ino].kind != K_DIR) return -ENOTDIR;
    }
    s = rest;
  }
  if (!*out) strcpy(out, "/");
  if (trailing) {
    struct dent *d = dent_find(out);
    if (d && S->inodes[d->ino].kind != K_DIR) return -ENOTDIR;
  }
  return 0;
}
static int parent_ok(const char *abs) {
  char par[PATHCAP];
  strcpy(par, abs);
  char *sl = strrchr(par, '/');
  if (!sl) return -ENOENT;
  *sl = 0;
  if (!*par) return 0;
  struct dent *d = dent_find(par);
  if (!d) return -ENOENT;
  return S->inodes[d->ino].kind == K_DIR ? 0 : -ENOTDIR;
}
static int new_inode(int kind, int mode) {
  for (int i = 0; i < MAXINO; i++)
    if (S->inodes[i].kind == K_FREE) {
      struct inode *n = &S->inodes[i];
      n->kind = (uint32_t)kind;
      n->mode = (uint32_t)mode;
      n->size = 0;
      n->nlink = 1;
      n->lock_slot = -1;
      n->lock_fd = -1;
      memset(n->shared, 0, sizeof n->shared);
      return i;
    }
  return -ENOSPC;
}
static int add_dent(const char *abs, int ino) {
  for (int i = 0; i < MAXDENT; i++)
    if (!S->dents[i].used) {
      S->dents[i].used = 1;
      S->dents[i].ino = (uint32_t)ino;
      strcpy(S->dents[i].path, abs);
      return 0;
    }
  return -ENOSPC;
}
static struct vfd *vfd_of(int fd) {
  if (fd < VFD || fd >= VFD + MAXFD || !P->fds[fd - VFD].used) return 0;
  return &P->fds[fd - VFD];
}
/* would an flock through this descriptor have to wait? */
static int lock_taken(struct inode *n, int fd, int ex) {
  if (n->lock_slot >= 0 && !(n->lock_slot == slot_id && n->lock_fd == fd)) return 1;
  for (int i = 0; ex && i < NSLOT; i++)
    if (n->shared[i] & ~(i == slot_id ? 1u << (fd - VFD) : 0)) return 1;
  return 0;
}
static void unlock_fd(int fd) {
  struct inode *n = &S->inodes[P->fds[fd - VFD].ino];
  n->shared[slot_id] &= ~(1u << (fd - VFD));
  if (n->lock_slot == slot_id && n->lock_fd == fd) n->lock_slot = n->lock_fd = -1;
}

static long vopen(const char *path, int flags) {
  char abs[PATHCAP];
  int acc = flags & O_ACCMODE;
  int wr = acc != O_RDONLY;
  int r = resolve(path, !(flags & O_NOFOLLOW) && !((flags & O_CREAT) && (flags & O_EXCL)), abs);
  struct dent *d = r ? 0 : dent_find(abs);
  struct op o = begin(wr ? OP_OPEN_W : OP_OPEN_R, d ? (int)d->ino : -1, flags);
  /* while parked another process may have changed the tree */
  if (P->park) {
    r = resolve(path, !(flags & O_NOFOLLOW), abs);
    d = r ? 0 : dent_find(abs);
    o.ino = d ? (int)d->ino : -1;
  }
  if (failing(&o)) return end(&o, -o.f->arg);
  if (r) return end(&o, r);
  int ino;
  if (d) {
    if ((flags & O_CREAT) && (flags & O_EXCL)) return end(&o, -EEXIST);
    ino = (int)d->ino;
    struct inode *n = &S->inodes[ino];
    if (n->kind == K_LINK) return end(&o, -ELOOP);
    if (n->kind == K_DIR && wr) return end(&o, -EISDIR);
    if ((flags & O_DIRECTORY) && n->kind != K_DIR) return end(&o, -ENOTDIR);
    if (wr && !(n->mode & 2)) return end(&o, -EACCES);
    if (acc != O_WRONLY && !(n->mode & 4)) return end(&o, -EACCES);
    if ((flags & O_TRUNC) && wr) {
      if (S->disk_free >= 0) S->disk_free += n->size;
      n->size = 0;
    }
  } else {
    if (!(flags & O_CREAT)) return end(&o, -ENOENT);
    if ((r = parent_ok(abs))) return end(&o, r);
    ino = new_inode(K_FILE, 6);
    if (ino < 0) return end(&o, ino);
    if ((r = add_dent(abs, ino))) { S->inodes[ino].kind = K_FREE; return end(&o, r); }
    o.ino = ino;
  }
  for (int i = 0; i < MAXFD; i++)
    if (!P->fds[i].used) {
      P->fds[i].used = 1;
      P->fds[i].ino = (uint32_t)ino;
      P->fds[i].flags = (uint32_t)flags;
      P->fds[i].pos = 0;
      return end(&o, VFD + i);
    }
  return end(&o, -EMFILE);
}

static long vread(int fd, const struct iovec *iov, int cnt, long off) {
  struct vfd *v = vfd_of(fd);
  size_t want = 0;
  for (int i = 0; i < cnt; i++) want += iov[i].iov_len;
  struct op o = begin(OP_READ, v ? (int)v->ino : -1, (int)want);
  if (!v) return end(&o, -EBADF);
  struct inode *n = &S->inodes[v->ino];
  if (failing(&o)) return end(&o, -o.f->arg);
  if (n->kind == K_DIR) return end(&o, -EISDIR);
  if ((v->flags & O_ACCMODE) == O_WRONLY) return end(&o, -EBADF);
  uint32_t pos = off >= 0 ? (uint32_t)off : v->pos;
  size_t have = pos < n->size ? n->size - pos : 0;
  size_t m = want < have ? want : have;
  if (o.f && o.f->action == F_SHORT && m > 0) {
    size_t lim = o.f->arg < 1 ? 1 : (size_t)o.f->arg;
    if (m > lim) m = lim;
  }
  size_t done = 0;
  for (int i = 0; i < cnt && done < m; i++) {
    size_t k = iov[i].iov_len < m - done ? iov[i].iov_len : m - done;
    memcpy(iov[i].iov_base, n->data + pos + done, k);
    done += k;
  }
  if (off < 0) v->pos = pos + (uint32_t)m;
  return end(&o, (long)m);
}

static long vwrite(int fd, const struct iovec *iov, int cnt, long off) {
  size_t want = 0;
  for (int i = 0; i < cnt; i++) want += iov[i].iov_len;
  if (fd == 1 || fd == 2) {
    struct op o = begin(fd == 1 ? OP_OUT : OP_ERRW, -1, (int)want);
    if (failing(&o)) return end(&o, -o.f->arg);
    size_t m = want;
    if (o.f && o.f->action == F_SHORT && m > 0) {
      size_t lim = o.f->arg < 1 ? 1 : (size_t)o.f->arg;
      if (m > lim) m = lim;
    }
    size_t done = 0;
    uint32_t *len = &P->outlen[fd - 1];
    for (int i = 0; i < cnt && done < m; i++) {
      size_t k = iov[i].iov_len < m - done ? iov[i].iov_len : m - done;
      size_t room = OUTCAP - *len;
      size_t c = k < room ? k : room;
      memcpy(P->out[fd - 1] + *len, iov[i].iov_base, c);
      *len += (uint32_t)c;
      done += k;
    }
    return end(&o, (long)m);
  }
  struct vfd *v = vfd_of(fd);
  struct op o = begin(OP_WRITE, v ? (int)v->ino : -1, (int)want);
  if (!v || (v->flags & O_ACCMODE) == O_RDONLY) return end(&o, -EBADF);
  if (failing(&o)) return end(&o, -o.f->arg);
  struct inode *n = &S->inodes[v->ino];
  uint32_t pos = (v->flags & O_APPEND) ? n->size : off >= 0 ? (uint32_t)off : v->pos;
  size_t m = want;
  if (o.f && o.f->action == F_SHORT && o.f->arg < 0) return end(&o, 0); // nothing written, no error
  if (o.f && o.f->action == F_SHORT && m > 0) {
    size_t lim = o.f->arg < 1 ? 1 : (size_t)o.f->arg;
    if (m > lim) m = lim;
  }
  size_t grow = pos + m > n->size ? pos + m - n->size : 0;
  if (S->disk_free >= 0 && (int64_t)grow > S->disk_free) {
    size_t cut = grow - (size_t)S->disk_free;
    if (cut >= m) return end(&o, -ENOSPC);
    m -= cut;
    grow -= cut;
  }
  if (pos + m > FILECAP) return end(&o, -EFBIG);
  if (pos > n->size) memset(n->data + n->size, 0, pos - n->size);
  size_t done = 0;
  for (int i = 0; i < cnt && done < m; i++) {
    size_t k = iov[i].iov_len < m - done ? iov[i].iov_len : m - done;
    memcpy(n->data + pos + done, iov[i].iov_base, k);
    done += k;
  }
  if (pos + m > n->size) n->size = pos + (uint32_t)m;
  if (S->disk_free >= 0) S->disk_free -= (int64_t)grow;
  if (off < 0) v->pos = pos + (uint32_t)m;
  return end(&o, (long)m);
}

static void fill_stat(struct stat *st, int ino) {
  memset(st, 0, sizeof *st);
  struct inode *n = &S->inodes[ino];
  st->st_ino = (ino_t)(ino + 1);
  st->st_dev = 99;
  st->st_nlink = 1;
  st->st_size = n->size;
  st->st_blksize = 4096;
  st->st_blocks = (n->size + 511) / 512;
  st->st_mode = (n->kind == K_DIR ? S_IFDIR : n->kind == K_LINK ? S_IFLNK : S_IFREG) |
                (n->mode & 4 ? 0444 : 0) | (n->mode & 2 ? 0200 : 0) | (n->kind == K_DIR ? 0111 : 0);
  st->st_uid = st->st_gid = 1000;
}
static long vstat(const char *path, int fd, int follow, struct stat *st) {
  char abs[PATHCAP];
  int r = 0, ino = -1;
  if (path) {
    r = resolve(path, follow, abs);
    struct dent *d = r ? 0 : dent_find(abs);
    if (!r && !d) r = -ENOENT;
    if (d) ino = (int)d->ino;
  } else if (fd >= 0 && fd <= 2) {
    memset(st, 0, sizeof *st);
    st->st_mode = S_IFCHR | 0620;
    return 0;
  } else {
    struct vfd *v = vfd_of(fd);
    if (v) ino = (int)v->ino;
    else r = -EBADF;
  }
  struct op o = begin(OP_STAT, ino, 0);
  if (failing(&o)) return end(&o, -o.f->arg);
  if (r) return end(&o, r);
  fill_stat(st, ino);
  return end(&o, 0);
}

static long vtruncate(int ino, long len) {
  struct op o = begin(OP_TRUNC, ino, (int)len);
  if (failing(&o)) return end(&o, -o.f->arg);
  if (ino < 0) return end(&o, -EBADF);
  struct inode *n = &S->inodes[ino];
  if (len > FILECAP) return end(&o, -EFBIG);
  if ((uint32_t)len > n->size) {
    if (S->disk_free >= 0 && len - (long)n->size > S->disk_free) return end(&o, -ENOSPC);
    memset(n->data + n->size, 0, (size_t)len - n->size);
  }
  if (S->disk_free >= 0) S->disk_free += (int64_t)n->size - len;
  n->size = (uint32_t)len;
  return end(&o, 0);
}

/* ---- interposed functions ----------------------------------------------- */

static int is_dev_null(const char *p) { return p && (!strcmp(p, "/dev/null") || !strncmp(p, "/proc/", 6)); }

static int do_open(const char *path, int flags, int mode) {
  if (!P || is_dev_null(path)) return (int)ret(RAW(SYS_openat, AT_FDCWD, path, flags, mode));
  return (int)vopen(path, flags);
}
#define OPENBODY(PATH)                                   \
  int mode = 0;                                          \
  if (flags & (O_CREAT | O_TMPFILE)) {                   \
    va_list ap;                                          \
    va_start(ap, flags);                                 \
    mode = va_arg(ap, int);                              \
    va_end(ap);                                          \
  }                                                      \
  return do_open(PATH, flags, mode);
EXPORT int open(const char *path, int flags, ...) { OPENBODY(path) }
EXPORT int open64(const char *path, int flags, ...) { OPENBODY(path) }
EXPORT int openat(int d, const char *path, int flags, ...) {
  if (P && d != AT_FDCWD && path && path[0] != '/') return (int)unsupported("openat");
  OPENBODY(path)
}
EXPORT int openat64(int d, const char *path, int flags, ...) {
  if (P && d != AT_FDCWD && path && path[0] != '/') return (int)unsupported("openat64");
  OPENBODY(path)
}
EXPORT int creat(const char *p, mode_t m) { return do_open(p, O_CREAT | O_WRONLY | O_TRUNC, (int)m); }
EXPORT int creat64(const char *p, mode_t m) { return do_open(p, O_CREAT | O_WRONLY | O_TRUNC, (int)m); }

static int real_fd(int fd) { return !P || (fd > 2 && (fd < VFD || fd >= VFD + MAXFD)); }

EXPORT ssize_t read(int fd, void *b, size_t n) {
  if (real_fd(fd)) return ret(RAW(SYS_read, fd, b, n));
  if (fd == 0) return 0;
  struct iovec v = {b, n};
  return vread(fd, &v, 1, -1);
}
EXPORT ssize_t readv(int fd, const struct iovec *v, int c) {
  if (real_fd(fd)) return ret(RAW(SYS_readv, fd, v, c));
  if (fd == 0) return 0;
  return vread(fd, v, c, -1);
}
EXPORT ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
  if (real_fd(fd)) return ret(RAW(SYS_pread64, fd, b, n, o));
  struct iovec v = {b, n};
  return vread(fd, &v, 1, o);
}
EXPORT ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
EXPORT ssize_t write(int fd, const void *b, size_t n) {
  if (real_fd(fd)) return ret(RAW(SYS_write, fd, b, n));
  struct iovec v = {(void *)b, n};
  return vwrite(fd, &v, 1, -1);
}
EXPORT ssize_t writev(int fd, const struct iovec *v, int c) {
  if (real_fd(fd)) return ret(RAW(SYS_writev, fd, v, c));
  return vwrite(fd, v, c, -1);
}
EXPORT ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
  if (real_fd(fd)) return ret(RAW(SYS_pwrite64, fd, b, n, o));
  struct iovec v = {(void *)b, n};
  return vwrite(fd, &v, 1, o);
}
EXPORT ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
EXPORT int close(int fd) {
  if (real_fd(fd)) return (int)ret(RAW(SYS_close, fd));
  struct vfd *v = vfd_of(fd);
  if (!v) return 0;
  struct op o = begin(OP_CLOSE, (int)v->ino, 0);
  v->used = 0;
  unlock_fd(fd);
  return (int)end(&o, 0);
}
EXPORT off64_t lseek64(int fd, off64_t off, int wh) {
  if (real_fd(fd)) return ret(RAW(SYS_lseek, fd, off, wh));
  struct vfd *v = vfd_of(fd);
  if (!v) { errno = ESPIPE; return -1; }
  struct op o = begin(OP_SEEK, (int)v->ino, (int)off);
  if (failing(&o)) return end(&o, -o.f->arg);
  int64_t p = wh == SEEK_SET ? off : wh == SEEK_CUR ? (int64_t)v->pos + off : (int64_t)S->inodes[v->ino].size + off;
  if (p < 0) return end(&o, -EINVAL);
  v->pos = (uint32_t)p;
  return end(&o, p);
}
EXPORT off_t lseek(int fd, off_t off, int wh) { return lseek64(fd, off, wh); }

EXPORT int fstat64(int fd, struct stat64 *st) {
  if (real_fd(fd)) return (int)ret(RAW(SYS_fstat, fd, st));
  return (int)vstat(0, fd, 1, (struct stat *)st);
}
EXPORT int fstat(int fd, struct stat *st) { return fstat64(fd, (struct stat64 *)st); }
EXPORT int stat64(const char *p, struct stat64 *st) {
  if (!P || is_dev_null(p)) return (int)ret(RAW(SYS_stat, p, st));
  return (int)vstat(p, -1, 1, (struct stat *)st);
}
EXPORT int stat(const char *p, struct stat *st) { return stat64(p, (struct stat64 *)st); }
EXPORT int lstat64(const char *p, struct stat64 *st) {
  if (!P || is_dev_null(p)) return (int)ret(RAW(SYS_lstat, p, st));
  return (int)vstat(p, -1, 0, (struct stat *)st);
}
EXPORT int lstat(const char *p, struct stat *st) { return lstat64(p, (struct stat64 *)st); }
EXPORT int fstatat64(int d, const char *p, struct stat64 *st, int fl) {
  if (!P) return (int)ret(RAW(SYS_newfstatat, d, p, st, fl));
  if (p && !*p && (fl & AT_EMPTY_PATH)) return fstat64(d, st);
  return (int)vstat(p, -1, !(fl & AT_SYMLINK_NOFOLLOW), (struct stat *)st);
}
EXPORT int fstatat(int d, const char *p, struct stat *st, int fl) { return fstatat64(d, p, (struct stat64 *)st, fl); }
EXPORT int statx(int d, const char *p, int fl, unsigned mask, struct statx *x) {
  if (!P || (p && is_dev_null(p))) return (int)ret(RAW(SYS_statx, d, p, fl, mask, x));
  if (!x) { errno = EFAULT; return -1; }
  struct stat st;
  int r = p && *p ? (int)vstat(p, -1, !(fl & AT_SYMLINK_NOFOLLOW), &st) : (int)vstat(0, d, 1, &st);
  if (r < 0) return -1;
  memset(x, 0, sizeof *x);
  x->stx_mask = STATX_BASIC_STATS;
  x->stx_ino = st.st_ino;
  x->stx_nlink = 1;
  x->stx_size = (uint64_t)st.st_size;
  x->stx_mode = (uint16_t)st.st_mode;
  x->stx_blksize = 4096;
  x->stx_blocks = (uint64_t)st.st_blocks;
  x->stx_uid = x->stx_gid = 1000;
  return 0;
}
EXPORT int access(const char *p, int m) {
  if (!P) return (int)ret(RAW(SYS_access, p, m));
  struct stat st;
  if (vstat(p, -1, 1, &st) < 0) return -1;
  if (((m & R_OK) && !(st.st_mode & 0400)) || ((m & W_OK) && !(st.st_mode & 0200))) { errno = EACCES; return -1; }
  return 0;
}
EXPORT int faccessat(int d, const char *p, int m, int fl) { (void)d; (void)fl; return access(p, m); }

EXPORT int ftruncate64(int fd, off64_t len) {
  if (real_fd(fd)) return (int)ret(RAW(SYS_ftruncate, fd, len));
  struct vfd *v = vfd_of(fd);
  if (v && (v->flags & O_ACCMODE) == O_RDONLY) { errno = EINVAL; return -1; }
  return (int)vtruncate(v ? (int)v->ino : -1, len);
}
EXPORT int ftruncate(int fd, off_t len) { return ftruncate64(fd, len); }
EXPORT int truncate64(const char *p, off64_t len) {
  if (!P) return (int)ret(RAW(SYS_truncate, p, len));
  char abs[PATHCAP];
  int r = resolve(p, 1, abs);
  struct dent *d = r ? 0 : dent_find(abs);
  if (!d) { errno = r ? -r : ENOENT; return -1; }
  return (int)vtruncate((int)d->ino, len);
}
EXPORT int truncate(const char *p, off_t len) { return truncate64(p, len); }
EXPORT int fallocate64(int fd, int m, off64_t off, off64_t len) { (void)fd; (void)m; (void)off; (void)len; if (P) { errno = EOPNOTSUPP; return -1; } return (int)ret(RAW(SYS_fallocate, fd, m, off, len)); }

static int dosync(int fd, long nr) {
  if (real_fd(fd)) return (int)ret(RAW(nr, fd));
  struct vfd *v = vfd_of(fd);
  struct op o = begin(OP_SYNC, v ? (int)v->ino : -1, 0);
  if (failing(&o)) return (int)end(&o, -o.f->arg);
  return (int)end(&o, v ? 0 : -EINVAL);
}
EXPORT int fsync(int fd) { return dosync(fd, SYS_fsync); }
EXPORT int fdatasync(int fd) { return dosync(fd, SYS_fdatasync); }
EXPORT void sync(void) { if (!P) RAW(SYS_sync, 0); }
EXPORT int posix_fadvise64(int fd, off64_t a, off64_t b, int c) { (void)fd; (void)a; (void)b; (void)c; return 0; }

static int dorename(const char *a, const char *b) {
  char pa[PATHCAP], pb[PATHCAP];
  int r1 = resolve(a, 0, pa), r2 = resolve(b, 0, pb);
  struct dent *da = r1 ? 0 : dent_find(pa);
  struct op o = begin(OP_RENAME, da ? (int)da->ino : -1, 0);
  if (failing(&o)) return (int)end(&o, -o.f->arg);
  if (r1 || r2) return (int)end(&o, r1 ? r1 : r2);
  da = dent_find(pa);
  if (!da) return (int)end(&o, -ENOENT);
  if (S->inodes[da->ino].kind == K_DIR) return (int)end(&o, -EPERM);
  int r = parent_ok(pb);
  if (r) return (int)end(&o, r);
  struct dent *db = dent_find(pb);
  if (db == da) return (int)end(&o, 0);
  if (db) {
    if (S->inodes[db->ino].kind == K_DIR) return (int)end(&o, -EISDIR);
    S->inodes[db->ino].nlink = 0;
    db->used = 0;
  }
  strcpy(da->path, pb);
  return (int)end(&o, 0);
}
EXPORT int rename(const char *a, const char *b) {
  if (!P) return (int)ret(RAW(SYS_rename, a, b));
  return dorename(a, b);
}
EXPORT int renameat(int x, const char *a, int y, const char *b) {
  if (!P) return (int)ret(RAW(SYS_renameat, x, a, y, b));
  return dorename(a, b);
}
EXPORT int renameat2(int x, const char *a, int y, const char *b, unsigned f) {
  if (!P) return (int)ret(RAW(SYS_renameat2, x, a, y, b, f));
  return dorename(a, b);
}
EXPORT int unlink(const char *p) {
  if (!P) return (int)ret(RAW(SYS_unlink, p));
  char abs[PATHCAP];
  int r = resolve(p, 0, abs);
  struct dent *d = r ? 0 : dent_find(abs);
  struct op o = begin(OP_UNLINK, d ? (int)d->ino : -1, 0);
  if (failing(&o)) return (int)end(&o, -o.f->arg);
  if (r) return (int)end(&o, r);
  d = dent_find(abs);
  if (!d) return (int)end(&o, -ENOENT);
  if (S->inodes[d->ino].kind == K_DIR) return (int)end(&o, -EISDIR);
  S->inodes[d->ino].nlink = 0;
  d->used = 0;
  return (int)end(&o, 0);
}
EXPORT int unlinkat(int d, const char *p, int f) { (void)d; (void)f; if (!P) return (int)ret(RAW(SYS_unlinkat, d, p, f)); return unlink(p); }
EXPORT int remove(const char *p) { if (!P) return (int)ret(RAW(SYS_unlink, p)); return unlink(p); }
EXPORT int mkdir(const char *p, mode_t m) {
  if (!P) return (int)ret(RAW(SYS_mkdir, p, m));
  char abs[PATHCAP];
  int r = resolve(p, 0, abs);
  struct op o = begin(OP_MKDIR, -1, 0);
  if (failing(&o)) return (int)end(&o, -o.f->arg);
  if (!r && dent_find(abs)) r = -EEXIST;
  if (!r) r = parent_ok(abs);
  if (r) return (int)end(&o, r);
  int ino = new_inode(K_DIR, 6);
  if (ino < 0) return (int)end(&o, ino);
  return (int)end(&o, add_dent(abs, ino));
}
EXPORT int rmdir(const char *p) { if (!P) return (int)ret(RAW(SYS_rmdir, p)); return (int)unsupported("rmdir"); }
EXPORT int link(const char *a, const char *b) { if (!P) return (int)ret(RAW(SYS_link, a, b)); return (int)unsupported("link"); }
EXPORT int linkat(int x, const char *a, int y, const char *b, int f) { if (!P) return (int)ret(RAW(SYS_linkat, x, a, y, b, f)); return (int)unsupported("linkat"); }
EXPORT int symlink(const char *a, const char *b) { if (!P) return (int)ret(RAW(SYS_symlink, a, b)); return (int)unsupported("symlink"); }
EXPORT int chmod(const char *p, mode_t m) { if (!P) return (int)ret(RAW(SYS_chmod, p, m)); return 0; }
EXPORT int fchmod(int fd, mode_t m) { if (real_fd(fd)) return (int)ret(RAW(SYS_fchmod, fd, m)); return 0; }
EXPORT int chown(const char *p, uid_t u, gid_t g) { if (!P) return (int)ret(RAW(SYS_chown, p, u, g)); return 0; }
EXPORT int fchown(int fd, uid_t u, gid_t g) { if (real_fd(fd)) return (int)ret(RAW(SYS_fchown, fd, u, g)); return 0; }
EXPORT int utimensat(int d, const char *p, const struct timespec *t, int f) { if (!P) return (int)ret(RAW(SYS_utimensat, d, p, t, f)); return 0; }
EXPORT int futimens(int fd, const struct timespec *t) { if (real_fd(fd)) return (int)ret(RAW(SYS_utimensat, fd, 0, t, 0)); return 0; }
EXPORT ssize_t readlink(const char *p, char *b, size_t n) {
  if (!P || is_dev_null(p)) return ret(RAW(SYS_readlink, p, b, n));
  char abs[PATHCAP];
  int r = resolve(p, 0, abs);
  struct dent *d = r ? 0 : dent_find(abs);
  struct op o = begin(OP_STAT, d ? (int)d->ino : -1, 0);
  if (failing(&o)) return end(&o, -o.f->arg);
  if (!d) return end(&o, r ? r : -ENOENT);
  struct inode *l = &S->inodes[d->ino];
  if (l->kind != K_LINK) return end(&o, -EINVAL);
  size_t m = l->size < n ? l->size : n;
  memcpy(b, l->data, m);
  return end(&o, (long)m);
}
EXPORT ssize_t readlinkat(int d, const char *p, char *b, size_t n) { if (!P) return ret(RAW(SYS_readlinkat, d, p, b, n)); return readlink(p, b, n); }
EXPORT char *realpath(const char *p, char *out) {
  if (!P) {
    char *(*real)(const char *, char *) = (char *(*)(const char *, char *))dlsym(RTLD_NEXT, "realpath");
    return real(p, out);
  }
  char abs[PATHCAP];
  int r = resolve(p, 1, abs);
  struct dent *d = r ? 0 : dent_find(abs);
  struct op o = begin(OP_STAT, d ? (int)d->ino : -1, 0);
  if (failing(&o)) { end(&o, -o.f->arg); return 0; }
  if (!r && !d && strcmp(abs, "/")) r = -ENOENT;
  if (r) { end(&o, r); return 0; }
  end(&o, 0);
  if (!out) return strdup(abs);
  return strcpy(out, abs);
}
EXPORT int chdir(const char *p) {
  if (!P) return (int)ret(RAW(SYS_chdir, p));
  char abs[PATHCAP];
  int r = resolve(p, 1, abs);
  struct dent *d = r ? 0 : dent_find(abs);
  struct op o = begin(OP_CHDIR, d ? (int)d->ino : -1, 0);
  if (failing(&o)) return (int)end(&o, -o.f->arg);
  if (r) return (int)end(&o, r);
  if (strcmp(abs, "/")) {
    if (!d) return (int)end(&o, -ENOENT);
    if (S->inodes[d->ino].kind != K_DIR) return (int)end(&o, -ENOTDIR);
  }
  strcpy(P->cwd, abs);
  return (int)end(&o, 0);
}
EXPORT int fchdir(int fd) { if (real_fd(fd)) return (int)ret(RAW(SYS_fchdir, fd)); return (int)unsupported("fchdir"); }
EXPORT char *getcwd(char *b, size_t n) {
  if (!P) {
    char *(*real)(char *, size_t) = (char *(*)(char *, size_t))dlsym(RTLD_NEXT, "getcwd");
    return real(b, n);
  }
  struct op o = begin(OP_GETCWD, -1, 0);
  if (failing(&o)) { end(&o, -o.f->arg); return 0; }
  size_t need = strlen(P->cwd) + 1;
  if (b && n < need) { end(&o, -ERANGE); return 0; }
  if (!b) b = malloc(n > need ? n : need);
  strcpy(b, P->cwd);
  end(&o, 0);
  return b;
}
EXPORT int flock(int fd, int how) {
  if (real_fd(fd)) return (int)ret(RAW(SYS_flock, fd, how));
  struct vfd *v = vfd_of(fd);
  if (!v) { errno = EBADF; return -1; }
  struct inode *n = &S->inodes[v->ino];
  struct op o = begin(OP_LOCK, (int)v->ino, how);
  if (failing(&o)) return (int)end(&o, -o.f->arg);
  if (how & LOCK_UN) { unlock_fd(fd); return (int)end(&o, 0); }
  int ex = (how & ~LOCK_NB) == LOCK_EX;
  while (lock_taken(n, fd, ex)) {
    if (how & LOCK_NB) return (int)end(&o, -EWOULDBLOCK);
    if (!P->park) { /* the holder is this very process: a self-deadlock */
      P->killed = 2;
      die_now(138);
    }
    unlock_fd(fd); /* a conversion gives up the old lock first */
    P->want_ex = (uint32_t)ex;
    P->want_bit = 1u << (fd - VFD);
    P->want_ino = v->ino + 1;
    park_here();
    P->want_ino = 0;
  }
  unlock_fd(fd);
  if (ex) {
    n->lock_slot = slot_id;
    n->lock_fd = fd;
  } else {
    n->shared[slot_id] |= 1u << (fd - VFD);
  }
  return (int)end(&o, 0);
}
EXPORT int fcntl(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  long a = va_arg(ap, long);
  va_end(ap);
  if (real_fd(fd) || fd <= 2) return (int)ret(RAW(SYS_fcntl, fd, cmd, a));
  struct vfd *v = vfd_of(fd);
  if (!v) { errno = EBADF; return -1; }
  if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) {
    for (int i = 0; i < MAXFD; i++)
      if (!P->fds[i].used) { P->fds[i] = *v; return VFD + i; }
    errno = EMFILE;
    return -1;
  }
  if (cmd == F_GETFL) return (int)v->flags;
  return 0;
}
EXPORT int fcntl64(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  long a = va_arg(ap, long);
  va_end(ap);
  return fcntl(fd, cmd, a);
}
EXPORT int dup(int fd) {
  if (real_fd(fd) || fd <= 2) return (int)ret(RAW(SYS_dup, fd));
  return fcntl(fd, F_DUPFD, 0L);
}
EXPORT int ioctl(int fd, unsigned long req, ...) {
  va_list ap;
  va_start(ap, req);
  void *a = va_arg(ap, void *);
  va_end(ap);
  if (real_fd(fd)) return (int)ret(RAW(SYS_ioctl, fd, req, a));
  struct op o = begin(OP_IOCTL, -1, fd);
  if (failing(&o)) return (int)end(&o, -o.f->arg);
  if (fd <= 2 && P->tty_cols && req == TIOCGWINSZ) {
    struct winsize *w = a;
    memset(w, 0, sizeof *w);
    w->ws_col = (unsigned short)P->tty_cols;
    w->ws_row = 24;
    return (int)end(&o, 0);
  }
  return (int)end(&o, -ENOTTY);
}
EXPORT int isatty(int fd) {
  if (real_fd(fd)) { char t[64]; return RAW(SYS_ioctl, fd, 0x5401, t) == 0; }
  if (fd <= 2 && P->tty_cols) return 1;
  errno = ENOTTY;
  return 0;
}
EXPORT ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t n, unsigned f) {
  if (real_fd(a) && real_fd(c)) return ret(RAW(SYS_copy_file_range, a, b, c, d, n, f));
  errno = EXDEV;
  return -1;
}
EXPORT ssize_t sendfile64(int a, int b, off64_t *o, size_t n) {
  if (real_fd(a) && real_fd(b)) return ret(RAW(SYS_sendfile, a, b, o, n));
  errno = EINVAL;
  return -1;
}
EXPORT ssize_t splice(int a, off64_t *b, int c, off64_t *d, size_t n, unsigned f) {
  if (real_fd(a) && real_fd(c)) return ret(RAW(SYS_splice, a, b, c, d, n, f));
  errno = EINVAL;
  return -1;
}
EXPORT void *opendir(const char *p) {
  if (!P) {
    void *(*real)(const char *) = (void *(*)(const char *))dlsym(RTLD_NEXT, "opendir");
    return real(p);
  }
  unsupported("opendir");
  return 0;
}
EXPORT void *mmap64(void *a, size_t n, int pr, int fl, int fd, off64_t off) {
  if (P && !(fl & MAP_ANONYMOUS) && fd >= VFD && fd < VFD + MAXFD) { errno = ENODEV; return MAP_FAILED; }
  return (void *)ret(RAW(SYS_mmap, a, n, pr, fl, fd, off));
}
EXPORT int poll(struct pollfd *f, nfds_t n, int t) {
  if (!P) return (int)ret(RAW(SYS_poll, f, n, t));
  for (nfds_t i = 0; i < n; i++) f[i].revents = 0;
  return 0;
}

/* ---- clock, entropy ------------------------------------------------------ */

static int64_t now_ns(void) {
  uint32_t k = P->nclock++;
  int64_t t = P->clock_base_ns + (int64_t)k * P->clock_tick_ns;
  if (P->jump_ns && k >= P->jump_at) t += P->jump_ns;
  return t;
}
EXPORT int clock_gettime(clockid_t id, struct timespec *ts) {
  if (!P) return (int)ret(RAW(SYS_clock_gettime, id, ts));
  struct op o = begin(OP_CLOCK, -1, (int)id);
  /* only the wall clock can be set; the others run on from boot */
  int wall = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI;
  int64_t t = wall ? now_ns() : 1000000000000ll + (int64_t)P->nops * 1000;
  ts->tv_sec = t >= 0 ? t / 1000000000 : -((-t + 999999999) / 1000000000);
  ts->tv_nsec = t - ts->tv_sec * 1000000000;
  return (int)end(&o, 0);
}
EXPORT time_t time(time_t *p) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (p) *p = ts.tv_sec;
  return ts.tv_sec;
}
struct timezone;
EXPORT int gettimeofday(struct timeval *restrict tv, void *restrict z) {
  (void)z;
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
static int vsleep(const struct timespec *t) {
  P->clock_base_ns += (int64_t)t->tv_sec * 1000000000 + t->tv_nsec;
  return 0;
}
EXPORT int nanosleep(const struct timespec *t, struct timespec *r) {
  if (!P) return (int)ret(RAW(SYS_nanosleep, t, r));
  return vsleep(t);
}
EXPORT int clock_nanosleep(clockid_t c, int fl, const struct timespec *t, struct timespec *r) {
  if (!P) return (int)-RAW(SYS_clock_nanosleep, c, fl, t, r);
  if (fl & TIMER_ABSTIME) return 0;
  return vsleep(t);
}

static uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
EXPORT ssize_t getrandom(void *b, size_t n, unsigned fl) {
  if (!P) return ret(RAW(SYS_getrandom, b, n, fl));
  struct op o = begin(OP_RAND, -1, (int)n);
  for (size_t i = 0; i < n; i++) ((uint8_t *)b)[i] = (uint8_t)(mix(P->entropy ^ mix(P->nrand++)) >> 24);
  return end(&o, (long)n);
}
EXPORT int getentropy(void *b, size_t n) { return getrandom(b, n, 0) == (ssize_t)n ? 0 : -1; }

/* process numbers are the simulator's too: they appear in panic messages */
EXPORT pid_t getpid(void) { return P ? 4000 + slot_id : (pid_t)RAW(SYS_getpid, 0); }
EXPORT pid_t gettid(void) { return P ? 4000 + slot_id : (pid_t)RAW(SYS_gettid, 0); }

EXPORT long syscall(long nr, ...) {
  va_list ap;
  va_start(ap, nr);
  long a[6];
  for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
  va_end(ap);
  if (P) switch (nr) {
    case SYS_getrandom: return getrandom((void *)a[0], (size_t)a[1], (unsigned)a[2]);
    case SYS_clock_gettime: return clock_gettime((clockid_t)a[0], (struct timespec *)a[1]);
    case SYS_statx: return statx((int)a[0], (const char *)a[1], (int)a[2], (unsigned)a[3], (struct statx *)a[4]);
    case SYS_renameat2: return renameat2((int)a[0], (const char *)a[1], (int)a[2], (const char *)a[3], (unsigned)a[4]);
    case SYS_copy_file_range: errno = EXDEV; return -1;
    case SYS_openat: return do_open((const char *)a[1], (int)a[2], (int)a[3]);
    case SYS_write: return write((int)a[0], (const void *)a[1], (size_t)a[2]);
    case SYS_read: return read((int)a[0], (void *)a[1], (size_t)a[2]);
    case SYS_gettid: case SYS_getpid: return getpid();
    case SYS_futex: break;
    default: return unsupported("syscall");
    }
  return ret(RAW_(nr, a[0], a[1], a[2], a[3], a[4], a[5], 0));
}

/* ---- fork server ---------------------------------------------------------- */

typedef int (*main_fn)(int, char **, char **);
typedef int (*start_fn)(main_fn, int, char **, void (*)(void), void (*)(void), void (*)(void), void *);

static char *child_vec[512];

EXPORT int __libc_start_main(main_fn mainp, int argc, char **argv, void (*init)(void), void (*fini)(void),
                             void (*rtld_fini)(void), void *stack_end) {
  start_fn real = (start_fn)dlsym(RTLD_NEXT, "__libc_start_main");
  char *shm_s = getenv("SIM_SHM_FD"), *slot_s = getenv("SIM_SLOT"), *cmd_s = getenv("SIM_CMD_FD"),
       *rsp_s = getenv("SIM_RSP_FD");
  if (!shm_s || !slot_s || !cmd_s || !rsp_s) return real(mainp, argc, argv, init, fini, rtld_fini, stack_end);
  int shm_fd = atoi(shm_s), cmd = atoi(cmd_s), rsp = atoi(rsp_s);
  slot_id = atoi(slot_s);
  long m = RAW(SYS_mmap, 0, sizeof(struct shm), PROT_READ | PROT_WRITE, MAP_SHARED, shm_fd, 0);
  if (m < 0 && m > -4096) die_now(121);
  S = (struct shm *)m;
  if (S->magic != SIM_MAGIC || S->shm_size != sizeof(struct shm)) die_now(122);
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  struct slot *sl = &S->slots[slot_id];
  char b = 'R';
  RAW(SYS_write, rsp, &b, 1);
  for (;;) {
    if (RAW(SYS_read, cmd, &b, 1) != 1) die_now(0);
    pid_t pid = fork();
    if (pid < 0) die_now(123);
    if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      RAW(SYS_close, cmd);
      RAW(SYS_close, rsp);
      RAW(SYS_close, shm_fd);
      struct rlimit rl = {10, 10}; /* a run needs about a millisecond */
      setrlimit(RLIMIT_CPU, &rl);
      rl.rlim_cur = rl.rlim_max = 0;
      setrlimit(RLIMIT_CORE, &rl);
      rl.rlim_cur = rl.rlim_max = 2ul << 30;
      setrlimit(RLIMIT_AS, &rl);
      int k = 0;
      char *p = sl->args;
      for (uint32_t i = 0; i < sl->argc && k < 200; i++, p += strlen(p) + 1) child_vec[k++] = p;
      int ac = k;
      child_vec[k++] = 0;
      p = sl->envs;
      for (uint32_t i = 0; i < sl->envc && k < 400; i++, p += strlen(p) + 1) child_vec[k++] = p;
      child_vec[k++] = 0;
      environ = child_vec + ac + 1;
      P = sl;
      return real(mainp, ac, child_vec, init, fini, rtld_fini, stack_end);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
    sl->status = st;
    for (int i = 0; i < MAXINO; i++) {
      if (S->inodes[i].lock_slot == slot_id) S->inodes[i].lock_slot = -1;
      S->inodes[i].shared[slot_id] = 0;
    }
    __atomic_store_n(&sl->state, ST_ENDED, __ATOMIC_SEQ_CST);
    futex_wake(&sl->state);
    RAW(SYS_write, rsp, &b, 1);
  }
}
