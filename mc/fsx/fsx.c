/* File system interposer, preloaded into the interpreter.
 *
 * Every call on a path below `root` (or on a descriptor opened through one) whose kind is in `mask` is a numbered *point*:
 *   LOG    record it
 *   CRASH  at point k the process ends, as if it was killed: before the call, or, for writes, after a part of the data
 *   FAULT  at point k (or from k on for that kind) the call fails with an errno, or transfers only a part
 *   SCHED  before each point, a participating thread or process waits until the controller lets it go on
 * The control block is shared memory, so that controller and participants may be different processes.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <dirent.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { K_OPEN_R, K_OPEN_W, K_CREATE, K_READ, K_WRITE, K_CLOSE_R, K_CLOSE_W, K_RENAME, K_UNLINK, K_MKDIR, K_RMDIR, K_CHMOD, K_LINK,
       K_TRUNC, K_STAT, K_OPENDIR, K_MMAP, K_SYNC, K_UTIME, K_START, K_NUM };
enum { OFF, LOG, CRASH, FAULT, SCHED };
enum { RUNNING = 1, WAITING, DONE };
#define MAXFD 16384
#define MAXLOG 4096
#define PATHLEN 400
#define MAXPART 8

struct entry { int kind, part, fault, pad; long size; char path[PATHLEN]; };
struct part { volatile int state; int kind; long size; char path[PATHLEN]; sem_t go; };
struct ctl {
    volatile int mode; int persistent;
    unsigned long mask;
    long k, partial;            /* partial: bytes to transfer at point k, -1: none */
    int err, fired_kind;
    volatile long counter, fired;
    char root[PATHLEN]; int rootlen;
    volatile int nlog, nparts;
    sem_t ctrl;
    struct part parts[MAXPART];
    struct entry log[MAXLOG];
};

static struct ctl *C;
static __thread int me = -1;
static __thread int inside;
static char fdpath[MAXFD][PATHLEN];
static char fdmode[MAXFD];          /* 0: not tracked, 1: reading, 2: writing */
static int (*gil_check)(void);

/* ------------------------------------------------------------ control, called through ctypes */
int fsx_new(const char *root) {
    if (!gil_check) gil_check = (int (*)(void))dlsym(RTLD_DEFAULT, "PyGILState_Check");
    struct ctl *c = mmap(NULL, sizeof *c, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (c == MAP_FAILED) return -1;
    if (strlen(root) >= PATHLEN) return -2;
    strcpy(c->root, root);
    c->rootlen = strlen(root);
    sem_init(&c->ctrl, 1, 0);
    for (int i = 0; i < MAXPART; i++) sem_init(&c->parts[i].go, 1, 0);
    memset(fdmode, 0, sizeof fdmode);
    struct ctl *old = C;
    C = c;
    if (old) munmap(old, sizeof *old);      /* nobody uses it: one unit is one process */
    return 0;
}
void fsx_arm(int mode, unsigned long mask, long k, int err, long partial, int persistent) {
    C->mode = OFF; C->mask = mask; C->k = k; C->err = err; C->partial = partial; C->persistent = persistent;
    C->counter = 0; C->fired = -1; C->fired_kind = -1; C->nlog = 0;
    C->mode = mode;
}
long fsx_disarm(void) { C->mode = OFF; return C->counter; }
long fsx_fired(void) { return C->fired; }
int fsx_fired_kind(void) { return C->fired_kind; }
int fsx_nlog(void) { return C->nlog; }
int fsx_log_kind(int i) { return C->log[i].kind; }
int fsx_log_part(int i) { return C->log[i].part; }
long fsx_log_size(int i) { return C->log[i].size; }
const char *fsx_log_path(int i) { return C->log[i].path; }

void fsx_sched_reset(int n) {
    while (!sem_trywait(&C->ctrl)) ;
    for (int i = 0; i < MAXPART; i++) { while (!sem_trywait(&C->parts[i].go)) ; C->parts[i].state = i < n ? RUNNING : DONE; C->parts[i].path[0] = 0; }
    C->nparts = n;
}
int fsx_state(int i) { return C->parts[i].state; }
int fsx_part_kind(int i) { return C->parts[i].kind; }
long fsx_part_size(int i) { return C->parts[i].size; }
const char *fsx_part_path(int i) { return C->parts[i].path; }
void fsx_go(int i) { C->parts[i].state = RUNNING; sem_post(&C->parts[i].go); }
/* wait until participant i is not running; :return: its state, RUNNING after the timeout */
int fsx_wait(int i, int ms) {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    t.tv_sec += ms / 1000; t.tv_nsec += (ms % 1000) * 1000000L;
    if (t.tv_nsec >= 1000000000L) { t.tv_nsec -= 1000000000L; t.tv_sec++; }
    while (C->parts[i].state == RUNNING)
        if (sem_timedwait(&C->ctrl, &t) && errno == ETIMEDOUT) break;
    return C->parts[i].state;
}
static void wait_turn(int kind, const char *path, long size) {
    struct part *p = &C->parts[me];
    p->kind = kind; p->size = size;
    snprintf(p->path, PATHLEN, "%s", path);
    p->state = WAITING;
    sem_post(&C->ctrl);
    while (sem_wait(&p->go) && errno == EINTR) ;
}
void fsx_enter(int i) { me = i; wait_turn(K_START, "", 0); }
void fsx_leave(void) { if (me >= 0) { C->parts[me].state = DONE; me = -1; sem_post(&C->ctrl); } }

/* ------------------------------------------------------------ points */
#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

static int under(const char *p) {
    return C && C->mode != OFF && p && !strncmp(p, C->root, C->rootlen) && (p[C->rootlen] == '/' || !p[C->rootlen]);
}
static int track(const char *p) {
    return C && p && !strncmp(p, C->root, C->rootlen) && (p[C->rootlen] == '/' || !p[C->rootlen]);
}
static const char *at(int dirfd, const char *p, char *buf) {
    if (!p || *p == '/' || dirfd == AT_FDCWD) return p;
    if (dirfd >= 0 && dirfd < MAXFD && fdmode[dirfd]) {
        snprintf(buf, PATHLEN, "%s/%s", fdpath[dirfd], p);
        return buf;
    }
    return p;
}
/* :return: 0 do it, 1 fail with errno, 2 transfer C->partial bytes only (then crash in mode CRASH) */
static int point(int kind, const char *path, long size) {
    if (!C || C->mode == OFF || inside || !(C->mask >> kind & 1)) return 0;
    const char *rel = path + (strlen(path) > (size_t)C->rootlen ? C->rootlen + 1 : C->rootlen);
    long n;
    int r = 0;
    if (C->mode == SCHED) {
        if (me < 0 || (gil_check && gil_check())) return 0;
        wait_turn(kind, rel, size);
    }
    n = __sync_fetch_and_add(&C->counter, 1);
    if (C->mode == CRASH) {
        if (n == C->k) {
            if (C->partial < 0) { C->fired = n; _exit(77); }
            r = 2;
        }
    } else if (C->mode == FAULT) {
        if (n == C->k || (C->persistent && C->fired >= 0 && C->fired_kind == kind)) {
            if (C->fired < 0) { C->fired = n; C->fired_kind = kind; }
            r = C->partial >= 0 ? 2 : 1;
        }
    }
    int l = __sync_fetch_and_add(&C->nlog, 1);
    if (l < MAXLOG) {
        struct entry *e = &C->log[l];
        e->kind = kind; e->part = me; e->fault = r; e->size = size;
        snprintf(e->path, PATHLEN, "%s", rel);
    } else C->nlog = MAXLOG;
    if (r == 1) errno = C->err;
    return r;
}
#define SIMPLE(kind, path, call) do { if (under(path)) { int pt = point(kind, path, 0); if (pt == 1) return -1; } return call; } while (0)

static void remember(int fd, const char *path, int flags) {
    if (fd >= 0 && fd < MAXFD && track(path)) {
        strncpy(fdpath[fd], path, PATHLEN - 1);
        fdmode[fd] = (flags & O_ACCMODE) == O_RDONLY ? 1 : 2;
    } else if (fd >= 0 && fd < MAXFD) fdmode[fd] = 0;
}
static int okind(int flags) {
    return flags & O_CREAT ? K_CREATE : (flags & O_ACCMODE) == O_RDONLY ? K_OPEN_R : K_OPEN_W;
}
static int tracked(int fd) { return C && C->mode != OFF && fd >= 0 && fd < MAXFD && fdmode[fd]; }

int open64(const char *path, int flags, ...) {
    REAL(open64);
    va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap);
    if (under(path) && point(okind(flags), path, 0) == 1) return -1;
    int fd = real(path, flags, m);
    remember(fd, path, flags);
    return fd;
}
int open(const char *path, int flags, ...) {
    REAL(open);
    va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap);
    if (under(path) && point(okind(flags), path, 0) == 1) return -1;
    int fd = real(path, flags, m);
    remember(fd, path, flags);
    return fd;
}
int openat64(int dirfd, const char *path, int flags, ...) {
    REAL(openat64);
    va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap);
    char buf[PATHLEN]; const char *p = at(dirfd, path, buf);
    if (under(p) && point(okind(flags), p, 0) == 1) return -1;
    int fd = real(dirfd, path, flags, m);
    remember(fd, p, flags);
    return fd;
}
int close(int fd) {
    REAL(close);
    if (!tracked(fd)) { if (fd >= 0 && fd < MAXFD) fdmode[fd] = 0; return real(fd); }
    int pt = point(fdmode[fd] == 2 ? K_CLOSE_W : K_CLOSE_R, fdpath[fd], 0);
    if (pt == 1 && C->partial == -2 && fdmode[fd] == 2) {       /* what was written last is lost */
        struct stat st;
        if (!fstat(fd, &st) && st.st_size) { static int (*tr)(int, off_t); if (!tr) tr = (int (*)(int, off_t))dlsym(RTLD_NEXT, "ftruncate"); if (tr(fd, st.st_size / 2)) {} }
    }
    fdmode[fd] = 0;
    int r = real(fd);
    if (pt == 1) { errno = C->err; return -1; }         /* the descriptor is gone nonetheless */
    return r;
}
static void died(int pt) { if (pt == 2 && C->mode == CRASH) { C->fired = C->k; _exit(77); } }

ssize_t write(int fd, const void *b, size_t n) {
    REAL(write);
    if (!tracked(fd)) return real(fd, b, n);
    int pt = point(K_WRITE, fdpath[fd], n);
    if (pt == 1) return -1;
    if (pt == 2 && C->partial < (long)n) n = C->partial;
    ssize_t r = n ? real(fd, b, n) : 0;
    died(pt);
    return r;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    REAL(pwrite64);
    if (!tracked(fd)) return real(fd, b, n, o);
    int pt = point(K_WRITE, fdpath[fd], n);
    if (pt == 1) return -1;
    if (pt == 2 && C->partial < (long)n) n = C->partial;
    ssize_t r = n ? real(fd, b, n, o) : 0;
    died(pt);
    return r;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(writev);
    if (!tracked(fd)) return real(fd, v, c);
    size_t n = 0;
    for (int i = 0; i < c; i++) n += v[i].iov_len;
    int pt = point(K_WRITE, fdpath[fd], n);
    if (pt == 1) return -1;
    ssize_t r = real(fd, v, pt == 2 ? c / 2 : c);
    died(pt);
    return r;
}
ssize_t sendfile64(int out, int in, off64_t *o, size_t n) {
    static ssize_t (*real)(int, int, off64_t *, size_t);
    if (!real) real = (ssize_t (*)(int, int, off64_t *, size_t))dlsym(RTLD_NEXT, "sendfile64");
    if (!tracked(out)) return real(out, in, o, n);
    int pt = point(K_WRITE, fdpath[out], n);
    if (pt == 1) return -1;
    if (pt == 2 && C->partial < (long)n) n = C->partial;
    ssize_t r = n ? real(out, in, o, n) : 0;
    died(pt);
    return r;
}
ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned f) {
    REAL(copy_file_range);
    if (!tracked(out)) return real(in, oi, out, oo, n, f);
    int pt = point(K_WRITE, fdpath[out], n);
    if (pt == 1) return -1;
    if (pt == 2 && C->partial < (long)n) n = C->partial;
    ssize_t r = n ? real(in, oi, out, oo, n, f) : 0;
    died(pt);
    return r;
}
ssize_t read(int fd, void *b, size_t n) {
    REAL(read);
    if (!tracked(fd)) return real(fd, b, n);
    int pt = point(K_READ, fdpath[fd], n);
    if (pt == 1) return -1;
    if (pt == 2 && C->partial < (long)n && C->partial > 0) n = C->partial;
    return real(fd, b, n);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
    REAL(pread64);
    if (!tracked(fd)) return real(fd, b, n, o);
    if (point(K_READ, fdpath[fd], n) == 1) return -1;
    return real(fd, b, n, o);
}
void *mmap64(void *a, size_t l, int p, int f, int fd, off64_t o) {
    REAL(mmap64);
    if (fd >= 0 && tracked(fd) && point(K_MMAP, fdpath[fd], l) == 1) return MAP_FAILED;
    return real(a, l, p, f, fd, o);
}
/* the path of a renaming is "destination|source", of which the latter is relative to the root as well */
static const char *both(const char *a, const char *b, char *buf) {
    snprintf(buf, PATHLEN, "%s|%s", b, track(a) && a[C->rootlen] ? a + C->rootlen + 1 : a);
    return buf;
}
int rename(const char *a, const char *b) {
    REAL(rename);
    if (under(b)) { char buf[PATHLEN]; if (point(K_RENAME, both(a, b, buf), 0) == 1) return -1; }
    return real(a, b);
}
int renameat(int d, const char *a, int e, const char *b) {
    REAL(renameat);
    char b1[PATHLEN], b2[PATHLEN], buf[PATHLEN]; const char *p = at(e, b, b1), *q = at(d, a, b2);
    if (under(p) && point(K_RENAME, both(q, p, buf), 0) == 1) return -1;
    return real(d, a, e, b);
}
int unlink(const char *p) { REAL(unlink); SIMPLE(K_UNLINK, p, real(p)); }
int unlinkat(int d, const char *p, int f) {
    REAL(unlinkat); char buf[PATHLEN]; const char *q = at(d, p, buf); SIMPLE(f & AT_REMOVEDIR ? K_RMDIR : K_UNLINK, q, real(d, p, f));
}
int mkdir(const char *p, mode_t m) { REAL(mkdir); SIMPLE(K_MKDIR, p, real(p, m)); }
int mkdirat(int d, const char *p, mode_t m) { REAL(mkdirat); char buf[PATHLEN]; const char *q = at(d, p, buf); SIMPLE(K_MKDIR, q, real(d, p, m)); }
int rmdir(const char *p) { REAL(rmdir); SIMPLE(K_RMDIR, p, real(p)); }
int chmod(const char *p, mode_t m) { REAL(chmod); SIMPLE(K_CHMOD, p, real(p, m)); }
int fchmodat(int d, const char *p, mode_t m, int f) {
    REAL(fchmodat); char buf[PATHLEN]; const char *q = at(d, p, buf); SIMPLE(K_CHMOD, q, real(d, p, m, f));
}
int fchmod(int fd, mode_t m) {
    REAL(fchmod);
    if (tracked(fd) && point(K_CHMOD, fdpath[fd], 0) == 1) return -1;
    return real(fd, m);
}
int link(const char *a, const char *b) { REAL(link); SIMPLE(K_LINK, b, real(a, b)); }
int linkat(int d, const char *a, int e, const char *b, int f) {
    REAL(linkat); char buf[PATHLEN]; const char *p = at(e, b, buf); SIMPLE(K_LINK, p, real(d, a, e, b, f));
}
int symlink(const char *a, const char *b) { REAL(symlink); SIMPLE(K_LINK, b, real(a, b)); }
int truncate64(const char *p, off64_t l) { REAL(truncate64); SIMPLE(K_TRUNC, p, real(p, l)); }
int ftruncate64(int fd, off64_t l) {
    REAL(ftruncate64);
    if (tracked(fd) && point(K_TRUNC, fdpath[fd], l) == 1) return -1;
    return real(fd, l);
}
int fsync(int fd) { REAL(fsync); if (tracked(fd) && point(K_SYNC, fdpath[fd], 0) == 1) return -1; return real(fd); }
int fdatasync(int fd) { REAL(fdatasync); if (tracked(fd) && point(K_SYNC, fdpath[fd], 0) == 1) return -1; return real(fd); }
int stat64(const char *p, struct stat64 *s) { REAL(stat64); SIMPLE(K_STAT, p, real(p, s)); }
int lstat64(const char *p, struct stat64 *s) { REAL(lstat64); SIMPLE(K_STAT, p, real(p, s)); }
int fstat64(int fd, struct stat64 *s) {
    REAL(fstat64);
    if (tracked(fd) && point(K_STAT, fdpath[fd], 0) == 1) return -1;
    return real(fd, s);
}
int fstatat64(int d, const char *p, struct stat64 *s, int f) {
    REAL(fstatat64); char buf[PATHLEN]; const char *q = at(d, p, buf); SIMPLE(K_STAT, q, real(d, p, s, f));
}
int access(const char *p, int m) { REAL(access); SIMPLE(K_STAT, p, real(p, m)); }
int faccessat(int d, const char *p, int m, int f) {
    REAL(faccessat); char buf[PATHLEN]; const char *q = at(d, p, buf); SIMPLE(K_STAT, q, real(d, p, m, f));
}
int utimensat(int d, const char *p, const struct timespec t[2], int f) {
    REAL(utimensat); char buf[PATHLEN]; const char *q = at(d, p, buf); SIMPLE(K_UTIME, q, real(d, p, t, f));
}
DIR *opendir(const char *p) {
    REAL(opendir);
    if (under(p) && point(K_OPENDIR, p, 0) == 1) return NULL;
    return real(p);
}
