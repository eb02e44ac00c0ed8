/* libtsim.so: the operating system under the telda tools, as seen through libc's dynamic symbols.
 *
 * Every call that opens, reads, writes, truncates, syncs, renames, removes or inspects a file of the
 * scratch directory, or that touches the console, is one step of the simulated system. It has a
 * number, may be faulted according to the plan in shared memory, and is logged. Everything the
 * outcome depends on is in that plan; nothing here reads a clock or real entropy.
 *
 * The calls that are let through are made as raw system calls on real files in the scratch
 * directory, so nothing else of libc is relied on. The tools are single threaded. */
#define _GNU_SOURCE
#include "tsim.h"
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define EXPORT __attribute__((visibility("default")))

static struct tsim *S;
#define MAXFD 256
static int fd_path[MAXFD]; /* path id + 1, 0: not tracked */

static long raw6(long n, long a, long b, long c, long d, long e, long f) {
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return ret;
}
#define RAW(n, a, b, c, d) raw6(n, (long)(a), (long)(b), (long)(c), (long)(d), 0, 0)

static long fin(long r) {
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}

static void die(void) {
    if (S) S->killed = 1;
    RAW(SYS_kill, RAW(SYS_getpid, 0, 0, 0, 0), SIGKILL, 0, 0);
    for (;;) RAW(SYS_exit_group, 137, 0, 0, 0);
}

static uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

__attribute__((constructor)) static void init(void) {
    const char *p = getenv("TSIM_SHM");
    if (!p) return;
    long fd = RAW(SYS_open, p, O_RDWR | O_CLOEXEC, 0, 0);
    if (fd < 0) return;
    long m = raw6(SYS_mmap, 0, sizeof(struct tsim), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    RAW(SYS_close, fd, 0, 0, 0);
    if (m < 0 && m > -4096) return;
    struct tsim *s = (struct tsim *)m;
    if (s->magic != TSIM_MAGIC) return;
    strcpy(s->paths[0], "<stdin>");
    strcpy(s->paths[1], "<stdout>");
    strcpy(s->paths[2], "<stderr>");
    s->n_paths = 3;
    for (int i = 0; i < 3; i++) fd_path[i] = i + 1;
    RAW(SYS_umask, s->umask_, 0, 0, 0);
    struct rlimit l;
    l.rlim_cur = l.rlim_max = s->cpu_limit_s;
    if (s->cpu_limit_s) RAW(SYS_prlimit64, 0, RLIMIT_CPU, &l, 0);
    l.rlim_cur = l.rlim_max = 4ul << 30;
    RAW(SYS_prlimit64, 0, RLIMIT_AS, &l, 0);
    l.rlim_cur = l.rlim_max = 64ul << 20;
    RAW(SYS_prlimit64, 0, RLIMIT_FSIZE, &l, 0);
    l.rlim_cur = l.rlim_max = 0;
    RAW(SYS_prlimit64, 0, RLIMIT_CORE, &l, 0);
    S = s;
}

/* -1: not ours */
static int path_id(const char *p) {
    if (!S || !p) return -1;
    size_t n = strlen(S->scratch);
    if (p[0] == '/') {
        if (strncmp(p, S->scratch, n) != 0 || (p[n] != '/' && p[n] != 0)) return -1;
        p += n;
        while (*p == '/') p++;
    }
    while (p[0] == '.' && p[1] == '/') p += 2;
    for (uint32_t i = 3; i < S->n_paths; i++)
        if (strncmp(S->paths[i], p, TSIM_PATH_LEN - 1) == 0) return (int)i;
    if (S->n_paths >= TSIM_MAX_PATHS) return TSIM_MAX_PATHS - 1;
    int id = (int)S->n_paths++;
    strncpy(S->paths[id], p, TSIM_PATH_LEN - 1);
    S->paths[id][TSIM_PATH_LEN - 1] = 0;
    return id;
}

static int fdid(int fd) { return (S && fd >= 0 && fd < MAXFD) ? fd_path[fd] - 1 : -1; }

static void logev(uint32_t idx, int op, int fault, int path, int path2, int64_t arg, long ret, uint32_t flags) {
    if (S->n_events >= TSIM_MAX_EVENTS) { S->events_lost++; return; }
    struct tsim_event *e = &S->ev[S->n_events++];
    e->idx = idx; e->op = (uint16_t)op; e->fault = (uint16_t)fault; e->path = path; e->path2 = path2;
    e->arg = arg; e->flags = flags;
    if (ret < 0 && ret > -4096) { e->ret = -1; e->err = (int)-ret; } else { e->ret = ret; e->err = 0; }
}

static int changes(int op, uint32_t flags) {
    switch (op) {
    case OP_WRITE: case OP_FTRUNC: case OP_FSYNC: case OP_RENAME: case OP_CHMOD: case OP_CFR:
    case OP_SENDFILE: case OP_LINK: case OP_SPLICE: case OP_MKDIR: return 1;
    case OP_OPEN: return flags & 1;
    default: return 0;
    }
}

struct plan { int fault; int err; long limit; int kill_after; uint32_t idx; };

/* Where several tools run at the same time, one at a time may go on from one call to the next */
static void turn(void) {
    char c = 0;
    long r;
    do r = RAW(SYS_write, 199, &c, 1, 0); while (r == -EINTR);
    if (r == 1) do r = RAW(SYS_read, 198, &c, 1, 0); while (r == -EINTR);
    if (r != 1) for (;;) RAW(SYS_exit_group, 98, 0, 0, 0);
}

/* Decides what happens to this call. limit: at most that many bytes are transferred. */
static struct plan decide(int op, int path, int path2, int64_t len, uint32_t flags) {
    if (S->sched) turn();
    struct plan p = {0, 0, LONG_MAX, 0, S->n_calls++};
    if (S->call_budget && S->n_calls > S->call_budget) { S->over_budget = 1; die(); }
    for (uint32_t i = 0; i < S->n_faults && i < TSIM_MAX_FAULTS; i++) {
        struct tsim_fault *f = &S->faults[i];
        int hit = f->idx == p.idx;
        if (!hit && p.idx > f->idx && f->fired) {
            if (f->kind == F_ERR_PATH && (int)(f->arg >> 8) == path && (int)(f->arg & 0xff) == op) hit = 1;
            if (f->kind == F_ERR_WRITES && changes(op, flags) && path > 2) hit = 1;
            if ((f->kind == F_ERR_READS || f->kind == F_EOF_READS) &&
                (op == OP_READ || op == OP_CFR || op == OP_SENDFILE || op == OP_SPLICE)) hit = 1;
        }
        if (!hit) continue;
        /* a console that takes no error messages is no fault of its own */
        if (path == 2 && (f->kind == F_ERR || f->kind == F_ERR_PATH || f->kind == F_ERR_WRITES)) continue;
        f->fired++;
        switch (f->kind) {
        case F_ERR: case F_ERR_WRITES: case F_ERR_READS: p.fault = (int)f->kind; p.err = f->err; return p;
        case F_ERR_PATH:
            p.fault = (int)f->kind; p.err = f->err;
            f->arg = ((uint32_t)path << 8) | (uint32_t)op;
            return p;
        case F_SHORT: p.fault = F_SHORT; p.limit = f->arg ? (long)f->arg : 1; return p;
        case F_EOF_READS: p.fault = F_EOF_READS; p.limit = 0; return p;
        case F_EOF:
            p.fault = F_EOF;
            if (path >= 0) S->eof_path[path] = 1;
            p.limit = 0;
            return p;
        case F_KILL_BEFORE: logev(p.idx, op, F_KILL_BEFORE, path, path2, len, 0, flags); die(); break;
        case F_KILL_MID: p.fault = F_KILL_MID; p.limit = (long)f->arg; p.kill_after = 1; return p;
        case F_KILL_AFTER: p.fault = F_KILL_AFTER; p.kill_after = 1; return p;
        }
    }
    if ((op == OP_READ || op == OP_CFR || op == OP_SENDFILE) && path >= 0 && S->eof_path[path]) {
        p.fault = F_EOF; p.limit = 0; return p;
    }
    uint64_t h = mix(S->seed ^ mix(p.idx + 1));
    switch (op) {
    case OP_OPEN: case OP_FTRUNC: case OP_FSYNC: case OP_CHMOD:
        if ((h & 1023) < S->p_eintr) { p.fault = 101; p.err = EINTR; }
        break;
    case OP_READ: case OP_WRITE:
        if ((h & 1023) < S->p_eintr) { p.fault = 101; p.err = EINTR; break; }
        if (((h >> 10) & 1023) < S->p_short && len > 1) {
            p.fault = 100;
            /* mostly tiny, sometimes anything */
            uint64_t k = (h >> 20) & 7, r = h >> 23;
            p.limit = k < 4 ? 1 + (long)(r % 4) : 1 + (long)(r % (uint64_t)len);
        }
        break;
    case OP_CFR: case OP_SENDFILE:
        if (op == OP_CFR && !S->cfr_seen && (S->cfr_mode == 1 || S->cfr_mode == 2)) {
            p.fault = 103; p.err = S->cfr_mode == 1 ? ENOSYS : EXDEV;
        } else if (S->cfr_mode == 3 || ((h >> 10) & 1023) < S->p_short) {
            p.fault = 100; p.limit = 1 + (long)((h >> 23) % 40);
        }
        if (op == OP_CFR) S->cfr_seen = 1;
        break;
    default: break;
    }
    return p;
}

/* how many bytes still fit on the simulated disk */
static long room(int path, long n) {
    if (path <= 2 || S->disk_capacity < 0) return n;
    long left = S->disk_capacity - (long)S->disk_used;
    if (left <= 0) { S->disk_full_hits++; return 0; }
    return n < left ? n : left;
}
static void used(int path, long n) { if (path > 2 && n > 0) S->disk_used += (uint64_t)n; }

static long done(struct plan *p, int op, int path, int path2, int64_t arg, long r, uint32_t flags) {
    logev(p->idx, op, p->fault, path, path2, arg, r, flags);
    if (p->kill_after) die();
    return fin(r);
}
#define FAIL(op, path, path2, arg, flags) if (p.err) return done(&p, op, path, path2, arg, -p.err, flags)

/* ---- open ---- */
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    int id = (dirfd == AT_FDCWD || (path && path[0] == '/')) ? path_id(path) : -1;
    if (id < 0) {
        long r = RAW(SYS_openat, dirfd, path, flags, mode);
        if (r >= 0 && r < MAXFD) fd_path[r] = 0;
        return (int)fin(r);
    }
    uint32_t w = (flags & O_ACCMODE) != O_RDONLY;
    struct plan p = decide(OP_OPEN, id, -1, flags, w);
    FAIL(OP_OPEN, id, -1, flags, w);
    long r = RAW(SYS_openat, dirfd, path, flags, mode);
    if (r >= 0 && r < MAXFD) fd_path[r] = id + 1;
    return (int)done(&p, OP_OPEN, id, -1, flags, r, w);
}
EXPORT int open(const char *path, int flags, ...) {
    va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a);
    return do_open(AT_FDCWD, path, flags, m);
}
EXPORT int open64(const char *path, int flags, ...) {
    va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a);
    return do_open(AT_FDCWD, path, flags, m);
}
EXPORT int openat(int d, const char *path, int flags, ...) {
    va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a);
    return do_open(d, path, flags, m);
}
EXPORT int openat64(int d, const char *path, int flags, ...) {
    va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a);
    return do_open(d, path, flags, m);
}
EXPORT int creat(const char *path, mode_t m) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m); }
EXPORT int creat64(const char *path, mode_t m) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m); }

EXPORT int close(int fd) {
    int id = fdid(fd);
    long r = RAW(SYS_close, fd, 0, 0, 0);
    if (id >= 0) { logev(0xffffffffu, OP_CLOSE, 0, id, -1, fd, r, 0); fd_path[fd] = 0; }
    return (int)fin(r);
}
EXPORT int dup(int fd) {
    long r = RAW(SYS_dup, fd, 0, 0, 0);
    if (S && r >= 0 && r < MAXFD && fd >= 0 && fd < MAXFD) fd_path[r] = fd_path[fd];
    return (int)fin(r);
}

EXPORT int dup2(int fd, int to) {
    long r = RAW(SYS_dup2, fd, to, 0, 0);
    if (S && r >= 0 && r < MAXFD && fd >= 0 && fd < MAXFD) fd_path[r] = fd_path[fd];
    return (int)fin(r);
}
static int do_fcntl(int fd, int cmd, long arg) {
    long r = RAW(SYS_fcntl, fd, cmd, arg, 0);
    if (S && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && r >= 0 && r < MAXFD && fd >= 0 && fd < MAXFD)
        fd_path[r] = fd_path[fd];
    return (int)fin(r);
}
EXPORT int fcntl(int fd, int cmd, ...) { va_list a; va_start(a, cmd); long x = va_arg(a, long); va_end(a); return do_fcntl(fd, cmd, x); }
EXPORT int fcntl64(int fd, int cmd, ...) { va_list a; va_start(a, cmd); long x = va_arg(a, long); va_end(a); return do_fcntl(fd, cmd, x); }

/* ---- transfers ---- */
static ssize_t do_read(int fd, const struct iovec *iov, int n, off_t off, int positioned) {
    int id = fdid(fd);
    if (id < 0)
        return positioned ? fin(RAW(SYS_preadv, fd, iov, n, off)) : fin(RAW(SYS_readv, fd, iov, n, 0));
    long total = 0;
    for (int i = 0; i < n; i++) total += (long)iov[i].iov_len;
    struct plan p = decide(OP_READ, id, -1, total, 0);
    FAIL(OP_READ, id, -1, total, 0);
    long left = total < p.limit ? total : p.limit, got = 0, r = 0;
    for (int i = 0; i < n && left > 0; i++) {
        long l = (long)iov[i].iov_len < left ? (long)iov[i].iov_len : left;
        if (l == 0) continue;
        r = positioned ? RAW(SYS_pread64, fd, iov[i].iov_base, l, off + got) : RAW(SYS_read, fd, iov[i].iov_base, l, 0);
        if (r <= 0) break;
        got += r; left -= r;
        if (r < l) break;
    }
    if (got == 0 && r < 0) got = r;
    return done(&p, OP_READ, id, -1, total, got, 0);
}
static ssize_t do_write(int fd, const struct iovec *iov, int n, off_t off, int positioned) {
    int id = fdid(fd);
    if (id < 0)
        return positioned ? fin(RAW(SYS_pwritev, fd, iov, n, off)) : fin(RAW(SYS_writev, fd, iov, n, 0));
    long total = 0;
    for (int i = 0; i < n; i++) total += (long)iov[i].iov_len;
    struct plan p = decide(OP_WRITE, id, -1, total, 0);
    FAIL(OP_WRITE, id, -1, total, 0);
    long left = total < p.limit ? total : p.limit, put = 0, r = 0;
    if (left > 0) {
        left = room(id, left);
        if (left == 0) { p.fault = 102; return done(&p, OP_WRITE, id, -1, total, -ENOSPC, 0); }
    }
    for (int i = 0; i < n && left > 0; i++) {
        long l = (long)iov[i].iov_len < left ? (long)iov[i].iov_len : left;
        if (l == 0) continue;
        r = positioned ? RAW(SYS_pwrite64, fd, iov[i].iov_base, l, off + put) : RAW(SYS_write, fd, iov[i].iov_base, l, 0);
        if (r <= 0) break;
        put += r; left -= r;
        if (r < l) break;
    }
    if (put == 0 && r < 0) put = r;
    used(id, put);
    return done(&p, OP_WRITE, id, -1, total, put, 0);
}
EXPORT ssize_t read(int fd, void *b, size_t n) { struct iovec v = {b, n}; return do_read(fd, &v, 1, 0, 0); }
EXPORT ssize_t readv(int fd, const struct iovec *v, int n) { return do_read(fd, v, n, 0, 0); }
EXPORT ssize_t pread(int fd, void *b, size_t n, off_t o) { struct iovec v = {b, n}; return do_read(fd, &v, 1, o, 1); }
EXPORT ssize_t pread64(int fd, void *b, size_t n, off_t o) { struct iovec v = {b, n}; return do_read(fd, &v, 1, o, 1); }
EXPORT ssize_t preadv(int fd, const struct iovec *v, int n, off_t o) { return do_read(fd, v, n, o, 1); }
EXPORT ssize_t write(int fd, const void *b, size_t n) { struct iovec v = {(void *)b, n}; return do_write(fd, &v, 1, 0, 0); }
EXPORT ssize_t writev(int fd, const struct iovec *v, int n) { return do_write(fd, v, n, 0, 0); }
EXPORT ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { struct iovec v = {(void *)b, n}; return do_write(fd, &v, 1, o, 1); }
EXPORT ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { struct iovec v = {(void *)b, n}; return do_write(fd, &v, 1, o, 1); }
EXPORT ssize_t pwritev(int fd, const struct iovec *v, int n, off_t o) { return do_write(fd, v, n, o, 1); }

static ssize_t do_copy(int op, int in, off_t *oi, int out, off_t *oo, size_t n, unsigned fl) {
    int id = fdid(out), id2 = fdid(in);
    if (!S || (id < 0 && id2 < 0)) {
        if (op == OP_CFR) return fin(raw6(SYS_copy_file_range, in, (long)oi, out, (long)oo, (long)n, fl));
        if (op == OP_SENDFILE) return fin(RAW(SYS_sendfile, out, in, oi, n));
        return fin(raw6(SYS_splice, in, (long)oi, out, (long)oo, (long)n, fl));
    }
    struct plan p = decide(op, id2 >= 0 ? id2 : id, id, (int64_t)n, 0);
    FAIL(op, id, id2, (int64_t)n, 0);
    long want = (long)n < p.limit ? (long)n : p.limit;
    if (want > 0) {
        want = room(id, want);
        if (want == 0) { p.fault = 102; return done(&p, op, id, id2, (int64_t)n, -ENOSPC, 0); }
    }
    long r = 0;
    if (want > 0) {
        /* done with a buffer, because not every file system of a sandbox can copy in the kernel */
        char buf[4096];
        if (want > (long)sizeof buf) want = sizeof buf;
        r = oi ? RAW(SYS_pread64, in, buf, want, *oi) : RAW(SYS_read, in, buf, want, 0);
        if (r > 0) {
            long m = r;
            r = oo ? RAW(SYS_pwrite64, out, buf, m, *oo) : RAW(SYS_write, out, buf, m, 0);
            if (r > 0) { if (oi) *oi += r; if (oo) *oo += r; }
        }
    }
    used(id, r);
    return done(&p, op, id, id2, (int64_t)n, r, 0);
}
EXPORT ssize_t copy_file_range(int in, off_t *oi, int out, off_t *oo, size_t n, unsigned fl) { return do_copy(OP_CFR, in, oi, out, oo, n, fl); }
EXPORT ssize_t sendfile(int out, int in, off_t *off, size_t n) { return do_copy(OP_SENDFILE, in, off, out, 0, n, 0); }
EXPORT ssize_t sendfile64(int out, int in, off_t *off, size_t n) { return do_copy(OP_SENDFILE, in, off, out, 0, n, 0); }
EXPORT ssize_t splice(int in, off_t *oi, int out, off_t *oo, size_t n, unsigned fl) { return do_copy(OP_SPLICE, in, oi, out, oo, n, fl); }

/* ---- other file operations ---- */
EXPORT off_t lseek(int fd, off_t o, int w) {
    int id = fdid(fd);
    if (id < 0) return fin(RAW(SYS_lseek, fd, o, w, 0));
    struct plan p = decide(OP_LSEEK, id, -1, o, 0);
    FAIL(OP_LSEEK, id, -1, o, 0);
    return done(&p, OP_LSEEK, id, -1, o, RAW(SYS_lseek, fd, o, w, 0), 0);
}
EXPORT off_t lseek64(int fd, off_t o, int w) { return lseek(fd, o, w); }
EXPORT int ftruncate(int fd, off_t n) {
    int id = fdid(fd);
    if (id < 0) return (int)fin(RAW(SYS_ftruncate, fd, n, 0, 0));
    struct plan p = decide(OP_FTRUNC, id, -1, n, 0);
    FAIL(OP_FTRUNC, id, -1, n, 0);
    return (int)done(&p, OP_FTRUNC, id, -1, n, RAW(SYS_ftruncate, fd, n, 0, 0), 0);
}
EXPORT int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }
EXPORT int truncate(const char *path, off_t n) {
    int id = path_id(path);
    if (id < 0) return (int)fin(RAW(SYS_truncate, path, n, 0, 0));
    struct plan p = decide(OP_FTRUNC, id, -1, n, 0);
    FAIL(OP_FTRUNC, id, -1, n, 0);
    return (int)done(&p, OP_FTRUNC, id, -1, n, RAW(SYS_truncate, path, n, 0, 0), 0);
}
EXPORT int truncate64(const char *path, off_t n) { return truncate(path, n); }
static int do_sync(int nr, int fd) {
    int id = fdid(fd);
    if (id < 0) return (int)fin(RAW(nr, fd, 0, 0, 0));
    struct plan p = decide(OP_FSYNC, id, -1, 0, 0);
    FAIL(OP_FSYNC, id, -1, 0, 0);
    return (int)done(&p, OP_FSYNC, id, -1, 0, 0, 0); /* the scratch disk needs no syncing */
}
EXPORT int fsync(int fd) { return do_sync(SYS_fsync, fd); }
EXPORT int fdatasync(int fd) { return do_sync(SYS_fdatasync, fd); }

static int two_paths(int op, int nr, const char *a, const char *b, int id, int id2) {
    struct plan p = decide(op, id2, id, 0, 1);
    FAIL(op, id2, id, 0, 1);
    return (int)done(&p, op, id2, id, 0, RAW(nr, a, b, 0, 0), 1);
}
/* path = the new name, path2 = the old name */
EXPORT int rename(const char *a, const char *b) {
    int id = path_id(a), id2 = path_id(b);
    if (id < 0 && id2 < 0) return (int)fin(RAW(SYS_rename, a, b, 0, 0));
    return two_paths(OP_RENAME, SYS_rename, a, b, id, id2);
}
EXPORT int renameat(int d, const char *a, int e, const char *b) {
    if (d == AT_FDCWD && e == AT_FDCWD) return rename(a, b);
    return (int)fin(RAW(SYS_renameat, d, a, e, b));
}
EXPORT int renameat2(int d, const char *a, int e, const char *b, unsigned f) {
    if (d == AT_FDCWD && e == AT_FDCWD && f == 0) return rename(a, b);
    return (int)fin(raw6(SYS_renameat2, d, (long)a, e, (long)b, f, 0));
}
EXPORT int link(const char *a, const char *b) {
    int id = path_id(a), id2 = path_id(b);
    if (id < 0 && id2 < 0) return (int)fin(RAW(SYS_link, a, b, 0, 0));
    return two_paths(OP_LINK, SYS_link, a, b, id, id2);
}
EXPORT int unlink(const char *path) {
    int id = path_id(path);
    if (id < 0) return (int)fin(RAW(SYS_unlink, path, 0, 0, 0));
    struct plan p = decide(OP_UNLINK, id, -1, 0, 0);
    FAIL(OP_UNLINK, id, -1, 0, 0);
    return (int)done(&p, OP_UNLINK, id, -1, 0, RAW(SYS_unlink, path, 0, 0, 0), 0);
}
EXPORT int unlinkat(int d, const char *path, int f) {
    if (d == AT_FDCWD && f == 0) return unlink(path);
    return (int)fin(RAW(SYS_unlinkat, d, path, f, 0));
}
EXPORT int chmod(const char *path, mode_t m) {
    int id = path_id(path);
    if (id < 0) return (int)fin(RAW(SYS_chmod, path, m, 0, 0));
    struct plan p = decide(OP_CHMOD, id, -1, m, 0);
    FAIL(OP_CHMOD, id, -1, m, 0);
    return (int)done(&p, OP_CHMOD, id, -1, m, RAW(SYS_chmod, path, m, 0, 0), 0);
}
EXPORT int fchmodat(int d, const char *path, mode_t m, int f) {
    if (d == AT_FDCWD && f == 0) return chmod(path, m);
    return (int)fin(RAW(SYS_fchmodat, d, path, m, 0));
}
EXPORT int fchmod(int fd, mode_t m) {
    int id = fdid(fd);
    if (id < 0) return (int)fin(RAW(SYS_fchmod, fd, m, 0, 0));
    struct plan p = decide(OP_CHMOD, id, -1, m, 0);
    FAIL(OP_CHMOD, id, -1, m, 0);
    return (int)done(&p, OP_CHMOD, id, -1, m, RAW(SYS_fchmod, fd, m, 0, 0), 0);
}
EXPORT int mkdir(const char *path, mode_t m) {
    int id = path_id(path);
    if (id < 0) return (int)fin(RAW(SYS_mkdir, path, m, 0, 0));
    struct plan p = decide(OP_MKDIR, id, -1, m, 1);
    FAIL(OP_MKDIR, id, -1, m, 1);
    return (int)done(&p, OP_MKDIR, id, -1, m, RAW(SYS_mkdir, path, m, 0, 0), 1);
}

/* ---- inspection ---- */
#define BY_FD(fd, CALL) do { int id = fdid(fd); if (id < 0) return (int)fin(CALL); \
    struct plan p = decide(OP_STAT, id, -1, 0, 0); FAIL(OP_STAT, id, -1, 0, 0); \
    return (int)done(&p, OP_STAT, id, -1, 0, CALL, 0); } while (0)
#define BY_PATH(path, CALL) do { int id = path_id(path); if (id < 0) return (int)fin(CALL); \
    struct plan p = decide(OP_STAT, id, -1, 0, 0); FAIL(OP_STAT, id, -1, 0, 0); \
    return (int)done(&p, OP_STAT, id, -1, 0, CALL, 0); } while (0)
EXPORT int statx(int d, const char *restrict path, int f, unsigned m, struct statx *restrict b) {
    void *volatile null_path = (void *)path, *volatile null_buf = b; /* declared non-null, but std asks with null whether the call exists */
    if (!null_path || !null_buf) return (int)fin(raw6(SYS_statx, d, (long)path, f, m, (long)b, 0));
    if (path[0] && d == AT_FDCWD) BY_PATH(path, raw6(SYS_statx, d, (long)path, f, m, (long)b, 0));
    BY_FD(d, raw6(SYS_statx, d, (long)path, f, m, (long)b, 0));
}
EXPORT int fstat(int fd, struct stat *b) { BY_FD(fd, RAW(SYS_fstat, fd, b, 0, 0)); }
EXPORT int fstat64(int fd, struct stat64 *b) { BY_FD(fd, RAW(SYS_fstat, fd, b, 0, 0)); }
EXPORT int stat(const char *restrict path, struct stat *restrict b) { BY_PATH(path, RAW(SYS_stat, path, b, 0, 0)); }
EXPORT int stat64(const char *restrict path, struct stat64 *restrict b) { BY_PATH(path, RAW(SYS_stat, path, b, 0, 0)); }
EXPORT int lstat(const char *restrict path, struct stat *restrict b) { BY_PATH(path, RAW(SYS_lstat, path, b, 0, 0)); }
EXPORT int lstat64(const char *restrict path, struct stat64 *restrict b) { BY_PATH(path, RAW(SYS_lstat, path, b, 0, 0)); }

EXPORT char *realpath(const char *restrict path, char *restrict out) {
    int id = path_id(path);
    if (id >= 0) {
        struct plan p = decide(OP_REALPATH, id, -1, 0, 0);
        if (p.err) { done(&p, OP_REALPATH, id, -1, 0, -p.err, 0); return NULL; }
        done(&p, OP_REALPATH, id, -1, 0, 0, 0);
    }
    /* resolved through the kernel's own view of the opened file */
    long fd = RAW(SYS_open, path, O_PATH | O_CLOEXEC, 0, 0);
    if (fd < 0) { errno = (int)-fd; return NULL; }
    char link[40] = "/proc/self/fd/", num[12];
    int k = 0, n = (int)fd;
    do { num[k++] = (char)('0' + n % 10); n /= 10; } while (n);
    int l = (int)strlen(link);
    while (k) link[l++] = num[--k];
    link[l] = 0;
    char *res = out ? out : malloc(PATH_MAX);
    long r = RAW(SYS_readlink, link, res, PATH_MAX - 1, 0);
    RAW(SYS_close, fd, 0, 0, 0);
    if (r < 0) { if (!out) free(res); errno = (int)-r; return NULL; }
    res[r] = 0;
    return res;
}

/* ---- identity and entropy ---- */
EXPORT pid_t getpid(void) { return S ? (pid_t)S->pid : (pid_t)RAW(SYS_getpid, 0, 0, 0, 0); }
EXPORT pid_t gettid(void) { return S ? (pid_t)S->pid : (pid_t)RAW(SYS_gettid, 0, 0, 0, 0); }

static long fill(void *b, size_t n) {
    uint8_t *p = b;
    uint64_t k = S->entropy_calls++;
    for (size_t i = 0; i < n; i++) p[i] = (uint8_t)(mix(S->entropy ^ mix((k << 32) + i)) >> 24);
    return (long)n;
}
EXPORT ssize_t getrandom(void *b, size_t n, unsigned f) {
    if (!S) return fin(RAW(SYS_getrandom, b, n, f, 0));
    return fill(b, n);
}
EXPORT int getentropy(void *b, size_t n) {
    if (!S) return fin(RAW(SYS_getrandom, b, n, 0, 0)) < 0 ? -1 : 0;
    fill(b, n);
    return 0;
}
EXPORT long syscall(long nr, ...) {
    va_list a; va_start(a, nr);
    long x[6];
    for (int i = 0; i < 6; i++) x[i] = va_arg(a, long);
    va_end(a);
    if (S) switch (nr) {
    case SYS_getrandom: return fill((void *)x[0], (size_t)x[1]);
    case SYS_copy_file_range: return copy_file_range((int)x[0], (off_t *)x[1], (int)x[2], (off_t *)x[3], (size_t)x[4], (unsigned)x[5]);
    case SYS_statx: return statx((int)x[0], (const char *)x[1], (int)x[2], (unsigned)x[3], (struct statx *)x[4]);
    case SYS_renameat2: return renameat2((int)x[0], (const char *)x[1], (int)x[2], (const char *)x[3], (unsigned)x[4]);
    default: break;
    }
    return fin(raw6(nr, x[0], x[1], x[2], x[3], x[4], x[5]));
}
