/* simdisk.c - the simulated disk (LD_PRELOAD).
 *
 * Every file operation of the process on a path below the simulation root
 * passes through here (Python's io, numpy, and the HDF5 library alike), is
 * numbered, recorded with its data, and may be made to fail by a fault plan:
 *   kind 1  fail with errno `arg` (once, or from then on when `sticky`)
 *   kind 2  short transfer: at most `arg` bytes of this read/write
 *   kind 3  disk full: after `arg` more bytes of growth every write fails ENOSPC
 *           (a write that crosses the limit is cut short first, as a real one is)
 *   kind 4  call back into the simulator (used to run another actor at this point)
 * The recorded write log is what crash states are rebuilt from.
 * Operations on other paths are passed on untouched and unrecorded.
 */
#undef _FORTIFY_SOURCE
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define EXPORT __attribute__((visibility("default")))
#define MAXFD 4096
#define MAXPATH 4096
#define MAXPLAN 256

enum { OP_OPEN = 1, OP_READ, OP_WRITE, OP_TRUNC, OP_CLOSE, OP_RENAME, OP_UNLINK,
       OP_FSYNC, OP_STAT, OP_SEEK, OP_MKDIR, OP_LINK, OP_CHMOD, OP_RMDIR };

/* ------------------------------------------------------ failing allocations
 * While armed, the nth allocation of at least `min` bytes (and `len` - 1 after
 * it) is refused, as by an exhausted machine. */
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t);
static int mem_on; static size_t mem_min; static uint64_t mem_n, mem_at, mem_len, mem_fired;
EXPORT void simmem_arm(uint64_t min, uint64_t nth, uint64_t len) {
    mem_min = min; mem_at = nth; mem_len = len; mem_n = mem_fired = 0; mem_on = 1;
}
EXPORT uint64_t simmem_off(void) { mem_on = 0; return mem_n; }
EXPORT uint64_t simmem_fired(void) { return mem_fired; }
static int refused(size_t n, void *caller) {
    if (!mem_on || n < mem_min) return 0;
    uint64_t k = mem_n++;
    if (k < mem_at || k >= mem_at + mem_len) return 0;
    /* numpy's linear algebra goes on with garbage when its work space is
     * refused, and HDF5's table of identifiers goes on without the identifier:
     * these are their defects, so they always get their memory */
    Dl_info in;
    if (dladdr(caller, &in) && in.dli_fname && (strstr(in.dli_fname, "linalg") || strstr(in.dli_fname, "lapack")
            || strstr(in.dli_fname, "blas") || (in.dli_sname && !strncmp(in.dli_sname, "H5I_", 4)))) return 0;
    mem_fired++;
    errno = ENOMEM;
    return 1;
}
EXPORT void *malloc(size_t n) { return refused(n, __builtin_return_address(0)) ? NULL : __libc_malloc(n); }
EXPORT void *calloc(size_t a, size_t b) { return refused(b && a > (size_t)-1 / b ? 0 : a * b, __builtin_return_address(0)) ? NULL : __libc_calloc(a, b); }
EXPORT void *realloc(void *p, size_t n) { return refused(n, __builtin_return_address(0)) ? NULL : __libc_realloc(p, n); }
#define realloc __libc_realloc
static char *xstrdup(const char *s) { size_t n = strlen(s) + 1; char *d = __libc_malloc(n); if (!d) abort(); memcpy(d, s, n); return d; }
#define strdup xstrdup

static int active;
static char root[PATH_MAX]; static size_t rootlen;
static char *paths[MAXPATH]; static int npaths;
static int fdpath[MAXFD];            /* path id + 1, 0 = not ours */
static int fdflags[MAXFD];
static uint64_t opno;                /* fault-eligible operations so far */
static uint64_t countof[32];

typedef struct { int op; int64_t nth; int kind; int64_t arg; int sticky; int path; int fired; int64_t seen; } fault_t;
static fault_t plan[MAXPLAN]; static int nplan;
static int64_t space = -1;           /* bytes of growth left, -1 = unlimited */
static int (*callback)(uint64_t opno, int op, int path);

/* the log: records of {u32 op, i32 path, i64 a, i64 b, i64 ret, i32 err, u32 fault, u32 len} + data */
typedef struct { uint32_t op; int32_t path; int64_t a, b, ret; int32_t err; uint32_t fault; uint32_t len; uint32_t pad; } rec_t;
static char *lg; static size_t lglen, lgcap;
static int keepdata = 1, logreads = 1;

static void put(int op, int path, int64_t a, int64_t b, int64_t ret, int err, int fault,
                const void *d, size_t n) {
    if (!keepdata) n = 0;
    size_t need = sizeof(rec_t) + n;
    if (lglen + need > lgcap) {
        lgcap = (lgcap + need) * 2 + 65536;
        lg = realloc(lg, lgcap);
        if (!lg) abort();
    }
    rec_t r = { (uint32_t)op, path, a, b, ret, err, (uint32_t)fault, (uint32_t)n, 0 };
    memcpy(lg + lglen, &r, sizeof r);
    if (n) memcpy(lg + lglen + sizeof r, d, n);
    lglen += need;
}

static int pathid(const char *p) {
    for (int i = 0; i < npaths; i++) if (!strcmp(paths[i], p)) return i;
    if (npaths >= MAXPATH) abort();
    paths[npaths] = strdup(p);
    return npaths++;
}

static int ours(const char *p) {       /* path id or -1 */
    if (!active || !p) return -1;
    char buf[PATH_MAX];
    if (p[0] != '/') {
        if (!getcwd(buf, sizeof buf - 2)) return -1;
        size_t l = strlen(buf);
        if (l + strlen(p) + 2 > sizeof buf) return -1;
        buf[l] = '/'; strcpy(buf + l + 1, p);
    } else {
        if (strlen(p) + 1 > sizeof buf) return -1;
        strcpy(buf, p);
    }
    /* tidy "/./" and "//" ; ".." is left alone (not used by the workloads) */
    char out[PATH_MAX]; size_t o = 0;
    for (size_t i = 0; buf[i];) {
        if (buf[i] == '/') {
            while (buf[i] == '/') i++;
            if (buf[i] == '.' && (buf[i + 1] == '/' || buf[i + 1] == 0)) { i++; continue; }
            out[o++] = '/';
        } else out[o++] = buf[i++];
    }
    out[o] = 0;
    if (strncmp(out, root, rootlen) || (out[rootlen] && out[rootlen] != '/')) return -1;
    return pathid(out);
}

/* consult the plan: 0 = go on, else the index+1 of the fault that applies */
static int consult(int op, int path) {
    uint64_t me = opno++;
    countof[op & 31]++;
    int hit = 0;
    for (int i = 0; i < nplan; i++) {
        fault_t *f = &plan[i];
        if (f->op && f->op != op) continue;
        if (f->path >= 0 && f->path != path) continue;
        int64_t k = f->op || f->path >= 0 ? f->seen++ : (int64_t)me;
        if (k == f->nth || (f->sticky && k > f->nth && f->fired)) {
            if (f->kind == 4) { f->fired++; if (callback) { int a = active; active = 0; callback(me, op, path); active = a; } continue; }
            if (f->kind == 3) { if (!f->fired) { f->fired++; space = f->arg; } continue; }
            f->fired++;
            if (!hit) hit = i + 1;
        }
    }
    return hit;
}

#define REAL(name) static __typeof__(name) *real; \
    if (!real) real = (__typeof__(real))dlsym(RTLD_NEXT, #name)
/* ------------------------------------------------------------------ control */
EXPORT void simdisk_begin(const char *r, int data) {
    for (int i = 0; i < npaths; i++) free(paths[i]);
    npaths = 0; lglen = 0; opno = 0; nplan = 0; space = -1; keepdata = data;
    memset(fdpath, 0, sizeof fdpath); memset(countof, 0, sizeof countof);
    strncpy(root, r, sizeof root - 1); rootlen = strlen(root);
    active = 1;
}
EXPORT void simdisk_end(void) { active = 0; }
EXPORT void simdisk_resume(void) { active = 1; }
EXPORT int simdisk_fault(int op, int64_t nth, int kind, int64_t arg, int sticky, const char *p) {
    if (nplan >= MAXPLAN) return -1;
    fault_t f = { op, nth, kind, arg, sticky, -1, 0, 0 };
    if (p) f.path = pathid(p);
    plan[nplan] = f; return nplan++;
}
EXPORT int simdisk_fired(int i) { return plan[i].fired; }
EXPORT void simdisk_callback(int (*f)(uint64_t, int, int)) { callback = f; }
EXPORT uint64_t simdisk_ops(void) { return opno; }
EXPORT uint64_t simdisk_count(int op) { return countof[op & 31]; }
EXPORT size_t simdisk_log(char **p) { *p = lg; return lglen; }
EXPORT const char *simdisk_path(int i) { return i >= 0 && i < npaths ? paths[i] : NULL; }
EXPORT int simdisk_npaths(void) { return npaths; }
EXPORT int simdisk_present(void) { return 1; }
EXPORT void simdisk_clearfaults(void) { nplan = 0; space = -1; }

/* --------------------------------------------------------------------- open */
static int do_open(int dfd, const char *p, int flags, mode_t mode) {
    static int (*ropenat)(int, const char *, int, ...);
    if (!ropenat) ropenat = dlsym(RTLD_NEXT, "openat");
    int id = (active && (dfd == AT_FDCWD || (p && p[0] == '/'))) ? ours(p) : -1;
    if (id < 0 || (flags & O_DIRECTORY)) {
        int fd = ropenat(dfd, p, flags, mode);
        if (fd >= 0 && fd < MAXFD) fdpath[fd] = 0;
        return fd;
    }
    int h = consult(OP_OPEN, id);
    if (h && plan[h - 1].kind == 1) {
        put(OP_OPEN, id, flags, 0, -1, plan[h - 1].arg, h, NULL, 0);
        errno = plan[h - 1].arg; return -1;
    }
    if (space == 0 && (flags & O_CREAT)) {
        struct stat st;
        if (stat(p, &st) && errno == ENOENT) {   /* no room for a new inode */
            put(OP_OPEN, id, flags, 0, -1, ENOSPC, 255, NULL, 0);
            errno = ENOSPC; return -1;
        }
    }
    struct stat st; int existed = !stat(p, &st);
    int fd = ropenat(dfd, p, flags, mode);
    int e = errno;
    put(OP_OPEN, id, flags, existed, fd >= 0 ? 0 : -1, fd >= 0 ? 0 : e, h, NULL, 0);
    if (fd >= 0 && fd < MAXFD) { fdpath[fd] = id + 1; fdflags[fd] = flags; }
    errno = e;
    return fd;
}
#define MODE() mode_t mode = 0; if (flags & (O_CREAT | 020000000)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
EXPORT int open(const char *p, int flags, ...) { MODE(); return do_open(AT_FDCWD, p, flags, mode); }
EXPORT int open64(const char *p, int flags, ...) { MODE(); return do_open(AT_FDCWD, p, flags | O_LARGEFILE, mode); }
EXPORT int openat(int d, const char *p, int flags, ...) { MODE(); return do_open(d, p, flags, mode); }
EXPORT int openat64(int d, const char *p, int flags, ...) { MODE(); return do_open(d, p, flags | O_LARGEFILE, mode); }
EXPORT int __open_2(const char *p, int flags) { return do_open(AT_FDCWD, p, flags, 0); }
EXPORT int __open64_2(const char *p, int flags) { return do_open(AT_FDCWD, p, flags | O_LARGEFILE, 0); }
EXPORT int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
EXPORT int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC | O_LARGEFILE, m); }

EXPORT int close(int fd) {
    REAL(close);
    if (fd >= 0 && fd < MAXFD && fdpath[fd] && active) {
        int id = fdpath[fd] - 1; fdpath[fd] = 0;
        int h = consult(OP_CLOSE, id);
        int r = real(fd);
        if (h && plan[h - 1].kind == 1) {
            put(OP_CLOSE, id, fd, 0, -1, plan[h - 1].arg, h, NULL, 0);
            errno = plan[h - 1].arg; return -1;
        }
        put(OP_CLOSE, id, 0, 0, r, 0, h, NULL, 0);
        return r;
    }
    if (fd >= 0 && fd < MAXFD) fdpath[fd] = 0;
    return real(fd);
}
EXPORT int dup(int fd) {
    REAL(dup); int r = real(fd);
    if (r >= 0 && r < MAXFD && fd >= 0 && fd < MAXFD) { fdpath[r] = fdpath[fd]; fdflags[r] = fdflags[fd]; }
    return r;
}

/* -------------------------------------------------------------- read, write */
static off_t fsize(int fd) { struct stat st; return fstat(fd, &st) ? 0 : st.st_size; }

static ssize_t do_write(int fd, const void *b, size_t n, off_t off, int at) {
    static ssize_t (*rw)(int, const void *, size_t); static ssize_t (*rpw)(int, const void *, size_t, off_t);
    if (!rw) { rw = dlsym(RTLD_NEXT, "write"); rpw = dlsym(RTLD_NEXT, "pwrite64"); }
    if (!(active && fd >= 0 && fd < MAXFD && fdpath[fd])) return at ? rpw(fd, b, n, off) : rw(fd, b, n);
    int id = fdpath[fd] - 1;
    off_t pos = at ? off : (fdflags[fd] & O_APPEND) ? fsize(fd) : lseek(fd, 0, SEEK_CUR);
    int h = consult(OP_WRITE, id);
    if (h && plan[h - 1].kind == 1) {
        put(OP_WRITE, id, pos, n, -1, plan[h - 1].arg, h, NULL, 0);
        errno = plan[h - 1].arg; return -1;
    }
    size_t want = n;
    if (h && plan[h - 1].kind == 2 && (int64_t)n > plan[h - 1].arg) n = plan[h - 1].arg > 0 ? plan[h - 1].arg : 1;
    if (space >= 0) {
        off_t size = fsize(fd), grow = pos + (off_t)n - size;
        if (grow < 0) grow = 0;
        if (grow > space) {
            off_t can = (off_t)n - (grow - space);
            if (can <= 0) {
                put(OP_WRITE, id, pos, want, -1, ENOSPC, 255, NULL, 0);
                errno = ENOSPC; return -1;
            }
            n = can; grow = space;
        }
        space -= grow;
    }
    ssize_t r = at ? rpw(fd, b, n, off) : rw(fd, b, n);
    int e = errno;
    put(OP_WRITE, id, pos, want, r, r < 0 ? e : 0, h, b, r > 0 ? r : 0);
    errno = e;
    return r;
}
EXPORT ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, 0, 0); }
EXPORT ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o, 1); }
EXPORT ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_write(fd, b, n, o, 1); }
EXPORT ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(writev);
    if (!(active && fd >= 0 && fd < MAXFD && fdpath[fd])) return real(fd, v, c);
    ssize_t t = 0;
    for (int i = 0; i < c; i++) {
        ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len, 0, 0);
        if (r < 0) return t ? t : r;
        t += r; if ((size_t)r < v[i].iov_len) break;
    }
    return t;
}
static ssize_t do_read(int fd, void *b, size_t n, off_t off, int at) {
    static ssize_t (*rr)(int, void *, size_t); static ssize_t (*rpr)(int, void *, size_t, off_t);
    if (!rr) { rr = dlsym(RTLD_NEXT, "read"); rpr = dlsym(RTLD_NEXT, "pread64"); }
    if (!(active && fd >= 0 && fd < MAXFD && fdpath[fd])) return at ? rpr(fd, b, n, off) : rr(fd, b, n);
    int id = fdpath[fd] - 1;
    int h = consult(OP_READ, id);
    if (h && plan[h - 1].kind == 1) {
        put(OP_READ, id, off, n, -1, plan[h - 1].arg, h, NULL, 0);
        errno = plan[h - 1].arg; return -1;
    }
    if (h && plan[h - 1].kind == 2 && (int64_t)n > plan[h - 1].arg) n = plan[h - 1].arg > 0 ? plan[h - 1].arg : 1;
    ssize_t r = at ? rpr(fd, b, n, off) : rr(fd, b, n);
    if (logreads) { int e = errno; put(OP_READ, id, off, n, r, 0, h, NULL, 0); errno = e; }
    return r;
}
EXPORT ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n, 0, 0); }
EXPORT ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o, 1); }
EXPORT ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return do_read(fd, b, n, o, 1); }
EXPORT ssize_t __read_chk(int fd, void *b, size_t n, size_t bl) { (void)bl; return do_read(fd, b, n, 0, 0); }

/* ---------------------------------------------------------- metadata changes */
static int do_ftruncate(int fd, off_t len) {
    static int (*rf)(int, off_t);
    if (!rf) rf = dlsym(RTLD_NEXT, "ftruncate64");
    if (!(active && fd >= 0 && fd < MAXFD && fdpath[fd])) return rf(fd, len);
    int id = fdpath[fd] - 1, h = consult(OP_TRUNC, id);
    if (h && plan[h - 1].kind == 1) {
        put(OP_TRUNC, id, len, 0, -1, plan[h - 1].arg, h, NULL, 0);
        errno = plan[h - 1].arg; return -1;
    }
    int r = rf(fd, len), e = errno;
    put(OP_TRUNC, id, len, 0, r, r ? e : 0, h, NULL, 0);
    errno = e; return r;
}
EXPORT int ftruncate(int fd, off_t l) { return do_ftruncate(fd, l); }
EXPORT int ftruncate64(int fd, off64_t l) { return do_ftruncate(fd, l); }
EXPORT int truncate(const char *p, off_t l) {
    REAL(truncate); int id = ours(p);
    if (id < 0) return real(p, l);
    int h = consult(OP_TRUNC, id);
    if (h && plan[h - 1].kind == 1) { put(OP_TRUNC, id, l, 0, -1, plan[h - 1].arg, h, NULL, 0); errno = plan[h - 1].arg; return -1; }
    int r = real(p, l); put(OP_TRUNC, id, l, 0, r, 0, h, NULL, 0); return r;
}
static int sync_(int fd, int data) {
    static int (*rs)(int), (*rd)(int);
    if (!rs) { rs = dlsym(RTLD_NEXT, "fsync"); rd = dlsym(RTLD_NEXT, "fdatasync"); }
    if (!(active && fd >= 0 && fd < MAXFD && fdpath[fd])) return data ? rd(fd) : rs(fd);
    int id = fdpath[fd] - 1, h = consult(OP_FSYNC, id);
    if (h && plan[h - 1].kind == 1) { put(OP_FSYNC, id, 0, 0, -1, plan[h - 1].arg, h, NULL, 0); errno = plan[h - 1].arg; return -1; }
    put(OP_FSYNC, id, 0, 0, 0, 0, h, NULL, 0);
    return 0;                                  /* nothing real to wait for */
}
EXPORT int fsync(int fd) { return sync_(fd, 0); }
EXPORT int fdatasync(int fd) { return sync_(fd, 1); }

static int two(int op, const char *a, const char *b, int *ia, int *ib, int *h) {
    *ia = ours(a); *ib = ours(b);
    if (*ia < 0 && *ib < 0) return 0;
    *h = consult(op, *ib >= 0 ? *ib : *ia);
    if (*h && plan[*h - 1].kind == 1) { put(op, *ia, *ib, 0, -1, plan[*h - 1].arg, *h, NULL, 0); errno = plan[*h - 1].arg; return -1; }
    return 1;
}
EXPORT int rename(const char *a, const char *b) {
    REAL(rename); int ia, ib, h, t = two(OP_RENAME, a, b, &ia, &ib, &h);
    if (t < 0) return -1;
    int r = real(a, b), e = errno;
    if (t) put(OP_RENAME, ia, ib, 0, r, r ? e : 0, h, NULL, 0);
    errno = e; return r;
}
EXPORT int renameat(int d, const char *a, int d2, const char *b) {
    REAL(renameat);
    if (d != AT_FDCWD || d2 != AT_FDCWD) return real(d, a, d2, b);
    return rename(a, b);
}
EXPORT int renameat2(int d, const char *a, int d2, const char *b, unsigned f) {
    REAL(renameat2);
    if (f || d != AT_FDCWD || d2 != AT_FDCWD) return real(d, a, d2, b, f);
    return rename(a, b);
}
EXPORT int link(const char *a, const char *b) {
    REAL(link); int ia, ib, h, t = two(OP_LINK, a, b, &ia, &ib, &h);
    if (t < 0) return -1;
    int r = real(a, b), e = errno;
    if (t) put(OP_LINK, ia, ib, 0, r, r ? e : 0, h, NULL, 0);
    errno = e; return r;
}
EXPORT int unlink(const char *p) {
    REAL(unlink); int id = ours(p);
    if (id < 0) return real(p);
    int h = consult(OP_UNLINK, id);
    if (h && plan[h - 1].kind == 1) { put(OP_UNLINK, id, 0, 0, -1, plan[h - 1].arg, h, NULL, 0); errno = plan[h - 1].arg; return -1; }
    int r = real(p), e = errno; put(OP_UNLINK, id, 0, 0, r, r ? e : 0, h, NULL, 0); errno = e; return r;
}
EXPORT int remove(const char *p) {
    REAL(remove); int id = ours(p);
    if (id < 0) return real(p);
    struct stat st; if (!lstat(p, &st) && S_ISDIR(st.st_mode)) return rmdir(p);
    return unlink(p);
}
EXPORT int unlinkat(int d, const char *p, int f) {
    REAL(unlinkat);
    if (d == AT_FDCWD && !(f & AT_REMOVEDIR)) return unlink(p);
    return real(d, p, f);
}
/* copies inside the kernel would bypass the seam: make callers fall back */
EXPORT ssize_t copy_file_range(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned f) {
    REAL(copy_file_range);
    if (active && ((a >= 0 && a < MAXFD && fdpath[a]) || (b >= 0 && b < MAXFD && fdpath[b]))) { errno = EXDEV; return -1; }
    return real(a, x, b, y, n, f);
}
#include <sys/sendfile.h>
EXPORT ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
    REAL(sendfile64);
    if (active && ((o >= 0 && o < MAXFD && fdpath[o]) || (i >= 0 && i < MAXFD && fdpath[i]))) { errno = EINVAL; return -1; }
    return real(o, i, off, n);
}
EXPORT ssize_t sendfile(int o, int i, off_t *off, size_t n) { return sendfile64(o, i, off, n); }
#include <sys/mman.h>
/* stdio is routed through an unbuffered-safe path: fopen on our root uses open() above */
EXPORT FILE *fopen(const char *p, const char *m) {
    REAL(fopen);
    int id = ours(p);
    if (id < 0) return real(p, m);
    int fl = m[0] == 'r' ? O_RDONLY : m[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
    if (strchr(m, '+')) fl = (fl & ~3) | O_RDWR;
    int fd = do_open(AT_FDCWD, p, fl, 0666);
    if (fd < 0) return NULL;
    return fdopen(fd, m);
}
EXPORT FILE *fopen64(const char *p, const char *m) { return fopen(p, m); }

/* ------------------------------------------------------- the simulated clocks
 * While on, every clock the process can read is a function of the number of
 * readings taken and of the jump plan; real time does not enter. */
#include <time.h>
#include <sys/time.h>
static int clk_on; static int64_t clk_now = 0, clk_step = 1000; static uint64_t clk_reads;
static int64_t clk_span;
#define MAXJ 64
static struct { uint64_t at; int64_t by; } jumps[MAXJ]; static int njumps;
EXPORT void simclock_on(int64_t start_ns, int64_t step_ns) { clk_now = start_ns; clk_step = step_ns; clk_reads = 0; njumps = 0; clk_span = 0; clk_on = 1; }
EXPORT void simclock_jump(uint64_t at, int64_t by) { if (njumps < MAXJ) { jumps[njumps].at = at; jumps[njumps].by = by; njumps++; } }
EXPORT void simclock_advance(int64_t ns) { clk_now += ns; clk_span += ns > 0 ? ns : -ns; }
EXPORT void simclock_off(void) { clk_on = 0; }
EXPORT uint64_t simclock_reads(void) { return clk_reads; }
EXPORT int64_t simclock_span(void) { return clk_span; }
static int64_t clk_read(void) {
    uint64_t k = clk_reads++;
    int64_t d = clk_step;
    for (int i = 0; i < njumps; i++) if (jumps[i].at == k) d += jumps[i].by;
    clk_now += d; clk_span += d > 0 ? d : -d;
    return clk_now;
}
EXPORT int clock_gettime(clockid_t c, struct timespec *ts) {
    REAL(clock_gettime);
    if (!clk_on) return real(c, ts);
    int64_t n = clk_read();
    if (n < 0 && c == CLOCK_REALTIME) n = 0;
    ts->tv_sec = n / 1000000000; ts->tv_nsec = n % 1000000000;
    if (ts->tv_nsec < 0) { ts->tv_nsec += 1000000000; ts->tv_sec--; }
    return 0;
}
EXPORT int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
    REAL(gettimeofday);
    if (!clk_on) return real(tv, tz);
    int64_t n = clk_read(); if (n < 0) n = 0;
    tv->tv_sec = n / 1000000000; tv->tv_usec = n % 1000000000 / 1000;
    return 0;
}
EXPORT time_t time(time_t *t) {
    REAL(time);
    if (!clk_on) return real(t);
    int64_t n = clk_read(); if (n < 0) n = 0;
    if (t) *t = n / 1000000000;
    return n / 1000000000;
}
EXPORT clock_t clock(void) {
    REAL(clock);
    if (!clk_on) return real();
    return clk_read() / 1000;
}
