/*
 * simdisk: the simulated disk's seam.
 *
 * An LD_PRELOAD interposer on the libc file calls made by HDF5's sec2 driver and by
 * Python's io module.  Every call on a file below the simulated mount point ("root",
 * a scratch directory) is numbered, logged, and passed through a fault plan that the
 * simulator (Python, via ctypes) sets before each step.  Files elsewhere are untouched.
 * Nothing here draws randomness or reads a clock: the same plan and the same calls
 * give the same execution.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OP_OPEN = 0, OP_READ, OP_WRITE, OP_CLOSE, OP_TRUNC, OP_LOCK, OP_FSYNC, OP_UNLINK,
       OP_RENAME, NOPS };
enum { ACT_ERR = 0, ACT_SHORT = 1, ACT_TORN = 2, ACT_EXIT = 3, ACT_FLIP = 4 };

typedef struct {
    int32_t op, fid;
    int64_t off, len, ret;
    int32_t err, injected;
} logrec;

typedef struct {
    int32_t op;      /* operation class */
    int32_t act;
    int64_t at;      /* index within its class since sd_arm() */
    int64_t count;   /* how many consecutive ops are hit (-1: forever) */
    int64_t arg;     /* errno / byte count */
    int64_t fired;
} faultrec;

typedef struct {
    int32_t kind;    /* 0 write, 1 truncate, 2 create/open-trunc */
    int32_t fid;
    int64_t off, len;
    int64_t pos;     /* position of the data in jdata */
} jrec;

#define MAXFD 65536
#define MAXFID 4096
#define MAXFAULT 64

static char root[PATH_MAX];
static size_t rootlen;
static int active;
static int fd_fid[MAXFD];         /* 0: not ours, else fid+1 */
static int fd_wr[MAXFD];
static char *fid_path[MAXFID];
static int nfid;
static logrec *logb; static int64_t nlog, caplog;
static faultrec faults[MAXFAULT]; static int nfault;
static int64_t opcount[NOPS];
static int64_t disk_cap = -1;     /* max size of any one file; -1 unlimited */
static int64_t cap_fired;
static int journal_on;
static jrec *jb; static int64_t nj, capj;
static unsigned char *jd; static int64_t njd, capjd;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;

#define REAL(ret, name, ...) \
    static ret (*real_##name)(__VA_ARGS__); \
    if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name);

/* ---- control interface -------------------------------------------------- */

void sd_reset(void) {
    pthread_mutex_lock(&mu);
    active = 0; nlog = 0; nfault = 0; nj = 0; njd = 0; journal_on = 0; disk_cap = -1; cap_fired = 0;
    memset(opcount, 0, sizeof opcount);
    memset(fd_fid, 0, sizeof fd_fid);
    for (int i = 0; i < nfid; i++) { free(fid_path[i]); fid_path[i] = 0; }
    nfid = 0;
    pthread_mutex_unlock(&mu);
}
void sd_mount(const char *path) {
    strncpy(root, path, sizeof root - 1); rootlen = strlen(root); active = 1;
}
void sd_unmount(void) { active = 0; }
void sd_arm(void) { memset(opcount, 0, sizeof opcount); nfault = 0; cap_fired = 0; }
int sd_add_fault(int op, int act, int64_t at, int64_t count, int64_t arg) {
    if (nfault >= MAXFAULT) return -1;
    faultrec *f = &faults[nfault];
    f->op = op; f->act = act; f->at = at; f->count = count; f->arg = arg; f->fired = 0;
    return nfault++;
}
int64_t sd_fault_fired(int i) { return faults[i].fired; }
void sd_clear_faults(void) { nfault = 0; disk_cap = -1; }
void sd_set_cap(int64_t cap) { disk_cap = cap; }
int64_t sd_cap_fired(void) { return cap_fired; }
void sd_journal(int on) { journal_on = on; }
int64_t sd_nlog(void) { return nlog; }
logrec *sd_log(void) { return logb; }
int64_t sd_njournal(void) { return nj; }
jrec *sd_journal_recs(void) { return jb; }
unsigned char *sd_journal_data(void) { return jd; }
int64_t sd_opcount(int op) { return opcount[op]; }
const char *sd_path(int fid) { return (fid >= 0 && fid < nfid) ? fid_path[fid] : ""; }
int sd_open_fds(int *out, int max) {
    int n = 0;
    for (int i = 0; i < MAXFD && n < max; i++) if (fd_fid[i]) out[n++] = fd_fid[i] - 1;
    return n;
}

/* ---- internals ---------------------------------------------------------- */

static int ours(const char *p) {
    return active && rootlen && p && strncmp(p, root, rootlen) == 0 && (p[rootlen] == '/' || p[rootlen] == 0);
}
static int get_fid(const char *p) {
    for (int i = 0; i < nfid; i++) if (strcmp(fid_path[i], p) == 0) return i;
    if (nfid >= MAXFID) return 0;
    fid_path[nfid] = strdup(p);
    return nfid++;
}
static void addlog(int op, int fid, int64_t off, int64_t len, int64_t ret, int err, int inj) {
    if (nlog == caplog) { caplog = caplog ? caplog * 2 : 4096; logb = realloc(logb, caplog * sizeof *logb); }
    logrec *l = &logb[nlog++];
    l->op = op; l->fid = fid; l->off = off; l->len = len; l->ret = ret; l->err = err; l->injected = inj;
}
static void addj(int kind, int fid, int64_t off, const void *buf, int64_t len) {
    if (!journal_on) return;
    if (nj == capj) { capj = capj ? capj * 2 : 1024; jb = realloc(jb, capj * sizeof *jb); }
    jrec *r = &jb[nj++];
    r->kind = kind; r->fid = fid; r->off = off; r->len = len; r->pos = njd;
    if (kind == 0) {
        while (njd + len > capjd) { capjd = capjd ? capjd * 2 : 1 << 20; jd = realloc(jd, capjd); }
        memcpy(jd + njd, buf, len); njd += len;
    }
}
/* next op of this class: which fault (if any) hits it */
static faultrec *hit(int op) {
    int64_t n = opcount[op]++;
    for (int i = 0; i < nfault; i++) {
        faultrec *f = &faults[i];
        if (f->op == op && n >= f->at && (f->count < 0 || n < f->at + f->count)) {
            f->fired++;
            return f;
        }
    }
    return 0;
}

static int do_open(const char *path, int flags, int fd_or_err, int inj) {
    int fid = get_fid(path);
    if (fd_or_err >= 0 && fd_or_err < MAXFD) {
        fd_fid[fd_or_err] = fid + 1;
        fd_wr[fd_or_err] = (flags & O_ACCMODE) != O_RDONLY;
        if (flags & O_TRUNC) addj(2, fid, 0, 0, 0);
    }
    addlog(OP_OPEN, fid, flags & (O_ACCMODE | O_CREAT | O_TRUNC | O_EXCL), 0, fd_or_err >= 0 ? 0 : -1, fd_or_err < 0 ? errno : 0, inj);
    return fd_or_err;
}

#define OPENBODY(CALL) \
    if (!ours(path)) return CALL; \
    pthread_mutex_lock(&mu); \
    int r; faultrec *f = hit(OP_OPEN); \
    if (f) { errno = (int)f->arg; r = do_open(path, flags, -1, 1); errno = (int)f->arg; } \
    else { r = CALL; int e = errno; do_open(path, flags, r, 0); errno = e; } \
    pthread_mutex_unlock(&mu); \
    return r;

static mode_t getmode(int flags, va_list ap) {
    return (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
}
int open(const char *path, int flags, ...) {
    REAL(int, open, const char *, int, ...)
    va_list ap; va_start(ap, flags); mode_t m = getmode(flags, ap); va_end(ap);
    OPENBODY(real_open(path, flags, m))
}
int open64(const char *path, int flags, ...) {
    REAL(int, open64, const char *, int, ...)
    va_list ap; va_start(ap, flags); mode_t m = getmode(flags, ap); va_end(ap);
    OPENBODY(real_open64(path, flags, m))
}
int openat64(int dfd, const char *path, int flags, ...) {
    REAL(int, openat64, int, const char *, int, ...)
    va_list ap; va_start(ap, flags); mode_t m = getmode(flags, ap); va_end(ap);
    OPENBODY(real_openat64(dfd, path, flags, m))
}

#define FID(fd) ((active && (fd) >= 0 && (fd) < MAXFD) ? fd_fid[fd] : 0)

static ssize_t do_read(int fd, void *buf, size_t n, int64_t off, ssize_t (*call)(int, void *, size_t, off64_t)) {
    pthread_mutex_lock(&mu);
    int fid = fd_fid[fd] - 1;
    faultrec *f = hit(OP_READ);
    ssize_t r; int e = 0;
    if (f && f->act == ACT_ERR) { r = -1; e = (int)f->arg; }
    else if (f && f->act == ACT_EXIT) { _exit((int)f->arg); }
    else {
        size_t want = n;
        if (f && f->act == ACT_SHORT && n > 1) { want = (size_t)f->arg; if (want < 1) want = 1; if (want >= n) want = n - 1; }
        r = call(fd, buf, want, off); e = errno;
        if (f && f->act == ACT_FLIP && r > 0) ((unsigned char *)buf)[f->arg % r] ^= 0x40;
    }
    addlog(OP_READ, fid, off, (int64_t)n, r, r < 0 ? e : 0, f != 0);
    pthread_mutex_unlock(&mu);
    if (r < 0) errno = e;
    return r;
}
static ssize_t do_write(int fd, const void *buf, size_t n, int64_t off, ssize_t (*call)(int, const void *, size_t, off64_t)) {
    pthread_mutex_lock(&mu);
    int fid = fd_fid[fd] - 1;
    faultrec *f = hit(OP_WRITE);
    ssize_t r; int e = 0; int inj = f != 0;
    if (f && f->act == ACT_ERR) { r = -1; e = (int)f->arg; }
    else if (f && f->act == ACT_TORN) {
        /* part of the data reaches the disk, then the device fails */
        size_t part = n > 1 ? (size_t)(f->arg % (int64_t)n) : 0;
        if (part) { call(fd, buf, part, off); addj(0, fid, off, buf, (int64_t)part); }
        r = -1; e = EIO;
    }
    else if (f && f->act == ACT_EXIT) { _exit((int)f->arg); }
    else {
        size_t want = n;
        if (f && f->act == ACT_SHORT && n > 1) { want = (size_t)f->arg; if (want < 1) want = 1; if (want >= n) want = n - 1; }
        if (disk_cap >= 0) {
            if (off >= disk_cap) { want = 0; }
            else if (off + (int64_t)want > disk_cap) want = (size_t)(disk_cap - off);
        }
        if (disk_cap >= 0 && want == 0 && n > 0) { r = -1; e = ENOSPC; cap_fired++; inj = 1; }
        else { r = call(fd, buf, want, off); e = errno; if (r > 0) addj(0, fid, off, buf, r); }
    }
    addlog(OP_WRITE, fid, off, (int64_t)n, r, r < 0 ? e : 0, inj);
    pthread_mutex_unlock(&mu);
    if (r < 0) errno = e;
    return r;
}

static ssize_t call_pread(int fd, void *b, size_t n, off64_t o) {
    REAL(ssize_t, pread64, int, void *, size_t, off64_t)
    return real_pread64(fd, b, n, o);
}
static ssize_t call_read(int fd, void *b, size_t n, off64_t o) {
    REAL(ssize_t, read, int, void *, size_t)
    (void)o; return real_read(fd, b, n);
}
static ssize_t call_pwrite(int fd, const void *b, size_t n, off64_t o) {
    REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t)
    return real_pwrite64(fd, b, n, o);
}
static ssize_t call_write(int fd, const void *b, size_t n, off64_t o) {
    REAL(ssize_t, write, int, const void *, size_t)
    (void)o; return real_write(fd, b, n);
}

ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return FID(fd) ? do_read(fd, b, n, o, call_pread) : call_pread(fd, b, n, o); }
ssize_t pread(int fd, void *b, size_t n, off64_t o) { return FID(fd) ? do_read(fd, b, n, o, call_pread) : call_pread(fd, b, n, o); }
ssize_t read(int fd, void *b, size_t n) { return FID(fd) ? do_read(fd, b, n, lseek64(fd, 0, SEEK_CUR), call_read) : call_read(fd, b, n, 0); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return FID(fd) ? do_write(fd, b, n, o, call_pwrite) : call_pwrite(fd, b, n, o); }
ssize_t pwrite(int fd, const void *b, size_t n, off64_t o) { return FID(fd) ? do_write(fd, b, n, o, call_pwrite) : call_pwrite(fd, b, n, o); }
ssize_t write(int fd, const void *b, size_t n) { return FID(fd) ? do_write(fd, b, n, lseek64(fd, 0, SEEK_CUR), call_write) : call_write(fd, b, n, 0); }

int ftruncate64(int fd, off64_t len) {
    REAL(int, ftruncate64, int, off64_t)
    if (!FID(fd)) return real_ftruncate64(fd, len);
    pthread_mutex_lock(&mu);
    int fid = fd_fid[fd] - 1; faultrec *f = hit(OP_TRUNC); int r, e;
    if (f) { r = -1; e = (int)f->arg; }
    else if (disk_cap >= 0 && len > disk_cap) {
        /* extending a file is a sparse operation: it succeeds on a full disk */
        r = real_ftruncate64(fd, len); e = errno; addj(1, fid, len, 0, 0);
    }
    else { r = real_ftruncate64(fd, len); e = errno; if (!r) addj(1, fid, len, 0, 0); }
    addlog(OP_TRUNC, fid, len, 0, r, r ? e : 0, f != 0);
    pthread_mutex_unlock(&mu);
    if (r) errno = e;
    return r;
}
int fsync(int fd) {
    REAL(int, fsync, int)
    if (!FID(fd)) return real_fsync(fd);
    pthread_mutex_lock(&mu);
    int fid = fd_fid[fd] - 1; faultrec *f = hit(OP_FSYNC); int r = 0, e = 0;
    if (f) { r = -1; e = (int)f->arg; }
    addlog(OP_FSYNC, fid, 0, 0, r, e, f != 0);
    pthread_mutex_unlock(&mu);
    if (r) errno = e;
    return r;
}
int flock(int fd, int op) {
    REAL(int, flock, int, int)
    if (!FID(fd)) return real_flock(fd, op);
    pthread_mutex_lock(&mu);
    int fid = fd_fid[fd] - 1; int r, e = 0; faultrec *f = 0;
    if (op & LOCK_UN) { r = real_flock(fd, op); e = errno; }
    else {
        f = hit(OP_LOCK);
        if (f) { r = -1; e = (int)f->arg; }
        else { r = real_flock(fd, op); e = errno; }
        addlog(OP_LOCK, fid, op, 0, r, r ? e : 0, f != 0);
    }
    pthread_mutex_unlock(&mu);
    if (r) errno = e;
    return r;
}
int close(int fd) {
    REAL(int, close, int)
    if (!FID(fd)) return real_close(fd);
    pthread_mutex_lock(&mu);
    int fid = fd_fid[fd] - 1; faultrec *f = hit(OP_CLOSE);
    fd_fid[fd] = 0;
    int r = real_close(fd), e = errno;
    if (f) { r = -1; e = (int)f->arg; }   /* the descriptor is gone, as on Linux */
    addlog(OP_CLOSE, fid, 0, 0, r, r ? e : 0, f != 0);
    pthread_mutex_unlock(&mu);
    if (r) errno = e;
    return r;
}
int unlink(const char *path) {
    REAL(int, unlink, const char *)
    if (!ours(path)) return real_unlink(path);
    pthread_mutex_lock(&mu);
    faultrec *f = hit(OP_UNLINK); int r, e = 0;
    if (f) { r = -1; e = (int)f->arg; } else { r = real_unlink(path); e = errno; }
    addlog(OP_UNLINK, get_fid(path), 0, 0, r, r ? e : 0, f != 0);
    pthread_mutex_unlock(&mu);
    if (r) errno = e;
    return r;
}
int rename(const char *a, const char *b) {
    REAL(int, rename, const char *, const char *)
    if (!ours(a) && !ours(b)) return real_rename(a, b);
    pthread_mutex_lock(&mu);
    faultrec *f = hit(OP_RENAME); int r, e = 0;
    if (f) { r = -1; e = (int)f->arg; } else { r = real_rename(a, b); e = errno; }
    addlog(OP_RENAME, get_fid(b), 0, 0, r, r ? e : 0, f != 0);
    pthread_mutex_unlock(&mu);
    if (r) errno = e;
    return r;
}
