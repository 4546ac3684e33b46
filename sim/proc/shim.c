// Interposed libc seam for the simulated rust-peg process (LD_PRELOAD).
// Every decision comes from the plan file named by SIMPLAN (KEY=VALUE lines)
// and one PRNG seeded there; the report (counters, hash of the event
// sequence) goes to a shared mapping so that it survives aborts and _exit.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sched.h>
#include <sys/utsname.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define NONE (-1L)

struct report {
    uint64_t hash, events;
    uint64_t reads, read_bytes, read_short, read_eintr, read_fail, read_eof_early;
    uint64_t writes, write_bytes, write_short, write_eintr, write_fail, write_zero, killed;
    uint64_t opens, open_fail, open_eintr;
    uint64_t allocs, alloc_fail, alloc_poison;
    uint64_t randoms, clocks, stats, stat_lies, err_writes, err_fail, env_asked, env_lies, machine;
    uint64_t points, other_opens, other_writes, other_fail;
};
static struct report local, *R = &local;

static struct {
    uint64_t seed;
    long rmin, rmax;           // bytes per read
    long reintr;               // per mille
    long rfail, rerr, rsticky; // at source offset
    long reof;                 // end of data reported at this offset
    long ofail, ointr;         // errno of opening the grammar; EINTRs first
    long statlie;              // reported size, -2: call fails
    long wmin, wmax, weintr;
    long wfail, werr, wsticky; // at output offset
    long wcall;                // or at this write call
    long wkill;                // die at this output offset
    long efail;                // writes to fd 2 fail with this errno
    long mfail, mlast;         // failing allocations: first .. last
    long mpoison, mpad;
    long fixclock;
    long envlie;               // per mille of unset variables that are answered
    long pid;
    long machine;              // the machine's and user's data vary
    long pkill;                // die at this call that touches a file
    long xfail, xerr, xmax;    // writes to other files: fail from the n-th on, or are short
} P;
static char jail[512];         // all effects on files stay below this directory
static int gate_in = -1, gate_out = -1;
static char source[512];
static int srcfd = -1;
static long roff, woff, wcalls;
static int ready;
static uint64_t rng_s;

static uint64_t mix(uint64_t *s) {
    uint64_t z = (*s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static uint64_t rnd(void) { return mix(&rng_s); }
static long range(long lo, long hi) { return hi <= lo ? lo : lo + (long)(rnd() % (uint64_t)(hi - lo + 1)); }
static void ev(char kind, long a, long b) {
    uint64_t x = R->hash ^ ((uint64_t)kind << 56) ^ ((uint64_t)a * 1099511628211ull) ^ (uint64_t)b;
    R->hash = mix(&x);
    R->events++;
}

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);

static long sys_write(int fd, const void *b, size_t n) { return syscall(SYS_write, fd, b, n); }

__attribute__((constructor)) static void init(void) {
    const char *plan = getenv("SIMPLAN");
    if (!plan) return;
    static char text[8192];
    int fd = syscall(SYS_openat, AT_FDCWD, plan, O_RDONLY | O_CLOEXEC, 0);
    if (fd < 0) _exit(99);
    long n = syscall(SYS_read, fd, text, sizeof text - 1);
    syscall(SYS_close, fd);
    if (n <= 0) _exit(99);
    text[n] = 0;
    P.pkill = P.xfail = NONE;
    P.rfail = P.reof = P.wfail = P.wcall = P.wkill = P.mfail = P.mlast = P.statlie = NONE;
    P.rmax = P.wmax = 1L << 40;
    P.rmin = P.wmin = 1;
    static char repname[512], gi[512], go[512];
    for (char *line = text; *line;) {
        char *end = strchr(line, '\n');
        if (end) *end = 0;
        char *eq = strchr(line, '=');
        if (eq) {
            *eq = 0;
            const char *v = eq + 1;
            if (!strcmp(line, "report")) strncpy(repname, v, sizeof repname - 1);
            else if (!strcmp(line, "source")) strncpy(source, v, sizeof source - 1);
            else if (!strcmp(line, "jail")) strncpy(jail, v, sizeof jail - 1);
            else if (!strcmp(line, "gatein")) strncpy(gi, v, sizeof gi - 1);
            else if (!strcmp(line, "gateout")) strncpy(go, v, sizeof go - 1);
            else {
                long x = strtol(v, 0, 10);
#define K(name) else if (!strcmp(line, #name)) P.name = x;
                if (!strcmp(line, "seed")) P.seed = strtoull(v, 0, 10);
                K(rmin) K(rmax) K(reintr) K(rfail) K(rerr) K(rsticky) K(reof) K(ofail) K(ointr) K(statlie)
                K(wmin) K(wmax) K(weintr) K(wfail) K(werr) K(wsticky) K(wcall) K(wkill) K(efail)
                K(mfail) K(mlast) K(mpoison) K(mpad) K(fixclock) K(envlie) K(pid) K(machine)
                K(pkill) K(xfail) K(xerr) K(xmax)
                else _exit(98);
            }
        }
        if (!end) break;
        line = end + 1;
    }
    rng_s = P.seed;
    fd = syscall(SYS_openat, AT_FDCWD, repname, O_RDWR | O_CLOEXEC, 0);
    if (fd < 0) _exit(97);
    void *m = mmap(0, sizeof *R, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (m == MAP_FAILED) _exit(97);
    syscall(SYS_close, fd);
    R = m;
    if (gi[0]) {
        gate_in = syscall(SYS_openat, AT_FDCWD, gi, O_RDWR | O_CLOEXEC, 0);
        gate_out = syscall(SYS_openat, AT_FDCWD, go, O_RDWR | O_CLOEXEC, 0);
        if (gate_in < 0 || gate_out < 0) _exit(99);
    }
    if (!source[0]) srcfd = 0;
    unsetenv("SIMPLAN");
    unsetenv("LD_PRELOAD");
    ready = 1;
}

// A call that touches a file is about to happen: the scheduler says when.
static void point(void) {
    if (!ready) return;
    R->points++;
    if (gate_in >= 0) {
        char c = 'x';
        sys_write(gate_out, &c, 1);
        while (syscall(SYS_read, gate_in, &c, 1) != 1) {}
    }
    if (gate_in >= 0 && R->points > 20000) syscall(SYS_kill, syscall(SYS_getpid), SIGXCPU);  // polls for ever
    if (P.pkill != NONE && (long)R->points > P.pkill) {
        R->killed++;
        ev('K', R->points, 0);
        syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
    }
}

// The path a call may really use.
static const char *inside(const char *path, char *buf, size_t n, int change) {
    if (!ready || !jail[0] || !path || !path[0]) return path;
    size_t j = strlen(jail);
    if (path[0] != '/' && !strstr(path, "..")) return path;
    if (!strncmp(path, jail, j) && path[j] == '/' && !strstr(path, "..")) return path;
    if ((!strncmp(path, "/dev/", 5) && strncmp(path, "/dev/shm", 8)) || !strncmp(path, "/proc/", 6)) return path;
    size_t k = snprintf(buf, n, "%s/outside-", jail);
    for (const char *c = path; *c && k + 1 < n; c++) buf[k++] = *c == '/' ? '%' : *c;
    buf[k] = 0;
    if (change || syscall(SYS_faccessat, AT_FDCWD, buf, F_OK) == 0) return buf;
    return path;
}

// ------------------------------------------------------------------ reading

static ssize_t sim_read(void *buf, size_t n, int (*real)(void *, size_t, ssize_t *)) {
    point();
    R->reads++;
    if (P.reintr && (long)(rnd() % 1000) < P.reintr) {
        R->read_eintr++;
        ev('i', roff, 0);
        errno = EINTR;
        return -1;
    }
    if (P.rfail != NONE && roff >= P.rfail) {
        R->read_fail++;
        ev('f', roff, P.rerr);
        if (!P.rsticky) P.rfail = NONE;
        errno = P.rerr;
        return -1;
    }
    if (P.reof != NONE && roff >= P.reof) {
        if (n) R->read_eof_early++;
        ev('e', roff, 0);
        return 0;
    }
    size_t want = n;
    long cap = range(P.rmin, P.rmax);
    if (P.rfail != NONE && P.rfail - roff < cap) cap = P.rfail - roff;
    if (P.reof != NONE && P.reof - roff < cap) cap = P.reof - roff;
    if ((long)want > cap) want = cap;
    ssize_t got;
    real(buf, want, &got);
    if (got > 0) {
        if (want < n && got == (ssize_t)want) R->read_short++;
        roff += got;
        R->read_bytes += got;
    }
    ev('r', want, got);
    return got;
}

static int cur_fd;
static int real_read(void *b, size_t n, ssize_t *got) {
    *got = syscall(SYS_read, cur_fd, b, n);
    return 0;
}
ssize_t read(int fd, void *buf, size_t n) {
    if (!ready || fd != srcfd) return syscall(SYS_read, fd, buf, n);
    cur_fd = fd;
    return sim_read(buf, n, real_read);
}
ssize_t readv(int fd, const struct iovec *v, int c) {
    if (!ready || fd != srcfd) return syscall(SYS_readv, fd, v, c);
    cur_fd = fd;
    for (int i = 0; i < c; i++)
        if (v[i].iov_len) return sim_read(v[i].iov_base, v[i].iov_len, real_read);
    return 0;
}
static off_t pread_off;
static int real_pread(void *b, size_t n, ssize_t *got) {
    *got = syscall(SYS_pread64, cur_fd, b, n, pread_off);
    return 0;
}
ssize_t pread64(int fd, void *buf, size_t n, off_t off) {
    if (!ready || fd != srcfd) return syscall(SYS_pread64, fd, buf, n, off);
    cur_fd = fd;
    pread_off = off;
    roff = off;
    return sim_read(buf, n, real_pread);
}
ssize_t pread(int fd, void *buf, size_t n, off_t off) { return pread64(fd, buf, n, off); }
void *mmap64(void *a, size_t n, int p, int f, int fd, off_t o) {
    // a mapped grammar cannot be delivered in pieces: refuse, as some file systems do
    if (ready && fd >= 0 && fd == srcfd) {
        errno = ENODEV;
        return MAP_FAILED;
    }
    return (void *)syscall(SYS_mmap, a, n, p, f, fd, o);
}

static int sim_open(int dir, const char *path, int flags, mode_t mode) {
    int mine = ready && source[0] && !strcmp(path, source);
    char buf[1024];
    int change = (flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT);
    point();
    if (!mine || change) path = inside(path, buf, sizeof buf, change);
    if (ready && change) {
        R->other_opens++;
        ev('O', flags, 0);
    }
    if (mine) {
        R->opens++;
        if (P.ointr > 0) {
            P.ointr--;
            R->open_eintr++;
            ev('o', EINTR, 0);
            errno = EINTR;
            return -1;
        }
        if (P.ofail) {
            R->open_fail++;
            ev('o', P.ofail, 0);
            errno = P.ofail;
            return -1;
        }
    }
    int fd = syscall(SYS_openat, dir, path, flags, mode);
    if (!mine && fd < 0 && errno == ENOENT && ready && P.machine && (flags & O_ACCMODE) == O_RDONLY && rnd() % 2) {
        // a file that happens to be there
        R->machine++;
        fd = syscall(SYS_memfd_create, "sim", MFD_CLOEXEC);
        char b[64];
        int n = snprintf(b, sizeof b, "x%ld = %ld\n", range(0, 99), range(0, 99));
        syscall(SYS_pwrite64, fd, b, n, 0);
    }
    if (mine && fd >= 0) {
        srcfd = fd;
        roff = 0;
        ev('o', 0, 0);
    }
    return fd;
}
#define OPEN(name, ...)                                   \
    va_list ap;                                           \
    va_start(ap, flags);                                  \
    mode_t mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; \
    va_end(ap);                                           \
    return sim_open(__VA_ARGS__, path, flags, mode);
int open(const char *path, int flags, ...) { OPEN(open, AT_FDCWD) }
int open64(const char *path, int flags, ...) { OPEN(open64, AT_FDCWD) }
int openat(int dir, const char *path, int flags, ...) { OPEN(openat, dir) }
int openat64(int dir, const char *path, int flags, ...) { OPEN(openat64, dir) }

int statx(int dir, const char *restrict path, int flags, unsigned mask, struct statx *restrict st) {
    char buf[1024];
    const char *volatile given = path;  // null when std asks whether the call exists
    if (given && path[0]) {
        point();
        path = inside(path, buf, sizeof buf, 0);
    }
    int r = syscall(SYS_statx, dir, path, flags, mask, st);
    if (ready && P.machine) {
        R->machine++;
        if (r < 0 && errno == ENOENT && rnd() % 2) {
            memset(st, 0, sizeof *st);
            st->stx_mask = STATX_BASIC_STATS;
            st->stx_mode = S_IFREG | 0644;
            st->stx_size = 8;
            st->stx_nlink = 1;
            r = 0;
        }
        if (r == 0) {
            st->stx_ino = range(1, 1 << 30);
            st->stx_mtime.tv_sec = st->stx_ctime.tv_sec = st->stx_atime.tv_sec = range(1, 1 << 30);
            st->stx_btime.tv_sec = range(1, 1 << 30);
        }
    }
    if (!ready || srcfd < 0 || dir != srcfd || r != 0) return r;
    R->stats++;
    if (P.statlie == -2) {
        R->stat_lies++;
        errno = EIO;
        return -1;
    }
    if (P.statlie >= 0) {
        R->stat_lies++;
        st->stx_size = P.statlie;
    }
    return r;
}
int fstat64(int fd, struct stat64 *st) {
    int r = syscall(SYS_fstat, fd, st);
    if (!ready || srcfd < 0 || fd != srcfd || r != 0) return r;
    R->stats++;
    if (P.statlie == -2) {
        R->stat_lies++;
        errno = EIO;
        return -1;
    }
    if (P.statlie >= 0) {
        R->stat_lies++;
        st->st_size = P.statlie;
    }
    return r;
}

// ------------------------------------------------------------------ writing

static ssize_t sim_write(const void *buf, size_t n) {
    point();
    R->writes++;
    wcalls++;
    if (P.weintr && (long)(rnd() % 1000) < P.weintr) {
        R->write_eintr++;
        ev('I', woff, 0);
        errno = EINTR;
        return -1;
    }
    int refuse = (P.wfail != NONE && woff >= P.wfail) || (P.wcall != NONE && wcalls > P.wcall);
    if (refuse && n) {
        if (!P.wsticky) P.wfail = P.wcall = NONE;
        R->write_fail++;
        ev('F', woff, P.werr);
        if (P.werr == 0) {
            R->write_zero++;
            return 0;
        }
        errno = P.werr;
        return -1;
    }
    long cap = range(P.wmin, P.wmax);
    if (P.wfail != NONE && P.wfail - woff < cap) cap = P.wfail - woff;
    size_t want = n;
    if ((long)want > cap) want = cap;
    int die = P.wkill != NONE && woff + (long)want >= P.wkill;
    if (die) want = P.wkill > woff ? P.wkill - woff : 0;
    size_t done = 0;
    while (done < want) {
        ssize_t got = sys_write(1, (const char *)buf + done, want - done);
        if (got < 0) {
            if (errno == EINTR) continue;
            _exit(96);
        }
        done += got;
    }
    if (want < n) R->write_short++;
    woff += want;
    R->write_bytes += want;
    ev('w', n, want);
    if (die) {
        R->killed++;
        syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
    }
    return want;
}
ssize_t write(int fd, const void *buf, size_t n) {
    if (ready && fd == 1) return sim_write(buf, n);
    if (ready && fd == 2) {
        R->err_writes++;
        if (P.efail) {
            R->err_fail++;
            errno = P.efail;
            return -1;
        }
    }
    if (ready && fd > 2) {
        point();
        R->other_writes++;
        ev('X', n, 0);
        if (P.xfail != NONE && (long)R->other_writes > P.xfail) {
            R->other_fail++;
            errno = P.xerr;
            return -1;
        }
        if (P.xmax && n > (size_t)P.xmax) n = P.xmax;
    }
    return sys_write(fd, buf, n);
}

// Copies inside the kernel would pass by the seam: not supported here.
static ssize_t no_sys(void) {
    errno = ENOSYS;
    return -1;
}
ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t n, unsigned f) { return no_sys(); }
ssize_t sendfile(int o, int i, off_t *p, size_t n) { return no_sys(); }
ssize_t sendfile64(int o, int i, off64_t *p, size_t n) { return no_sys(); }
ssize_t splice(int a, off64_t *b, int c, off64_t *d, size_t n, unsigned f) { return no_sys(); }

// ------------------------------------------------------------------ other effects on files

#define CHANGE(nr, ...)                 \
    point();                            \
    if (ready) R->other_opens++;        \
    long r = syscall(nr, __VA_ARGS__);  \
    return (int)r;
int mkdir(const char *a, mode_t m) {
    char b[1024];
    CHANGE(SYS_mkdirat, AT_FDCWD, inside(a, b, sizeof b, 1), m)
}
int rmdir(const char *a) {
    char b[1024];
    CHANGE(SYS_unlinkat, AT_FDCWD, inside(a, b, sizeof b, 1), AT_REMOVEDIR)
}
int unlink(const char *a) {
    char b[1024];
    CHANGE(SYS_unlinkat, AT_FDCWD, inside(a, b, sizeof b, 1), 0)
}
int rename(const char *a, const char *c) {
    char b[1024], d[1024];
    CHANGE(SYS_renameat2, AT_FDCWD, inside(a, b, sizeof b, 1), AT_FDCWD, inside(c, d, sizeof d, 1), 0)
}
int link(const char *a, const char *c) {
    char b[1024], d[1024];
    CHANGE(SYS_linkat, AT_FDCWD, inside(a, b, sizeof b, 1), AT_FDCWD, inside(c, d, sizeof d, 1), 0)
}
int linkat(int x, const char *a, int y, const char *c, int f) {
    char b[1024], d[1024];
    CHANGE(SYS_linkat, x, inside(a, b, sizeof b, 1), y, inside(c, d, sizeof d, 1), f)
}
int symlink(const char *a, const char *c) {
    char d[1024];
    CHANGE(SYS_symlinkat, a, AT_FDCWD, inside(c, d, sizeof d, 1))
}
int chmod(const char *a, mode_t m) {
    char b[1024];
    CHANGE(SYS_fchmodat, AT_FDCWD, inside(a, b, sizeof b, 1), m)
}
int truncate64(const char *a, off_t n) {
    char b[1024];
    CHANGE(SYS_truncate, inside(a, b, sizeof b, 1), n)
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (ready && fd == 1) {
        for (int i = 0; i < c; i++)
            if (v[i].iov_len) return sim_write(v[i].iov_base, v[i].iov_len);
        return 0;
    }
    return syscall(SYS_writev, fd, v, c);
}

// ------------------------------------------------------------------ memory

static int refuse_alloc(void) {
    if (!ready) return 0;
    long k = R->allocs++;
    if (P.mfail != NONE && k >= P.mfail && k <= P.mlast) {
        R->alloc_fail++;
        ev('M', k, 0);
        return 1;
    }
    return 0;
}
static void poison(void *p, size_t from) {
    if (!ready || !P.mpoison || !p) return;
    size_t n = malloc_usable_size(p);
    if (n > 65536) n = 65536;
    uint64_t s = P.seed ^ R->allocs;
    for (size_t i = from; i < n; i++) {
        if (!(i & 7)) mix(&s);
        ((unsigned char *)p)[i] = (unsigned char)(s >> ((i & 7) * 8));
    }
    R->alloc_poison++;
}
static size_t pad(size_t n) {
    if (!ready || !P.mpad || n > (1ul << 40)) return n;
    uint64_t s = P.seed + R->allocs;
    return n + (mix(&s) % (uint64_t)P.mpad) * 16;
}
void *malloc(size_t n) {
    if (refuse_alloc()) {
        errno = ENOMEM;
        return 0;
    }
    void *p = __libc_malloc(pad(n));
    poison(p, 0);
    return p;
}
void *calloc(size_t a, size_t b) {
    if (refuse_alloc()) {
        errno = ENOMEM;
        return 0;
    }
    return __libc_calloc(a, b);
}
void *realloc(void *old, size_t n) {
    if (refuse_alloc()) {
        errno = ENOMEM;
        return 0;
    }
    size_t had = old ? malloc_usable_size(old) : 0;
    void *p = __libc_realloc(old, pad(n));
    if (p && had < malloc_usable_size(p)) poison(p, had);
    return p;
}
int posix_memalign(void **out, size_t al, size_t n) {
    if (refuse_alloc()) return ENOMEM;
    void *p = __libc_memalign(al, pad(n));
    if (!p) return ENOMEM;
    poison(p, 0);
    *out = p;
    return 0;
}
void *aligned_alloc(size_t al, size_t n) {
    if (refuse_alloc()) {
        errno = ENOMEM;
        return 0;
    }
    return __libc_memalign(al, pad(n));
}

// ------------------------------------------------------------------ randomness, time, identity

static void fill(void *b, size_t n) {
    R->randoms++;
    uint64_t s = P.seed * 0x2545f4914f6cdd1dull + R->randoms;
    for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = (unsigned char)(mix(&s) >> 24);
}
ssize_t getrandom(void *b, size_t n, unsigned f) {
    if (!ready) return syscall(SYS_getrandom, b, n, f);
    fill(b, n);
    return n;
}
int getentropy(void *b, size_t n) {
    fill(b, n);
    return 0;
}
// Sleeping takes simulated time only.
static int64_t slept;
static int doze(const struct timespec *t, struct timespec *left) {
    if (!ready) return syscall(SYS_nanosleep, t, left);
    point();
    slept += t->tv_sec * 1000000000ll + t->tv_nsec;
    return 0;
}
int nanosleep(const struct timespec *t, struct timespec *left) { return doze(t, left); }
int clock_nanosleep(clockid_t c, int f, const struct timespec *t, struct timespec *left) {
    if (!ready || f) return syscall(SYS_clock_nanosleep, c, f, t, left) < 0 ? errno : 0;
    return doze(t, left);
}
int usleep(useconds_t n) {
    struct timespec t = {n / 1000000, n % 1000000 * 1000l};
    return doze(&t, 0);
}
int sched_yield(void) {
    point();
    return 0;
}

// A lock that is held lets another process go on.
int flock(int fd, int op) {
    if (!ready || gate_in < 0 || (op & 4)) return syscall(SYS_flock, fd, op);
    for (;;) {
        point();
        if (syscall(SYS_flock, fd, op | 4) == 0) return 0;
        if (errno != EWOULDBLOCK) return -1;
    }
}
static int sim_fcntl(int fd, int op, long arg) {
    if (ready && gate_in >= 0 && (op == F_SETLKW || op == 38)) {
        for (;;) {
            point();
            if (syscall(SYS_fcntl, fd, op - 1, arg) == 0) return 0;
            if (errno != EAGAIN && errno != EACCES) return -1;
        }
    }
    return syscall(SYS_fcntl, fd, op, arg);
}
#define FCNTL(name)                          \
    int name(int fd, int op, ...) {          \
        va_list ap;                          \
        va_start(ap, op);                    \
        long arg = va_arg(ap, long);         \
        va_end(ap);                          \
        return sim_fcntl(fd, op, arg);       \
    }
FCNTL(fcntl)
FCNTL(fcntl64)
int lockf(int fd, int op, off_t n) {
    struct flock l = {.l_type = op == F_ULOCK ? F_UNLCK : F_WRLCK, .l_whence = SEEK_CUR, .l_len = n};
    return sim_fcntl(fd, op == F_LOCK ? F_SETLKW : F_SETLK, (long)&l);
}

int clock_gettime(clockid_t c, struct timespec *t) {
    if (!ready || !P.fixclock) return syscall(SYS_clock_gettime, c, t);
    R->clocks++;
    t->tv_sec = P.fixclock + R->clocks + slept / 1000000000;
    t->tv_nsec = P.seed % 1000000000;
    return 0;
}
int gettimeofday(struct timeval *t, void *z) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    t->tv_sec = ts.tv_sec;
    t->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *o) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (o) *o = ts.tv_sec;
    return ts.tv_sec;
}

// Variables nobody set: any name may be set in a deployment. Those that
// configure Rust's own runtime keep their value.
char *getenv(const char *name) {
    size_t n = strlen(name);
    for (char **e = environ; e && *e; e++)
        if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
    if (!ready || !P.envlie || !strncmp(name, "RUST_", 5)) return 0;
    R->env_asked++;
    static char buf[8][16];
    static int k;
    static const char *const values[] = {"1", "", "0", "true", "x", "/tmp", "never", "7"};
    uint64_t s = P.seed;
    for (const char *c = name; *c; c++) s = s * 1099511628211ull + (unsigned char)*c;
    uint64_t r = mix(&s);
    if ((long)(r % 1000) >= P.envlie) return 0;
    R->env_lies++;
    ev('V', (long)n, (long)(r >> 40));
    char *b = buf[k++ & 7];
    strcpy(b, values[(r >> 20) % 8]);
    return b;
}
pid_t getpid(void) { return ready && P.pid ? (pid_t)P.pid : (pid_t)syscall(SYS_getpid); }

// Facts about the machine and its user.
int isatty(int fd) {
    (void)fd;
    if (!ready || !P.machine) { errno = ENOTTY; return 0; }
    R->machine++;
    if (rnd() % 2) return 1;
    errno = ENOTTY;
    return 0;
}
int uname(struct utsname *u) {
    long r = syscall(SYS_uname, u);
    if (r == 0 && ready && P.machine) {
        R->machine++;
        snprintf(u->nodename, sizeof u->nodename, "host%ld", range(0, 1 << 20));
        snprintf(u->release, sizeof u->release, "%ld.%ld.0", range(3, 9), range(0, 20));
    }
    return (int)r;
}
int gethostname(char *b, size_t n) {
    struct utsname u;
    if (uname(&u)) return -1;
    snprintf(b, n, "%s", u.nodename);
    return 0;
}
static uid_t some_id(long nr) {
    if (!ready || !P.machine) return (uid_t)syscall(nr);
    R->machine++;
    return (uid_t)range(0, 70000);
}
uid_t getuid(void) { return some_id(SYS_getuid); }
uid_t geteuid(void) { return some_id(SYS_geteuid); }
gid_t getgid(void) { return some_id(SYS_getgid); }
pid_t getppid(void) { return (pid_t)some_id(SYS_getppid); }
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *m) {
    if (!ready || !P.machine) {
        long r = syscall(SYS_sched_getaffinity, p, n, m);
        return r < 0 ? -1 : 0;
    }
    R->machine++;
    memset(m, 0, n);
    long k = range(1, 64);
    for (long i = 0; i < k && (size_t)i < n * 8; i++) CPU_SET_S(i, n, m);
    return 0;
}
long sysconf(int name) {
    static long (*next)(int);
    if (!next) next = (long (*)(int))dlsym(RTLD_NEXT, "sysconf");
    if (ready && P.machine && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF)) {
        R->machine++;
        return range(1, 64);
    }
    return next(name);
}
