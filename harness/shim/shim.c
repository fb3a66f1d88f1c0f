/* The simulated operating system below one process: loaded with LD_PRELOAD, it answers the file, clock
 * and random number calls of the program under test as the plan in OSMSIM_PLAN says.
 *
 * Files under OSMSIM_DIR are simulated (numbered operations, faults, a log of everything that reaches
 * the disk); everything outside can only be read.
 *
 * Plan, separated by blanks:
 *   seed=N        random bytes, sizes of short reads and writes
 *   chunk=N       input reads: 0 full, 1 one byte, 2 mixed small, 3 halves
 *   intr=N        one of N operations is interrupted (EINTR), 0 never
 *   short=N       one of N database reads and writes is short, 0 never
 *   clock=N       nanoseconds every look at the clock takes
 *   at=OP,ACTION,ARG  at operation OP: 1 error ARG once, 2 error ARG for this kind from here on,
 *                 3 die before it, 4 die in the middle of it (ARG bytes), 5 die after it
 *   full=N        the disk is full after N bytes
 *   inerr=POS,ERRNO  reading the input at POS fails
 *   outerr=N,ERRNO   writing to standard output or error fails after N bytes
 *
 * With OSMSIM_TURN set, the process asks on descriptor 901 and waits on 902 before every operation, lock
 * and sleep: the simulator decides which of several processes goes on.
 *
 * Log record: kind, file id, result, length (u32 each), offset (u64), then length bytes.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { OPEN = 1, READ, WRITE, SYNC, TRUNC, UNLINK, DIRSYNC, STDOUT, STAT, INREAD, RENAME, REFUSED };
enum { NONE, INPUT, DATA, DIRFD };

#define MAXFD 1024
#define MAXNAMES 256

static char dir[512];
static size_t dirlen;
static int logfd = -1;
static int ready;
static uint64_t rng, ops, room = UINT64_MAX, now_ns = 1700000000ull * 1000000000ull, tick;
static int chunk;
static uint64_t intr, shrt;
static int64_t at_op = -1;
static int at_action, at_arg, sticky_kind = -1;
static int64_t inerr_pos = -1;
static int inerr_no;
static int64_t out_room = -1;
static int outerr_no;
static uint64_t inpos[MAXFD];
static unsigned char role[MAXFD];
static uint32_t fileid[MAXFD];
static struct { char name[256]; uint32_t id; } names[MAXNAMES];
static uint32_t next_id = 1;
static int interrupted_last;
static int turns;
enum { ASK = 901, ANSWER = 902, LOCK = 20, SLEEP };

static uint64_t rnd(void) {
    uint64_t z = (rng += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

static uint64_t num(const char *plan, const char *key, uint64_t d) {
    const char *p = strstr(plan, key);
    return p ? strtoull(p + strlen(key), NULL, 10) : d;
}

__attribute__((constructor)) static void init(void) {
    if (ready) return;
    ready = 1;
    const char *d = getenv("OSMSIM_DIR"), *plan = getenv("OSMSIM_PLAN"), *log = getenv("OSMSIM_LOG");
    if (!d || !plan || !log || strlen(d) >= sizeof dir) { ready = 2; return; }
    strcpy(dir, d);
    dirlen = strlen(dir);
    int f = syscall(SYS_openat, AT_FDCWD, log, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND | O_CLOEXEC, 0600);
    if (f < 0) { ready = 2; return; }
    logfd = syscall(SYS_fcntl, f, F_DUPFD_CLOEXEC, 900);
    syscall(SYS_close, f);
    turns = getenv("OSMSIM_TURN") != NULL;
    rng = num(plan, "seed=", 1);
    chunk = num(plan, "chunk=", 0);
    intr = num(plan, "intr=", 0);
    shrt = num(plan, "short=", 0);
    tick = num(plan, "clock=", 1000);
    room = num(plan, "full=", UINT64_MAX);
    const char *p = strstr(plan, "at=");
    if (p) {
        char *e;
        at_op = strtoll(p + 3, &e, 10);
        at_action = strtol(e + 1, &e, 10);
        at_arg = strtol(e + 1, &e, 10);
    }
    p = strstr(plan, "inerr=");
    if (p) {
        char *e;
        inerr_pos = strtoll(p + 6, &e, 10);
        inerr_no = strtol(e + 1, &e, 10);
    }
    p = strstr(plan, "outerr=");
    if (p) {
        char *e;
        out_room = strtoll(p + 7, &e, 10);
        outerr_no = strtol(e + 1, &e, 10);
    }
}

static int on(void) {
    if (!ready) init();
    return ready == 1;
}

static void record(uint32_t kind, uint32_t id, int64_t res, uint64_t off, const void *data, uint32_t len) {
    struct { uint32_t kind, id; int32_t res; uint32_t len; uint64_t off; } r = { kind, id, (int32_t)res, len, off };
    struct iovec v[2] = { { &r, sizeof r }, { (void *)data, len } };
    syscall(SYS_writev, logfd, v, len ? 2 : 1);
}

static void die(void) {
    syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
    for (;;) syscall(SYS_pause);
}

/* waits until the simulator lets this process go on */
static void turn(int kind) {
    unsigned char c = kind;
    int e = errno;
    if (!turns) return;
    while (syscall(SYS_write, ASK, &c, 1) < 0 && errno == EINTR);
    long k;
    while ((k = syscall(SYS_read, ANSWER, &c, 1)) < 0 && errno == EINTR);
    if (k <= 0) syscall(SYS_exit_group, 99); /* the simulator is gone */
    errno = e;
}

/* decides about one operation: 0 go on, > 0 this errno; -1 die in the middle, -2 die after it */
static int gate(int kind) {
    uint64_t n = ops++;
    turn(kind);
    if (kind == sticky_kind) { interrupted_last = 0; return at_arg; }
    if (at_op >= 0 && n == (uint64_t)at_op) {
        interrupted_last = 0;
        switch (at_action) {
        case 1: return at_arg;
        case 2: sticky_kind = kind; return at_arg;
        case 3: die();
        case 4: return -1;
        case 5: return -2;
        }
    }
    /* never interrupted for ever; only where POSIX programs have to cope with it */
    if (intr && (kind == READ || kind == WRITE || kind == INREAD || kind == STDOUT) && interrupted_last < 3 && rnd() % intr == 0) {
        interrupted_last++;
        return EINTR;
    }
    interrupted_last = 0;
    return 0;
}

/* the path relative to the simulated directory, or NULL */
static const char *ours(int d, const char *path, char *buf, size_t n) {
    if (!path) return NULL;
    if (path[0] != '/') {
        if (d != AT_FDCWD) return NULL;
        if (syscall(SYS_getcwd, buf, n) < 0) return NULL;
        size_t l = strlen(buf);
        if (l + strlen(path) + 2 > n) return NULL;
        buf[l] = '/';
        strcpy(buf + l + 1, path);
        path = buf;
    }
    if (strstr(path, "..")) return NULL;
    if (strncmp(path, dir, dirlen) || (path[dirlen] && path[dirlen] != '/')) return NULL;
    return path[dirlen] ? path + dirlen + 1 : "";
}

static int fail(int e) {
    errno = e;
    return -1;
}

static int slot(const char *name, int make) {
    int empty = -1;
    for (int i = 0; i < MAXNAMES; i++) {
        if (names[i].id && !strcmp(names[i].name, name)) return i;
        if (!names[i].id && empty < 0) empty = i;
    }
    if (!make || empty < 0 || strlen(name) >= sizeof names[0].name) return -1;
    strcpy(names[empty].name, name);
    return empty;
}

static int do_open(int d, const char *path, int flags, unsigned mode) {
    if (!on()) return syscall(SYS_openat, d, path, flags, mode);
    char buf[2048];
    const char *rel = ours(d, path, buf, sizeof buf);
    int writes = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    if (!rel) {
        if (writes && strcmp(path, "/dev/null")) {
            record(REFUSED, 0, 0, 0, path, strlen(path));
            return fail(EACCES);
        }
        int fd = syscall(SYS_openat, d, path, flags, mode);
        /* random bytes come from the plan */
        if (fd >= 0 && fd < MAXFD) role[fd] = !strcmp(path, "/dev/urandom") || !strcmp(path, "/dev/random") ? 9 : NONE;
        return fd;
    }
    int act = gate(OPEN);
    if (act > 0) {
        record(OPEN, 0, -act, 0, rel, strlen(rel));
        return fail(act);
    }
    struct stat st;
    int was = syscall(SYS_newfstatat, d, path, &st, 0) == 0;
    int fd = syscall(SYS_openat, d, path, flags, mode);
    if (fd < 0) {
        int e = errno;
        record(OPEN, 0, -e, 0, rel, strlen(rel));
        if (act < 0) die();
        errno = e;
        return -1;
    }
    if (fd < MAXFD) {
        syscall(SYS_fstat, fd, &st);
        uint32_t id = 0;
        if (S_ISDIR(st.st_mode)) role[fd] = DIRFD;
        else if (!strncmp(rel, "in/", 3)) role[fd] = INPUT, inpos[fd] = 0;
        else {
            role[fd] = DATA;
            int s = slot(rel, 1);
            if (s >= 0) {
                if (!names[s].id || !was) names[s].id = next_id++;
                id = names[s].id;
            }
        }
        fileid[fd] = id;
        record(OPEN, id, !was, flags & O_TRUNC ? 1 : 0, rel, strlen(rel));
    }
    if (act < 0) die();
    return fd;
}

#define MODE(flags) \
    unsigned mode = 0; \
    if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, unsigned); va_end(ap); }

int open(const char *p, int flags, ...) { MODE(flags) return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE(flags) return do_open(AT_FDCWD, p, flags, mode); }
int openat(int d, const char *p, int flags, ...) { MODE(flags) return do_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODE(flags) return do_open(d, p, flags, mode); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

int close(int fd) {
    if (fd >= 0 && fd < MAXFD && on()) {
        if (fd == logfd) return 0;
        role[fd] = NONE;
    }
    return syscall(SYS_close, fd);
}

static int kind_of(int fd) { return fd >= 0 && fd < MAXFD ? role[fd] : NONE; }

static ssize_t do_read(int fd, void *b, size_t n, int64_t off) {
    int r = on() ? kind_of(fd) : NONE;
    if (r == 9) {
        for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = rnd();
        return n;
    }
    if (r == INPUT) {
        int act = gate(INREAD);
        uint64_t p = off < 0 ? inpos[fd] : (uint64_t)off;
        if (act > 0) { record(INREAD, 0, -act, p, NULL, 0); return fail(act); }
        if (inerr_pos >= 0 && n > 0) {
            if (p >= (uint64_t)inerr_pos) { record(INREAD, 0, -inerr_no, p, NULL, 0); return fail(inerr_no); }
            if (p + n > (uint64_t)inerr_pos) n = inerr_pos - p;
        }
        if (n > 1) {
            if (chunk == 1) n = 1;
            else if (chunk == 2) { uint64_t m = 1 + rnd() % 64; if (n > m) n = m; }
            else if (chunk == 3 && rnd() % 2) n = (n + 1) / 2;
        }
        ssize_t k = off < 0 ? syscall(SYS_read, fd, b, n) : syscall(SYS_pread64, fd, b, n, off);
        if (k > 0 && off < 0) inpos[fd] += k;
        record(INREAD, 0, k < 0 ? -errno : k, p, NULL, 0);
        if (act < 0) die();
        return k;
    }
    if (r == DATA) {
        int act = gate(READ);
        if (act > 0) { record(READ, fileid[fd], -act, off, NULL, 0); return fail(act); }
        if (shrt && n > 1 && rnd() % shrt == 0) n = 1 + rnd() % n;
        ssize_t k = off < 0 ? syscall(SYS_read, fd, b, n) : syscall(SYS_pread64, fd, b, n, off);
        record(READ, fileid[fd], k < 0 ? -errno : k, off, NULL, 0);
        if (act < 0) die();
        return k;
    }
    return off < 0 ? syscall(SYS_read, fd, b, n) : syscall(SYS_pread64, fd, b, n, off);
}

ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n, -1); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return do_read(fd, b, n, o); }

static ssize_t do_write(int fd, const void *b, size_t n, int64_t off) {
    int act;
    if (!on()) goto plain;
    if ((fd == 1 || fd == 2) && out_room >= 0) {
        if (out_room == 0 && n) { record(STDOUT, 0, -outerr_no, 0, NULL, 0); return fail(outerr_no); }
        if (n > (uint64_t)out_room) n = out_room;
        out_room -= n;
    }
    if (fd == 1) {
        act = gate(STDOUT);
        if (act > 0) { record(STDOUT, 0, -act, 0, NULL, 0); return fail(act); }
        if (shrt && n > 1 && rnd() % shrt == 0) n = 1 + rnd() % n;
        ssize_t k = syscall(SYS_write, fd, b, n);
        record(STDOUT, 0, k < 0 ? -errno : k, 0, NULL, 0);
        if (act < 0) die();
        return k;
    }
    if (kind_of(fd) != DATA) goto plain;
    act = gate(WRITE);
    if (off < 0) off = syscall(SYS_lseek, fd, 0, SEEK_CUR);
    if (off < 0) goto plain;
    if (act > 0) { record(WRITE, fileid[fd], -act, off, NULL, 0); return fail(act); }
    if (act == -1) n = n ? (size_t)at_arg % n : 0;
    else if (shrt && n > 1 && rnd() % shrt == 0) n = 1 + rnd() % n;
    if (n > room) n = room;
    if (n == 0 && room == 0) { record(WRITE, fileid[fd], -ENOSPC, off, NULL, 0); return fail(ENOSPC); }
    ssize_t k = n ? syscall(SYS_pwrite64, fd, b, n, off) : 0;
    if (k > 0) {
        if (room != UINT64_MAX) room -= k;
        record(WRITE, fileid[fd], k, off, b, k);
    }
    if (act < 0) die();
    return k;
plain:
    return off < 0 ? syscall(SYS_write, fd, b, n) : syscall(SYS_pwrite64, fd, b, n, off);
}

ssize_t write(int fd, const void *b, size_t n) {
    ssize_t k = do_write(fd, b, n, -1);
    if (k > 0 && on() && fd != 1 && kind_of(fd) == DATA) syscall(SYS_lseek, fd, k, SEEK_CUR);
    return k;
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    if (!on() || (fd != 1 && fd != 2 && kind_of(fd) != DATA)) return syscall(SYS_writev, fd, v, n);
    while (n > 1 && v->iov_len == 0) v++, n--;
    return n > 0 ? write(fd, v->iov_base, v->iov_len) : 0;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_write(fd, b, n, o); }

static int do_sync(int fd, int nr) {
    int r = on() ? kind_of(fd) : NONE;
    if (r == DATA || r == DIRFD) {
        int k = r == DATA ? SYNC : DIRSYNC;
        int act = gate(k);
        if (act > 0) { record(k, fileid[fd], -act, 0, NULL, 0); return fail(act); }
        if (act == -1) die();
        /* what is durable is decided by the simulator, from the log */
        record(k, fileid[fd], 0, 0, NULL, 0);
        if (act < 0) die();
        return 0;
    }
    return syscall(nr, fd);
}
int fsync(int fd) { return do_sync(fd, SYS_fsync); }
int fdatasync(int fd) { return do_sync(fd, SYS_fdatasync); }

static int do_trunc(int fd, off64_t n) {
    if (!on() || kind_of(fd) != DATA) return syscall(SYS_ftruncate, fd, n);
    int act = gate(TRUNC);
    if (act > 0) { record(TRUNC, fileid[fd], -act, n, NULL, 0); return fail(act); }
    if (act == -1) die();
    int k = syscall(SYS_ftruncate, fd, n);
    record(TRUNC, fileid[fd], k < 0 ? -errno : 0, n, NULL, 0);
    if (act < 0) die();
    return k;
}
int ftruncate(int fd, off_t n) { return do_trunc(fd, n); }
int ftruncate64(int fd, off64_t n) { return do_trunc(fd, n); }

static int do_unlink(int d, const char *p, int flags) {
    if (!on()) return syscall(SYS_unlinkat, d, p, flags);
    char buf[2048];
    const char *rel = ours(d, p, buf, sizeof buf);
    if (!rel) {
        record(REFUSED, 0, 0, 0, p, strlen(p));
        return fail(EACCES);
    }
    int act = gate(UNLINK);
    if (act > 0) { record(UNLINK, 0, -act, 0, rel, strlen(rel)); return fail(act); }
    if (act == -1) die();
    int k = syscall(SYS_unlinkat, d, p, flags);
    int e = errno;
    record(UNLINK, 0, k < 0 ? -e : 0, 0, rel, strlen(rel));
    if (k == 0) {
        int s = slot(rel, 0);
        if (s >= 0) names[s].id = 0;
    }
    if (act < 0) die();
    errno = e;
    return k;
}
int unlink(const char *p) { return do_unlink(AT_FDCWD, p, 0); }
int unlinkat(int d, const char *p, int f) { return do_unlink(d, p, f); }
int rmdir(const char *p) { return do_unlink(AT_FDCWD, p, AT_REMOVEDIR); }
int remove(const char *p) { return do_unlink(AT_FDCWD, p, 0); }

int rename(const char *a, const char *b) {
    if (!on()) return syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0);
    char ba[2048], bb[2048], both[4200];
    const char *ra = ours(AT_FDCWD, a, ba, sizeof ba), *rb = ours(AT_FDCWD, b, bb, sizeof bb);
    if (!ra || !rb) {
        record(REFUSED, 0, 0, 0, a, strlen(a));
        return fail(EACCES);
    }
    int act = gate(RENAME);
    if (act > 0) return fail(act);
    if (act == -1) die();
    int k = syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0);
    int e = errno;
    if (k == 0) {
        size_t la = strlen(ra), lb = strlen(rb);
        memcpy(both, ra, la + 1);
        memcpy(both + la + 1, rb, lb);
        record(RENAME, 0, 0, 0, both, la + 1 + lb);
        int s = slot(ra, 0);
        if (s >= 0) {
            uint32_t id = names[s].id;
            names[s].id = 0;
            int t = slot(rb, 1);
            if (t >= 0) names[t].id = id;
        }
    }
    if (act < 0) die();
    errno = e;
    return k;
}

/* what std::fs asks before it touches a file */
int statx(int d, const char *p, int flags, unsigned mask, struct statx *s) {
    if (on()) {
        char buf[2048];
        /* std asks with a null pointer whether the call is there */
        const char *volatile vp = p;
        const char *rel = vp && *vp ? ours(d, p, buf, sizeof buf) : NULL;
        if (rel) {
            int act = gate(STAT);
            if (act > 0) { record(STAT, 0, -act, 0, rel, strlen(rel)); return fail(act); }
            int k = syscall(SYS_statx, d, p, flags, mask, s);
            int e = errno;
            record(STAT, 0, k < 0 ? -e : 0, 0, rel, strlen(rel));
            if (act < 0) die();
            errno = e;
            return k;
        }
    }
    return syscall(SYS_statx, d, p, flags, mask, s);
}

ssize_t getrandom(void *b, size_t n, unsigned f) {
    if (!on()) return syscall(SYS_getrandom, b, n, f);
    for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = rnd();
    return n;
}
int getentropy(void *b, size_t n) { return getrandom(b, n, 0) < 0 ? -1 : 0; }

int clock_gettime(clockid_t c, struct timespec *t) {
    if (!on()) return syscall(SYS_clock_gettime, c, t);
    now_ns += tick;
    t->tv_sec = now_ns / 1000000000ull;
    t->tv_nsec = now_ns % 1000000000ull;
    return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
    (void)tz;
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    tv->tv_sec = t.tv_sec;
    tv->tv_usec = t.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *o) {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (o) *o = t.tv_sec;
    return t.tv_sec;
}
int nanosleep(const struct timespec *a, struct timespec *b) {
    if (!on()) return syscall(SYS_nanosleep, a, b);
    turn(SLEEP);
    now_ns += a->tv_sec * 1000000000ull + a->tv_nsec;
    return 0;
}
int usleep(useconds_t u) {
    turn(SLEEP);
    now_ns += u * 1000ull;
    return 0;
}
unsigned sleep(unsigned s) {
    turn(SLEEP);
    now_ns += s * 1000000000ull;
    return 0;
}

/* locks between processes are real, the order in which they are asked for is not */
static int do_fcntl(int fd, int cmd, long arg) {
    if ((cmd == F_SETLK || cmd == F_SETLKW || cmd == F_GETLK) && on() && kind_of(fd) == DATA) turn(LOCK);
    return syscall(SYS_fcntl, fd, cmd, arg);
}
#define LONG_ARG va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
int fcntl(int fd, int cmd, ...) { LONG_ARG return do_fcntl(fd, cmd, arg); }
int fcntl64(int fd, int cmd, ...) { LONG_ARG return do_fcntl(fd, cmd, arg); }
pid_t getpid(void) {
    return on() ? 4242 : syscall(SYS_getpid);
}

pid_t gettid(void) {
    return on() ? 4242 : syscall(SYS_gettid);
}
