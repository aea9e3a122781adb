/* Stand-in for the operating system's randomness and clock, loaded with LD_PRELOAD
 * into the processes of the C29 check only.  While armed, random bytes come from a
 * stream determined by a seed, the clock and the process id stand still. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

static int armed;
static uint64_t seed, pos;
static int64_t flip = -1, now_ns;

void rnd_arm(int on, uint64_t s, uint64_t p, int64_t f, int64_t ns) { armed = on; seed = s; pos = p; flip = f; now_ns = ns; }
uint64_t rnd_pos(void) { return pos; }

static uint8_t at(uint64_t i)
{
    uint64_t z = (seed + (i / 8 + 1) * 0x9E3779B97F4A7C15ull) ^ (seed << 17);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    z ^= z >> 31;
    uint8_t b = z >> (8 * (i % 8));
    if (flip >= 0 && (uint64_t)flip / 8 == i) b ^= 1 << (flip % 8);
    return b;
}

static void fill(void *buf, size_t n)
{
    for (size_t k = 0; k < n; k++) ((uint8_t *)buf)[k] = at(pos++);
}

#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, #name)

ssize_t getrandom(void *buf, size_t n, unsigned fl)
{
    if (armed) { fill(buf, n); return n; }
    REAL(ssize_t, getrandom, void *, size_t, unsigned);
    return real(buf, n, fl);
}
int getentropy(void *buf, size_t n)
{
    if (armed) { fill(buf, n); return 0; }
    REAL(int, getentropy, void *, size_t);
    return real(buf, n);
}
static int device(const char *p)
{
    if (!armed || !p || (strcmp(p, "/dev/urandom") && strcmp(p, "/dev/random"))) return -1;
    uint8_t b[4096];
    fill(b, sizeof b);
    int fd = memfd_create("rnd", MFD_CLOEXEC);
    if (fd >= 0) {
        if (write(fd, b, sizeof b) != sizeof b) return -1;
        lseek(fd, 0, SEEK_SET);
    }
    return fd;
}
#define OPEN(name) int name(const char *p, int fl, ...) { \
    int fd = device(p); if (fd >= 0) return fd; \
    va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a); \
    REAL(int, name, const char *, int, ...); return real(p, fl, m); }
OPEN(open)
OPEN(open64)
#define OPENAT(name) int name(int d, const char *p, int fl, ...) { \
    int fd = device(p); if (fd >= 0) return fd; \
    va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a); \
    REAL(int, name, int, const char *, int, ...); return real(d, p, fl, m); }
OPENAT(openat)
OPENAT(openat64)
#define FOPEN(name) FILE *name(const char *p, const char *m) { \
    int fd = device(p); if (fd >= 0) return fdopen(fd, "r"); \
    REAL(FILE *, name, const char *, const char *); return real(p, m); }
FOPEN(fopen)
FOPEN(fopen64)

int clock_gettime(clockid_t c, struct timespec *t)
{
    if (armed) { t->tv_sec = now_ns / 1000000000; t->tv_nsec = now_ns % 1000000000; return 0; }
    REAL(int, clock_gettime, clockid_t, struct timespec *);
    return real(c, t);
}
int gettimeofday(struct timeval *restrict t, void *restrict z)
{
    if (armed) { t->tv_sec = now_ns / 1000000000; t->tv_usec = now_ns / 1000 % 1000000; return 0; }
    REAL(int, gettimeofday, struct timeval *, void *);
    return real(t, z);
}
time_t time(time_t *t)
{
    if (armed) { time_t s = now_ns / 1000000000; if (t) *t = s; return s; }
    REAL(time_t, time, time_t *);
    return real(t);
}
pid_t getpid(void)
{
    if (armed) return 4242;
    REAL(pid_t, getpid, void);
    return real();
}
