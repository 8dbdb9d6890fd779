/* Preloaded into the compiler process: what it takes from its surroundings is decided by SIM_SEED. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

static uint64_t seed(void) { const char *s = getenv("SIM_SEED"); return s ? strtoull(s, 0, 10) : 0; }
static uint64_t next(uint64_t *x) {
    uint64_t z = (*x += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
/* Keys of hash maps. */
ssize_t getrandom(void *buf, size_t len, unsigned flags) {
    static _Thread_local uint64_t st; static _Thread_local int init;
    (void)flags;
    if (!init) { init = 1; st = seed() * 0x5851F42D4C957F2Dull + 1; }
    unsigned char *p = buf;
    for (size_t i = 0; i < len; i++) p[i] = (unsigned char)next(&st);
    return (ssize_t)len;
}
int getentropy(void *buf, size_t len) { return getrandom(buf, len, 0) == (ssize_t)len ? 0 : -1; }
/* The wall clock: stands still at a time of the seed's choosing. */
static time_t now(void) { uint64_t s = seed() + 77; return (time_t)(1000000000ull + next(&s) % 1000000000ull); }
int clock_gettime(clockid_t c, struct timespec *t) {
    static int (*real)(clockid_t, struct timespec *);
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) { t->tv_sec = now(); t->tv_nsec = (long)(seed() % 1000000000ull); return 0; }
    if (!real) real = (int (*)(clockid_t, struct timespec *))dlsym(RTLD_NEXT, "clock_gettime");
    return real(c, t);
}
int gettimeofday(struct timeval *t, void *z) { (void)z; t->tv_sec = now(); t->tv_usec = 0; return 0; }
time_t time(time_t *t) { time_t n = now(); if (t) *t = n; return n; }
/* The process number. */
pid_t getpid(void) { uint64_t s = seed() + 99; return (pid_t)(1000 + next(&s) % 30000); }
/* The layout of the heap. */
__attribute__((constructor)) static void heap(void) {
    uint64_t s = seed();
    if (!s) return;
    void *v[64];
    for (int i = 0; i < 64; i++) v[i] = malloc(16 + next(&s) % 5000);
    for (int i = 0; i < 64; i++) if (next(&s) & 1) free(v[i]);
}
