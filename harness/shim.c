/* Linked into every build of the library under test with
 * -Wl,--wrap=...: the CPU feature query and the heap go through here. */
#define _GNU_SOURCE
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <errno.h>
#include <malloc.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#if defined(__x86_64__)
#include <cpuid.h>
#endif
#include "shim.h"
#if defined(SHIM_ASAN)
#include <sanitizer/asan_interface.h>
#endif
#if defined(SHIM_VALGRIND)
#include <valgrind/memcheck.h>
#endif

static struct shim_state g = { .cpu_level = -1, .junk = 0xA5, .rz_fill = 0x5C };
struct shim_state *shim_get(void) { return &g; }

/* ---- cpu features ------------------------------------------------------ */
extern int __attribute__((weak)) __real_cpuid_amd64(int, int, int *, int *, int *, int *);
int __wrap_cpuid_amd64(int eax_in, int ecx_in, int *eax, int *ebx, int *ecx, int *edx)
{
    unsigned a = 0, b = 0, c = 0, d = 0;
#if defined(__x86_64__)
    if (__real_cpuid_amd64)
    {
        int ra = 0, rb = 0, rc = 0, rd = 0;
        __real_cpuid_amd64(eax_in, ecx_in, &ra, &rb, &rc, &rd);
        a = ra; b = rb; c = rc; d = rd;
    }
    else
    {
        __cpuid_count((unsigned) eax_in, (unsigned) ecx_in, a, b, c, d);
    }
#endif
#if !defined(SHIM_THIN)
    __atomic_fetch_add(&g.cpuid_calls, 1, __ATOMIC_RELAXED);
#endif
    if (g.cpu_level >= 0)
    {
        if (eax_in == 1)
        {
            if (g.cpu_level < 2) c &= ~((1u << 9) | (1u << 19) | (1u << 20) | (1u << 23) | (1u << 28));
            if (g.cpu_level < 1) { c &= ~1u; d &= ~(1u << 26); }
        }
        else if ((unsigned) eax_in == 0x80000001u && g.cpu_level < 2)
        {
            c &= ~((1u << 5) | (1u << 6));
        }
    }
    *eax = a; *ebx = b; *ecx = c; *edx = d;
    return 0;
}

#if defined(SHIM_THIN)
/* thread sanitizer build: nothing that synchronises */
void rfx_verif_redzone(void *p, int n) { (void) p; (void) n; }
long shim_check_zones(void) { return 0; }
#else

extern void *__real_malloc(size_t);
extern void *__real_calloc(size_t, size_t);
extern void *__real_realloc(void *, size_t);
extern void __real_free(void *);
extern int __real_posix_memalign(void **, size_t, size_t);

/* ---- live block table (open hashing on the address) --------------------- */
struct blk { struct blk *next; char *p; size_t n; void *raw; };
#define NB 4096
static struct blk *tab[NB];
static volatile int lk;
static void lock(void) { while (__atomic_exchange_n(&lk, 1, __ATOMIC_ACQUIRE)) {} }
static void unlock(void) { __atomic_store_n(&lk, 0, __ATOMIC_RELEASE); }
static unsigned hsh(const void *p) { return (unsigned) (((uintptr_t) p >> 4) * 2654435761u >> 12) % NB; }

/* ---- red zones ----------------------------------------------------------- */
struct rz { unsigned char *p; int n; unsigned char fill; };
static struct rz *zones;
static long nz, cz, damaged;

static void zone_disarm(struct rz *z)
{
#if defined(SHIM_ASAN)
    if (g.rz_mode == 1) __asan_unpoison_memory_region(z->p, z->n);
#endif
#if defined(SHIM_VALGRIND)
    if (g.rz_mode == 2) VALGRIND_MAKE_MEM_UNDEFINED(z->p, z->n);
#endif
    if (g.rz_mode == 0)
    {
        int i;
        for (i = 0; i < z->n; i++)
        {
            if (z->p[i] != z->fill) { damaged++; break; }
        }
    }
}
static char *last_p;
static size_t last_n;
void rfx_verif_redzone(void *p, int n)
{
    lock();
    /* only between the encoder's work areas: a tile's history is a plain record
     * that may well be cleared or copied as a whole */
    if ((char *) p >= last_p && (char *) p < last_p + last_n && last_n < 60000)
    {
        unlock();
        return;
    }
    /* work areas may start at the 16-byte boundary below their place */
    n = (int) ((((size_t) p + n) & ~(size_t) 15) - (size_t) p);
    g.rz_armed++;
    if (g.rz_mode != 3)
    {
        if (nz == cz)
        {
            cz = cz ? cz * 2 : 256;
            zones = (struct rz *) __real_realloc(zones, cz * sizeof(struct rz));
        }
        zones[nz].p = (unsigned char *) p;
        zones[nz].n = n;
        zones[nz].fill = (unsigned char) g.rz_fill;
        nz++;
        if (g.rz_mode == 0) memset(p, g.rz_fill, n);
#if defined(SHIM_ASAN)
        if (g.rz_mode == 1) __asan_poison_memory_region(p, n);
#endif
#if defined(SHIM_VALGRIND)
        if (g.rz_mode == 2) VALGRIND_MAKE_MEM_NOACCESS(p, n);
#endif
    }
    unlock();
}
static void zones_drop(char *p, size_t n)
{
    long i = 0;
    while (i < nz)
    {
        if ((char *) zones[i].p >= p && (char *) zones[i].p < p + n)
        {
            zone_disarm(&zones[i]);
            zones[i] = zones[--nz];
        }
        else
        {
            i++;
        }
    }
}
long shim_check_zones(void)
{
    long i, d;
    lock();
    if (g.rz_mode == 0)
    {
        for (i = 0; i < nz; i++)
        {
            int k;
            for (k = 0; k < zones[i].n; k++)
            {
                if (zones[i].p[k] != zones[i].fill)
                {
                    damaged++;
                    memset(zones[i].p, zones[i].fill, zones[i].n);
                    break;
                }
            }
        }
    }
    d = damaged;
    damaged = 0;
    unlock();
    return d;
}

/* ---- heap ------------------------------------------------------------------ */
static int refuse(void)
{
    if (g.fail_in > 0)
    {
        if (--g.fail_in == 0)
        {
            g.failed++;
            g.fail_in = g.fail_every;
            errno = ENOMEM;
            return 1;
        }
    }
    return 0;
}
/* junk == -2: fresh memory holds what some earlier block of that size held */
#define NREC 48
static struct { size_t n; unsigned char *d; } rec[NREC];
static unsigned rec_at;
static unsigned long rec_rng = 88172645463325252ul;
static void rec_put(const void *p, size_t n)
{
    if (n == 0 || n > (1 << 20)) return;
    rec_at = (rec_at + 1) % NREC;
    if (rec[rec_at].n != n)
    {
        __real_free(rec[rec_at].d);
        rec[rec_at].d = (unsigned char *) __real_malloc(n);
        rec[rec_at].n = n;
    }
    memcpy(rec[rec_at].d, p, n);
}
static void rec_get(void *p, size_t n)
{
    unsigned i, k;
    rec_rng ^= rec_rng << 13; rec_rng ^= rec_rng >> 7; rec_rng ^= rec_rng << 17;
    k = rec_rng % NREC;
    for (i = 0; i < NREC; i++)
    {
        if (rec[(k + i) % NREC].n == n)
        {
            memcpy(p, rec[(k + i) % NREC].d, n);
            g.recycled++;
            return;
        }
    }
    memset(p, 0x3C, n);
}
static void *get(size_t n, int zero, size_t align)
{
    char *raw, *p;
    size_t lead = 0;
    struct blk *b;
    lock();
    g.allocs++;
    if (refuse()) { unlock(); return NULL; }
    if (align < 16) align = 16;
    lead = (size_t) (g.jitter > 0 ? g.jitter : 0) * 16;
    if (align > 16)
    {
        lead = (lead + align - 1) / align * align;
        if (__real_posix_memalign((void **) &raw, align, lead + n)) raw = NULL;
        else if (zero) memset(raw, 0, lead + n);
    }
    else
    {
        /* calloc for the zeroed case and malloc for the other one, so that
         * valgrind and the sanitizers know what is defined */
        raw = (char *) (zero ? __real_calloc(1, lead + n) : __real_malloc(lead + n));
    }
    if (raw == NULL) { unlock(); return NULL; }
    p = raw + lead;
    if (!zero && g.junk >= 0)
    {
        memset(p, g.junk, n);
#if defined(SHIM_VALGRIND)
        VALGRIND_MAKE_MEM_UNDEFINED(p, n);
#endif
    }
    if (!zero && g.junk == -2) rec_get(p, n);
    b = (struct blk *) __real_malloc(sizeof *b);
    b->p = p; b->n = n; b->raw = raw;
    last_p = p;
    last_n = n;
    b->next = tab[hsh(p)];
    tab[hsh(p)] = b;
    g.live_blocks++;
    g.live_bytes += n;
    if (g.live_bytes > g.peak_bytes) g.peak_bytes = g.live_bytes;
    unlock();
    return p;
}
static struct blk *take(void *p)
{
    struct blk **q, *b;
    for (q = &tab[hsh(p)]; *q; q = &(*q)->next)
    {
        if ((*q)->p == (char *) p)
        {
            b = *q;
            *q = b->next;
            return b;
        }
    }
    return NULL;
}
void *__wrap_malloc(size_t n) { return get(n, 0, 16); }
void *__wrap_calloc(size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) return NULL;
    return get(n, 1, 16);
}
void __wrap_free(void *p)
{
    struct blk *b;
    if (p == NULL) return;
    lock();
    g.frees++;
    b = take(p);
    if (b == NULL)
    {
        g.bad_frees++;
        unlock();
#if defined(SHIM_ASAN) || defined(SHIM_VALGRIND)
        __real_free(p); /* let the tool report it */
#endif
        return;
    }
    zones_drop(b->p, b->n);
    g.live_blocks--;
    g.live_bytes -= b->n;
    if (g.junk == -2) rec_put(b->p, b->n);
#if !defined(SHIM_ASAN)
    if (g.junk >= 0) memset(b->p, g.junk ^ 0xFF, b->n);
#endif
    __real_free(b->raw);
    __real_free(b);
    unlock();
}
void *__wrap_realloc(void *p, size_t n)
{
    struct blk *b;
    void *q;
    size_t old;
    if (p == NULL) return __wrap_malloc(n);
    if (n == 0) { __wrap_free(p); return NULL; }
    lock();
    for (b = tab[hsh(p)]; b && b->p != (char *) p; b = b->next) {}
    old = b ? b->n : 0;
    unlock();
    q = get(n, 0, 16);
    if (q == NULL) return NULL;
    memcpy(q, p, old < n ? old : n);
    __wrap_free(p);
    return q;
}
void *__wrap_aligned_alloc(size_t a, size_t n) { return get(n, 0, a); }
void *__wrap_memalign(size_t a, size_t n) { return get(n, 0, a); }
int __wrap_posix_memalign(void **r, size_t a, size_t n)
{
    void *p = get(n, 0, a);
    if (p == NULL) return ENOMEM;
    *r = p;
    return 0;
}
char *__wrap_strdup(const char *s)
{
    size_t n = strlen(s) + 1;
    char *p = (char *) get(n, 0, 16);
    if (p) memcpy(p, s, n);
    return p;
}

/* ---- the rest of the world ---------------------------------------------------- */
extern time_t __real_time(time_t *);
extern clock_t __real_clock(void);
extern int __real_clock_gettime(clockid_t, struct timespec *);
extern int __real_gettimeofday(struct timeval *, void *);
extern char *__real_getenv(const char *);
extern char *__real_secure_getenv(const char *);
extern pid_t __real_getpid(void);
static unsigned off(void)
{
    if (g.world == 0) return 0;
    __atomic_fetch_add(&g.world_asked, 1, __ATOMIC_RELAXED);
    return (unsigned) g.world * 2654435761u >> 7;
}
time_t __wrap_time(time_t *t)
{
    time_t v = __real_time(NULL) + (time_t) off();
    if (t) *t = v;
    return v;
}
clock_t __wrap_clock(void) { return __real_clock() + (clock_t) off(); }
int __wrap_clock_gettime(clockid_t c, struct timespec *t)
{
    int r = __real_clock_gettime(c, t);
    if (r == 0 && g.world)
    {
        t->tv_sec += off();
        t->tv_nsec = (t->tv_nsec + off()) % 1000000000;
    }
    return r;
}
int __wrap_gettimeofday(struct timeval *t, void *z)
{
    int r = __real_gettimeofday(t, z);
    if (r == 0 && g.world)
    {
        t->tv_sec += off();
        t->tv_usec = (t->tv_usec + off()) % 1000000;
    }
    return r;
}
static char *env(const char *n, char *real)
{
    static char v[4][8] = {"1", "0", "", "255"};
    if (g.world == 0) return real;
    (void) n;
    return off() & 1 ? v[g.world >> 1 & 3] : NULL;
}
char *__wrap_getenv(const char *n) { return env(n, __real_getenv(n)); }
char *__wrap_secure_getenv(const char *n) { return env(n, __real_secure_getenv(n)); }
pid_t __wrap_getpid(void) { return __real_getpid() ^ (pid_t) (off() & 0x3fff); }
#endif
