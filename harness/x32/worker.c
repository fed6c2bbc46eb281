/* The library built for 32-bit x86, as a process of its own without a C
 * library: commands arrive on fd 0, answers leave on fd 1.  Every library call
 * goes through tramp32 so that the machine state it leaves is known. */
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <rfxcodec_encode.h>

/* ---- system calls --------------------------------------------------------- */
static int sys3(int n, int a, int b, int c)
{
    int r;
    __asm__ volatile("int $0x80" : "=a"(r) : "a"(n), "b"(a), "c"(b), "d"(c) : "memory");
    return r;
}
static void die(int rc)
{
    for (;;) sys3(1, rc, 0, 0);
}
static void rd(void *p, unsigned n)
{
    char *c = (char *) p;
    while (n)
    {
        int k = sys3(3, 0, (int) c, n);
        if (k <= 0) die(k == 0 ? 0 : 98);
        c += k;
        n -= k;
    }
}
static void wr(const void *p, unsigned n)
{
    const char *c = (const char *) p;
    while (n)
    {
        int k = sys3(4, 1, (int) c, n);
        if (k <= 0) die(0);
        c += k;
        n -= k;
    }
}
static int protect(void *p, unsigned n, int prot) { return sys3(125, (int) p, n, prot); }

/* ---- the pieces of a C library the sources use ------------------------------- */
void *memcpy(void *d, const void *s, size_t n)
{
    char *a = d;
    const char *b = s;
    while (n--) *a++ = *b++;
    return d;
}
void *memmove(void *d, const void *s, size_t n)
{
    char *a = d;
    const char *b = s;
    if (a < b) while (n--) *a++ = *b++;
    else while (n--) a[n] = b[n];
    return d;
}
void *memset(void *d, int v, size_t n)
{
    char *a = d;
    while (n--) *a++ = (char) v;
    return d;
}
int memcmp(const void *x, const void *y, size_t n)
{
    const unsigned char *a = x, *b = y;
    for (; n--; a++, b++) if (*a != *b) return *a - *b;
    return 0;
}
size_t strlen(const char *s)
{
    size_t n = 0;
    while (s[n]) n++;
    return n;
}
int printf(const char *f, ...) { (void) f; return 0; }
int puts(const char *s) { (void) s; return 0; }
int putchar(int c) { return c; }
int fprintf(void *x, const char *f, ...) { (void) x; (void) f; return 0; }
void *stdout, *stderr;
int fflush(void *x) { (void) x; return 0; }
int abs(int v) { return v < 0 ? -v : v; }
void abort(void) { for (;;) __builtin_trap(); }
void __assert_fail(const char *a, const char *b, unsigned c, const char *d) { abort(); }
char *getenv(const char *n) { (void) n; return 0; }

#define HEAP (512u << 20)
static char *heap, *brk_, *heap_end;
static int junk = 0xA5;
static long live;
struct hd { unsigned cls; unsigned n; unsigned magic; unsigned pad; };
static struct hd *fr[32];
static char *last_p;
static size_t last_n;
void *malloc(size_t n)
{
    unsigned c = 5;
    struct hd *h;
    while ((1u << c) < n + sizeof(struct hd)) c++;
    if (c >= 31) return 0;
    if (fr[c])
    {
        h = fr[c];
        fr[c] = *(struct hd **) (h + 1);
    }
    else
    {
        if ((unsigned) (heap_end - brk_) < (1u << c)) return 0;
        h = (struct hd *) brk_;
        brk_ += 1u << c;
        h->cls = c;
    }
    h->n = n;
    h->magic = 0x600DB10C;
    live++;
    last_n = n;
    last_p = (char *) (h + 1);
    memset(h + 1, junk, n);
    return h + 1;
}
void *calloc(size_t a, size_t b)
{
    void *p;
    if (b && a > 0x7fffffffu / b) return 0;
    p = malloc(a * b);
    if (p) memset(p, 0, a * b);
    return p;
}
/* ---- red zones ------------------------------------------------------------------ */
static struct { unsigned char *p; int n; } zone[4096];
static int nzone;
void rfx_verif_redzone(void *p, int n)
{
    /* not inside tile histories, which may be cleared or copied as a whole */
    if ((char *) p >= last_p && (char *) p < last_p + last_n && last_n < 60000) return;
    /* work areas may start at the 16-byte boundary below their place */
    n = (int) ((((unsigned) p + n) & ~15u) - (unsigned) p);
    if (nzone < 4096)
    {
        zone[nzone].p = p;
        zone[nzone].n = n;
        nzone++;
        memset(p, 0x5C, n);
    }
}
static int zones_bad(void)
{
    int i, k;
    for (i = 0; i < nzone; i++)
        for (k = 0; k < zone[i].n; k++)
            if (zone[i].p[k] != 0x5C) return 1;
    return 0;
}
static int zonehurt;
/* the block goes away, and its zones with it */
static void zones_drop(char *p, unsigned n)
{
    int i = 0, k;
    while (i < nzone)
    {
        if ((char *) zone[i].p >= p && (char *) zone[i].p < p + n)
        {
            for (k = 0; k < zone[i].n; k++) if (zone[i].p[k] != 0x5C) zonehurt = 1;
            zone[i] = zone[--nzone];
        }
        else i++;
    }
}

static long badfree;
void free(void *p)
{
    struct hd *h;
    if (!p) return;
    h = (struct hd *) p - 1;
    if (h->magic != 0x600DB10C) { badfree++; return; }
    h->magic = 0;
    zones_drop(p, h->n);
    memset(p, junk ^ 0xff, h->n);
    *(struct hd **) p = fr[h->cls];
    fr[h->cls] = h;
    live--;
}
void *realloc(void *p, size_t n)
{
    void *q = malloc(n);
    if (q && p)
    {
        size_t o = ((struct hd *) p - 1)->n;
        memcpy(q, p, o < n ? o : n);
        free(p);
    }
    return q;
}

/* ---- cpu level ------------------------------------------------------------------- */
static int level = -1;
extern int __attribute__((weak)) __real_cpuid_x86(int, int, int *, int *, int *, int *);
int __wrap_cpuid_x86(int ai, int ci, int *a, int *b, int *c, int *d)
{
    *a = *b = *c = *d = 0;
    if (__real_cpuid_x86) __real_cpuid_x86(ai, ci, a, b, c, d);
    if (level >= 0 && ai == 1)
    {
        if (level < 2) *c &= ~((1 << 9) | (1 << 19) | (1 << 20) | (1 << 23) | (1 << 28));
        if (level < 1) { *c &= ~1; *d &= ~(1 << 26); }
    }
    return 0;
}

/* ---- calls through the trampoline --------------------------------------------------- */
extern unsigned tr_in[], tr_out[], tr_mx_in, tr_mx_out, tr_cw_in, tr_cw_out, tr_env[], tr_flags, tr_sp_in, tr_sp_out, tr_ret, tr_xmm[];
extern int tramp32(void *fn, const unsigned *args, int n);
static unsigned rs = 12345;
static unsigned rnd(void)
{
    rs = rs * 1664525u + 1013904223u;
    return rs ^ (rs >> 13);
}
static unsigned bad; /* what the calls of this command disturbed */
static int go(void *fn, const unsigned *args, int n)
{
    int i, r;
    for (i = 0; i < 6; i++) tr_in[i] = rnd();
    for (i = 0; i < 32; i++) tr_xmm[i] = rnd();
    tr_mx_in = 0x1f80 | ((rnd() & 3) << 13) | ((rnd() & 1) << 15);
    tr_cw_in = 0x033f | ((rnd() & 3) << 10) | ((rnd() & 1) ? 0x40 : 0x40);
    r = tramp32(fn, args, n);
    for (i = 0; i < 4; i++) if (tr_in[i] != tr_out[i]) bad |= 1u << i;
    if ((tr_mx_in ^ tr_mx_out) & 0xffc0) bad |= 1u << 4;
    if ((tr_cw_in ^ tr_cw_out) & 0x0f3f) bad |= 1u << 5;
    if ((tr_env[2] & 0xffff) != 0xffff) bad |= 1u << 6;
    if (tr_flags & 0x400) bad |= 1u << 7;
    if (tr_sp_in != tr_sp_out) bad |= 1u << 8;
    return r;
}

/* ---- commands --------------------------------------------------------------------- */
#define NH 64
static void *hnd[NH];
#define OUT (48u << 20)
static char *outmem; /* OUT bytes, inaccessible page behind */
#define IN (96u << 20)
static char *inmem;
static char *stg; /* pages for direct stage calls */
static void *mmap2(unsigned n)
{
    int r;
    __asm__ volatile("push %%ebp; xor %%ebp, %%ebp; int $0x80; pop %%ebp" : "=a"(r)
                     : "a"(192), "b"(0), "c"(n), "d"(3), "S"(0x4022), "D"(-1) : "memory");
    return (void *) r;
}
static void reply(int a, int b, const void *p, unsigned n)
{
    unsigned h[6];
    if (zones_bad() || zonehurt) bad |= 1u << 16;
    if (badfree) bad |= 1u << 17;
    h[0] = 0x52504c59;
    h[1] = a;
    h[2] = b;
    h[3] = n;
    h[4] = bad;
    h[5] = live;
    bad = 0;
    wr(h, sizeof h);
    wr(p, n);
}
void work(void)
{
    struct rfxcodec_encode_internals in;
    unsigned q[16];
    heap = mmap2(HEAP);
    brk_ = heap;
    heap_end = heap + HEAP;
    outmem = mmap2(OUT + 4096);
    protect(outmem + OUT, 4096, 0);
    inmem = mmap2(IN);
    stg = mmap2(64 * 4096);
    for (;;)
    {
        unsigned c[16];
        rd(c, sizeof c);
        if (c[0] == 1) /* create: w h fmt flags level junk seed */
        {
            int i;
            level = (int) c[5];
            junk = c[6];
            rs = c[7];
            for (i = 0; i < NH && hnd[i]; i++) {}
            if (i == NH) die(97);
            q[0] = c[1]; q[1] = c[2]; q[2] = c[3]; q[3] = c[4];
            hnd[i] = (void *) go((void *) rfxcodec_encode_create, q, 4);
            reply(hnd[i] ? i : -1, 0, 0, 0);
        }
        else if (c[0] == 2) /* destroy: h */
        {
            char *p = hnd[c[1]];
            q[0] = (unsigned) p;
            go((void *) rfxcodec_encode_destroy, q, 1);
            hnd[c[1]] = 0;
            reply(0, 0, 0, 0);
        }
        else if (c[0] == 3)
        {
            /* encode: h cap npic picoff stride w h nrect ntile nquant flags prefill */
            unsigned cap = c[2], npic = c[3];
            char *p = inmem, *pic, *qu;
            struct rfx_rect *rc;
            struct rfx_tile *tl;
            int cb = (int) cap, r;
            char *cd = outmem + OUT - cap;
            if (cap > OUT || (unsigned long long) npic + c[8] * 16ull + c[9] * 28ull + c[10] * 5ull + 64 > IN) die(96);
            rc = (struct rfx_rect *) p; p += c[8] * 16;
            tl = (struct rfx_tile *) p; p += c[9] * 28;
            qu = p; p += c[10] * 5;
            pic = p; p += npic;
            rd(rc, (char *) p - (char *) rc);
            memset(cd, c[12], cap);
            q[0] = (unsigned) hnd[c[1]];
            q[1] = (unsigned) cd;
            q[2] = (unsigned) &cb;
            q[3] = (unsigned) pic - c[4];
            q[4] = c[6]; q[5] = c[7]; q[6] = c[5];
            q[7] = (unsigned) rc; q[8] = c[8];
            q[9] = (unsigned) tl; q[10] = c[9];
            q[11] = c[10] ? (unsigned) qu : 0; q[12] = c[10];
            q[13] = c[11];
            r = go((void *) rfxcodec_encode_ex, q, 14);
            if (r < 0 || cb < 0 || (unsigned) cb > cap) reply(r, cb, 0, 0);
            else reply(r, cb, cd, cb);
        }
        else if (c[0] == 4)
        {
            /* stage: which (0 dwt+quant in C, 1 sse2, 2 sse41); 5 + 4096 bytes follow.
             * layout: guard | q | guard | pix | guard | b1 | guard | b2 | guard */
            char *g = stg, *qp = stg + 2 * 4096 - 5, *px = stg + 3 * 4096, *b1 = stg + 5 * 4096, *b2 = stg + 8 * 4096;
            int r = -1;
            rd(qp, 5);
            rd(px, 4096);
            protect(g, 4096, 0);
            protect(stg + 2 * 4096, 4096, 0);
            protect(stg + 4 * 4096, 4096, 0);
            protect(stg + 7 * 4096, 4096, 0);
            protect(stg + 10 * 4096, 4096, 0);
            memset(b1, c[2], 8192);
            memset(b2, c[3], 8192);
            memset(&in, 0, sizeof in);
            q[0] = (unsigned) &in;
            go((void *) rfxcodec_encode_get_internals, q, 1);
            if (c[1] == 0)
            {
                q[0] = (unsigned) px; q[1] = (unsigned) b1; q[2] = (unsigned) b2;
                r = go((void *) in.rfxencode_dwt_2d, q, 3);
                q[0] = (unsigned) b1; q[1] = (unsigned) qp;
                r |= go((void *) in.rfxencode_quantization, q, 2);
            }
            else
            {
                void *f = c[1] == 1 ? (void *) in.rfxencode_dwt_shift_x86_sse2 : (void *) in.rfxencode_dwt_shift_x86_sse41;
                if (f)
                {
                    q[0] = (unsigned) qp; q[1] = (unsigned) px; q[2] = (unsigned) b1; q[3] = (unsigned) b2;
                    r = go(f, q, 4);
                }
                else r = -77;
            }
            reply(r, 0, b1, 8192);
        }
        else if (c[0] == 5) /* cpuid directly */
        {
            int a, b, x, d;
            q[0] = c[1]; q[1] = 0; q[2] = (unsigned) &a; q[3] = (unsigned) &b; q[4] = (unsigned) &x; q[5] = (unsigned) &d;
            if (__real_cpuid_x86) go((void *) __real_cpuid_x86, q, 6);
            reply(__real_cpuid_x86 != 0, 0, 0, 0);
        }
        else if (c[0] == 6) /* internals: which entries are set */
        {
            unsigned i, m = 0;
            memset(&in, 0x55, sizeof in);
            q[0] = (unsigned) &in;
            go((void *) rfxcodec_encode_get_internals, q, 1);
            for (i = 0; i < sizeof in / 4; i++)
            {
                unsigned v = ((unsigned *) &in)[i];
                if (v == 0x55555555) m |= 0x10000u << i;
                else if (v) m |= 1u << i;
            }
            reply((int) m, 0, 0, 0);
        }
        else die(95);
    }
}
