/* Shared part of all monitors: library loading, workload generation, guarded
 * memory, call/result records, case loop, counters and reporting. */
#pragma once
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <functional>
#include <memory>
#include <set>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>
#include <string>
#include "model.h"
#include "shim.h"
extern "C" {
#include <rfxcodec_encode.h>
}

/* ---- violations ------------------------------------------------------------ */
struct Violation
{
    std::string msg;
};
#define VIOL(...) throw Violation{fmt(__VA_ARGS__)}

/* ---- random numbers ---------------------------------------------------------- */
static inline uint64_t mix64(uint64_t z)
{
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(mix64(seed)) {}
    uint64_t u64()
    {
        s += 0x9E3779B97F4A7C15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    /* inclusive */
    int in(int a, int b) { return a + (int)(u64() % (uint64_t)((long)b - a + 1)); }
    bool one_in(int n) { return u64() % n == 0; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[u64() % v.size()]; }
};

static inline uint64_t hash_bytes(const uint8_t *p, size_t n, uint64_t h = 1469598103934665603ull)
{
    size_t i = 0;
    for (; i + 8 <= n; i += 8)
    {
        uint64_t v;
        memcpy(&v, p + i, 8);
        h = (h ^ v) * 0x9FB21C651E98DF25ull;
        h ^= h >> 29;
    }
    for (; i < n; i++) h = (h ^ p[i]) * 1099511628211ull;
    return h ^ (h >> 31);
}

/* ---- library variants ---------------------------------------------------------- */
struct Lib
{
    std::string name;
    void *so = nullptr;
    void *(*create)(int, int, int, int) = nullptr;
    int (*create_ex)(int, int, int, int, void **) = nullptr;
    int (*destroy)(void *) = nullptr;
    int (*encode)(void *, char *, int *, const char *, int, int, int, const struct rfx_rect *, int,
                  const struct rfx_tile *, int, const char *, int) = nullptr;
    int (*encode_ex)(void *, char *, int *, const char *, int, int, int, const struct rfx_rect *, int,
                     const struct rfx_tile *, int, const char *, int, int) = nullptr;
    int (*get_internals)(struct rfxcodec_encode_internals *) = nullptr;
    shim_state *shim = nullptr;
    long (*check_zones)() = nullptr;
    rfxcodec_encode_internals in;
};
static inline Lib load_lib(const std::string &name, const std::string &path, bool cold = false)
{
    Lib l;
    l.name = name;
    l.so = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!l.so)
    {
        fprintf(stderr, "HARNESS: cannot load %s: %s\n", path.c_str(), dlerror());
        exit(2);
    }
    auto sym = [&](const char *n) {
        void *p = dlsym(l.so, n);
        if (!p)
        {
            fprintf(stderr, "HARNESS: %s has no %s\n", path.c_str(), n);
            exit(2);
        }
        return p;
    };
    l.create = (decltype(l.create))sym("rfxcodec_encode_create");
    l.create_ex = (decltype(l.create_ex))sym("rfxcodec_encode_create_ex");
    l.destroy = (decltype(l.destroy))sym("rfxcodec_encode_destroy");
    l.encode = (decltype(l.encode))sym("rfxcodec_encode");
    l.encode_ex = (decltype(l.encode_ex))sym("rfxcodec_encode_ex");
    l.get_internals = (decltype(l.get_internals))sym("rfxcodec_encode_get_internals");
    l.shim = ((shim_state * (*)()) sym("shim_get"))();
    l.check_zones = (long (*)())sym("shim_check_zones");
    memset(&l.in, 0, sizeof l.in);
    if (!cold) l.get_internals(&l.in);
    return l;
}
/* without calling anything in it */
static inline Lib load_lib_cold(const std::string &name, const std::string &path) { return load_lib(name, path, true); }

/* ---- guarded memory ------------------------------------------------------------ */
struct Guarded
{
    uint8_t *base = nullptr; /* first accessible byte */
    size_t cap = 0;
    explicit Guarded(size_t n)
    {
        cap = (n + 4095) / 4096 * 4096;
        uint8_t *m = (uint8_t *)mmap(nullptr, cap + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (m == MAP_FAILED)
        {
            perror("HARNESS: mmap");
            exit(2);
        }
        base = m + 4096;
        rw();
    }
    ~Guarded() { munmap(base - 4096, cap + 8192); }
    Guarded(const Guarded &) = delete;
    void rw() { mprotect(base, cap, PROT_READ | PROT_WRITE); }
    void ro() { mprotect(base, cap, PROT_READ); }
    uint8_t *at_end(size_t n) { return base + cap - n; }
    uint8_t *at_start() { return base; }
    bool has(const void *p) const { return (const uint8_t *)p >= base && (const uint8_t *)p < base + cap; }
};

/* ---- pictures -------------------------------------------------------------------- */
/* 1-D analysis functionals, for pictures that drive one coefficient to its extreme */
static inline void functional_1d(bool pro, int level, bool high, int idx, double *f /*64*/)
{
    for (int s = 0; s < 64; s++)
    {
        double x[80] = {0}, lo[80], hi[80];
        x[s] = 1;
        int n = 64, nl = 0, nh = 0;
        for (int k = 1; k <= level; k++)
        {
            analyse_1d_f(x, n, pro, lo, &nl, hi, &nh);
            if (k < level)
            {
                memcpy(x, lo, sizeof(double) * nl);
                n = nl;
            }
        }
        f[s] = high ? hi[idx % nh] : lo[idx % nl];
    }
}
enum PicKind
{
    PK_CONST, PK_NOISE, PK_NOISE_SMALL, PK_GRAD, PK_TEXT, PK_CHECK, PK_STRIPE, PK_IMPULSE, PK_BINARY,
    PK_SINE, PK_BLOCKS, PK_EXTREME, PK_EDGE, PK_DITHER, PK_SMOOTHNOISE, PK_BLOCK8, PK_SPARSEROWS, PK_ODD, PK_COUNT
};
static inline const char *pic_name(int k)
{
    static const char *n[] = {"const", "noise", "noise-small", "gradient", "text", "checker", "stripes", "impulses",
                              "binary-noise", "sine", "blocks", "extremal", "edges", "dither", "smooth+noise", "blocks8", "sparse-rows", "plain-but-one"};
    return k >= 0 && k < PK_COUNT ? n[k] : "mixed";
}
/* one 8-bit plane */
static inline void fill_plane(uint8_t *p, int w, int h, int stride, int kind, Rng &r)
{
    auto put = [&](int x, int y, int v) { p[(size_t)y * stride + x] = (uint8_t)(v < 0 ? 0 : v > 255 ? 255 : v); };
    int a = r.one_in(3) ? (r.one_in(2) ? 0 : 255) : r.in(0, 255), b = r.one_in(3) ? 255 - a : r.in(0, 255);
    switch (kind)
    {
        case PK_CONST:
            for (int y = 0; y < h; y++) memset(p + (size_t)y * stride, a, w);
            break;
        case PK_NOISE:
            for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) put(x, y, r.u64() & 255);
            break;
        case PK_NOISE_SMALL:
        {
            int m = r.in(1, 12);
            for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) put(x, y, a + r.in(-m, m));
            break;
        }
        case PK_GRAD:
        {
            int dx = r.in(-9, 9), dy = r.in(-9, 9), wrap = r.one_in(2);
            for (int y = 0; y < h; y++)
                for (int x = 0; x < w; x++)
                {
                    int v = a + x * dx / 2 + y * dy / 2;
                    put(x, y, wrap ? (v & 255) : v);
                }
            break;
        }
        case PK_TEXT:
            for (int y = 0; y < h; y++)
                for (int x = 0; x < w; x++)
                {
                    uint64_t g = mix64((uint64_t)(x / 7) * 7919 + (y / 13) * 104729 + a);
                    put(x, y, ((g >> ((x % 7) + 7 * (y % 13) % 53)) & 1) && (y % 13) < 9 ? b : a);
                }
            break;
        case PK_CHECK:
        {
            int n = r.one_in(2) ? 1 : r.in(1, 9), ox = r.in(0, 8), oy = r.in(0, 8);
            for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) put(x, y, (((x + ox) / n + (y + oy) / n) & 1) ? a : b);
            break;
        }
        case PK_STRIPE:
        {
            int n = r.in(1, 9), v = r.one_in(2), o = r.in(0, 8);
            for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) put(x, y, ((((v ? x : y) + o) / n) & 1) ? a : b);
            break;
        }
        case PK_IMPULSE:
        {
            for (int y = 0; y < h; y++) memset(p + (size_t)y * stride, a, w);
            int n = r.in(1, 1 + w * h / 200);
            for (int i = 0; i < n; i++) put(r.in(0, w - 1), r.in(0, h - 1), r.one_in(2) ? b : (int)(r.u64() & 255));
            break;
        }
        case PK_BINARY:
        {
            int d = r.in(2, 12);
            for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) put(x, y, r.one_in(d) ? a : 255 - a);
            break;
        }
        case PK_SINE:
        {
            double fx = r.in(1, 400) / 100.0, fy = r.in(0, 400) / 100.0, amp = r.in(5, 127);
            for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) put(x, y, (int)(128 + amp * sin(x * fx / 4 + y * fy / 4)));
            break;
        }
        case PK_BLOCKS:
        {
            int n = r.in(2, 33);
            for (int y = 0; y < h; y++)
                for (int x = 0; x < w; x++) put(x, y, mix64((uint64_t)a * 977 + (x / n) * 131 + (y / n) * 7) & 255);
            break;
        }
        case PK_EXTREME:
        {
            /* per 64x64 block: +-full swing along the signs of one coefficient's functional */
            double fx[64], fy[64];
            for (int by = 0; by < h; by += 64)
                for (int bx = 0; bx < w; bx += 64)
                {
                    bool pro = r.one_in(2);
                    int lev = r.in(1, 3);
                    bool hx = r.one_in(2), hy = r.one_in(2);
                    /* often at a border of the band */
                    int ix = r.one_in(2) ? r.in(0, 31) : (r.one_in(2) ? 0 : 999), iy = r.one_in(2) ? r.in(0, 31) : (r.one_in(2) ? 0 : 999);
                    int nlx = pro ? (lev == 1 ? 33 : lev == 2 ? 17 : 9) : (64 >> lev), nhx = pro ? (lev == 1 ? 31 : lev == 2 ? 16 : 8) : (64 >> lev);
                    if (ix == 999) ix = (hx ? nhx : nlx) - 1;
                    if (iy == 999) iy = (hy ? nhx : nlx) - 1;
                    functional_1d(pro, lev, hx, ix, fx);
                    functional_1d(pro, lev, hy, iy, fy);
                    bool inv = r.one_in(2);
                    int bg = r.one_in(2) ? 128 : a;
                    for (int y = by; y < h && y < by + 64; y++)
                        for (int x = bx; x < w && x < bx + 64; x++)
                        {
                            double s = fx[x - bx] * fy[y - by];
                            put(x, y, s == 0 ? bg : ((s > 0) != inv ? 255 : 0));
                        }
                }
            break;
        }
        case PK_EDGE:
            /* constant with single deviating columns/rows, favouring block borders */
            for (int y = 0; y < h; y++) memset(p + (size_t)y * stride, a, w);
            for (int i = r.in(1, 4); i > 0; i--)
            {
                static const int pos[] = {0, 1, 2, 15, 16, 31, 32, 33, 47, 48, 60, 61, 62, 63};
                int q = pos[r.in(0, 13)];
                bool vert = r.one_in(2);
                for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) if (((vert ? x : y) & 63) == q) put(x, y, b);
            }
            break;
        case PK_DITHER:
            for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) put(x, y, a + (int)(((x * 5 + y * 3) ^ (x * y)) & 3) - 1);
            break;
        case PK_SMOOTHNOISE:
        {
            int dx = r.in(-3, 3), dy = r.in(-3, 3), m = r.in(0, 3);
            for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) put(x, y, a + (x * dx + y * dy) / 3 + r.in(-m, m));
            break;
        }
        case PK_BLOCK8:
            for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) put(x, y, mix64((uint64_t)a * 31 + b * 7 + (x / 8) * 1009 + (y / 8) * 9176) & 255);
            break;
        case PK_SPARSEROWS:
        {
            for (int y = 0; y < h; y++) memset(p + (size_t)y * stride, a, w);
            for (int y = 0; y < h; y += r.in(1, 20))
            {
                int n = r.in(1, w), x0 = r.in(0, w - 1);
                for (int x = x0; x < w && x < x0 + n; x++) put(x, y, r.one_in(3) ? b : (int)(r.u64() & 255));
            }
            break;
        }
        case PK_ODD:
            /* tiles all alike but for a pixel (mostly at the rim) or a tail of pixels */
            for (int y = 0; y < h; y++) memset(p + (size_t)y * stride, a, w);
            for (int ty = 0; ty < h; ty += 64)
                for (int tx = 0; tx < w; tx += 64)
                {
                    int tw = std::min(64, w - tx), th = std::min(64, h - ty), at;
                    switch (r.in(0, 7))
                    {
                        case 0: continue;
                        case 1: at = tw * th - 1; break;
                        case 2: at = tw * th - 1 - r.in(0, tw - 1); break;
                        case 3: at = r.in(0, th - 1) * tw + tw - 1; break;
                        case 4: at = r.in(0, tw - 1); break;
                        case 5: at = r.in(0, th - 1) * tw; break;
                        default: at = r.in(0, tw * th - 1);
                    }
                    put(tx + at % tw, ty + at / tw, b == a ? a ^ 64 : b);
                    if (r.one_in(8)) for (; at < tw * th; at++) put(tx + at % tw, ty + at / tw, (int)(r.u64() & 255));
                }
            break;
    }
}
/* kind chosen per plane (-1) or per block */
static inline int pick_kind(Rng &r) { return r.in(0, PK_COUNT - 1); }
static inline void fill_plane_any(uint8_t *p, int w, int h, int stride, Rng &r, int kind = -1)
{
    if (kind >= 0)
    {
        fill_plane(p, w, h, stride, kind, r);
        return;
    }
    if (r.one_in(3) && w >= 1 && h >= 1)
    {
        for (int by = 0; by < h; by += 64)
            for (int bx = 0; bx < w; bx += 64)
                fill_plane(p + (size_t)by * stride + bx, std::min(64, w - bx), std::min(64, h - by), stride, pick_kind(r), r);
    }
    else
    {
        fill_plane(p, w, h, stride, pick_kind(r), r);
    }
}

/* ---- calls ---------------------------------------------------------------------- */
static inline int bpp_of(int fmt) { return fmt == RFX_FORMAT_BGR || fmt == RFX_FORMAT_RGB ? 3 : 4; }
static inline bool fmt_has_alpha(int fmt) { return fmt == RFX_FORMAT_BGRA || fmt == RFX_FORMAT_RGBA || fmt == RFX_FORMAT_YUV; }
static inline const char *fmt_name(int f)
{
    static const char *n[] = {"BGRA", "RGBA", "BGR", "RGB", "YUV"};
    return f >= 0 && f < 5 ? n[f] : "?";
}

/* A picture as the caller holds it, independent of where it is placed */
struct Pic
{
    int fmt, w, h, stride;
    int ox = 0, oy = 0;  /* position of this window in the (virtual) full picture */
    Bytes mem;           /* stride*(h-1) + w*bpp bytes, or tiles for YUV */
    size_t offset() const
    {
        if (fmt == RFX_FORMAT_YUV) return (size_t)(oy / 64) * ((size_t)stride * 64) + (size_t)(ox / 64) * 16384;
        return (size_t)oy * stride + (size_t)ox * (fmt == RFX_FORMAT_BGR || fmt == RFX_FORMAT_RGB ? 3 : 4);
    }
    /* the picture pointer a caller passes when mem lies at p */
    const char *origin(const uint8_t *p) const { return (const char *)((uintptr_t)p - offset()); }
    std::vector<uint8_t> described; /* optional */
    std::string kind;
    /* expected planes of a tile: y,u,v,a (4096 each) with edge extension */
    void planes(const rfx_tile &t, uint8_t *Y, uint8_t *U, uint8_t *V, uint8_t *A) const
    {
        if (fmt == RFX_FORMAT_YUV)
        {
            size_t o = (size_t)((t.y - oy) / 64) * ((size_t)stride * 64) + (size_t)((t.x - ox) / 64) * 16384;
            memcpy(Y, &mem[o], 4096);
            memcpy(U, &mem[o + 4096], 4096);
            memcpy(V, &mem[o + 8192], 4096);
            memcpy(A, &mem[o + 12288], 4096);
            return;
        }
        int bpp = bpp_of(fmt);
        for (int y = 0; y < 64; y++)
            for (int x = 0; x < 64; x++)
            {
                int sx = t.x - ox + std::min(x, t.cx - 1), sy = t.y - oy + std::min(y, t.cy - 1);
                const uint8_t *s = &mem[(size_t)sy * stride + (size_t)sx * bpp];
                int r, g, b;
                if (fmt == RFX_FORMAT_BGRA || fmt == RFX_FORMAT_BGR) { b = s[0]; g = s[1]; r = s[2]; }
                else { r = s[0]; g = s[1]; b = s[2]; }
                rgb_to_yuv(r, g, b, Y + y * 64 + x, U + y * 64 + x, V + y * 64 + x);
                A[y * 64 + x] = bpp == 4 ? s[3] : 0;
            }
    }
    /* mark every byte the output may depend on; with 'readable' every byte of
     * the listed pixels and tiles, used or not */
    void describe(const std::vector<rfx_tile> &tiles, bool alpha, std::vector<uint8_t> &d, bool readable = false) const
    {
        d.assign(mem.size(), 0);
        for (auto &t : tiles)
        {
            if (fmt == RFX_FORMAT_YUV)
            {
                size_t o = (size_t)((t.y - oy) / 64) * ((size_t)stride * 64) + (size_t)((t.x - ox) / 64) * 16384;
                memset(&d[o], 1, alpha || readable ? 16384 : 12288);
                continue;
            }
            int bpp = bpp_of(fmt);
            for (int y = 0; y < t.cy; y++)
                for (int x = 0; x < t.cx; x++)
                {
                    uint8_t *p = &d[(size_t)(t.y - oy + y) * stride + (size_t)(t.x - ox + x) * bpp];
                    p[0] = p[1] = p[2] = 1;
                    if (bpp == 4 && (alpha || readable)) p[3] = 1;
                }
        }
    }
};
typedef std::shared_ptr<Pic> PicP;

struct Cfg
{
    int w = 64, h = 64, fmt = 0, flags = 0;
    int cpu = -1;
    bool pro() const { return flags & RFX_FLAGS_PRO1; }
    int mode() const { return (flags & RFX_FLAGS_RLGR1) ? 1 : 3; }
};
struct Call
{
    PicP pic;
    std::vector<rfx_rect> rects;
    std::vector<rfx_tile> tiles;
    Bytes quants;        /* 5 * n */
    bool null_quants = false;
    int null_nq = 0;     /* the count passed along with no tables */
    int flags = 0;
    int cap = -1;        /* -1: ample */
    int nq() const { return null_quants ? 1 : (int)quants.size() / 5; }
    bool alpha() const { return flags & RFX_FLAGS_ALPHAV1; }
    int ample() const { return 4096 + 8 * (int)rects.size() + 5 * nq() + 40960 * ((int)tiles.size() + 1); }
    QTab qtab(int i) const
    {
        static const uint8_t def[5] = {0x66, 0x66, 0x77, 0x88, 0x98};
        return qtab_from(null_quants ? def : &quants[i * 5]);
    }
};
struct Result
{
    int ret = -99;
    int bytes = 0;
    Bytes out;
    bool operator==(const Result &o) const { return ret == o.ret && out == o.out; }
};

static inline std::string describe(const Cfg &c)
{
    return fmt("%dx%d %s flags=0x%x cpu=%d", c.w, c.h, fmt_name(c.fmt), c.flags, c.cpu);
}
static inline std::string describe(const Call &c)
{
    std::string s = fmt("pic %dx%d+%d+%d stride %d [%s] %zu rects %zu tiles %d tables%s flags=0x%x cap=%d", c.pic ? c.pic->w : 0,
                        c.pic ? c.pic->h : 0, c.pic ? c.pic->ox : 0, c.pic ? c.pic->oy : 0, c.pic ? c.pic->stride : 0, c.pic ? c.pic->kind.c_str() : "", c.rects.size(),
                        c.tiles.size(), c.nq(), c.null_quants ? "(default)" : "", c.flags, c.cap);
    for (size_t i = 0; i < c.tiles.size() && i < 4; i++)
        s += fmt(" t%zu=(%d,%d %dx%d q%d/%d/%d)", i, c.tiles[i].x, c.tiles[i].y, c.tiles[i].cx, c.tiles[i].cy,
                 c.tiles[i].quant_y, c.tiles[i].quant_cb, c.tiles[i].quant_cr);
    return s;
}

/* ---- generation --------------------------------------------------------------------- */
static inline PicP make_pic0(Rng &r, int fmt, int w, int h, int kind)
{
    auto p = std::make_shared<Pic>();
    p->fmt = fmt;
    p->w = w;
    p->h = h;
    if (fmt == RFX_FORMAT_YUV)
    {
        int tw = (w + 63) / 64, th = (h + 63) / 64;
        int stw = tw + (r.one_in(4) ? r.in(1, 3) : 0);
        p->stride = stw * 256;
        p->mem.resize((size_t)th * stw * 16384);
        int kinds[4];
        bool same = r.one_in(3);
        for (int c = 0; c < 4; c++) kinds[c] = kind >= 0 ? kind : pick_kind(r);
        for (int i = 0; i < th * stw; i++)
            for (int c = 0; c < 4; c++)
                fill_plane(&p->mem[(size_t)i * 16384 + c * 4096], 64, 64, 64, same ? kinds[c] : (kind >= 0 ? kind : pick_kind(r)), r);
        p->kind = same || kind >= 0 ? pic_name(kinds[0]) : "mixed";
        return p;
    }
    int bpp = bpp_of(fmt);
    p->stride = w * bpp + (r.one_in(2) ? 0 : r.one_in(2) ? r.in(1, 9) : r.in(10, 300));
    p->mem.resize((size_t)p->stride * (h - 1) + (size_t)w * bpp);
    for (auto &x : p->mem) x = 0xEE;
    Bytes pl((size_t)w * h);
    int mode = r.in(0, 3);
    Bytes grey;
    for (int c = 0; c < bpp; c++)
    {
        if (mode == 0 && c < 3)
        {
            if (c == 0) { fill_plane_any(pl.data(), w, h, w, r, kind); grey = pl; }
            else pl = grey;
            if (r.one_in(4)) /* a touch of colour */
                for (int ty = 0; ty < h; ty += 64)
                    for (int tx = 0; tx < w; tx += 64)
                        if (r.one_in(2)) pl[(size_t)std::min(h - 1, ty + (r.one_in(2) ? 63 : r.in(0, 63))) * w + std::min(w - 1, tx + (r.one_in(2) ? 63 : r.in(0, 63)))] ^= 1 << r.in(4, 7);
        }
        else
        {
            fill_plane_any(pl.data(), w, h, w, r, kind);
        }
        for (int y = 0; y < h; y++)
            for (int x = 0; x < w; x++) p->mem[(size_t)y * p->stride + (size_t)x * bpp + c] = pl[(size_t)y * w + x];
    }
    p->kind = kind >= 0 ? pic_name(kind) : "any";
    return p;
}
/* maxtile: highest tile column/row that may be used (63 for progressive) */
static inline PicP make_pic(Rng &r, int fmt, int w, int h, int kind = -1, int maxtile = 63)
{
    PicP p = make_pic0(r, fmt, w, h, kind);
    if (r.one_in(4))
    {
        int tw = (w + 63) / 64, th = (h + 63) / 64;
        auto far = [&](int n) { int k = std::max(0, maxtile + 1 - n); return 64 * (r.one_in(3) ? k : r.in(0, k)); };
        if (fmt != RFX_FORMAT_YUV && r.one_in(2)) p->stride += r.in(0, 3) * 1000; /* wide picture, window of it */
        if (fmt != RFX_FORMAT_YUV && r.one_in(5))
        {
            /* a very wide one: rows beyond 32 and 64 KiB, as far as memory allows */
            int most = std::min(300000, 6000000 / h);
            if (most > p->stride + 2000) p->stride = r.in(p->stride, most);
        }
        if (fmt == RFX_FORMAT_YUV && th <= 3 && r.one_in(4))
        {
            /* likewise: tiles of a row lie together, rows of tiles far apart */
            int stw = p->stride / 256, most = th == 1 ? 1024 : std::min(1024, 6000000 / 16384 / (th - 1));
            int nstw = r.in(stw, most);
            Bytes n((size_t)(th - 1) * nstw * 16384 + (size_t)tw * 16384, 0xEE);
            for (int y = 0; y < th; y++) memcpy(&n[(size_t)y * nstw * 16384], &p->mem[(size_t)y * stw * 16384], (size_t)tw * 16384);
            p->mem.swap(n);
            p->stride = nstw * 256;
            if (r.one_in(2)) maxtile = std::min(maxtile, std::max(th, 60));
        }
        p->ox = r.one_in(3) ? 0 : far(tw);
        p->oy = r.one_in(3) ? 0 : far(th);
        if (fmt != RFX_FORMAT_YUV)
        {
            /* re-lay out with the new stride */
            PicP q = make_pic0(r, fmt, w, h, kind);
            int bpp = fmt == RFX_FORMAT_BGR || fmt == RFX_FORMAT_RGB ? 3 : 4;
            p->mem.assign((size_t)p->stride * (h - 1) + (size_t)w * bpp, 0xEE);
            for (int y = 0; y < h; y++) memcpy(&p->mem[(size_t)y * p->stride], &q->mem[(size_t)y * q->stride], (size_t)w * bpp);
        }
        /* stay below 2 GiB of virtual picture */
        while (p->offset() + p->mem.size() >= 0x7FFF0000ull) p->oy = p->oy / 128 * 64;
    }
    return p;
}
/* modify part of a picture (the next frame of an animation) */
static inline PicP evolve(Rng &r, const PicP &old)
{
    auto p = std::make_shared<Pic>(*old);
    int how = r.in(0, 8);
    if (how == 0) return p; /* identical content */
    if (how == 1)
    {
        for (int i = r.in(1, 40); i > 0; i--) p->mem[r.u64() % p->mem.size()] ^= (uint8_t)(1 << r.in(0, 7));
    }
    else if (how == 2)
    {
        size_t n = 1 + r.u64() % p->mem.size(), o = r.u64() % (p->mem.size() - n + 1);
        for (size_t i = o; i < o + n; i++) p->mem[i] = (uint8_t)(p->mem[i] + 1);
    }
    else if (how == 3)
    {
        size_t n = 1 + r.u64() % std::min<size_t>(p->mem.size(), 4096), o = r.u64() % (p->mem.size() - n + 1);
        for (size_t i = o; i < o + n; i++) p->mem[i] = (uint8_t)r.u64();
    }
    else if (how == 4)
    {
        for (auto &x : p->mem) x = (uint8_t)(255 - x);
    }
    else if (how == 6)
    {
        /* scrolled: the same values elsewhere */
        size_t unit = p->fmt == RFX_FORMAT_YUV ? 4096 : p->mem.size();
        for (size_t o = 0; o + unit <= p->mem.size(); o += unit)
        {
            size_t k = r.one_in(3) ? 1 : r.one_in(2) ? std::min<size_t>(unit - 1, p->fmt == RFX_FORMAT_YUV ? 64 : p->stride) : r.u64() % unit;
            if (r.one_in(2)) std::rotate(p->mem.begin() + o, p->mem.begin() + o + k, p->mem.begin() + o + unit);
        }
    }
    else if (how == 7)
    {
        /* mirrored, or planes and tiles exchanged */
        size_t unit = p->fmt == RFX_FORMAT_YUV ? 4096 : p->mem.size() / 4;
        size_t n = unit ? p->mem.size() / unit : 0;
        if (n && r.one_in(2))
        {
            size_t o = r.u64() % n * unit;
            std::reverse(p->mem.begin() + o, p->mem.begin() + o + unit);
        }
        else if (n > 1)
        {
            size_t a = r.u64() % n, b = r.u64() % n;
            if (a != b) std::swap_ranges(p->mem.begin() + a * unit, p->mem.begin() + (a + 1) * unit, p->mem.begin() + b * unit);
        }
    }
    else if (how == 8)
    {
        /* changes that cancel out in sums */
        int d = r.in(1, 60);
        for (int i = r.in(1, 10); i > 0; i--)
        {
            size_t base = r.u64() % p->mem.size() & ~(size_t)4095, len = std::min<size_t>(4096, p->mem.size() - base);
            size_t a = base + r.u64() % len, b = base + r.u64() % len;
            if (a != b && p->mem[a] + d < 256 && p->mem[b] >= d) { p->mem[a] += d; p->mem[b] -= d; }
        }
    }
    else
    {
        PicP q = make_pic0(r, p->fmt, p->w, p->h, -1);
        size_t n = std::min(q->mem.size(), p->mem.size());
        if (q->stride == p->stride) memcpy(p->mem.data(), q->mem.data(), n);
    }
    p->kind += "+";
    return p;
}
static inline Bytes make_quants(Rng &r, int n)
{
    Bytes q(n * 5);
    for (int i = 0; i < n; i++)
    {
        int how = r.in(0, 5), v = r.in(6, 15);
        for (int b = 0; b < 10; b++)
        {
            int x = how == 0 ? v : how == 1 ? 6 : how == 2 ? 6 + b % 10 : how == 3 ? r.in(6, 9) : how == 4 ? (r.one_in(3) ? 15 : 6) : r.in(6, 15);
            q[i * 5 + b / 2] |= x << ((b & 1) ? 4 : 0);
        }
        if (how == 2 && r.one_in(2))
        {
            static const uint8_t def[5] = {0x66, 0x66, 0x77, 0x88, 0x98};
            memcpy(&q[i * 5], def, 5);
        }
    }
    return q;
}
static inline void make_quant_choice(Rng &r, Call &c)
{
    if (r.one_in(8))
    {
        c.null_quants = true;
        c.quants.clear();
    }
    else
    {
        c.null_quants = false;
        int n = r.one_in(3) ? 1 : r.one_in(5) ? (r.one_in(2) ? r.in(100, 255) : 255 - r.in(0, 2)) : r.in(2, 8);
        c.quants = make_quants(r, n);
    }
}
static inline rfx_tile make_tile(Rng &r, const Call &c, int tx, int ty)
{
    rfx_tile t;
    t.x = tx * 64 + c.pic->ox;
    t.y = ty * 64 + c.pic->oy;
    int mw = std::min(64, c.pic->w - tx * 64), mh = std::min(64, c.pic->h - ty * 64);
    if (c.pic->fmt == RFX_FORMAT_YUV && r.one_in(2)) mw = mh = 64;
    if (mw < 1) mw = 1;
    if (mh < 1) mh = 1;
    t.cx = r.one_in(6) ? r.in(1, mw) : mw;
    t.cy = r.one_in(6) ? r.in(1, mh) : mh;
    int n = c.nq();
    t.quant_y = r.one_in(8) ? n - 1 : r.in(0, n - 1);
    t.quant_cb = r.one_in(3) ? t.quant_y : r.one_in(8) ? n - 1 : r.in(0, n - 1);
    t.quant_cr = r.one_in(3) ? t.quant_y : r.one_in(8) ? n - 1 : r.in(0, n - 1);
    return t;
}
static inline void make_tiles(Rng &r, Call &c, int maxtiles)
{
    int tw = (c.pic->w + 63) / 64, th = (c.pic->h + 63) / 64;
    c.tiles.clear();
    std::vector<std::pair<int, int>> all;
    for (int y = 0; y < th; y++) for (int x = 0; x < tw; x++) all.push_back({x, y});
    if (r.one_in(2))
        for (size_t i = all.size(); i > 1; i--) std::swap(all[i - 1], all[r.u64() % i]);
    int n = r.one_in(3) ? (int)all.size() : r.in(1, (int)all.size());
    if (n > maxtiles) n = maxtiles;
    for (int i = 0; i < n; i++) c.tiles.push_back(make_tile(r, c, all[i].first, all[i].second));
    if (r.one_in(8) && (int)c.tiles.size() < maxtiles) /* the same tile twice */
        c.tiles.push_back(make_tile(r, c, all[0].first, all[0].second));
}
static inline void make_rects(Rng &r, Call &c)
{
    int n = r.one_in(10) ? 0 : r.one_in(12) ? r.in(100, 2000) : r.in(1, 6);
    c.rects.clear();
    for (int i = 0; i < n; i++)
    {
        rfx_rect q;
        q.x = r.one_in(4) ? r.in(0, 65535) : r.in(0, 2000);
        q.y = r.one_in(4) ? r.in(0, 65535) : r.in(0, 2000);
        q.cx = r.one_in(4) ? r.in(0, 65535) : r.in(1, 2000);
        q.cy = r.one_in(4) ? r.in(0, 65535) : r.in(1, 2000);
        c.rects.push_back(q);
    }
}
static inline int make_dim(Rng &r, int max)
{
    int k = r.in(0, 5);
    if (k == 0) return r.in(1, 64);
    if (k == 1) return 64 * r.in(1, std::max(1, max / 64));
    if (k == 2) return std::min(max, 64 * r.in(1, std::max(1, max / 64)) + r.in(1, 3));
    return r.in(1, max);
}
struct GenOpt
{
    int maxdim = 300;
    int maxtiles = 12;
    int pro = -1;     /* -1 any, 0 classic, 1 progressive */
    int alpha = -1;   /* -1 any, 0 never, 1 always (where meaningful) */
    int noaccel = -1;
    int kind = -1;
};
static inline Cfg make_cfg(Rng &r, const GenOpt &o)
{
    Cfg c;
    bool pro = o.pro < 0 ? r.one_in(3) : o.pro;
    c.fmt = pro ? RFX_FORMAT_YUV : r.in(0, 4);
    c.w = r.one_in(8) ? r.in(1, 65535) : r.in(1, 4096);
    c.h = r.one_in(8) ? r.in(1, 65535) : r.in(1, 4096);
    static const int edge[] = {1, 2, 63, 64, 65, 127, 128, 255, 256, 257, 4095, 4096, 4097, 8192, 32766, 32767, 32768, 65472, 65534, 65535};
    if (r.one_in(6)) c.w = edge[r.in(0, 19)];
    if (r.one_in(6)) c.h = edge[r.in(0, 19)];
    c.flags = (pro ? RFX_FLAGS_PRO1 : 0) | (r.one_in(2) ? RFX_FLAGS_RLGR1 : RFX_FLAGS_RLGR3);
    bool na = o.noaccel < 0 ? r.one_in(3) : o.noaccel;
    if (na) c.flags |= RFX_FLAGS_NOACCEL;
    if (r.one_in(8)) c.flags |= RFX_FLAGS_OPT1;
    if (r.one_in(8)) c.flags |= RFX_FLAGS_OPT2;
    c.cpu = r.in(-1, 2);
    return c;
}
static inline Call make_call(Rng &r, const Cfg &cfg, const GenOpt &o, PicP pic = nullptr)
{
    Call c;
    c.pic = pic ? pic : make_pic(r, cfg.fmt, make_dim(r, o.maxdim), make_dim(r, o.maxdim), o.kind, cfg.pro() ? 63 : 1023);
    make_quant_choice(r, c);
    make_tiles(r, c, o.maxtiles);
    make_rects(r, c);
    if (!cfg.pro())
    {
        bool al = o.alpha < 0 ? r.one_in(3) : o.alpha;
        if (al) c.flags |= RFX_FLAGS_ALPHAV1;
    }
    return c;
}

/* ---- histories ---------------------------------------------------------------------- */
struct HistOpt : GenOpt
{
    int min_calls = 2, max_calls = 6;
    bool limited = true;  /* some calls with too little space */
    bool keys = true;     /* progressive key frames */
    bool same_quants = true; /* mostly keep the tables, so that differences pay off */
    bool big_lists = false; /* now and then very long rectangle / tile lists */
    int longs = 40;         /* one in so many has a hundred calls (when several are asked for) */
    int screens = 0;        /* one in so many is a server sending whole screens */
    bool stray = true;     /* now and then flags on calls they mean nothing to */
    bool crowds = true;     /* now and then a screenful of tiles, often more than fit */
};
struct Hist
{
    Cfg cfg;
    std::vector<Call> calls;
};
/* a capacity that is likely to run out somewhere interesting */
static inline int pick_cap(Rng &r, const Cfg &cfg, const Call &c)
{
    int fixed = 100 + 8 * (int)c.rects.size() + 5 * c.nq(), n = (int)c.tiles.size();
    switch (r.in(0, 5))
    {
        case 0: return r.in(0, fixed + 60);
        case 1: return fixed + r.in(0, 3000);
        case 2: return fixed + (cfg.pro() ? 0 : 20000) + r.in(0, 9000);
        case 3: return fixed + (cfg.pro() ? 0 : 24000) + r.in(0, 6000 * std::max(1, n));
        case 4: return fixed + (cfg.pro() ? 0 : 24500) + r.in(0, 600 * std::max(1, n));
        default: return fixed + (cfg.pro() ? 0 : 24400) + r.in(0, 16000 * std::max(1, n));
    }
}
/* what did not fit follows in the next call, as a display server does it; often
 * the picture has moved on by then */
static inline Call rest_of(Rng &r, const Call &c, int sent)
{
    Call k = c;
    k.tiles.erase(k.tiles.begin(), k.tiles.begin() + std::max(0, std::min(sent, (int)k.tiles.size())));
    k.flags &= ~RFX_FLAGS_PRO_KEY;
    if (r.one_in(3)) k.pic = evolve(r, k.pic);
    if (!r.one_in(3)) k.cap = -1;
    return k;
}
/* What a display server does: a whole screen first, then what changed, what did
 * not fit following in the next call, full refreshes now and then */
static inline Hist make_screen(Rng &r, const HistOpt &o)
{
    Hist h;
    h.cfg = make_cfg(r, o);
    int tw = r.in(12, 40), th = r.in(8, 25);
    while (tw * th > 900) tw--;
    int w = tw * 64 - (r.one_in(2) ? r.in(0, 63) : 0), hh = th * 64 - (r.one_in(2) ? r.in(0, 63) : 0);
    PicP p = make_pic0(r, h.cfg.fmt, w, hh, o.kind);
    if (h.cfg.pro())
    {
        p->ox = r.one_in(2) ? 0 : 64 * r.in(0, 64 - tw);
        p->oy = r.one_in(2) ? 0 : 64 * r.in(0, 64 - th);
    }
    Bytes q;
    Call base;
    make_quant_choice(r, base);
    int flags = !h.cfg.pro() && (o.alpha < 0 ? r.one_in(3) : o.alpha) ? RFX_FLAGS_ALPHAV1 : 0;
    int n = r.in(3, 5);
    for (int i = 0; i < n; i++)
    {
        Call c = base;
        c.pic = p;
        c.flags = flags;
        if (r.one_in(5)) make_quant_choice(r, c);
        bool all = i == 0 || r.one_in(3);
        int x0 = all ? 0 : r.in(0, tw - 1), y0 = all ? 0 : r.in(0, th - 1);
        int x1 = all ? tw : r.in(x0 + 1, tw), y1 = all ? th : r.in(y0 + 1, th);
        int qy = r.in(0, c.nq() - 1), qc = r.in(0, c.nq() - 1), qd = r.one_in(2) ? qc : r.in(0, c.nq() - 1);
        bool cols = r.one_in(4);
        for (int a = cols ? x0 : y0; a < (cols ? x1 : y1); a++)
            for (int b = cols ? y0 : x0; b < (cols ? y1 : x1); b++)
            {
                rfx_tile t = make_tile(r, c, cols ? a : b, cols ? b : a);
                if (!r.one_in(5)) t.quant_y = qy, t.quant_cb = qc, t.quant_cr = qd;
                c.tiles.push_back(t);
            }
        make_rects(r, c);
        if (h.cfg.pro() && o.keys && i > 0 && r.one_in(5)) c.flags |= RFX_FLAGS_PRO_KEY;
        if (o.limited && r.one_in(2)) c.cap = (h.cfg.pro() ? 1000 : 30000) + r.in(0, 3000) * (int)c.tiles.size();
        h.calls.push_back(c);
        p = evolve(r, p);
    }
    return h;
}
static inline Hist make_hist(Rng &r, const HistOpt &o)
{
    if (o.screens && r.one_in(o.screens)) return make_screen(r, o);
    Hist h;
    h.cfg = make_cfg(r, o);
    int n = r.in(o.min_calls, o.max_calls), maxtiles = o.maxtiles, maxdim = o.maxdim;
    if (o.longs && o.max_calls > 4 && r.one_in(o.longs))
    {
        n = r.in(20, 110);
        maxtiles = std::min(maxtiles, 3);
        maxdim = std::min(maxdim, 130);
    }
    std::vector<PicP> pics;
    /* now and then the same things show up at other places of the grid */
    bool roam = h.cfg.pro() && r.one_in(2);
    std::vector<std::pair<int, int>> places;
    Bytes q;
    bool nullq = false;
    for (int i = 0; i < n; i++)
    {
        PicP p;
        if (pics.empty() || (pics.size() < 3 && r.one_in(5)))
        {
            p = make_pic(r, h.cfg.fmt, make_dim(r, maxdim), make_dim(r, maxdim), o.kind, h.cfg.pro() ? 63 : 1023);
            pics.push_back(p);
        }
        else
        {
            size_t k = r.u64() % pics.size();
            p = pics[k] = evolve(r, pics[k]);
        }
        if (roam)
        {
            int tw = (p->w + 63) / 64, th = (p->h + 63) / 64;
            places.push_back({p->ox, p->oy});
            if (r.one_in(2))
            {
                auto q2 = std::make_shared<Pic>(*p);
                auto move = [&](int at, int n) {
                    int k = at / 64, top = 64 - n;
                    switch (r.in(0, 6))
                    {
                        case 0: k = 0; break;
                        case 1: k = top; break;
                        case 2: k = r.in(0, top); break;
                        case 3: k ^= 1 << r.in(0, 5); break;
                        case 4: k = k + r.in(-2, 2); break;
                        default: break;
                    }
                    return 64 * std::max(0, std::min(top, k));
                };
                if (r.one_in(4)) q2->ox = std::min(q2->oy, 64 * (64 - tw)), q2->oy = std::min(p->ox, 64 * (64 - th));
                else if (r.one_in(2) && !places.empty())
                {
                    auto &pl = places[r.u64() % places.size()];
                    q2->ox = std::min(pl.first, 64 * (64 - tw));
                    q2->oy = std::min(pl.second, 64 * (64 - th));
                }
                else
                {
                    q2->ox = move(q2->ox, tw);
                    q2->oy = move(q2->oy, th);
                }
                p = q2;
            }
        }
        Call c;
        c.pic = p;
        if (i == 0 || !o.same_quants || r.one_in(4))
        {
            make_quant_choice(r, c);
            q = c.quants;
            nullq = c.null_quants;
        }
        c.quants = q;
        c.null_quants = nullq;
        make_tiles(r, c, maxtiles);
        make_rects(r, c);
        if (o.big_lists && r.one_in(n > 30 ? 300 : 50))
        {
            int many = r.in(100, 700);
            int tw = (p->w + 63) / 64, th = (p->h + 63) / 64;
            for (int k = 0; k < many; k++) c.tiles.push_back(make_tile(r, c, r.in(0, tw - 1), r.in(0, th - 1)));
        }
        if (!h.cfg.pro())
        {
            bool al = o.alpha < 0 ? r.one_in(3) : o.alpha;
            if (al) c.flags |= RFX_FLAGS_ALPHAV1;
        }
        else
        {
            if (o.keys && i > 0 && r.one_in(6)) c.flags |= RFX_FLAGS_PRO_KEY;
        }
        if (o.stray && r.one_in(6)) c.flags |= h.cfg.pro() ? RFX_FLAGS_ALPHAV1 : RFX_FLAGS_PRO_KEY;
        if (o.stray && r.one_in(8)) c.flags |= r.one_in(2) ? h.cfg.flags & ~RFX_FLAGS_RLGR1 : RFX_FLAGS_PRO1 | RFX_FLAGS_OPT1; /* those of creation again */
        bool crowd = o.crowds && r.one_in(n > 30 ? 200 : 40);
        if (crowd)
        {
            int many = r.in(20, 120);
            int tw = (p->w + 63) / 64, th = (p->h + 63) / 64;
            for (int k = 0; k < many; k++) c.tiles.push_back(make_tile(r, c, r.in(0, tw - 1), r.in(0, th - 1)));
        }
        if (o.limited && r.one_in(crowd ? 1 : 3)) c.cap = crowd && r.one_in(2) ? r.in(0, 140) : pick_cap(r, h.cfg, c);
        h.calls.push_back(c);
    }
    return h;
}

/* a progressive call made unservable: one tile outside the 64x64 grid, or with a
 * table that was not given; returns the place of that tile */
static inline int spoil(Rng &r, Call &c)
{
    if (c.tiles.empty()) return -1;
    int i = r.in(0, (int)c.tiles.size() - 1);
    rfx_tile &t = c.tiles[i];
    int far = 64 * (r.one_in(2) ? 64 : r.one_in(2) ? r.in(64, 130) : r.in(64, 1023));
    int idx = r.one_in(2) ? c.nq() : r.in(c.nq(), 255); /* indices are bytes, at most 255 tables are given */
    switch (r.in(0, idx < 256 ? 5 : 2))
    {
        case 0: t.x = far; break;
        case 1: t.y = far; break;
        case 2: t.x = t.y = far; break;
        case 3: t.quant_y = idx; break;
        case 4: t.quant_cb = idx; break;
        default: t.quant_cr = idx; break;
    }
    return i;
}
/* ---- running ------------------------------------------------------------------------ */
struct OutBuf
{
    Guarded g;
    OutBuf(size_t n) : g(n) {}
};
static inline Guarded &out_arena(size_t need)
{
    static thread_local std::unique_ptr<Guarded> a;
    if (!a || a->cap < need + 4096) a.reset(new Guarded(std::max<size_t>(need + 8192, 4 << 20)));
    return *a;
}
struct RunOpt
{
    int prefill = 0xC3;
    bool use_short = false; /* rfxcodec_encode instead of _ex */
    const uint8_t *pic_at = nullptr; /* use this copy of the picture */
    const rfx_tile *tiles_at = nullptr;
    const rfx_rect *rects_at = nullptr;
    const uint8_t *quants_at = nullptr;
    int lead = 64;      /* checked bytes in front of the buffer */
    bool random_align = false;
    int align = 0;      /* bytes between end of capacity and the guard page */
};
/* The caller's own frame buffer and lists: the same addresses for every call,
 * rewritten in between, as a server's screen buffer is */
struct Desk
{
    Guarded pic{24 << 20};
    std::vector<rfx_tile> tiles;
    std::vector<rfx_rect> rects;
    Bytes quants;
    Desk() { tiles.reserve(70000); rects.reserve(70000); quants.reserve(2048); }
    static Desk *get()
    {
        static thread_local std::unique_ptr<Desk> d;
        if (!d) d.reset(new Desk);
        return d.get();
    }
};
/* everything encode calls see; the returned bytes are copied out */
static inline Result run_call(const Lib &l, void *h, const Call &c, const RunOpt &o = RunOpt())
{
    Result res;
    int cap = c.cap < 0 ? c.ample() : c.cap;
    Guarded &a = out_arena(cap + o.lead + 64);
    uint8_t *end = a.base + a.cap - o.align;
    uint8_t *cd = end - cap;
    /* with -1 nothing is written: the bytes keep what the last call left there */
    if (o.prefill >= 0) memset(cd, o.prefill, cap);
    memset(cd - o.lead, 0x7D, o.lead);
    if (o.align) memset(end, 0x7D, o.align);
    int cb = cap;
    const char *buf = c.pic->origin(o.pic_at ? o.pic_at : c.pic->mem.data());
    int pw = c.pic->ox + c.pic->w, ph = c.pic->oy + c.pic->h;
    const char *q = c.null_quants ? nullptr : (const char *)(o.quants_at ? o.quants_at : c.quants.data());
    int nq = c.null_quants ? c.null_nq : (int)c.quants.size() / 5;
    const rfx_tile *ts = o.tiles_at ? o.tiles_at : c.tiles.data();
    const rfx_rect *rs = o.rects_at ? o.rects_at : c.rects.data();
    Desk *dk = nullptr;
    uint64_t pick = hash_bytes(c.pic->mem.data(), std::min<size_t>(c.pic->mem.size(), 200)) + c.tiles.size() * 31 + c.quants.size() + (uint64_t)cap;
#if defined(MON_ASAN)
    bool desk = mix64(pick) % 3 == 0; /* otherwise each at the end of its own heap block */
#else
    bool desk = mix64(pick) % 4 != 0;
#endif
    if (desk && !o.pic_at && !o.tiles_at && !o.rects_at && !o.quants_at && c.pic->mem.size() <= (20u << 20) && c.tiles.size() < 70000 && c.rects.size() < 70000 && c.quants.size() < 2048)
    {
        dk = Desk::get();
        uint8_t *at = dk->pic.base + 4096;
        memcpy(at, c.pic->mem.data(), c.pic->mem.size());
        buf = c.pic->origin(at);
        dk->tiles = c.tiles;
        dk->rects = c.rects;
        dk->quants = c.quants;
        ts = dk->tiles.data();
        rs = dk->rects.data();
        if (q) q = (const char *)dk->quants.data();
    }
    if (o.use_short)
        res.ret = l.encode(h, (char *)cd, &cb, buf, pw, ph, c.pic->stride, rs, (int)c.rects.size(), ts, (int)c.tiles.size(), q, nq);
    else
        res.ret = l.encode_ex(h, (char *)cd, &cb, buf, pw, ph, c.pic->stride, rs, (int)c.rects.size(), ts, (int)c.tiles.size(), q, nq, c.flags);
    if (dk)
    {
        /* the caller goes on to use its memory for other things */
        memset(dk->pic.base + 4096, 0xDB, c.pic->mem.size());
        for (auto &t : dk->tiles) t.x = t.y = t.cx = t.cy = t.quant_y = t.quant_cb = t.quant_cr = -77;
        for (auto &x : dk->quants) x = 0xDB;
    }
    for (int i = 1; i <= o.lead; i++)
        if (cd[-i] != 0x7D) VIOL("byte %d before the output buffer was overwritten (%s)", i, describe(c).c_str());
    for (int i = 0; i < o.align; i++)
        if (end[i] != 0x7D) VIOL("byte %d behind the output buffer was overwritten (%s)", i, describe(c).c_str());
    res.bytes = cb;
    if (res.ret >= 0)
    {
        if (cb < 0 || cb > cap) VIOL("reported size %d exceeds the capacity %d (%s)", cb, cap, describe(c).c_str());
        res.out.assign(cd, cd + cb);
    }
    return res;
}
struct Enc
{
    const Lib *l;
    Cfg cfg;
    void *h = nullptr;
    Enc(const Lib &lib, const Cfg &c, bool ex = false) : l(&lib), cfg(c)
    {
        lib.shim->cpu_level = c.cpu;
        if (ex)
        {
            int e = lib.create_ex(c.w, c.h, c.fmt, c.flags, &h);
            if (e != 0) h = nullptr;
        }
        else
        {
            h = lib.create(c.w, c.h, c.fmt, c.flags);
        }
        if (!h) VIOL("creating an encoder failed: %s", describe(c).c_str());
    }
    ~Enc() { if (h) l->destroy(h); }
    Enc(const Enc &) = delete;
    Result run(const Call &c, const RunOpt &o = RunOpt()) { return run_call(*l, h, c, o); }
};


/* ---- message oracles -------------------------------------------------------------------- */
/* all field and length claims of a message; n = number of tiles returned */
static inline void
check_fields(const Cfg &cfg, const Call &c, const Result &r, PMsg &m, bool header_due, bool check_header)
{
    std::string why;
    m = PMsg();
    bool ok = cfg.pro() ? parse_pro(r.out.data(), r.out.size(), m, &why) : parse_classic(r.out.data(), r.out.size(), m, &why);
    if (!ok) VIOL("malformed message: %s (%s; %s)", why.c_str(), describe(cfg).c_str(), describe(c).c_str());
    if (check_header && m.header != header_due)
        VIOL("stream header %s (%s)", m.header ? "present but not due" : "missing", describe(cfg).c_str());
    int n = r.ret;
    if ((int)m.tiles.size() != n) VIOL("returned %d tiles but the message carries %zu", n, m.tiles.size());
    if (n > (int)c.tiles.size()) VIOL("returned %d tiles of %zu asked for", n, c.tiles.size());
    if (!cfg.pro())
    {
        int et = cfg.mode() == 1 ? 1 : 4;
        if (m.header)
        {
            int want = (1 << 3) | (1 << 5) | (et << 9) | (1 << 13);
            if (m.ctx_props != want) VIOL("context properties 0x%04x, expected 0x%04x", m.ctx_props, want);
            if (m.hdr_w != cfg.w || m.hdr_h != cfg.h) VIOL("channel size %dx%d, encoder was created with %dx%d", m.hdr_w, m.hdr_h, cfg.w, cfg.h);
        }
        int want = 1 | (1 << 4) | (1 << 6) | (et << 10) | (1 << 14);
        if (m.tileset_props != want) VIOL("tileset properties 0x%04x, expected 0x%04x", m.tileset_props, want);
        if (m.alpha != c.alpha()) VIOL("alpha marking %d but alpha requested %d", m.alpha, c.alpha());
    }
    if (m.rects.size() != c.rects.size()) VIOL("%zu region rectangles, %zu given", m.rects.size(), c.rects.size());
    for (size_t i = 0; i < m.rects.size(); i++)
        if (m.rects[i].x != c.rects[i].x || m.rects[i].y != c.rects[i].y || m.rects[i].cx != c.rects[i].cx || m.rects[i].cy != c.rects[i].cy)
            VIOL("region rectangle %zu differs from the one given", i);
    static const uint8_t def[5] = {0x66, 0x66, 0x77, 0x88, 0x98};
    Bytes q = c.null_quants ? Bytes(def, def + 5) : c.quants;
    if (m.nquants != (int)q.size() / 5 || m.quants != q) VIOL("quantiser tables differ from the ones given (%d tables, %zu given)", m.nquants, q.size() / 5);
    for (int i = 0; i < n; i++)
    {
        const PTile &t = m.tiles[i];
        const rfx_tile &w = c.tiles[i];
        if (t.xi != w.x / 64 || t.yi != w.y / 64) VIOL("tile %d at (%d,%d), asked for (%d,%d)", i, t.xi, t.yi, w.x / 64, w.y / 64);
        if (t.qy != w.quant_y || t.qcb != w.quant_cb || t.qcr != w.quant_cr)
            VIOL("tile %d quantiser indices %d/%d/%d, asked for %d/%d/%d", i, t.qy, t.qcb, t.qcr, w.quant_y, w.quant_cb, w.quant_cr);
    }
}
struct KnownHits { long wrap16 = 0; std::string example; };
static KnownHits g_known;

/* decoded coefficients against the reference transform; returns true when equal.
 * 'known' counts progressive tiles in the documented 16-bit corner class */
static inline bool
coefs_match(const std::vector<int> &got, const uint8_t *plane, bool pro, const QTab &qt, std::string *why, bool allow_known = true)
{
    static thread_local FwdOut f, f2;
    forward_tile(plane, pro, qt, f);
    int bad = -1;
    for (int i = 0; i < 4096 && bad < 0; i++) if (got[i] != f.c[i]) bad = i;
    if (bad < 0) return true;
    if (pro && f.wide && allow_known)
    {
        forward_tile(plane, pro, qt, f2, true);
        bool ok = true;
        for (int i = 0; i < 4096 && ok; i++) ok = got[i] == f2.c[i];
        if (ok)
        {
            g_known.wrap16++;
            return true;
        }
    }
    *why = fmt("coefficient %d is %d, expected %d", bad, got[bad], f.c[bad]);
    return false;
}
/* Distinguish components for messages */
static inline const char *comp_name(int c) { static const char *n[] = {"Y", "Cb", "Cr"}; return n[c]; }

/* what the message says about a tile is what its data was made with: the client
 * finds the place and the tables there */
static inline void check_announced(const Cfg &cfg, const Call &c, const PMsg &m, size_t i)
{
    const PTile &t = m.tiles[i];
    if (i >= c.tiles.size()) VIOL("message has more tiles than the call (%s; %s)", describe(cfg).c_str(), describe(c).c_str());
    if (t.xi != c.tiles[i].x / 64 || t.yi != c.tiles[i].y / 64)
        VIOL("tile %zu is announced at (%d,%d) (%s; %s)", i, t.xi, t.yi, describe(cfg).c_str(), describe(c).c_str());
    int said[3] = {t.qy, t.qcb, t.qcr}, want[3] = {c.tiles[i].quant_y, c.tiles[i].quant_cb, c.tiles[i].quant_cr};
    static const uint8_t def[5] = {0x66, 0x66, 0x77, 0x88, 0x98};
    for (int k = 0; k < 3; k++)
    {
        const uint8_t *w = c.null_quants ? def : &c.quants[want[k] * 5];
        if (said[k] < 0 || (size_t)said[k] * 5 + 5 > m.quants.size() || memcmp(&m.quants[said[k] * 5], w, 5))
            VIOL("tile %zu %s: the table the message selects is not the one asked for (%s; %s)", i, comp_name(k), describe(cfg).c_str(), describe(c).c_str());
    }
}
/* classic message: every component bit exact, alpha lossless */
static inline void
check_classic_content(const Cfg &cfg, const Call &c, const PMsg &m, bool colour, bool alpha)
{
    static thread_local uint8_t pl[4][4096];
    std::string why;
    for (size_t i = 0; i < m.tiles.size(); i++)
    {
        const PTile &t = m.tiles[i];
        check_announced(cfg, c, m, i);
        c.pic->planes(c.tiles[i], pl[0], pl[1], pl[2], pl[3]);
        if (colour)
        {
            int qi[3] = {c.tiles[i].quant_y, c.tiles[i].quant_cb, c.tiles[i].quant_cr};
            for (int k = 0; k < 3; k++)
            {
                std::vector<int> co;
                if (!decode_component(t.comp[k], cfg.mode(), false, co, &why))
                    VIOL("tile %zu %s: %s (%s; %s)", i, comp_name(k), why.c_str(), describe(cfg).c_str(), describe(c).c_str());
                if (!coefs_match(co, pl[k], false, c.qtab(qi[k]), &why))
                    VIOL("tile %zu %s: %s (%s; %s)", i, comp_name(k), why.c_str(), describe(cfg).c_str(), describe(c).c_str());
            }
        }
        if (alpha && c.alpha())
        {
            Bytes a;
            if (!plane_decode(t.alpha.data(), t.alpha.size(), 64, 64, a, &why))
                VIOL("tile %zu alpha: %s (%s; %s)", i, why.c_str(), describe(cfg).c_str(), describe(c).c_str());
            if (fmt_has_alpha(cfg.fmt) && memcmp(a.data(), pl[3], 4096))
            {
                int j = 0;
                while (a[j] == pl[3][j]) j++;
                VIOL("tile %zu alpha (%d,%d) is %d, expected %d (%s; %s)", i, j % 64, j / 64, a[j], pl[3][j], describe(cfg).c_str(), describe(c).c_str());
            }
        }
    }
}
/* progressive: client state after this message equals the reference transform */
static inline void
check_pro_content(const Cfg &cfg, const Call &c, const PMsg &m, ProClient &cl)
{
    std::vector<std::array<std::vector<int>, 3>> planes;
    std::string why;
    if (!cl.apply(m, planes, &why)) VIOL("client: %s (%s; %s)", why.c_str(), describe(cfg).c_str(), describe(c).c_str());
    static thread_local uint8_t pl[4][4096];
    for (size_t i = 0; i < m.tiles.size(); i++)
    {
        check_announced(cfg, c, m, i);
        c.pic->planes(c.tiles[i], pl[0], pl[1], pl[2], pl[3]);
        int qi[3] = {c.tiles[i].quant_y, c.tiles[i].quant_cb, c.tiles[i].quant_cr};
        for (int k = 0; k < 3; k++)
            if (!coefs_match(planes[i][k], pl[k], true, c.qtab(qi[k]), &why))
                VIOL("tile %zu (%d,%d) %s %s: %s (%s; %s)", i, m.tiles[i].xi, m.tiles[i].yi, comp_name(k),
                     (m.tiles[i].flags & 1) ? "difference" : "full", why.c_str(), describe(cfg).c_str(), describe(c).c_str());
    }
}

/* ---- case loop ------------------------------------------------------------------------------ */
struct Mon
{
    std::map<std::string, Lib> libs;
    uint64_t seed = 1;
    std::string tier = "quick";
    std::map<std::string, std::string> opt;
    /* counters */
    std::map<std::string, long> cnt;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    long evaluations = 0;
    long cur = 0;
    void count(const std::string &k, long n = 1) { cnt[k] += n; }
    void see(uint64_t sig) { distinct.insert(sig); case_sig = mix64(case_sig ^ sig) | 1; }
    uint64_t case_sig = 0;
    std::unordered_set<uint64_t> case_sigs;
    void sample(const std::string &s) { if (samples.size() < 6) samples.push_back(s); }
    const Lib &lib(const std::string &n)
    {
        auto i = libs.find(n);
        if (i == libs.end())
        {
            fprintf(stderr, "HARNESS: variant %s not given\n", n.c_str());
            exit(2);
        }
        return i->second;
    }
    bool has(const std::string &n) const { return libs.count(n) > 0; }
    bool thorough() const { return tier == "thorough"; }
    Rng rng(long c, int salt = 0) const { return Rng(mix64(seed) ^ mix64((uint64_t)c * 1000003 + salt + 17)); }
};
/* provided by each monitor */
long mon_cases(Mon &m);             /* how many cases in this tier */
void mon_case(Mon &m, long n);      /* run one case; throws Violation */
void mon_done(Mon &m);              /* end-of-shard checks */
