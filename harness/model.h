/* Independent executable model of the RemoteFX / RemoteFX-progressive receiver
 * and of the specified transforms.  Written from [MS-RDPRFX]/[MS-RDPEGFX] and
 * the public headers; shares no code with the library under test. */
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <array>
#include <cstdarg>

typedef std::vector<uint8_t> Bytes;

static inline std::string fmt(const char *f, ...)
{
    char b[2048];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}

/* ------------------------------------------------------------------------ */
/* Entropy decoding: RLGR1 / RLGR3.  Fully strict: returns false with a reason
 * when the data ends early; *used is the number of bytes consumed, counting the
 * closing run terminator the encoder is specified to emit. */
struct BitReader
{
    const uint8_t *p;
    size_t nbits;
    size_t pos = 0;
    bool over = false;
    BitReader(const uint8_t *d, size_t n) : p(d), nbits(n * 8) {}
    unsigned bit()
    {
        if (pos >= nbits)
        {
            over = true;
            return 0;
        }
        unsigned b = (p[pos >> 3] >> (7 - (pos & 7))) & 1;
        pos++;
        return b;
    }
    uint32_t bits(int n)
    {
        uint32_t v = 0;
        while (n-- > 0)
        {
            v = (v << 1) | bit();
        }
        return v;
    }
};

static inline bool
rlgr_decode(int mode /*1 or 3*/, const uint8_t *d, size_t n, int ncoef,
            std::vector<int> &out, size_t *used, std::string *why)
{
    BitReader br(d, n);
    int k = 1, kp = 8, kr = 1, krp = 8;
    out.clear();
    out.reserve(ncoef);
    auto upd = [](int &param, int delta, int &kk)
    {
        param += delta;
        if (param > 80) param = 80;
        if (param < 0) param = 0;
        kk = param >> 3;
    };
    auto gr = [&](uint32_t *v) -> bool
    {
        uint32_t vk = 0;
        while (br.bit() == 1 && !br.over)
        {
            vk++;
        }
        if (br.over)
        {
            return false;
        }
        uint32_t rem = br.bits(kr);
        *v = (vk << kr) | rem;
        if (vk == 0) upd(krp, -2, kr);
        else if (vk > 1) upd(krp, vk > 1000 ? 1000 : (int)vk, kr);
        return !br.over;
    };
    while ((int)out.size() < ncoef)
    {
        if (k)
        {
            long run = 0;
            while (br.bit() == 0 && !br.over)
            {
                run += 1L << k;
                upd(kp, 4, k);
                if (run > ncoef)
                {
                    *why = fmt("zero run longer than the tile at bit %zu", br.pos);
                    return false;
                }
            }
            if (br.over) break;
            run += br.bits(k);
            if (br.over) break;
            if ((long)out.size() + run > ncoef)
            {
                *why = fmt("zero run of %ld overruns the tile at coefficient %zu", run, out.size());
                return false;
            }
            out.insert(out.end(), run, 0);
            if ((int)out.size() == ncoef)
            {
                break;
            }
            int sign = br.bit();
            uint32_t v;
            if (!gr(&v)) break;
            int mag = (int)v + 1;
            out.push_back(sign ? -mag : mag);
            upd(kp, -6, k);
        }
        else if (mode == 1)
        {
            uint32_t v;
            if (!gr(&v)) break;
            if (v == 0) upd(kp, 3, k); else upd(kp, -3, k);
            out.push_back((v & 1) ? -(int)((v + 1) >> 1) : (int)(v >> 1));
        }
        else
        {
            uint32_t s;
            if (!gr(&s)) break;
            int nb = 0;
            for (uint32_t t = s; t; t >>= 1) nb++;
            uint32_t v1 = br.bits(nb);
            if (br.over) break;
            if (v1 > s)
            {
                *why = fmt("RLGR3 first value exceeds the pair sum at coefficient %zu", out.size());
                return false;
            }
            uint32_t v2 = s - v1;
            if (v1 && v2) upd(kp, -6, k);
            else if (!v1 && !v2) upd(kp, 6, k);
            out.push_back((v1 & 1) ? -(int)((v1 + 1) >> 1) : (int)(v1 >> 1));
            if ((int)out.size() < ncoef)
            {
                out.push_back((v2 & 1) ? -(int)((v2 + 1) >> 1) : (int)(v2 >> 1));
            }
        }
    }
    if (br.over)
    {
        *why = fmt("entropy data ends after %zu of %d coefficients", out.size(), ncoef);
        return false;
    }
    *used = (br.pos + 7) / 8;
    return true;
}

/* ------------------------------------------------------------------------ */
/* Forward transform, bit exact 11.5 fixed point, wide intermediates. */
struct QTab
{
    int q[10]; /* LL3 LH3 HL3 HH3 LH2 HL2 HH2 LH1 HL1 HH1 */
};
static inline QTab qtab_from(const uint8_t *b)
{
    QTab t;
    for (int i = 0; i < 10; i++)
    {
        t.q[i] = (b[i / 2] >> ((i & 1) ? 4 : 0)) & 15;
    }
    return t;
}
enum { Q_LL3, Q_LH3, Q_HL3, Q_HH3, Q_LH2, Q_HL2, Q_HH2, Q_LH1, Q_HL1, Q_HH1 };

static inline long fdiv2(long v) { return v >> 1; }
static inline long quant(long v, int q)
{
    int f = q - 1; /* 5 fractional bits, 6 is the finest step */
    if (f < 1) return v; /* unquantised, for the stage monitors */
    return (v + (1L << (f - 1))) >> f;
}

struct Band
{
    int off, w, h, q, level;
    bool hi_x, hi_y;
};
/* coefficient layout in the stream */
static inline const std::vector<Band> &bands_classic()
{
    static const std::vector<Band> b = {
        {0, 32, 32, Q_HL1, 1, true, false}, {1024, 32, 32, Q_LH1, 1, false, true}, {2048, 32, 32, Q_HH1, 1, true, true},
        {3072, 16, 16, Q_HL2, 2, true, false}, {3328, 16, 16, Q_LH2, 2, false, true}, {3584, 16, 16, Q_HH2, 2, true, true},
        {3840, 8, 8, Q_HL3, 3, true, false}, {3904, 8, 8, Q_LH3, 3, false, true}, {3968, 8, 8, Q_HH3, 3, true, true},
        {4032, 8, 8, Q_LL3, 3, false, false}};
    return b;
}
static inline const std::vector<Band> &bands_pro()
{
    static const std::vector<Band> b = {
        {0, 31, 33, Q_HL1, 1, true, false}, {1023, 33, 31, Q_LH1, 1, false, true}, {2046, 31, 31, Q_HH1, 1, true, true},
        {3007, 16, 17, Q_HL2, 2, true, false}, {3279, 17, 16, Q_LH2, 2, false, true}, {3551, 16, 16, Q_HH2, 2, true, true},
        {3807, 8, 9, Q_HL3, 3, true, false}, {3879, 9, 8, Q_LH3, 3, false, true}, {3951, 8, 8, Q_HH3, 3, true, true},
        {4015, 9, 9, Q_LL3, 3, false, false}};
    return b;
}

/* 1-D analysis of x[0..n) into lo (returned count nl) and hi (nh).
 * pro: level 1 (n=64) extrapolates one sample, other levels mirror. */
static inline void
analyse_1d(const long *x, int n, bool pro, long *lo, int *nl, long *hi, int *nh)
{
    long e[80];
    for (int i = 0; i < n; i++) e[i] = x[i];
    if (!pro)
    {
        int h = n / 2;
        e[n] = e[n - 2];
        for (int i = 0; i < h; i++) hi[i] = fdiv2(e[2 * i + 1] - fdiv2(e[2 * i] + e[2 * i + 2]));
        lo[0] = e[0] + hi[0];
        for (int i = 1; i < h; i++) lo[i] = e[2 * i] + fdiv2(hi[i - 1] + hi[i]);
        *nl = h;
        *nh = h;
    }
    else if (n == 64)
    {
        e[64] = 2 * e[63] - e[62];
        for (int i = 0; i < 31; i++) hi[i] = fdiv2(e[2 * i + 1] - fdiv2(e[2 * i] + e[2 * i + 2]));
        lo[0] = e[0] + hi[0];
        for (int i = 1; i < 31; i++) lo[i] = e[2 * i] + fdiv2(hi[i - 1] + hi[i]);
        lo[31] = e[62] + fdiv2(hi[30]);
        lo[32] = e[64];
        *nl = 33;
        *nh = 31;
    }
    else
    {
        int h = n / 2; /* n odd: 33 or 17 */
        long last;
        e[n] = e[n - 2];
        e[n + 1] = e[n - 3];
        for (int i = 0; i < h; i++) hi[i] = fdiv2(e[2 * i + 1] - fdiv2(e[2 * i] + e[2 * i + 2]));
        last = fdiv2(e[2 * h + 1] - fdiv2(e[2 * h] + e[2 * h + 2]));
        lo[0] = e[0] + hi[0];
        for (int i = 1; i < h; i++) lo[i] = e[2 * i] + fdiv2(hi[i - 1] + hi[i]);
        lo[h] = e[2 * h] + fdiv2(hi[h - 1] + last);
        *nl = h + 1;
        *nh = h;
    }
}

struct FwdOut
{
    int c[4096];        /* quantised, LL3 not differenced */
    bool wide = false;  /* some intermediate does not fit 16 bits */
};

/* wrap16: reproduce the 16-bit wrap of the (single) intermediate that can
 * exceed 16 bits in the progressive level-1 corner (known finding). */
static inline void
forward_tile(const uint8_t *pix, bool pro, const QTab &qt, FwdOut &o, bool wrap16 = false)
{
    static thread_local long cur[64 * 64];
    static thread_local long vl[64 * 64], vh[64 * 64];
    int n = 64;
    o.wide = false;
    for (int i = 0; i < 4096; i++) cur[i] = ((long)pix[i] - 128) * 32;
    const std::vector<Band> &bands = pro ? bands_pro() : bands_classic();
    long col[80], lo[80], hi[80];
    int nl = 0, nh = 0;
    for (int lev = 1; lev <= 3; lev++)
    {
        for (int x = 0; x < n; x++)
        {
            for (int y = 0; y < n; y++) col[y] = cur[y * n + x];
            analyse_1d(col, n, pro, lo, &nl, hi, &nh);
            for (int y = 0; y < nl; y++) vl[y * n + x] = lo[y];
            for (int y = 0; y < nh; y++) vh[y * n + x] = hi[y];
        }
        const Band &bhl = bands[(lev - 1) * 3], &blh = bands[(lev - 1) * 3 + 1], &bhh = bands[(lev - 1) * 3 + 2];
        static thread_local long ll[64 * 64];
        for (int y = 0; y < nl; y++)
        {
            int a, b;
            analyse_1d(vl + y * n, n, pro, lo, &a, hi, &b);
            if (pro && lev == 1 && (lo[32] > 32767 || lo[32] < -32768))
            {
                o.wide = true;
                if (wrap16)
                {
                    long x64 = (int16_t)lo[32], x63 = vl[y * n + 63], x62 = vl[y * n + 62];
                    long h = (int16_t)fdiv2(x63 - fdiv2(x64 + x62));
                    lo[32] = (int16_t)(x64 + fdiv2(h));
                }
            }
            for (int x = 0; x < b; x++) o.c[bhl.off + y * bhl.w + x] = (int)quant(hi[x], qt.q[bhl.q]);
            for (int x = 0; x < a; x++) ll[y * nl + x] = lo[x];
        }
        for (int y = 0; y < nh; y++)
        {
            int a, b;
            analyse_1d(vh + y * n, n, pro, lo, &a, hi, &b);
            for (int x = 0; x < a; x++) o.c[blh.off + y * blh.w + x] = (int)quant(lo[x], qt.q[blh.q]);
            for (int x = 0; x < b; x++) o.c[bhh.off + y * bhh.w + x] = (int)quant(hi[x], qt.q[bhh.q]);
        }
        memcpy(cur, ll, sizeof(long) * nl * nl);
        n = nl;
    }
    const Band &bll = bands[9];
    for (int i = 0; i < bll.w * bll.h; i++) o.c[bll.off + i] = (int)quant(cur[i], qt.q[Q_LL3]);
}

/* ------------------------------------------------------------------------ */
/* Inverse transform (what a client does), wide integers. in: quantised,
 * LL3 already un-differenced. out: 64*64 samples in 1/32 units about 0. */
static inline void
synth_1d(const long *lo, int nl, const long *hi, int nh, bool pro, long *x)
{
    int n = nl + nh;
    if (!pro)
    {
        int h = nl;
        x[0] = lo[0] - hi[0];
        for (int i = 1; i < h; i++) x[2 * i] = lo[i] - fdiv2(hi[i - 1] + hi[i]);
        for (int i = 0; i < h; i++)
        {
            long r = (2 * i + 2 < n) ? x[2 * i + 2] : x[2 * i];
            x[2 * i + 1] = 2 * hi[i] + fdiv2(x[2 * i] + r);
        }
    }
    else if (nl == 33)
    {
        long x64 = lo[32];
        x[0] = lo[0] - hi[0];
        for (int i = 1; i < 31; i++) x[2 * i] = lo[i] - fdiv2(hi[i - 1] + hi[i]);
        x[62] = lo[31] - fdiv2(hi[30]);
        for (int i = 0; i < 31; i++) x[2 * i + 1] = 2 * hi[i] + fdiv2(x[2 * i] + x[2 * i + 2]);
        x[63] = fdiv2(x[62] + x64);
    }
    else
    {
        int h = nh;
        x[0] = lo[0] - hi[0];
        for (int i = 1; i < h; i++) x[2 * i] = lo[i] - fdiv2(hi[i - 1] + hi[i]);
        x[2 * h] = lo[h] - hi[h - 1]; /* mirrored */
        for (int i = 0; i < h; i++) x[2 * i + 1] = 2 * hi[i] + fdiv2(x[2 * i] + x[2 * i + 2]);
    }
}

static inline void
inverse_tile(const int *c, bool pro, const QTab &qt, long *out)
{
    const std::vector<Band> &bands = pro ? bands_pro() : bands_classic();
    static thread_local long cur[64 * 64], vl[64 * 64], vh[64 * 64], nx[64 * 64];
    long lo[80], hi[80], x[80];
    auto deq = [&](const Band &b, int i) { return (long)c[b.off + i] * (1L << (qt.q[b.q] - 1)); };
    for (int i = 0; i < bands[9].w * bands[9].h; i++) cur[i] = deq(bands[9], i);
    for (int lev = 3; lev >= 1; lev--)
    {
        const Band &bhl = bands[(lev - 1) * 3], &blh = bands[(lev - 1) * 3 + 1], &bhh = bands[(lev - 1) * 3 + 2];
        int nl = blh.w, nh = bhl.w, n = nl + nh;
        for (int y = 0; y < nl; y++)
        {
            for (int i = 0; i < nh; i++) hi[i] = deq(bhl, y * nh + i);
            synth_1d(cur + y * nl, nl, hi, nh, pro, x);
            memcpy(vl + y * n, x, n * sizeof(long));
        }
        for (int y = 0; y < nh; y++)
        {
            for (int i = 0; i < nl; i++) lo[i] = deq(blh, y * nl + i);
            for (int i = 0; i < nh; i++) hi[i] = deq(bhh, y * nh + i);
            synth_1d(lo, nl, hi, nh, pro, x);
            memcpy(vh + y * n, x, n * sizeof(long));
        }
        for (int xx = 0; xx < n; xx++)
        {
            for (int y = 0; y < nl; y++) lo[y] = vl[y * n + xx];
            for (int y = 0; y < nh; y++) hi[y] = vh[y * n + xx];
            synth_1d(lo, nl, hi, nh, pro, x);
            for (int y = 0; y < n; y++) nx[y * n + xx] = x[y];
        }
        memcpy(cur, nx, sizeof(long) * n * n);
    }
    memcpy(out, cur, sizeof(long) * 4096);
}

/* ------------------------------------------------------------------------ */
/* Real-valued analysis (no rounding at all), for the tolerance oracle. */
static inline void
analyse_1d_f(const double *x, int n, bool pro, double *lo, int *nl, double *hi, int *nh)
{
    double e[80];
    for (int i = 0; i < n; i++) e[i] = x[i];
    int h;
    if (!pro) { h = n / 2; e[n] = e[n - 2]; *nl = h; *nh = h; }
    else if (n == 64) { h = 32; e[64] = 2 * e[63] - e[62]; *nl = 33; *nh = 31; }
    else { h = n / 2 + 1; e[n] = e[n - 2]; e[n + 1] = e[n - 3]; *nl = h; *nh = h - 1; }
    for (int i = 0; i < h; i++) hi[i] = (e[2 * i + 1] - (e[2 * i] + e[2 * i + 2]) / 2) / 2;
    for (int i = 0; i < h; i++) lo[i] = e[2 * i] + (hi[i ? i - 1 : 0] + hi[i]) / 2;
    if (pro && n == 64) lo[32] = e[64];
}
static inline void
forward_tile_f(const uint8_t *pix, bool pro, double *c)
{
    static thread_local double cur[64 * 64], vl[64 * 64], vh[64 * 64], ll[64 * 64];
    int n = 64, nl = 0, nh = 0;
    for (int i = 0; i < 4096; i++) cur[i] = ((double)pix[i] - 128) * 32;
    const std::vector<Band> &bands = pro ? bands_pro() : bands_classic();
    double col[80], lo[80], hi[80];
    for (int lev = 1; lev <= 3; lev++)
    {
        for (int x = 0; x < n; x++)
        {
            for (int y = 0; y < n; y++) col[y] = cur[y * n + x];
            analyse_1d_f(col, n, pro, lo, &nl, hi, &nh);
            for (int y = 0; y < nl; y++) vl[y * n + x] = lo[y];
            for (int y = 0; y < nh; y++) vh[y * n + x] = hi[y];
        }
        const Band &bhl = bands[(lev - 1) * 3], &blh = bands[(lev - 1) * 3 + 1], &bhh = bands[(lev - 1) * 3 + 2];
        for (int y = 0; y < nl; y++)
        {
            int a, b;
            analyse_1d_f(vl + y * n, n, pro, lo, &a, hi, &b);
            for (int x = 0; x < b; x++) c[bhl.off + y * bhl.w + x] = hi[x];
            for (int x = 0; x < a; x++) ll[y * nl + x] = lo[x];
        }
        for (int y = 0; y < nh; y++)
        {
            int a, b;
            analyse_1d_f(vh + y * n, n, pro, lo, &a, hi, &b);
            for (int x = 0; x < a; x++) c[blh.off + y * blh.w + x] = lo[x];
            for (int x = 0; x < b; x++) c[bhh.off + y * bhh.w + x] = hi[x];
        }
        memcpy(cur, ll, sizeof(double) * nl * nl);
        n = nl;
    }
    for (int i = 0; i < bands[9].w * bands[9].h; i++) c[bands[9].off + i] = cur[i];
}

/* Sound bound, in 1/32 grey levels, on the pixel error of a client, given a
 * bound 'half(q)' on the error of every coefficient of a band. */
struct SynthGain
{
    /* gl[k][p]: L1 gain at output sample p from a level-k low signal; gh: high */
    double maxl[4], maxh[4];
    void build(bool pro)
    {
        int nls[4] = {64, pro ? 33 : 32, pro ? 17 : 16, pro ? 9 : 8};
        int nhs[4] = {0, pro ? 31 : 32, pro ? 16 : 16, 8};
        for (int k = 1; k <= 3; k++)
        {
            std::vector<double> accl(64, 0), acch(64, 0);
            for (int which = 0; which < 2; which++)
            {
                int cnt = which ? nhs[k] : nls[k];
                for (int i = 0; i < cnt; i++)
                {
                    std::vector<double> sig(nls[k], 0), h(nhs[k], 0);
                    (which ? h[i] : sig[i]) = 1;
                    for (int lev = k; lev >= 1; lev--)
                    {
                        std::vector<double> hh(nhs[lev], 0);
                        if (lev == k) hh = h;
                        sig = synth_f(sig, hh, pro);
                    }
                    for (int p = 0; p < 64; p++) (which ? acch : accl)[p] += fabs(sig[p]);
                }
            }
            maxl[k] = maxh[k] = 0;
            for (int p = 0; p < 64; p++)
            {
                maxl[k] = std::max(maxl[k], accl[p]);
                maxh[k] = std::max(maxh[k], acch[p]);
            }
        }
    }
    static std::vector<double> synth_f(const std::vector<double> &lo, const std::vector<double> &hi, bool pro)
    {
        int nl = lo.size(), nh = hi.size(), n = nl + nh;
        std::vector<double> x(n + 2, 0);
        if (!pro)
        {
            for (int i = 0; i < nl; i++) x[2 * i] = lo[i] - (hi[i ? i - 1 : 0] + hi[i]) / 2;
            for (int i = 0; i < nh; i++) x[2 * i + 1] = 2 * hi[i] + (x[2 * i] + (2 * i + 2 < n ? x[2 * i + 2] : x[2 * i])) / 2;
        }
        else if (nl == 33)
        {
            for (int i = 0; i < 32; i++) x[2 * i] = lo[i] - (hi[i ? i - 1 : 0] + (i < 31 ? hi[i] : 0)) / 2;
            for (int i = 0; i < 31; i++) x[2 * i + 1] = 2 * hi[i] + (x[2 * i] + x[2 * i + 2]) / 2;
            x[63] = (x[62] + lo[32]) / 2;
        }
        else
        {
            for (int i = 0; i < nh; i++) x[2 * i] = lo[i] - (hi[i ? i - 1 : 0] + hi[i]) / 2;
            x[2 * nh] = lo[nh] - hi[nh - 1];
            for (int i = 0; i < nh; i++) x[2 * i + 1] = 2 * hi[i] + (x[2 * i] + x[2 * i + 2]) / 2;
        }
        x.resize(n);
        return x;
    }
    double bound(const QTab &qt, double slack) const
    {
        auto e = [&](int q) { return (double)(1 << (qt.q[q] - 2)) + slack; };
        double b = maxl[3] * maxl[3] * e(Q_LL3);
        int hl[4] = {0, Q_HL1, Q_HL2, Q_HL3}, lh[4] = {0, Q_LH1, Q_LH2, Q_LH3}, hh[4] = {0, Q_HH1, Q_HH2, Q_HH3};
        for (int k = 1; k <= 3; k++)
        {
            b += maxl[k] * maxh[k] * (e(hl[k]) + e(lh[k])) + maxh[k] * maxh[k] * e(hh[k]);
        }
        return b;
    }
};

/* ------------------------------------------------------------------------ */
/* ICT colour conversion as specified (16.16 coefficients, floor). */
static inline int clamp255(long v) { return v < 0 ? 0 : (v > 255 ? 255 : (int)v); }
static inline void rgb_to_yuv(int r, int g, int b, uint8_t *y, uint8_t *u, uint8_t *v)
{
    long yy = (19595L * r + 38470L * g + 7471L * b) >> 16;
    long uu = (-11071L * r - 21736L * g + 32807L * b) >> 16;
    long vv = (32756L * r - 27429L * g - 5327L * b) >> 16;
    *y = clamp255(yy);
    *u = clamp255(uu + 128);
    *v = clamp255(vv + 128);
}

/* ------------------------------------------------------------------------ */
/* RDP6 planar RLE plane decoder (alpha). */
static inline bool
plane_decode(const uint8_t *d, size_t n, int cx, int cy, Bytes &out, std::string *why)
{
    out.assign(cx * cy, 0);
    if (n < 1) { *why = "empty alpha plane"; return false; }
    if (d[0] == 0x00)
    {
        if (n != (size_t)cx * cy + 2) { *why = fmt("raw alpha plane of %zu bytes", n); return false; }
        if (d[n - 1] != 0) { *why = "raw alpha plane pad byte not 0"; return false; }
        memcpy(out.data(), d + 1, cx * cy);
        return true;
    }
    if (d[0] != 0x10) { *why = fmt("alpha plane flags 0x%02x", d[0]); return false; }
    size_t p = 1;
    for (int y = 0; y < cy; y++)
    {
        int x = 0;
        uint8_t last = 0;
        uint8_t *row = out.data() + y * cx;
        while (x < cx)
        {
            if (p >= n) { *why = fmt("alpha plane ends in row %d", y); return false; }
            int code = d[p++];
            int run = code & 15, raw = code >> 4;
            if (run == 1) { run = 16 + raw; raw = 0; }
            else if (run == 2) { run = 32 + raw; raw = 0; }
            if (raw == 0 && run == 0) { *why = fmt("empty alpha segment in row %d", y); return false; }
            if (x + raw + run > cx) { *why = fmt("alpha segment overruns row %d", y); return false; }
            if (p + raw > n) { *why = fmt("alpha raw bytes end in row %d", y); return false; }
            for (int i = 0; i < raw; i++) { last = d[p++]; row[x++] = last; }
            for (int i = 0; i < run; i++) row[x++] = last;
        }
    }
    if (p != n) { *why = fmt("alpha plane length %zu but rows end after %zu", n, p); return false; }
    for (int y = 1; y < cy; y++)
    {
        for (int x = 0; x < cx; x++)
        {
            int v = out[y * cx + x];
            int delta = (v & 1) ? -((v + 1) >> 1) : (v >> 1);
            out[y * cx + x] = (uint8_t)(out[(y - 1) * cx + x] + delta);
        }
    }
    return true;
}

/* ------------------------------------------------------------------------ */
/* Stream parsing */
struct Rd
{
    const uint8_t *p;
    size_t n, i = 0;
    bool bad = false;
    Rd(const uint8_t *d, size_t len) : p(d), n(len) {}
    uint32_t u(int b)
    {
        if (i + b > n) { bad = true; i = n; return 0; }
        uint32_t v = 0;
        for (int k = 0; k < b; k++) v |= (uint32_t)p[i + k] << (8 * k);
        i += b;
        return v;
    }
    uint32_t u8() { return u(1); }
    uint32_t u16() { return u(2); }
    uint32_t u32() { return u(4); }
};

struct PTile
{
    int qy, qcb, qcr, xi, yi, flags = 0;
    Bytes comp[3];
    Bytes alpha;
};
struct PRect { int x, y, cx, cy; };
struct PMsg
{
    bool header = false;
    int hdr_w = 0, hdr_h = 0;
    int ctx_props = 0;
    bool alpha = false;
    uint32_t frame_idx = 0;
    int tileset_props = 0;
    std::vector<PRect> rects;
    int nquants = 0;
    Bytes quants;
    std::vector<PTile> tiles;
};

#define PFAIL(...) do { *why = fmt(__VA_ARGS__); return false; } while (0)

static inline bool
parse_classic(const uint8_t *d, size_t n, PMsg &m, std::string *why)
{
    /* top level: cut into blocks using only blockLen */
    size_t off = 0;
    struct Blk { unsigned type; size_t off, len; };
    std::vector<Blk> bl;
    while (off < n)
    {
        if (n - off < 6) PFAIL("trailing %zu bytes at %zu", n - off, off);
        unsigned t = d[off] | d[off + 1] << 8;
        size_t l = d[off + 2] | d[off + 3] << 8 | d[off + 4] << 16 | (size_t)d[off + 5] << 24;
        if (l < 6 || l > n - off) PFAIL("block 0x%04x at %zu has length %zu of %zu left", t, off, l, n - off);
        bl.push_back({t, off, l});
        off += l;
    }
    size_t k = 0;
    if (bl.size() == 8)
    {
        m.header = true;
        {
            Rd r(d + bl[0].off, bl[0].len);
            if (bl[0].type != 0xCCC0 || bl[0].len != 12) PFAIL("sync block type 0x%04x len %zu", bl[0].type, bl[0].len);
            r.i = 6;
            if (r.u32() != 0xCACCACCA) PFAIL("sync magic");
            if (r.u16() != 0x0100) PFAIL("sync version");
        }
        {
            Rd r(d + bl[1].off, bl[1].len);
            if (bl[1].type != 0xCCC3 || bl[1].len != 13) PFAIL("context block type 0x%04x len %zu", bl[1].type, bl[1].len);
            r.i = 6;
            if (r.u8() != 1) PFAIL("context codecId");
            if (r.u8() != 255) PFAIL("context channelId");
            if (r.u8() != 0) PFAIL("context ctxId");
            if (r.u16() != 0x40) PFAIL("context tileSize");
            m.ctx_props = r.u16();
        }
        {
            Rd r(d + bl[2].off, bl[2].len);
            if (bl[2].type != 0xCCC1 || bl[2].len != 10) PFAIL("versions block type 0x%04x len %zu", bl[2].type, bl[2].len);
            r.i = 6;
            if (r.u8() != 1) PFAIL("numCodecs");
            if (r.u8() != 1) PFAIL("codecs.codecId");
            if (r.u16() != 0x0100) PFAIL("codecs.version");
        }
        {
            Rd r(d + bl[3].off, bl[3].len);
            if (bl[3].type != 0xCCC2 || bl[3].len != 12) PFAIL("channels block type 0x%04x len %zu", bl[3].type, bl[3].len);
            r.i = 6;
            if (r.u8() != 1) PFAIL("numChannels");
            if (r.u8() != 0) PFAIL("channelId");
            m.hdr_w = r.u16();
            m.hdr_h = r.u16();
        }
        k = 4;
    }
    else if (bl.size() != 4)
    {
        PFAIL("message has %zu blocks", bl.size());
    }
    {
        const Blk &b = bl[k];
        Rd r(d + b.off, b.len);
        if (b.type != 0xCCC4 || b.len != 14) PFAIL("frame begin block type 0x%04x len %zu", b.type, b.len);
        r.i = 6;
        if (r.u8() != 1 || r.u8() != 0) PFAIL("frame begin ids");
        m.frame_idx = r.u32();
        if (r.u16() != 1) PFAIL("frame begin numRegions");
        k++;
    }
    {
        const Blk &b = bl[k];
        Rd r(d + b.off, b.len);
        if (b.type != 0xCCC6) PFAIL("region block type 0x%04x", b.type);
        r.i = 6;
        if (r.u8() != 1 || r.u8() != 0) PFAIL("region ids");
        if (r.u8() != 1) PFAIL("regionFlags");
        int nr = r.u16();
        if (b.len != 15 + (size_t)nr * 8) PFAIL("region length %zu with %d rects", b.len, nr);
        for (int i = 0; i < nr; i++)
        {
            PRect q;
            q.x = r.u16(); q.y = r.u16(); q.cx = r.u16(); q.cy = r.u16();
            m.rects.push_back(q);
        }
        if (r.u16() != 0xCAC1) PFAIL("regionType");
        if (r.u16() != 1) PFAIL("numTilesets");
        if (r.bad || r.i != b.len) PFAIL("region body");
        k++;
    }
    {
        const Blk &b = bl[k];
        Rd r(d + b.off, b.len);
        if (b.type == 0xDDD7) m.alpha = true;
        else if (b.type != 0xCCC7) PFAIL("tileset block type 0x%04x", b.type);
        r.i = 6;
        if (r.u8() != 1 || r.u8() != 0) PFAIL("tileset ids");
        if (r.u16() != 0xCAC2) PFAIL("tileset subtype");
        if (r.u16() != 0) PFAIL("tileset idx");
        m.tileset_props = r.u16();
        m.nquants = r.u8();
        if (r.u8() != 0x40) PFAIL("tileset tileSize");
        int nt = r.u16();
        size_t tds = r.u32();
        if (r.bad || r.i + m.nquants * 5 > b.len) PFAIL("tileset header truncated");
        m.quants.assign(r.p + r.i, r.p + r.i + m.nquants * 5);
        r.i += m.nquants * 5;
        if (b.len - r.i != tds) PFAIL("tilesDataSize %zu but %zu bytes follow the tables", tds, b.len - r.i);
        size_t p = r.i;
        int hl = m.alpha ? 21 : 19;
        for (int i = 0; i < nt; i++)
        {
            if (b.len - p < (size_t)hl) PFAIL("tile %d: %zu bytes left", i, b.len - p);
            Rd t(d + b.off + p, b.len - p);
            if (t.u16() != 0xCAC3) PFAIL("tile %d: block type 0x%04x", i, d[b.off + p] | d[b.off + p + 1] << 8);
            size_t tl = t.u32();
            if (tl < (size_t)hl || tl > b.len - p) PFAIL("tile %d: block length %zu of %zu left", i, tl, b.len - p);
            PTile pt;
            pt.qy = t.u8(); pt.qcb = t.u8(); pt.qcr = t.u8();
            pt.xi = t.u16(); pt.yi = t.u16();
            size_t ly = t.u16(), lcb = t.u16(), lcr = t.u16(), la = m.alpha ? t.u16() : 0;
            if (hl + ly + lcb + lcr + la != tl)
                PFAIL("tile %d: block length %zu != header %d + Y %zu + Cb %zu + Cr %zu + A %zu", i, tl, hl, ly, lcb, lcr, la);
            const uint8_t *q = d + b.off + p + hl;
            pt.comp[0].assign(q, q + ly); q += ly;
            pt.comp[1].assign(q, q + lcb); q += lcb;
            pt.comp[2].assign(q, q + lcr); q += lcr;
            pt.alpha.assign(q, q + la);
            m.tiles.push_back(pt);
            p += tl;
        }
        if (p != b.len) PFAIL("%zu bytes after the last tile", b.len - p);
        k++;
    }
    {
        const Blk &b = bl[k];
        Rd r(d + b.off, b.len);
        if (b.type != 0xCCC5 || b.len != 8) PFAIL("frame end block type 0x%04x len %zu", b.type, b.len);
        r.i = 6;
        if (r.u8() != 1 || r.u8() != 0) PFAIL("frame end ids");
    }
    return true;
}

static inline bool
parse_pro(const uint8_t *d, size_t n, PMsg &m, std::string *why)
{
    size_t off = 0;
    struct Blk { unsigned type; size_t off, len; };
    std::vector<Blk> bl;
    while (off < n)
    {
        if (n - off < 6) PFAIL("trailing %zu bytes at %zu", n - off, off);
        unsigned t = d[off] | d[off + 1] << 8;
        size_t l = d[off + 2] | d[off + 3] << 8 | d[off + 4] << 16 | (size_t)d[off + 5] << 24;
        if (l < 6 || l > n - off) PFAIL("block 0x%04x at %zu has length %zu of %zu left", t, off, l, n - off);
        bl.push_back({t, off, l});
        off += l;
    }
    size_t k = 0;
    if (bl.size() == 5)
    {
        m.header = true;
        Rd r(d + bl[0].off, bl[0].len);
        if (bl[0].type != 0xCCC0 || bl[0].len != 12) PFAIL("sync block type 0x%04x len %zu", bl[0].type, bl[0].len);
        r.i = 6;
        if (r.u32() != 0xCACCACCA) PFAIL("sync magic");
        if (r.u16() != 0x0100) PFAIL("sync version");
        Rd c(d + bl[1].off, bl[1].len);
        if (bl[1].type != 0xCCC3 || bl[1].len != 10) PFAIL("context block type 0x%04x len %zu", bl[1].type, bl[1].len);
        c.i = 6;
        if (c.u8() != 0) PFAIL("context ctxId");
        if (c.u16() != 0x40) PFAIL("context tileSize");
        m.ctx_props = c.u8();
        if (m.ctx_props != 1) PFAIL("context flags %d: sub-band diffing must be on", m.ctx_props);
        k = 2;
    }
    else if (bl.size() != 3)
    {
        PFAIL("message has %zu blocks", bl.size());
    }
    {
        const Blk &b = bl[k++];
        Rd r(d + b.off, b.len);
        if (b.type != 0xCCC1 || b.len != 12) PFAIL("frame begin block type 0x%04x len %zu", b.type, b.len);
        r.i = 6;
        m.frame_idx = r.u32();
        if (r.u16() != 1) PFAIL("frame begin regionCount");
    }
    {
        const Blk &b = bl[k++];
        Rd r(d + b.off, b.len);
        if (b.type != 0xCCC4) PFAIL("region block type 0x%04x", b.type);
        if (b.len < 18) PFAIL("region length %zu", b.len);
        r.i = 6;
        if (r.u8() != 0x40) PFAIL("region tileSize");
        int nr = r.u16();
        m.nquants = r.u8();
        if (r.u8() != 0) PFAIL("numProgQuant");
        int fl = r.u8();
        if (fl != 1) PFAIL("region flags %d: reduce-extrapolate must be set", fl);
        int nt = r.u16();
        size_t tds = r.u32();
        if (b.len < 18 + (size_t)nr * 8 + m.nquants * 5) PFAIL("region tables truncated");
        for (int i = 0; i < nr; i++)
        {
            PRect q;
            q.x = r.u16(); q.y = r.u16(); q.cx = r.u16(); q.cy = r.u16();
            m.rects.push_back(q);
        }
        m.quants.assign(r.p + r.i, r.p + r.i + m.nquants * 5);
        r.i += m.nquants * 5;
        if (b.len - r.i != tds) PFAIL("tileDataSize %zu but %zu bytes follow the tables", tds, b.len - r.i);
        size_t p = r.i;
        for (int i = 0; i < nt; i++)
        {
            if (b.len - p < 22) PFAIL("tile %d: %zu bytes left", i, b.len - p);
            Rd t(d + b.off + p, b.len - p);
            if (t.u16() != 0xCCC5) PFAIL("tile %d: block type", i);
            size_t tl = t.u32();
            if (tl < 22 || tl > b.len - p) PFAIL("tile %d: block length %zu of %zu left", i, tl, b.len - p);
            PTile pt;
            pt.qy = t.u8(); pt.qcb = t.u8(); pt.qcr = t.u8();
            pt.xi = t.u16(); pt.yi = t.u16();
            pt.flags = t.u8();
            if (pt.flags & ~1) PFAIL("tile %d: flags 0x%02x", i, pt.flags);
            size_t ly = t.u16(), lcb = t.u16(), lcr = t.u16(), lt = t.u16();
            if (lt != 0) PFAIL("tile %d: tailLen %zu", i, lt);
            if (22 + ly + lcb + lcr != tl)
                PFAIL("tile %d: block length %zu != 22 + Y %zu + Cb %zu + Cr %zu", i, tl, ly, lcb, lcr);
            const uint8_t *q = d + b.off + p + 22;
            pt.comp[0].assign(q, q + ly); q += ly;
            pt.comp[1].assign(q, q + lcb); q += lcb;
            pt.comp[2].assign(q, q + lcr);
            m.tiles.push_back(pt);
            p += tl;
        }
        if (p != b.len) PFAIL("%zu bytes after the last tile", b.len - p);
    }
    {
        const Blk &b = bl[k++];
        if (b.type != 0xCCC2 || b.len != 6) PFAIL("frame end block type 0x%04x len %zu", b.type, b.len);
    }
    return true;
}

/* Component of a parsed tile -> 4096 coefficients as carried (LL3 summed up) */
static inline bool
decode_component(const Bytes &c, int mode, bool pro, std::vector<int> &out, std::string *why)
{
    size_t used = 0;
    if (!rlgr_decode(mode, c.data(), c.size(), 4096, out, &used, why)) return false;
    if (used != c.size()) PFAIL("component of %zu bytes, but the coefficients end after %zu", c.size(), used);
    int ll = pro ? 81 : 64;
    for (int i = 4096 - ll + 1; i < 4096; i++) out[i] += out[i - 1];
    return true;
}

/* A progressive client: per tile reference coefficients */
struct ProClient
{
    bool have_ctx = false;
    std::map<std::pair<int, int>, std::array<std::vector<int>, 3>> ref;
    /* returns decoded coefficient planes for every tile, in order */
    bool apply(const PMsg &m, std::vector<std::array<std::vector<int>, 3>> &planes, std::string *why)
    {
        if (m.header) { have_ctx = true; ref.clear(); }
        if (!have_ctx) PFAIL("tiles arrive before any context");
        planes.clear();
        for (size_t i = 0; i < m.tiles.size(); i++)
        {
            const PTile &t = m.tiles[i];
            std::array<std::vector<int>, 3> cur;
            auto key = std::make_pair(t.xi, t.yi);
            if ((t.flags & 1) && !ref.count(key))
                PFAIL("tile %zu (%d,%d): difference against a tile the client never received", i, t.xi, t.yi);
            for (int c = 0; c < 3; c++)
            {
                std::string w;
                if (!decode_component(t.comp[c], 1, true, cur[c], &w))
                    PFAIL("tile %zu (%d,%d) component %d: %s", i, t.xi, t.yi, c, w.c_str());
                if (t.flags & 1)
                {
                    const std::vector<int> &r = ref[key][c];
                    for (int j = 0; j < 4096; j++) cur[c][j] += r[j];
                }
            }
            ref[key] = cur;
            planes.push_back(cur);
        }
        return true;
    }
};
