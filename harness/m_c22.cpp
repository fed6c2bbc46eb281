/* C22: the published stages against the specification and against each other. */
#include "x32.h"
#include "main.h"
static long NQ;
long mon_cases(Mon &m)
{
    NQ = 16 * 4; /* quantiser sweep: 16 slices of the 16-bit values x 4 libraries */
    return NQ + (m.thorough() ? 16000000 : 500000);
}
static const Lib &lib_no(Mon &m, int i)
{
    static const char *n[] = {"acc", "clang", "port", "o0", "nosimd", "uchar"};
    std::string k = n[i % 6];
    return m.has(k) ? m.lib(k) : m.lib("acc");
}
/* band of each coefficient */
static const int *band_of()
{
    static int b[4096];
    static bool done = false;
    if (!done)
        for (auto &x : bands_classic()) for (int i = 0; i < x.w * x.h; i++) b[x.off + i] = x.q;
    done = true;
    return b;
}
static Guarded &G(int i)
{
    static Guarded g[5] = {Guarded(8192), Guarded(8192), Guarded(4096), Guarded(4096), Guarded(8192)};
    return g[i];
}
static void quant_sweep(Mon &m, long n)
{
    /* every sint16 in every band for every step: 4096 is split into slices; in each
     * slice the 8x8 bands see all values over successive runs */
    const Lib &l = lib_no(m, (int)(n & 3));
    int slice = (int)(n >> 2);
    const int *bo = band_of();
    short *b = (short *)G(0).base;
    uint8_t *q = G(2).at_end(5);
    for (int step = 6; step <= 15; step++)
    {
        for (int k = 0; k < 64; k++) /* 64 runs x 64 coefficients of the small bands = 4096 values */
        {
            Rng r(mix64(step * 131 + k * 7 + slice));
            int qq[10];
            for (int i = 0; i < 10; i++) qq[i] = 6 + (step - 6 + i * 3 + slice) % 10;
            for (int i = 0; i < 5; i++) q[i] = qq[2 * i] | qq[2 * i + 1] << 4;
            for (auto &x : bands_classic())
                for (int i = 0; i < x.w * x.h; i++) b[x.off + i] = (short)(slice * 4096 - 32768 + (k * 64 + i) % 4096);
            short in[4096];
            memcpy(in, b, 8192);
            l.in.rfxencode_quantization(b, (const char *)q);
            for (int i = 0; i < 4096; i++)
            {
                long w = quant(in[i], qq[bo[i]]);
                if (b[i] != w) VIOL("quantising %d in band %d with %d gives %d, expected %ld", in[i], bo[i], qq[bo[i]], b[i], w);
            }
            m.count("quantised values", 4096);
        }
    }
}
void mon_case(Mon &m, long n)
{
    Rng r = m.rng(n);
    if (n < NQ)
    {
        quant_sweep(m, n);
        return;
    }
    n -= NQ;
    const Lib &l = lib_no(m, r.in(0, 5));
    short *b1 = (short *)(r.one_in(2) ? G(0).base : G(0).at_end(8192)), *b2 = (short *)G(1).base, *b3 = (short *)G(4).base;
    uint8_t *q = G(2).at_end(5), *pix = G(3).base;
    if (n % 6 == 5)
    {
        /* differencing, any length, any values */
        int len = r.one_in(4) ? r.in(1, 8) : r.one_in(3) ? 64 : r.in(1, 4096);
        if (n % 48 == 5)
        {
            static const int about[] = {4096, 8192, 16384, 32767, 65535, 65536, 100000, 131072};
            len = about[r.in(0, 7)] + r.in(-2, 40);
            m.count("long differenced blocks");
        }
        static Guarded lng(300000);
        short *b = (short *)(len > 4096 ? lng : G(0)).at_end(len * 2);
        std::vector<short> in(len);
        int how = r.in(0, 2);
        for (auto &v : in) v = how == 0 ? (short)r.u64() : how == 1 ? (short)r.in(-300, 300) : (short)(r.one_in(2) ? 32767 : -32768);
        memcpy(b, in.data(), len * 2);
        l.in.rfxencode_differential(b, len);
        uint16_t acc = 0;
        for (int i = 0; i < len; i++)
        {
            acc = (uint16_t)(acc + (uint16_t)b[i]);
            if ((short)acc != in[i]) VIOL("differencing %d values is not undone by summation at %d", len, i);
        }
        m.count("differenced blocks");
        m.see(hash_bytes((uint8_t *)in.data(), len * 2));
        return;
    }
    fill_plane(pix, 64, 64, 64, r.one_in(4) ? PK_EXTREME : pick_kind(r), r);
    Bytes qv = make_quants(r, 1);
    memcpy(q, qv.data(), 5);
    QTab qt = qtab_from(q), raw;
    for (auto &x : raw.q) x = 1;
    static FwdOut f, fq;
    forward_tile(pix, false, raw, f);
    forward_tile(pix, false, qt, fq);
    memset(b1, r.in(0, 255), 8192);
    memset(b2, r.in(0, 255), 8192);
    l.in.rfxencode_dwt_2d(pix, b1, b2);
    for (int i = 0; i < 4096; i++)
        if (b1[i] != f.c[i]) VIOL("wavelet coefficient %d is %d, expected %d (%s)", i, b1[i], f.c[i], l.name.c_str());
    m.count("wavelet blocks");
    l.in.rfxencode_quantization(b1, (const char *)q);
    for (int i = 0; i < 4096; i++)
        if (b1[i] != fq.c[i]) VIOL("quantised coefficient %d is %d, expected %d (%s)", i, b1[i], fq.c[i], l.name.c_str());
    m.see(hash_bytes((uint8_t *)b1, 8192));
    for (int k = 0; k < 2; k++)
    {
        auto fn = k ? l.in.rfxencode_dwt_shift_amd64_sse41 : l.in.rfxencode_dwt_shift_amd64_sse2;
        if (!fn) continue;
        memset(b3, r.in(0, 255), 8192);
        memset(b2, r.in(0, 255), 8192);
        fn((const char *)q, pix, b3, b2);
        if (memcmp(b1, b3, 8192))
        {
            int i = 0;
            while (b1[i] == b3[i]) i++;
            VIOL("combined routine %s gives %d for coefficient %d, wavelet and quantisation give %d", k ? "sse41" : "sse2", b3[i], i, b1[i]);
        }
        m.count("combined blocks");
    }
    if (n % 4 == 0)
    {
        X32 *x = x32_worker(m, (n / 4) & 1);
        if (x)
        {
            std::vector<short> co;
            for (int k = 0; k < 3; k++)
            {
                if (x->stage(k, q, pix, co, r.in(0, 255), r.in(0, 255)) == -77) continue;
                for (int i = 0; i < 4096; i++)
                    if (co[i] != fq.c[i]) VIOL("32-bit %s: coefficient %d is %d, expected %d", k == 0 ? "C stages" : k == 1 ? "sse2" : "sse41", i, co[i], fq.c[i]);
                m.count("32-bit blocks");
            }
        }
    }
}
void mon_done(Mon &m) {}
