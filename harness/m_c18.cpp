/* C18: error bounds against the exact, real-valued transform, and of the
 * picture a client reconstructs.  Independent of the fixed-point model. */
#include "main.h"
long mon_cases(Mon &m) { return m.thorough() ? 700000 : 45000; }

/* interval of (fixed point - exact), propagated through the roundings */
struct Iv { double a, b; };
struct Slack
{
    Iv band[10]; /* by quantiser index */
    Iv pix;      /* of the client's synthesis, in 1/32 */
    static Iv hi(Iv e, Iv o)
    {
        /* floor((o - floor((e0+e1)/2))/2) */
        Iv in{e.a - 0.5, e.b};
        return {(o.a - in.b) / 2 - 0.5, (o.b - in.a) / 2};
    }
    static Iv lo(Iv e, Iv h) { return {e.a + h.a - 0.5, e.b + h.b}; }
    static Iv join(Iv x, Iv y) { return {std::min(x.a, y.a), std::max(x.b, y.b)}; }
    void build(bool pro)
    {
        /* pixels are multiples of 32: the first vertical pass and the high half of the
         * first horizontal pass are exact; rounding starts after that */
        Iv ll{0, 0};
        for (int lev = 1; lev <= 3; lev++)
        {
            Iv vh, vl, hl, lh, hh, nll;
            if (lev == 1)
            {
                vh = vl = Iv{0, 0};
                hl = hh = Iv{0, 0};
                lh = nll = Iv{-0.5, 0};
                if (pro)
                {
                    /* extrapolated row and column: 2a-b of exact values */
                    lh = nll = Iv{-0.5, 0};
                }
            }
            else
            {
                vh = hi(ll, ll);
                vl = lo(ll, vh);
                hl = hi(vl, vl);
                nll = lo(vl, hl);
                hh = hi(vh, vh);
                lh = lo(vh, hh);
            }
            int ql[4] = {0, Q_HL1, Q_HL2, Q_HL3}, qh[4] = {0, Q_LH1, Q_LH2, Q_LH3}, qq[4] = {0, Q_HH1, Q_HH2, Q_HH3};
            band[ql[lev]] = hl;
            band[qh[lev]] = lh;
            band[qq[lev]] = hh;
            ll = nll;
        }
        band[Q_LL3] = ll;
        /* synthesis, same idea; coefficients are integers now */
        Iv x{0, 0};
        for (int lev = 3; lev >= 1; lev--)
        {
            /* even: lo - floor((h0+h1+1)/2) or floor(.../2): within +-0.5; odd: 2h + floor(../2) */
            for (int pass = 0; pass < 2; pass++)
            {
                Iv e{x.a - 0.5, x.b + 0.5};
                Iv o{std::min(e.a, x.a) - 1.0, std::max(e.b, x.b) + 1.0};
                x = join(e, o);
            }
        }
        pix = x;
    }
};
static Slack S[2];
static SynthGain SG[2];
static double worst_half[2], worst_px;
static void component(Mon &m, const uint8_t *pl, bool pro, const QTab &qt, const std::vector<int> &co, const std::string &who, int *err_out)
{
    static thread_local double ex[4096];
    forward_tile_f(pl, pro, ex);
    const std::vector<Band> &bands = pro ? bands_pro() : bands_classic();
    bool bad = false;
    std::string msg;
    for (auto &b : bands)
    {
        double step = (double)(1L << (qt.q[b.q] - 1));
        for (int i = 0; i < b.w * b.h && !bad; i++)
        {
            /* co = floor((fixed + step/2)/step): co*step - fixed in (-step/2, step/2] */
            double d = co[b.off + i] * step - ex[b.off + i];
            double lo = -step / 2 + S[pro].band[b.q].a, hi = step / 2 + S[pro].band[b.q].b;
            if (d < lo - 1e-6 || d > hi + 1e-6)
            {
                bad = true;
                msg = fmt("coefficient %d (band %d) times its step is off by %.3f, allowed %.3f..%.3f", b.off + i, b.q, d / 32, lo / 32, hi / 32);
            }
        }
    }
    std::string why;
    if (bad)
    {
        /* the one listed class: the corner value that needs more than 16 bits */
        long k0 = g_known.wrap16;
        if (pro && coefs_match(co, pl, true, qt, &why) && g_known.wrap16 > k0)
        {
            *err_out = -1;
            return;
        }
        VIOL("%s: %s", who.c_str(), msg.c_str());
    }
    /* picture */
    static thread_local long px[4096];
    inverse_tile(co.data(), pro, qt, px);
    double bound = 0;
    {
        /* per band: half step plus slack, through the synthesis gains */
        double sl = 0;
        for (int i = 0; i < 10; i++) sl = std::max(sl, std::max(-S[pro].band[i].a, S[pro].band[i].b));
        bound = SG[pro].bound(qt, sl) + std::max(-S[pro].pix.a, S[pro].pix.b);
    }
    int worst = 0;
    for (int i = 0; i < 4096; i++)
    {
        /* a client rounds to the nearest level and clamps */
        long v = clamp255(((px[i] + 16) >> 5) + 128);
        int d = std::abs((int)v - (int)pl[i]);
        worst = std::max(worst, d);
        if (d * 32 > bound + 16.5)
            VIOL("%s: pixel (%d,%d) decodes to %ld, original %d; the steps allow an error of %.2f", who.c_str(), i % 64, i / 64, v, pl[i], bound / 32);
    }
    *err_out = worst;
    m.count("components checked");
}
void mon_case(Mon &m, long n)
{
    static bool init = false;
    if (!init)
    {
        for (int p = 0; p < 2; p++)
        {
            S[p].build(p);
            SG[p].build(p);
        }
        init = true;
    }
    Rng r = m.rng(n);
    static const char *names[] = {"acc", "acc", "nosimd", "port"};
    std::string ln = names[r.in(0, 3)];
    const Lib &l = m.lib(m.has(ln) ? ln : "acc");
    HistOpt ho;
    ho.pro = n % 2;
    ho.maxtiles = 4;
    ho.maxdim = 190;
    ho.min_calls = 1;
    ho.max_calls = ho.pro ? 5 : 2;
    if (r.one_in(3)) ho.kind = PK_EXTREME;
    if (r.one_in(6)) ho.kind = PK_NOISE;
    Hist h = make_hist(r, ho);
    bool finest = r.one_in(3);
    if (finest)
        for (auto &c : h.calls)
        {
            c.null_quants = false;
            c.quants.assign(5, 0x66);
            for (auto &t : c.tiles) t.quant_y = t.quant_cb = t.quant_cr = 0;
        }
    Enc e(l, h.cfg);
    m.sample(describe(h.cfg) + "; " + describe(h.calls[0]));
    ProClient cl;
    static uint8_t pl[4][4096];
    for (auto &c : h.calls)
    {
        Result x = e.run(c);
        if (x.ret < 0) continue;
        PMsg pm;
        std::string why;
        bool ok = h.cfg.pro() ? parse_pro(x.out.data(), x.out.size(), pm, &why) : parse_classic(x.out.data(), x.out.size(), pm, &why);
        if (!ok) VIOL("malformed message: %s", why.c_str());
        if (pm.tiles.size() > c.tiles.size()) VIOL("more tiles than asked for");
        std::vector<std::array<std::vector<int>, 3>> planes(pm.tiles.size());
        if (h.cfg.pro())
        {
            if (!cl.apply(pm, planes, &why)) VIOL("client: %s", why.c_str());
        }
        else
        {
            for (size_t i = 0; i < pm.tiles.size(); i++)
                for (int k = 0; k < 3; k++)
                    if (!decode_component(pm.tiles[i].comp[k], h.cfg.mode(), false, planes[i][k], &why)) VIOL("tile %zu: %s", i, why.c_str());
        }
        for (size_t i = 0; i < pm.tiles.size(); i++)
        {
            c.pic->planes(c.tiles[i], pl[0], pl[1], pl[2], pl[3]);
            int qi[3] = {c.tiles[i].quant_y, c.tiles[i].quant_cb, c.tiles[i].quant_cr};
            int err[3];
            for (int k = 0; k < 3; k++)
            {
                component(m, pl[k], h.cfg.pro(), c.qtab(qi[k]), planes[i][k],
                          fmt("tile %zu %s (%s; %s)", i, comp_name(k), describe(h.cfg).c_str(), describe(c).c_str()), &err[k]);
                if (finest && err[k] >= 0) m.count(fmt("finest steps: worst pixel error %d", err[k]));
            }
            m.see(hash_bytes((const uint8_t *)planes[i][0].data(), 4096 * 4));
            m.count(h.cfg.pro() ? "progressive tiles" : "classic tiles");
        }
    }
}
void mon_done(Mon &m) {}
