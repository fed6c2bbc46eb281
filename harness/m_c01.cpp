/* C01: nothing outside the output buffer is written, whatever its size.
 * The buffer ends at an inaccessible page (or a checked strip) and is preceded
 * by a checked strip; capacities are swept over every place a message can run
 * out of space. */
#include "main.h"

enum { K_SMALL, K_STEP, K_BOUND, K_BYTE, K_HIST, K_LONG, K_WORST, K_COUNT };

long mon_cases(Mon &m) { return m.thorough() ? 28000 : 3600; }

static const Lib &pick_lib(Mon &m, Rng &r)
{
    static const char *n[] = {"acc", "acc", "acc", "nosimd", "port", "clang"};
    const char *k = n[r.in(0, 5)];
    return m.has(k) ? m.lib(k) : m.lib("acc");
}
static void tally(Mon &m, const Cfg &cfg, const Call &c, int cap, const Result &x)
{
    m.count("calls");
    m.count(x.ret < 0 ? "calls refused" : x.ret == (int)c.tiles.size() ? "calls complete" : "calls partial");
    if (x.ret >= 0) m.count("bytes accepted", x.bytes);
    if (x.ret >= 0 && cap - x.bytes < 16) m.count("buffer filled to within 16 bytes");
    m.see(mix64(cap) ^ mix64(hash_bytes(x.out.data(), x.out.size()) + cfg.flags * 31 + c.flags));
}
static Result one(Mon &m, Enc &e, Call c, int cap, Rng &r)
{
    c.cap = cap;
    RunOpt o;
    o.prefill = r.in(0, 255);
    o.align = r.one_in(4) ? r.in(1, 63) : 0;
    Result x = e.run(c, o);
    tally(m, e.cfg, c, cap, x);
    return x;
}
void mon_case(Mon &m, long n)
{
    Rng r = m.rng(n);
    int kind = n % K_COUNT;
    const Lib &l = pick_lib(m, r);
    GenOpt go;
    go.maxtiles = 6;
    go.maxdim = 200;
    if (kind == K_BYTE) { go.pro = 1; go.maxtiles = 3; }
    if (kind == K_STEP)
    {
        /* the largest tiles there are: noise at the finest quantiser */
        static const int k[] = {PK_NOISE, PK_BINARY, PK_EXTREME, PK_CHECK};
        if (!r.one_in(4)) go.kind = k[r.in(0, 3)];
    }
    Cfg cfg = make_cfg(r, go);
    Call c = make_call(r, cfg, go);
    if (kind == K_STEP && !r.one_in(3)) { for (auto &b : c.quants) b = 0x66; }
    if (c.rects.size() > 40 && !r.one_in(4)) c.rects.resize(r.in(0, 6));
    m.sample(describe(cfg) + "; " + describe(c));
    Enc e(l, cfg);
    int warm = r.in(0, 2);
    for (int i = 0; i < warm; i++) e.run(c);
    if (kind == K_HIST)
    {
        HistOpt ho;
        ho.max_calls = 12;
        ho.min_calls = 6;
        ho.big_lists = true;
        Hist h = make_hist(r, ho);
        Enc f(l, h.cfg);
        for (auto &k : h.calls) one(m, f, k, k.cap < 0 ? (r.one_in(2) ? pick_cap(r, h.cfg, k) : k.ample()) : k.cap, r);
        return;
    }
    if (kind == K_LONG)
    {
        /* rectangle lists around every power of two up to the most a message can
         * hold, with and without many tables: the lists alone run out of space */
        static const int about[] = {255, 256, 4095, 8189, 8190, 8191, 8192, 16381, 16384, 24575, 32767, 32768, 65534, 65535};
        int nr = r.one_in(3) ? r.in(0, 65535) : std::min(65535, std::max(0, about[r.in(0, 13)] + r.in(-2, 2)));
        c.rects.resize(nr);
        for (auto &q : c.rects) q = rfx_rect{r.in(0, 65535), r.in(0, 65535), r.in(0, 65535), r.in(0, 65535)};
        if (!c.null_quants && r.one_in(2)) while (c.nq() < (r.one_in(2) ? 255 : r.in(1, 255))) for (int i = 0; i < 5; i++) c.quants.push_back(r.in(6, 15) * 17);
        if (c.tiles.size() > 2) c.tiles.resize(2);
        int lists = 8 * nr + 5 * c.nq();
        m.count("long lists");
        for (int i = 0; i < 24; i++)
        {
            int cap = r.one_in(4) ? r.in(0, lists + 200) : r.one_in(3) ? r.in(0, 400) : r.one_in(2) ? lists % 65536 + r.in(-40, 200) : lists + r.in(-40, 200);
            if (r.one_in(3))
            {
                Enc f(l, cfg);
                one(m, f, c, std::max(0, cap), r);
            }
            else
                one(m, e, c, std::max(0, cap), r);
        }
        return;
    }
    if (kind == K_WORST)
    {
        /* every component of the last tile as large as it gets: full-swing binary
         * noise in the colours, incompressible alpha; fine steps through the last
         * tile's space */
        Cfg wc = cfg;
        wc.fmt = r.one_in(2) ? RFX_FORMAT_YUV : r.one_in(2) ? RFX_FORMAT_BGRA : RFX_FORMAT_RGBA;
        wc.flags &= ~RFX_FLAGS_PRO1;
        Call k;
        int tw = r.in(1, 2);
        k.pic = make_pic(r, wc.fmt, tw * 64, 64, PK_NOISE, 1023);
        int cd = r.in(2, 5), aset = r.in(0, 3);
        auto put = [&](uint8_t &v, int c) {
            if (c == 3)
                v = aset == 0 ? (uint8_t)r.u64() : aset == 1 ? (r.one_in(2) ? 0 : 255) : aset == 2 ? (uint8_t)(r.u64() & 7) : (uint8_t)(r.u64() | 0x80);
            else
                v = r.one_in(cd) ? 0 : 255;
        };
        if (wc.fmt == RFX_FORMAT_YUV)
            for (size_t i = 0; i < k.pic->mem.size(); i++) put(k.pic->mem[i], (int)(i / 4096 & 3));
        else
            for (int y = 0; y < k.pic->h; y++) for (int x = 0; x < k.pic->w * 4; x++) put(k.pic->mem[(size_t)y * k.pic->stride + x], x & 3);
        k.quants.assign(5, 0x66);
        k.flags = r.one_in(4) ? 0 : RFX_FLAGS_ALPHAV1;
        for (int i = 0; i < tw; i++) k.tiles.push_back(rfx_tile{k.pic->ox + 64 * i, k.pic->oy, 64, 64, 0, 0, 0});
        Enc f(l, wc);
        Result a = f.run(k);
        if (a.ret < 0) return;
        m.count("worst-case tiles");
        int size = (int)a.out.size(), from = std::max(0, size - 18000), to = size + 26000;
        for (int cap = from + r.in(0, 300); cap < to; cap += cap < size + 9000 ? r.in(20, 300) : r.in(300, 1200)) one(m, f, k, cap, r);
        return;
    }
    if (kind == K_SMALL)
    {
        /* every small capacity; the fixed parts of the message */
        int top = 160 + 8 * (int)c.rects.size() + 5 * c.nq();
        int empty_min = 14 + 15 + 22 + 8; /* no message is smaller than its frame parts */
        if (cfg.pro()) empty_min = 12 + 18 + 6;
        int step = top > 3000 ? 7 : 1;
        for (int cap = 0; cap <= top; cap += step)
        {
            Result x = one(m, e, c, cap, r);
            if (cap < empty_min && x.ret >= 0) VIOL("a message was reported in %d bytes of space (%s)", cap, describe(c).c_str());
        }
        /* and again on untouched encoders, where the header is due */
        for (int i = 0; i < 40; i++)
        {
            Enc f(l, cfg);
            one(m, f, c, r.in(0, top), r);
        }
        return;
    }
    if (kind == K_STEP)
    {
        Call full = c;
        Enc f(l, cfg);
        Result a = f.run(full);
        int size = a.ret >= 0 ? (int)a.out.size() : 60000;
        int from = 0, to = size + (cfg.pro() ? 100 : 26000);
        int step = std::max(1, (to - from) / (m.thorough() ? 700 : 160));
        for (int cap = from + r.in(0, step); cap <= to; cap += step) one(m, e, c, cap + r.in(0, step - 1), r);
        return;
    }
    if (kind == K_BOUND)
    {
        /* around every tile and component boundary of the real message */
        Enc f(l, cfg);
        Result a = f.run(c);
        if (a.ret < 0) return;
        PMsg pm;
        std::string why;
        if (!(cfg.pro() ? parse_pro(a.out.data(), a.out.size(), pm, &why) : parse_classic(a.out.data(), a.out.size(), pm, &why))) return;
        std::vector<int> at;
        int end = cfg.pro() ? 6 : 8, pos = (int)a.out.size() - end;
        at.push_back((int)a.out.size());
        for (size_t i = pm.tiles.size(); i-- > 0;)
        {
            const PTile &t = pm.tiles[i];
            at.push_back(pos);
            if (pm.alpha) at.push_back(pos -= t.alpha.size());
            for (int k = 2; k >= 0; k--) at.push_back(pos -= t.comp[k].size());
            pos -= cfg.pro() ? 22 : pm.alpha ? 21 : 19;
        }
        at.push_back(pos);
        for (int b : at)
            for (int d = -10; d <= 10; d++)
            {
                if (b + d >= 0) one(m, e, c, b + d, r);
                if (cfg.pro() && r.one_in(5) && b + d >= 0)
                {
                    Enc g(l, cfg);
                    one(m, g, c, b + d, r);
                }
            }
        return;
    }
    if (kind == K_BYTE)
    {
        /* progressive: every capacity of a small message, fresh encoder each time */
        Enc f(l, cfg);
        Result a = f.run(c);
        if (a.ret < 0) return;
        int size = (int)a.out.size();
        int step = size > 3000 ? size / (m.thorough() ? 3000 : 500) + 1 : 1;
        for (int cap = std::min(size, 60) - 40 > 0 ? r.in(0, 20) : 0; cap <= size + 3; cap += step)
        {
            Enc g(l, cfg);
            if (r.one_in(3)) g.run(c); /* differences instead of full tiles */
            one(m, g, c, cap + (step > 1 ? r.in(0, step - 1) : 0), r);
        }
    }
}
void mon_done(Mon &m) {}
