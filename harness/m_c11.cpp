/* C11: a progressive client stays in step with the encoder.  The client model
 * applies each returned message and its coefficients are compared with the
 * specified transform of the tile's latest pixels. */
#include "main.h"
long mon_cases(Mon &m) { return m.thorough() ? 60000 : 11000; }
/* one encoder that gets to see every place of the grid, several times */
static void grid(Mon &m, const Lib &l, Rng &r)
{
    Cfg cfg;
    cfg.fmt = RFX_FORMAT_YUV;
    cfg.flags = RFX_FLAGS_PRO1;
    cfg.w = cfg.h = 4096;
    Enc e(l, cfg);
    ProClient cl;
    int step = 8;
    for (int round = 0; round < 2; round++)
    {
        std::vector<int> order;
        for (int i = 0; i < (64 / step) * (64 / step); i++) order.push_back(i);
        if (round) for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.u64() % i]);
        PicP p = make_pic0(r, RFX_FORMAT_YUV, step * 64, step * 64, round ? -1 : PK_TEXT);
        for (int i : order)
        {
            Call c;
            c.pic = std::make_shared<Pic>(*p);
            c.pic->ox = i % (64 / step) * step * 64;
            c.pic->oy = i / (64 / step) * step * 64;
            c.null_quants = true;
            for (int k = 0; k < step * step; k++) c.tiles.push_back(make_tile(r, c, k % step, k / step));
            Result x = e.run(c);
            if (x.ret != (int)c.tiles.size()) VIOL("ample space but %d of %zu tiles (%s)", x.ret, c.tiles.size(), describe(c).c_str());
            PMsg pm;
            std::string why;
            if (!parse_pro(x.out.data(), x.out.size(), pm, &why)) VIOL("malformed message: %s", why.c_str());
            check_pro_content(cfg, c, pm, cl);
            m.count("grid tiles", pm.tiles.size());
            m.see(hash_bytes(x.out.data(), x.out.size()));
            /* so that no two places hold the same */
            p->mem[r.u64() % p->mem.size()] ^= 0x55;
            std::rotate(p->mem.begin(), p->mem.begin() + 16384, p->mem.end());
        }
    }
}
void mon_case(Mon &m, long n)
{
    Rng r = m.rng(n);
    if (n < 3)
    {
        grid(m, m.lib(n == 1 && m.has("nosimd") ? "nosimd" : n == 2 && m.has("port") ? "port" : "acc"), r);
        return;
    }
    HistOpt ho;
    ho.pro = 1;
    ho.maxtiles = 6;
    ho.maxdim = 200;
    ho.min_calls = 4;
    ho.max_calls = 14;
    ho.screens = 70;
    Hist h = make_hist(r, ho);
    if (h.calls[0].tiles.size() > 90) m.count("screens");
    static const char *names[] = {"acc", "acc", "acc", "acc", "nosimd", "port"};
    std::string ln = names[r.in(0, 5)];
    const Lib &l = m.lib(m.has(ln) ? ln : "acc");
    Enc e(l, h.cfg);
    m.sample(describe(h.cfg) + "; " + describe(h.calls[0]));
    /* after a failed key frame call the encoder may have started over or not;
     * either way what it sends must decode */
    ProClient cl;
    for (size_t ci = 0; ci < h.calls.size(); ci++)
    {
        Call c = h.calls[ci];
        if (r.one_in(10) && c.tiles.size() > 1)
        {
            /* a call in the middle of which a tile is unusable: refused as a whole */
            Call b = c;
            int at = spoil(r, b);
            b.pic = std::make_shared<Pic>(*c.pic);
            Result y = e.run(b);
            m.count(y.ret < 0 ? "unusable calls refused" : "unusable calls accepted");
            if (y.ret > 0)
            {
                PMsg pm;
                std::string why;
                if (!parse_pro(y.out.data(), y.out.size(), pm, &why)) VIOL("malformed message: %s", why.c_str());
                if ((int)pm.tiles.size() > at) VIOL("a tile outside the grid or with a table not given was sent (%s; %s)", describe(h.cfg).c_str(), describe(b).c_str());
                check_pro_content(h.cfg, b, pm, cl);
            }
        }
        Result x = e.run(c);
        if (x.ret < 0)
        {
            m.count("calls refused");
            continue;
        }
        PMsg pm;
        std::string why;
        if (!parse_pro(x.out.data(), x.out.size(), pm, &why)) VIOL("malformed message: %s (%s; %s)", why.c_str(), describe(h.cfg).c_str(), describe(c).c_str());
        if (pm.tiles.size() > c.tiles.size()) VIOL("more tiles than asked for");
        check_pro_content(h.cfg, c, pm, cl);
        m.count("messages applied");
        if (x.ret < (int)c.tiles.size())
        {
            m.count("partial messages");
            if (h.calls.size() < 150 && r.one_in(2))
            {
                h.calls.insert(h.calls.begin() + ci + 1, rest_of(r, c, x.ret));
                m.count("continuations");
            }
        }
        for (size_t i = 0; i < pm.tiles.size(); i++)
        {
            m.count((pm.tiles[i].flags & 1) ? "difference tiles" : "full tiles");
            m.see(mix64(pm.tiles[i].xi * 64 + pm.tiles[i].yi) ^ hash_bytes(pm.tiles[i].comp[0].data(), pm.tiles[i].comp[0].size()));
            if (pm.tiles[i].xi == 63 || pm.tiles[i].yi == 63) m.count("tiles in the last row or column of the grid");
        }
        if (c.flags & RFX_FLAGS_PRO_KEY) m.count("key frames");
    }
}
void mon_done(Mon &m) {}
