/* C04: every classic message is one complete, exact message (lengths, fields,
 * components that decode to exactly one tile). */
#include "main.h"
long mon_cases(Mon &m) { return m.thorough() ? 120000 : 22000; }
void mon_case(Mon &m, long n)
{
    Rng r = m.rng(n);
    HistOpt ho;
    ho.pro = 0;
    ho.big_lists = true;
    ho.maxtiles = 14;
    ho.screens = 700;
    Hist h = make_hist(r, ho);
    if (h.calls[0].tiles.size() > 90) m.count("screens");
    static const char *names[] = {"acc", "acc", "acc", "nosimd", "port"};
    std::string ln = names[r.in(0, 4)];
    const Lib &l = m.lib(m.has(ln) ? ln : "acc");
    if (n % 50 == 7)
    {
        /* the largest lists the format can express */
        Call c = h.calls[0];
        c.quants = make_quants(r, 255);
        c.null_quants = false;
        for (auto &t : c.tiles) { t.quant_y = r.in(0, 254); t.quant_cb = 254; t.quant_cr = r.in(120, 254); }
        int many = r.one_in(3) ? 4000 : 1000;
        while ((int)c.rects.size() < many) c.rects.push_back(rfx_rect{r.in(0, 65535), r.in(0, 65535), r.in(0, 65535), r.in(0, 65535)});
        c.cap = -1;
        h.calls.push_back(c);
    }
    if (n == 3 || n == 4)
    {
        /* n == 3: very many tiles; n == 4: more than 16 MiB in one message */
        GenOpt go;
        go.pro = 0;
        Cfg cfg = make_cfg(r, go);
        if (!go.pro) cfg.fmt = RFX_FORMAT_BGRA;
        Call c;
        bool huge = n == 4;
        c.pic = make_pic0(r, cfg.fmt, huge ? 640 : 64, huge ? 640 : 64, huge ? PK_BINARY : PK_CONST);
        if (huge) for (auto &v : c.pic->mem) v = r.one_in(2) ? 0 : 255;
        c.quants.assign(5, huge ? 0x66 : 0x88);
        long many = huge ? 16777216L / (c.pic->fmt == RFX_FORMAT_YUV ? 12000 : 7000) + 40 : r.in(33000, 65535);
        for (long i = 0; i < many; i++) c.tiles.push_back(rfx_tile{huge ? (int)(i % 10) * 64 : 0, huge ? (int)(i / 10 % 10) * 64 : 0, 64, 64, 0, 0, 0});
        c.rects.push_back(rfx_rect{0, 0, 640, 640});
        c.cap = huge ? 40000000 : 200 * (int)many + 60000;
        h.cfg = cfg;
        h.calls.assign(1, c);
        m.count(huge ? "messages beyond 16 MiB asked for" : "messages with tens of thousands of tiles asked for");
    }
    Enc e(l, h.cfg);
    m.sample(describe(h.cfg) + "; " + describe(h.calls[0]));
    bool header = true;
    for (auto &c : h.calls)
    {
        /* calls without any tile are messages too */
        if (n > 4 && r.one_in(15)) c.tiles.clear();
        RunOpt o;
        o.prefill = r.in(0, 255);
        Result x = e.run(c, o);
        m.count(x.ret < 0 ? "calls refused" : "messages");
        if (x.ret < 0) continue;
        PMsg pm;
        check_fields(h.cfg, c, x, pm, header, true);
        header = false;
        for (size_t i = 0; i < pm.tiles.size(); i++)
        {
            std::string why;
            for (int k = 0; k < 3; k++)
            {
                std::vector<int> co;
                if (!decode_component(pm.tiles[i].comp[k], h.cfg.mode(), false, co, &why))
                    VIOL("tile %zu %s: %s (%s; %s)", i, comp_name(k), why.c_str(), describe(h.cfg).c_str(), describe(c).c_str());
            }
            if (c.alpha())
            {
                Bytes a;
                if (!plane_decode(pm.tiles[i].alpha.data(), pm.tiles[i].alpha.size(), 64, 64, a, &why))
                    VIOL("tile %zu alpha: %s (%s; %s)", i, why.c_str(), describe(h.cfg).c_str(), describe(c).c_str());
                m.count("alpha components");
            }
        }
        if (n == 3 || n == 4)
        {
            m.count("largest lists parsed", x.ret);
            if (n == 4 && x.out.size() > (1u << 24)) m.count("messages beyond 16 MiB");
        }
        if (x.ret < (int)c.tiles.size()) m.count("partial messages");
        if (x.ret == 0) m.count("messages without tiles");
        m.count("tiles parsed", x.ret);
        m.count("rectangles parsed", pm.rects.size());
        m.count("tables parsed", pm.nquants);
        m.see(hash_bytes(x.out.data(), x.out.size()));
    }
}
void mon_done(Mon &m) {}
