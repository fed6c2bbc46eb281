/* C05: every progressive message is one complete, exact message. */
#include "main.h"
long mon_cases(Mon &m) { return m.thorough() ? 100000 : 20000; }
void mon_case(Mon &m, long n)
{
    Rng r = m.rng(n);
    HistOpt ho;
    ho.pro = 1;
    ho.big_lists = true;
    ho.maxtiles = 14;
    ho.max_calls = 8;
    ho.screens = 700;
    Hist h = make_hist(r, ho);
    if (h.calls[0].tiles.size() > 90) m.count("screens");
    static const char *names[] = {"acc", "acc", "acc", "nosimd", "port"};
    std::string ln = names[r.in(0, 4)];
    const Lib &l = m.lib(m.has(ln) ? ln : "acc");
    if (n % 50 == 7)
    {
        Call c = h.calls[0];
        c.quants = make_quants(r, 255);
        c.null_quants = false;
        for (auto &t : c.tiles) { t.quant_y = r.in(0, 254); t.quant_cb = 254; t.quant_cr = r.in(120, 254); }
        int many = r.one_in(3) ? 4000 : 1000;
        while ((int)c.rects.size() < many) c.rects.push_back(rfx_rect{r.in(0, 65535), r.in(0, 65535), r.in(0, 65535), r.in(0, 65535)});
        c.cap = -1;
        h.calls.push_back(c);
    }
    if (n == 3 || n == 4)
    {
        /* n == 3: very many tiles; n == 4: more than 16 MiB in one message */
        GenOpt go;
        go.pro = 1;
        Cfg cfg = make_cfg(r, go);
        if (!go.pro) cfg.fmt = RFX_FORMAT_BGRA;
        Call c;
        bool huge = n == 4;
        c.pic = make_pic0(r, cfg.fmt, huge ? 2560 : 64, huge ? 2304 : 64, PK_CONST);
        /* every tile another place: nothing shrinks to a difference */
        if (huge) for (auto &v : c.pic->mem) v = r.u64() & 1 ? 255 : 0;
        c.quants.assign(5, huge ? 0x66 : 0x88);
        long many = huge ? 40 * 36 : r.in(33000, 65535);
        for (long i = 0; i < many; i++) c.tiles.push_back(rfx_tile{huge ? (int)(i % 40) * 64 : 0, huge ? (int)(i / 40) * 64 : 0, 64, 64, 0, 0, 0});
        c.rects.push_back(rfx_rect{0, 0, 640, 640});
        c.cap = huge ? 40000000 : 200 * (int)many + 60000;
        h.cfg = cfg;
        h.calls.assign(1, c);
        m.count(huge ? "messages beyond 16 MiB asked for" : "messages with tens of thousands of tiles asked for");
    }
    Enc e(l, h.cfg);
    m.sample(describe(h.cfg) + "; " + describe(h.calls[0]));
    for (auto &c : h.calls)
    {
        RunOpt o;
        o.prefill = r.in(0, 255);
        Result x = e.run(c, o);
        m.count(x.ret < 0 ? "calls refused" : "messages");
        if (x.ret < 0) continue;
        PMsg pm;
        check_fields(h.cfg, c, x, pm, false, false);
        for (size_t i = 0; i < pm.tiles.size(); i++)
        {
            std::string why;
            for (int k = 0; k < 3; k++)
            {
                std::vector<int> co;
                if (!decode_component(pm.tiles[i].comp[k], 1, true, co, &why))
                    VIOL("tile %zu %s: %s (%s; %s)", i, comp_name(k), why.c_str(), describe(h.cfg).c_str(), describe(c).c_str());
            }
            m.count((pm.tiles[i].flags & 1) ? "difference tiles" : "full tiles");
        }
        if (n == 3 || n == 4)
        {
            m.count("largest lists parsed", x.ret);
            if (n == 4 && x.out.size() > (1u << 24)) m.count("messages beyond 16 MiB");
        }
        if (x.ret < (int)c.tiles.size()) m.count("partial messages");
        m.count("rectangles parsed", pm.rects.size());
        m.count("tables parsed", pm.nquants);
        m.see(hash_bytes(x.out.data(), x.out.size()));
    }
}
void mon_done(Mon &m) {}
