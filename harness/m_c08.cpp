/* C08: classic tiles carry exactly the specified transform. */
#include "main.h"
long mon_cases(Mon &m) { return m.thorough() ? 150000 : 30000; }
void mon_case(Mon &m, long n)
{
    Rng r = m.rng(n);
    HistOpt ho;
    ho.pro = 0;
    ho.maxtiles = 8;
    ho.max_calls = 5;
    ho.screens = 600;
    Hist h = make_hist(r, ho);
    if (h.calls[0].tiles.size() > 90) m.count("screens");
    static const char *names[] = {"acc", "acc", "acc", "acc", "nosimd", "port"};
    std::string ln = names[r.in(0, 5)];
    const Lib &l = m.lib(m.has(ln) ? ln : "acc");
    Enc e(l, h.cfg);
    m.sample(describe(h.cfg) + "; " + describe(h.calls[0]));
    for (auto &c : h.calls)
    {
        Result x = e.run(c);
        if (x.ret < 0)
        {
            m.count("calls refused");
            continue;
        }
        PMsg pm;
        std::string why;
        if (!parse_classic(x.out.data(), x.out.size(), pm, &why)) VIOL("malformed message: %s (%s; %s)", why.c_str(), describe(h.cfg).c_str(), describe(c).c_str());
        if (pm.tiles.size() > c.tiles.size()) VIOL("more tiles than asked for");
        check_classic_content(h.cfg, c, pm, true, false);
        m.count("messages");
        m.count("tiles checked", pm.tiles.size());
        m.count(fmt("tiles %s RLGR%d %s", (h.cfg.flags & RFX_FLAGS_NOACCEL) ? "unaccelerated" : h.cfg.cpu == 0 ? "no SSE" : h.cfg.cpu == 1 ? "SSE2" : "SSE4.1", h.cfg.mode(), fmt_name(h.cfg.fmt)).c_str(), pm.tiles.size());
        for (auto &t : pm.tiles) for (int k = 0; k < 3; k++) m.see(hash_bytes(t.comp[k].data(), t.comp[k].size()));
        for (size_t i = 0; i < pm.tiles.size(); i++)
            if (c.tiles[i].quant_y != c.tiles[i].quant_cb || c.tiles[i].quant_cb != c.tiles[i].quant_cr) m.count("tiles with different tables per component");
    }
}
void mon_done(Mon &m) {}
