/* C13: limited space = whole-tile prefix; failed calls leave no trace.  Every
 * history runs on the encoder under test and on a twin that is only given the
 * tiles that fitted, with ample space, and never the failing calls. */
#include "main.h"
long mon_cases(Mon &m) { return m.thorough() ? 60000 : 16000; }
void mon_case(Mon &m, long n)
{
    Rng r = m.rng(n);
    HistOpt ho;
    ho.maxtiles = 8;
    ho.maxdim = 260;
    ho.min_calls = 3;
    ho.max_calls = 9;
    ho.pro = n % 5 < 2 ? 1 : 0;
    ho.big_lists = true;
    ho.screens = 250;
    Hist h = make_hist(r, ho);
    if (h.calls[0].tiles.size() > 90) m.count("screens");
    static const char *names[] = {"acc", "acc", "acc", "nosimd", "port"};
    std::string ln = names[r.in(0, 4)];
    const Lib &l = m.lib(m.has(ln) ? ln : "acc");
    Enc a(l, h.cfg);
    m.sample(describe(h.cfg) + "; " + describe(h.calls[0]));
    /* twins that are still possible; more than one only after a failed key frame */
    std::vector<std::unique_ptr<Enc>> tw;
    tw.emplace_back(new Enc(l, h.cfg));
    for (size_t ci = 0; ci < h.calls.size(); ci++)
    {
        Call c = h.calls[ci];
        if (r.one_in(3)) c.cap = pick_cap(r, h.cfg, c);
        bool key = h.cfg.pro() && (c.flags & RFX_FLAGS_PRO_KEY);
        if (!h.cfg.pro() && r.one_in(12)) c.tiles.clear();
        if (r.one_in(14))
        {
            /* a row of calls that cannot succeed */
            Call f = c;
            f.flags &= ~RFX_FLAGS_PRO_KEY;
            for (int i = r.one_in(4) ? r.in(60, 300) : r.in(2, 60); i > 0; i--)
            {
                f.cap = r.in(0, 50);
                if (a.run(f).ret >= 0) VIOL("a call succeeded in %d bytes (%s; %s)", f.cap, describe(h.cfg).c_str(), describe(f).c_str());
                m.count("failed calls in a row");
            }
        }
        if (h.cfg.pro() && r.one_in(8))
        {
            /* a call with a tile the encoder cannot serve */
            Call f = c;
            f.flags &= ~RFX_FLAGS_PRO_KEY;
            int at = spoil(r, f);
            if (at >= 0)
            {
                f.cap = -1;
                int got = a.run(f).ret;
                if (got > at) VIOL("a tile outside the grid or with a table not given was served (%s; %s)", describe(h.cfg).c_str(), describe(f).c_str());
                m.count(got >= 0 ? "unservable calls served in part" : "unservable calls refused");
                if (got >= 0)
                {
                    f.tiles.resize(got);
                    for (auto &t : tw) t->run(f);
                }
            }
        }
        Result x = a.run(c);
        if (c.cap < 0 && !c.tiles.empty() && x.ret != (int)c.tiles.size())
            VIOL("ample space (%d bytes) but %d of %zu tiles (%s; %s)", c.ample(), x.ret, c.tiles.size(), describe(h.cfg).c_str(), describe(c).c_str());
        if (x.ret < 0)
        {
            m.count("failed calls");
            if (key)
            {
                tw.emplace_back(new Enc(l, h.cfg));
                m.count("failed key frames");
            }
            continue;
        }
        if (x.ret > (int)c.tiles.size()) VIOL("returned %d of %zu tiles", x.ret, c.tiles.size());
        Call b = c;
        b.tiles.resize(x.ret);
        b.cap = -1;
        if (x.ret < (int)c.tiles.size())
        {
            m.count("partial calls");
            if (h.calls.size() < 150 && r.one_in(2))
            {
                h.calls.insert(h.calls.begin() + ci + 1, rest_of(r, c, x.ret));
                m.count("continuations");
            }
        }
        else m.count("complete calls");
        std::vector<std::unique_ptr<Enc>> left;
        int tret = 0;
        size_t tlen = 0;
        for (auto &t : tw)
        {
            Result y = t->run(b);
            tret = y.ret;
            tlen = y.out.size();
            if (y == x) left.push_back(std::move(t));
        }
        if (left.empty())
            VIOL("call returned %d tiles in %zu bytes; encoding just those tiles gives %d in %zu%s (%s; %s)", x.ret, x.out.size(), tret, tlen,
                 tlen == x.out.size() ? ", other bytes" : "", describe(h.cfg).c_str(), describe(c).c_str());
        tw = std::move(left);
        m.count("messages compared");
        m.see(mix64(c.cap) ^ hash_bytes(x.out.data(), x.out.size()));
    }
}
void mon_done(Mon &m) {}
