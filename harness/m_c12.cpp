/* C12: a key frame is indistinguishable from a new encoder. */
#include "main.h"
long mon_cases(Mon &m) { return m.thorough() ? 80000 : 20000; }
void mon_case(Mon &m, long n)
{
    Rng r = m.rng(n);
    HistOpt ho;
    ho.pro = 1;
    ho.maxtiles = 6;
    ho.maxdim = 200;
    ho.min_calls = 1;
    ho.max_calls = 6;
    ho.screens = 450;
    Hist h = make_hist(r, ho);
    if (h.calls[0].tiles.size() > 90) m.count("screens");
    static const char *names[] = {"acc", "acc", "acc", "nosimd", "port"};
    std::string ln = names[r.in(0, 4)];
    const Lib &l = m.lib(m.has(ln) ? ln : "acc");
    l.shim->junk = r.in(0, 255);
    Enc a(l, h.cfg);
    for (auto &c : h.calls) a.run(c);
    m.sample(describe(h.cfg) + "; " + describe(h.calls[0]));
    for (int round = r.in(1, 3); round > 0; round--)
    {
        /* often the very tiles sent before, changed or not */
        Call k = h.calls[r.u64() % h.calls.size()];
        if (r.one_in(2)) k.pic = evolve(r, k.pic);
        k.flags |= RFX_FLAGS_PRO_KEY;
        k.cap = r.one_in(4) ? pick_cap(r, h.cfg, k) : -1;
        Result x = a.run(k);
        if (x.ret <= 0)
        {
            m.count("key frames refused");
            continue;
        }
        Enc b(l, h.cfg), p(l, h.cfg);
        Result y = b.run(k);
        if (!(x == y)) VIOL("key frame gives %d/%zu, a new encoder %d/%zu for the same call (%s; %s)", x.ret, x.out.size(), y.ret, y.out.size(), describe(h.cfg).c_str(), describe(k).c_str());
        Call k0 = k;
        k0.flags &= ~RFX_FLAGS_PRO_KEY;
        Result z = p.run(k0);
        if (!(x == z)) VIOL("key frame differs from a new encoder's first frame (%s; %s)", describe(h.cfg).c_str(), describe(k).c_str());
        m.count("key frames compared");
        m.see(hash_bytes(x.out.data(), x.out.size()));
        HistOpt h2 = ho;
        h2.keys = false;
        PicP pic = k.pic;
        for (int i = r.in(1, 5); i > 0; i--)
        {
            Call c = h.calls[r.u64() % h.calls.size()];
            if (r.one_in(3))
            {
                c.pic = evolve(r, c.pic);
            }
            else if (r.one_in(2))
            {
                pic = evolve(r, pic);
                c = k0;
                c.pic = pic;
            }
            c.flags &= ~RFX_FLAGS_PRO_KEY;
            c.cap = r.one_in(3) ? pick_cap(r, h.cfg, c) : -1;
            Result u = a.run(c), v = b.run(c), w = p.run(c);
            if (!(u == v) || !(u == w))
                VIOL("after a key frame a call gives %d/%zu, on a new encoder %d/%zu (%s; %s)", u.ret, u.out.size(), v.ret, v.out.size(), describe(h.cfg).c_str(), describe(c).c_str());
            m.count("later calls compared");
            if (u.ret > 0 && u.ret < (int)c.tiles.size()) m.count("later calls partial");
            if (u.ret < 0) m.count("later calls refused");
        }
    }
}
void mon_done(Mon &m) {}
