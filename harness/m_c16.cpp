/* C16: allocation failures.  A history is run once to count its allocations,
 * then again with the k-th one refused for every k, with pairs, and with
 * everything refused from k on for a while; the encoder must stay usable and
 * its stream decodable, and nothing may be lost. */
#include "main.h"
long mon_cases(Mon &m)
{
#ifdef MON_ASAN
    return m.thorough() ? 6000 : 400;
#else
    return m.thorough() ? 30000 : 2000;
#endif
}
static const Lib &pick_lib(Mon &m, Rng &r)
{
#ifdef MON_ASAN
    const Lib &l = m.lib(r.one_in(2) ? "asan" : "asan_c");
    l.shim->rz_mode = 1;
#else
    static const char *n[] = {"acc", "acc", "nosimd", "port"};
    std::string k = n[r.in(0, 3)];
    const Lib &l = m.has(k) ? m.lib(k) : m.lib("acc");
#endif
    return l;
}
struct Plan { long first, every; long until; };
/* runs the history; every call whose 'until' has passed runs without failures */
static long play(Mon &m, const Lib &l, const Hist &h, const Plan &p)
{
    shim_state *s = l.shim;
    s->fail_in = 0;
    s->fail_every = 0;
    long a0 = s->allocs, live0 = s->live_blocks, bytes0 = s->live_bytes;
    s->cpu_level = h.cfg.cpu;
    s->fail_in = p.first;
    s->fail_every = p.every;
    void *e = nullptr;
    long f0 = s->failed;
    for (int tries = 0; tries < 4 && !e; tries++)
    {
        long f1 = s->failed;
        int rc = l.create_ex(h.cfg.w, h.cfg.h, h.cfg.fmt, h.cfg.flags, &e);
        if (rc != 0)
        {
            e = nullptr;
            if (s->failed == f1) VIOL("creation refused (%d) although no allocation failed: %s", rc, describe(h.cfg).c_str());
            if (s->live_blocks != live0) VIOL("refused creation left %ld block(s) behind", s->live_blocks - live0);
            m.count("creations refused");
            if (tries == 2) s->fail_in = 0;
        }
        else if (!e)
        {
            VIOL("creation reported success without a handle");
        }
    }
    ProClient cl;
    bool first = true;
    std::vector<bool> sent;
    for (auto &c : h.calls)
    {
        if (s->failed - f0 >= p.until) s->fail_in = 0;
        long f1 = s->failed;
        Result x = run_call(l, e, c);
        bool hit = s->failed != f1;
        if (hit) m.count("calls with a refused allocation");
        if (x.ret < 0)
        {
            if (!hit && c.cap < 0) VIOL("call refused although space was ample and no allocation failed (%s; %s)", describe(h.cfg).c_str(), describe(c).c_str());
            m.count("calls refused");
            continue;
        }
        if (!hit && c.cap < 0 && x.ret != (int)c.tiles.size())
            VIOL("%d of %zu tiles although space was ample and no allocation failed (%s; %s)", x.ret, c.tiles.size(), describe(h.cfg).c_str(), describe(c).c_str());
        if (h.cfg.pro() && x.ret == 0 && x.out.empty()) continue;
        PMsg pm;
        check_fields(h.cfg, c, x, pm, false, false);
        if (first && !pm.header) VIOL("the first message carries no stream header (%s; %s)", describe(h.cfg).c_str(), describe(c).c_str());
        if (!first && pm.header && !h.cfg.pro()) VIOL("stream header repeated (%s; %s)", describe(h.cfg).c_str(), describe(c).c_str());
        first = false;
        if (h.cfg.pro()) check_pro_content(h.cfg, c, pm, cl);
        else check_classic_content(h.cfg, c, pm, true, true);
        m.count("messages decoded");
        if (hit && x.ret < (int)c.tiles.size()) m.count("shortened messages decoded");
        if (s->failed > f0 && !hit) m.count("messages after a failure decoded");
        m.see(mix64(p.first * 31 + p.every) ^ hash_bytes(x.out.data(), x.out.size()));
    }
    s->fail_in = 0;
    s->fail_every = 0;
    long total = s->allocs - a0;
    l.destroy(e);
    if (s->live_blocks != live0 || s->live_bytes != bytes0)
        VIOL("after destroying the encoder %ld block(s), %ld byte(s) are still allocated (%s)", s->live_blocks - live0, s->live_bytes - bytes0, describe(h.cfg).c_str());
    if (s->bad_frees) VIOL("memory freed that was not allocated");
    if (l.check_zones()) VIOL("zones between the work areas overwritten");
    return total;
}
void mon_case(Mon &m, long n)
{
    Rng r = m.rng(n);
    const Lib &l = pick_lib(m, r);
    HistOpt ho;
    ho.pro = n % 5 != 0;
    ho.maxtiles = 6;
    ho.maxdim = 200;
    ho.min_calls = 2;
    ho.max_calls = 6;
    ho.screens = 150;
    Hist h = make_hist(r, ho);
    if (h.calls[0].tiles.size() > 90) m.count("screens");
    for (auto &c : h.calls)
    {
        if (c.rects.size() > 30) c.rects.resize(30);
        if (r.one_in(2)) c.cap = -1;
    }
    m.sample(describe(h.cfg) + "; " + describe(h.calls[0]));
    long k = play(m, l, h, {0, 0, 0});
    m.count("allocations counted", k);
    bool big = h.calls[0].tiles.size() > 90;
    for (long i = 1; i <= k && i <= (big ? 2 : 40); i++)
    {
        play(m, l, h, {i, 0, 1});
        m.count("single failures tried");
    }
    for (int t = 0; t < 4; t++)
    {
        Plan p{1 + (long)(r.u64() % (k + 1)), r.in(1, 4), r.one_in(2) ? r.in(1, 6) : 1000000};
        play(m, l, h, p);
        m.count("repeated failures tried");
    }
}
void mon_done(Mon &m) {}
