/* C19: bounded memory, everything released. */
#include "main.h"
#include <map>
long mon_cases(Mon &m) { return m.thorough() ? 300000 : 36000; }
static const long BASE = 4L << 20, PER_TILE = 64L << 10;
struct Acct
{
    const Lib &l;
    long live0, bytes0;
    explicit Acct(const Lib &x) : l(x), live0(x.shim->live_blocks), bytes0(x.shim->live_bytes) {}
    long bytes() const { return l.shim->live_bytes - bytes0; }
    void released(const char *when, const Cfg &c) const
    {
        if (l.shim->live_blocks != live0 || bytes() != 0)
            VIOL("%s: %ld block(s), %ld byte(s) still allocated (%s)", when, l.shim->live_blocks - live0, bytes(), describe(c).c_str());
        if (l.shim->bad_frees) VIOL("%s: memory freed that was not allocated (%s)", when, describe(c).c_str());
    }
};
static void bounded(Mon &m, const Acct &a, const Cfg &cfg, size_t positions, long frame)
{
    long lim = BASE + PER_TILE * (long)positions;
    m.count("memory readings");
    if (a.bytes() > lim)
        VIOL("%ld bytes allocated after %ld calls with %zu tile positions in use (%s)", a.bytes(), frame, positions, describe(cfg).c_str());
}
/* the same tiles again and again: not one byte more after the second round */
static void steady(Mon &m, const Lib &l, Rng &r, bool pro, long frames)
{
    HistOpt ho;
    ho.pro = pro;
    ho.maxtiles = 4;
    ho.maxdim = 130;
    ho.min_calls = 3;
    ho.max_calls = 3;
    ho.keys = false;
    Hist h = make_hist(r, ho);
    for (auto &c : h.calls) if (c.rects.size() > 20) c.rects.resize(20);
    Acct a(l);
    {
        Enc e(l, h.cfg);
        long settled = -1;
        bool keys = pro && r.one_in(2);
        for (long i = 0; i < frames; i++)
        {
            Call c = h.calls[i % 3];
            if (keys && i % 3 == 0) c.flags |= RFX_FLAGS_PRO_KEY;
            run_call(l, e.h, c);
            m.count("steady-state frames");
            if (i == 5) settled = l.shim->live_bytes;
            /* readings at the same point of the cycle */
            if (i > 5 && i % 3 == 2)
            {
                m.count("memory readings");
                if (l.shim->live_bytes > settled)
                    VIOL("memory grew from %ld to %ld bytes while encoding the same tiles for %ld calls (%s)", settled - a.bytes0, l.shim->live_bytes - a.bytes0, i + 1, describe(h.cfg).c_str());
            }
        }
    }
    a.released("after destroying", h.cfg);
    m.count("destructions");
}
/* very many calls that cost little: empty messages, refused calls, one plain tile */
static void marathon(Mon &m, const Lib &l, Rng &r, int kind)
{
    Cfg cfg = make_cfg(r, GenOpt());
    cfg.fmt = kind & 1 ? RFX_FORMAT_YUV : RFX_FORMAT_BGRA;
    cfg.flags &= ~RFX_FLAGS_PRO1;
    if (kind == 3 || kind == 5) cfg.flags |= RFX_FLAGS_PRO1;
    bool empty = kind == 0, refused = kind == 1 || kind == 5, alpha = kind == 4;
    long calls = (empty || refused ? 1000000 : 30000) * (m.thorough() ? 12 : 1);
    static uint8_t img[16384], out[60000];
    memset(img, 77, sizeof(img));
    rfx_rect rc{0, 0, 64, 64};
    rfx_tile t{0, 0, 64, 64, 0, 0, 0};
    Acct a(l);
    {
        Enc e(l, cfg);
        long settled = -1, blocks = -1;
        for (long i = 0; i < calls; i++)
        {
            int n = refused ? 20 : (int)sizeof(out);
            int x = l.encode_ex(e.h, (char *)out, &n, (char *)img, 64, 64, 256, &rc, 1, &t, empty ? 0 : 1, nullptr, 0, alpha ? RFX_FLAGS_ALPHAV1 : 0);
            if (refused ? x >= 0 : x != (empty ? 0 : 1)) VIOL("call %ld of a row returned %d (%s)", i, x, describe(cfg).c_str());
            if (i == 20) settled = l.shim->live_bytes, blocks = l.shim->live_blocks;
            if (i > 20 && (l.shim->live_bytes > settled || l.shim->live_blocks > blocks))
                VIOL("memory grew from %ld to %ld bytes with call %ld of a row of like calls (%s)", settled - a.bytes0, l.shim->live_bytes - a.bytes0, i, describe(cfg).c_str());
        }
        m.count("calls in very long rows", calls);
    }
    a.released("after destroying", cfg);
    m.count("destructions");
}
/* every position of the progressive grid, then a key frame */
static void grid(Mon &m, const Lib &l, Rng &r)
{
    Cfg cfg;
    cfg.fmt = RFX_FORMAT_YUV;
    cfg.flags = RFX_FLAGS_PRO1;
    cfg.w = cfg.h = 4096;
    PicP p = make_pic0(r, RFX_FORMAT_YUV, 64, 64, PK_GRAD);
    Acct a(l);
    {
        Enc e(l, cfg);
        std::set<std::pair<int, int>> pos;
        int n = r.in(200, 4096);
        long after_key = -1;
        for (int round = 0; round < 2; round++)
        {
            for (int i = 0; i < n; i++)
            {
                Call c;
                int x = (i * 37 + round * 5) % 64, y = (i / 64 * 11 + round) % 64;
                c.pic = std::make_shared<Pic>(*p);
                c.pic->ox = x * 64;
                c.pic->oy = y * 64;
                c.null_quants = true;
                c.tiles.push_back(rfx_tile{x * 64, y * 64, 64, 64, 0, 0, 0});
                if (i == 0 && round == 1)
                {
                    c.flags |= RFX_FLAGS_PRO_KEY;
                    pos.clear();
                }
                Result z = run_call(l, e.h, c);
                if (z.ret != 1) VIOL("tile (%d,%d) not encoded", x, y);
                pos.insert({x, y});
                m.count("grid tiles");
                bounded(m, a, cfg, pos.size(), i + 1);
                if (i == 0 && round == 1) after_key = a.bytes();
            }
        }
        m.count("grids filled");
        /* key frame alone: back to what one tile needs */
        if (after_key > BASE + PER_TILE) VIOL("%ld bytes still in use after a key frame", after_key);
    }
    a.released("after destroying", cfg);
    m.count("destructions");
}
void mon_case(Mon &m, long n)
{
    Rng r = m.rng(n);
    static const char *names[] = {"acc", "acc", "nosimd", "port"};
    std::string ln = names[r.in(0, 3)];
    const Lib &l = m.lib(m.has(ln) ? ln : "acc");
    l.shim->fail_in = 0;
    l.shim->fail_every = 0;
    if (n < 8)
    {
        steady(m, l, r, n & 1, m.thorough() ? 60000 : 2500);
        return;
    }
    if (n < 16)
    {
        grid(m, l, r);
        return;
    }
    if (n < 28)
    {
        marathon(m, l, r, (n - 16) % 6);
        return;
    }
    if (n % 7 == 0)
    {
        /* creation that is refused: unknown format, no memory */
        Acct a(l);
        Cfg c = make_cfg(r, GenOpt());
        void *h = (void *)0x1234;
        if (r.one_in(2))
        {
            int f = r.one_in(2) ? r.in(5, 1000) : -r.in(1, 1000);
            if (r.one_in(2)) l.create_ex(c.w, c.h, f, c.flags, &h);
            else l.create(c.w, c.h, f, c.flags);
            c.fmt = f;
            a.released("after refusing an unknown format", c);
        }
        else
        {
            l.shim->fail_in = r.in(1, 3);
            h = nullptr;
            int rc = l.create_ex(c.w, c.h, c.fmt, c.flags, &h);
            bool failed = l.shim->fail_in == 0;
            l.shim->fail_in = 0;
            if (rc == 0) l.destroy(h);
            a.released("after a creation short of memory", c);
        }
        m.count("refused creations");
        return;
    }
    HistOpt ho;
    ho.maxtiles = 8;
    ho.maxdim = 260;
    ho.min_calls = 0;
    ho.max_calls = 12;
    if (r.one_in(2)) ho.pro = 1;
    Hist h = make_hist(r, ho);
    if (!h.calls.empty()) m.sample(describe(h.cfg) + "; " + describe(h.calls[0]));
    Acct a(l);
    std::unique_ptr<Enc> e(new Enc(l, h.cfg)), e2;
    std::set<std::pair<int, int>> pos;
    long f = 0;
    bounded(m, a, h.cfg, 0, 0);
    for (auto &c : h.calls)
    {
        bool inject = r.one_in(6);
        if (inject) l.shim->fail_in = r.in(1, 4);
        Result x = e->run(c);
        l.shim->fail_in = 0;
        m.count(x.ret < 0 ? "calls refused" : x.ret < (int)c.tiles.size() ? "calls partial" : "calls complete");
        /* after a successful key frame only its own tiles count; a refused one may
         * have cleared or kept the rest */
        if (h.cfg.pro() && (c.flags & RFX_FLAGS_PRO_KEY) && x.ret >= 0) pos.clear();
        for (auto &t : c.tiles) pos.insert({t.x, t.y});
        bounded(m, a, h.cfg, h.cfg.pro() ? pos.size() : 0, ++f);
        m.see(mix64(a.bytes()) ^ mix64(pos.size()));
    }
    e.reset();
    a.released("after destroying", h.cfg);
    m.count("destructions");
    /* tight bound seen per position, for the record */
}
void mon_done(Mon &m) {}
