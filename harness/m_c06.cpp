/* C06: header exactly when due, frames numbered 0,1,2... per header, failed
 * calls consume nothing.  A trace checker over the messages of one encoder. */
#include "main.h"
long mon_cases(Mon &m) { return m.thorough() ? 60000 : 16000; }

struct Trace
{
    bool pro;
    bool first = true;
    uint32_t next = 0;
    bool maybe_reset = false; /* a key frame call failed: the encoder may or may not have started over */
    void fail(const Call &c)
    {
        if (pro && (c.flags & RFX_FLAGS_PRO_KEY)) maybe_reset = true;
    }
    void ok(const Cfg &cfg, const Call &c, bool header, uint32_t idx)
    {
        bool key = pro && (c.flags & RFX_FLAGS_PRO_KEY);
        bool due = first || key;
        if (maybe_reset && !due && header) due = true;
        if (header != due)
            VIOL("stream header %s in message %u since the last header (%s; %s)", header ? "repeated" : "missing", next, describe(cfg).c_str(), describe(c).c_str());
        uint32_t want = due ? 0 : next;
        if (idx != want) VIOL("frame number %u, expected %u (%s; %s)", idx, want, describe(cfg).c_str(), describe(c).c_str());
        next = want + 1;
        first = false;
        maybe_reset = false;
    }
};
/* reads header presence and frame number only */
static bool peek(bool pro, const uint8_t *b, size_t size, bool *header, uint32_t *idx)
{
    size_t p = 0;
    *header = false;
    while (p + 6 <= size)
    {
        unsigned t = b[p] | b[p + 1] << 8;
        size_t len = b[p + 2] | b[p + 3] << 8 | b[p + 4] << 16 | (size_t)b[p + 5] << 24;
        if (t == 0xCCC0) *header = true;
        if (t == (pro ? 0xCCC1u : 0xCCC4u) && (!pro || len == 12))
        {
            size_t q = p + (pro ? 6 : 8);
            if (q + 4 > size) return false;
            *idx = b[q] | b[q + 1] << 8 | b[q + 2] << 16 | (uint32_t)b[q + 3] << 24;
            return true;
        }
        if (len < 6 || len > size - p) return false;
        p += len;
    }
    return false;
}
static void feed(Mon &m, Enc &e, Trace &t, const Call &c)
{
    Result x = e.run(c);
    bool none = t.pro && x.ret <= 0;
    if (x.ret < 0 || none)
    {
        t.fail(c);
        m.count("failed calls");
        return;
    }
    bool hd;
    uint32_t idx = 0;
    if (!peek(t.pro, x.out.data(), x.out.size(), &hd, &idx)) VIOL("no frame begin in the message (%s; %s)", describe(e.cfg).c_str(), describe(c).c_str());
    t.ok(e.cfg, c, hd, idx);
    m.count("messages");
    if (hd) m.count("headers");
    m.see(mix64(idx) ^ mix64(x.out.size() * 2 + hd));
}
void mon_case(Mon &m, long n)
{
    Rng r = m.rng(n);
    static const char *names[] = {"acc", "acc", "nosimd", "port"};
    std::string ln = names[r.in(0, 3)];
    const Lib &l = m.lib(m.has(ln) ? ln : "acc");
    HistOpt ho;
    ho.maxdim = 130;
    ho.maxtiles = 3;
    ho.min_calls = 4;
    ho.max_calls = 24;
    ho.pro = n % 2;
    ho.stray = true;
    if (n < 8)
    {
        /* long runs: frame numbers past 8 and 16 bits (thorough: 24) */
        ho.min_calls = ho.max_calls = 2;
        ho.limited = false;
        Hist h = make_hist(r, ho);
        Call c = h.calls[0];
        c.flags = 0;
        c.tiles.resize(1);
        c.rects.clear();
        c.null_quants = true;
        c.quants.clear();
        for (auto &t : c.tiles) t.quant_y = t.quant_cb = t.quant_cr = 0;
        if (!h.cfg.pro()) c.tiles.clear();
        else c.pic = make_pic0(r, RFX_FORMAT_YUV, 64, 64, PK_CONST), c.tiles[0] = rfx_tile{0, 0, 64, 64, 0, 0, 0};
        Enc e(l, h.cfg);
        Trace t{h.cfg.pro()};
        if (n < 2)
        {
            /* as many frames as there is time for, called directly */
            static uint8_t o[8192];
            long frames = h.cfg.pro() ? (m.thorough() ? 1100000 : 140000) : (m.thorough() ? (1L << 28) + 300 : (1L << 24) + 300);
            const char *buf = (const char *)c.pic->mem.data();
            for (long i = 0; i < frames; i++)
            {
                int cb = sizeof(o);
                int rc = l.encode_ex(e.h, (char *)o, &cb, buf, 64, 64, c.pic->stride, nullptr, 0, c.tiles.data(), (int)c.tiles.size(), nullptr, 0, 0);
                bool hd;
                uint32_t idx = 0;
                if (rc < 0) VIOL("frame %ld refused (%s; %s)", i, describe(h.cfg).c_str(), describe(c).c_str());
                if (!peek(t.pro, o, cb, &hd, &idx)) VIOL("no frame begin in message %ld", i);
                t.ok(h.cfg, c, hd, idx);
            }
            m.count("frames in long runs", frames);
            for (int i = 0; h.cfg.pro() && i < 4; i++)
            {
                /* starting over after that many frames */
                Call k = c;
                if (i % 2 == 0) k.flags |= RFX_FLAGS_PRO_KEY;
                feed(m, e, t, k);
            }
            return;
        }
        long frames = h.cfg.pro() ? (m.thorough() ? 300000 : 70000) : (m.thorough() ? 17000000 : 140000);
        if (n >= 4) frames = h.cfg.pro() ? 3000 : 40000;
        c.cap = 4096 + 512;
        if (!h.cfg.pro()) c.cap = 400;
        Call bad = c;
        bad.cap = 20;
        for (long i = 0; i < frames; i++)
        {
            if (n >= 4 && r.one_in(5)) feed(m, e, t, bad);
            Call k = c;
            if (h.cfg.pro() && n >= 4 && r.one_in(400)) k.flags |= RFX_FLAGS_PRO_KEY;
            feed(m, e, t, k);
        }
        m.count("frames in long runs", frames);
        if (h.cfg.pro())
        {
            Call k = c;
            k.flags |= RFX_FLAGS_PRO_KEY;
            feed(m, e, t, k);
            feed(m, e, t, c);
        }
        return;
    }
    Hist h = make_hist(r, ho);
    Enc e(l, h.cfg);
    Trace t{h.cfg.pro()};
    m.sample(describe(h.cfg) + "; " + describe(h.calls[0]));
    if (r.one_in(3))
    {
        /* refused right at the start, several times */
        for (int i = r.in(1, 4); i > 0; i--)
        {
            Call c = h.calls[0];
            c.cap = r.in(0, 200);
            feed(m, e, t, c);
        }
    }
    for (auto &c : h.calls)
    {
        if (r.one_in(8)) c.tiles.clear();
        if (r.one_in(14))
        {
            /* a row of calls that cannot succeed */
            Call f = c;
            for (int i = r.one_in(4) ? r.in(60, 300) : r.in(5, 60); i > 0; i--)
            {
                f.cap = r.in(0, 50);
                feed(m, e, t, f);
            }
            m.count("failures in a row");
        }
        if (r.one_in(6))
        {
            /* no memory for some time */
            l.shim->fail_in = r.in(1, 2);
            l.shim->fail_every = r.one_in(2) ? 1 : 0;
            long f0 = l.shim->failed;
            feed(m, e, t, c);
            l.shim->fail_in = 0;
            l.shim->fail_every = 0;
            if (l.shim->failed != f0) m.count("calls with a refused allocation");
        }
        feed(m, e, t, c);
        if (h.cfg.pro() && r.one_in(6))
        {
            /* ways of failing other than lack of space */
            Call b = c;
            b.cap = -1;
            spoil(r, b);
            feed(m, e, t, b);
            m.count("calls with unusable tiles");
        }
    }
    m.count("histories");
}
void mon_done(Mon &m) {}
