/* C17: colours and positions.  Tiles made of 64 colours (8x8 blocks) enumerate
 * the 24-bit colour space per format; noise tiles probe every position; all
 * edge tile sizes; far-away tiles; YUV taken up unchanged.  The oracle is the
 * specified conversion followed by the reference transform at the finest steps,
 * where every block value is visible in the coefficients. */
#include "main.h"
static long NCOL; /* tiles of the colour sweep */
static const long SWEEP = 262144;
static const long NODD = 5 * 256 * 2; /* plain tiles with one odd pixel, 16 a call */
long mon_cases(Mon &m)
{
    NCOL = 4 * (SWEEP / 16) * (m.thorough() ? 2 : 1) + 8;
    return NCOL + NODD + (m.thorough() ? 200000 : 49152);
}
static const Lib &pick_lib(Mon &m, Rng &r)
{
    static const char *n[] = {"acc", "acc", "nosimd", "port", "uchar", "clang"};
    std::string k = n[r.in(0, 5)];
    return m.has(k) ? m.lib(k) : m.lib("acc");
}
static void check(Mon &m, const Lib &l, const Cfg &cfg, const Call &c)
{
    Enc e(l, cfg);
    Result x = e.run(c);
    if (x.ret != (int)c.tiles.size()) VIOL("%d of %zu tiles (%s; %s)", x.ret, c.tiles.size(), describe(cfg).c_str(), describe(c).c_str());
    PMsg pm;
    std::string why;
    if (!parse_classic(x.out.data(), x.out.size(), pm, &why)) VIOL("malformed message: %s", why.c_str());
    check_classic_content(cfg, c, pm, true, false);
    if (c.alpha()) m.count("tiles through the path with alpha", x.ret);
    m.count("tiles checked", x.ret);
    m.see(hash_bytes(x.out.data(), x.out.size()));
}
static Cfg base(Rng &r, int f)
{
    Cfg cfg;
    cfg.fmt = f;
    cfg.w = cfg.h = 1024;
    cfg.flags = RFX_FLAGS_RLGR1 | (r.one_in(2) ? RFX_FLAGS_NOACCEL : 0);
    cfg.cpu = r.in(-1, 2);
    return cfg;
}
static void set_px(Pic &p, int x, int y, int r, int g, int b, int a)
{
    int bpp = bpp_of(p.fmt);
    uint8_t *s = &p.mem[(size_t)y * p.stride + (size_t)x * bpp];
    bool bgr = p.fmt == RFX_FORMAT_BGRA || p.fmt == RFX_FORMAT_BGR;
    s[0] = bgr ? b : r;
    s[1] = g;
    s[2] = bgr ? r : b;
    if (bpp == 4) s[3] = a;
}
void mon_case(Mon &m, long n)
{
    Rng r = m.rng(n);
    const Lib &l = pick_lib(m, r);
    static const uint8_t fine[5] = {0x66, 0x66, 0x66, 0x66, 0x66};
    if (n < NCOL)
    {
        int f = n & 3;
        long group = n >> 2; /* 16 tiles = 1024 colours */
        Cfg cfg = base(r, f);
        Call c;
        c.pic = std::make_shared<Pic>();
        c.pic->fmt = f;
        c.pic->w = c.pic->h = 256;
        c.pic->stride = 256 * bpp_of(f) + r.in(0, 40);
        c.pic->mem.resize((size_t)c.pic->stride * 255 + 256 * bpp_of(f));
        c.pic->kind = "colours";
        c.quants.assign(fine, fine + 5);
        /* quick: every colour once, with or without alpha; thorough: both */
        bool corners = group < 2;
        long off = corners ? 0 : (group - 2) % (SWEEP / 16);
        bool al = corners ? group == 1 : m.thorough() ? group - 2 >= SWEEP / 16 : (mix64(m.seed * 77 + group) & 1) != 0;
        if (al) c.flags |= RFX_FLAGS_ALPHAV1;
        static const int lv[] = {0, 1, 2, 127, 128, 253, 254, 255};
        for (int i = 0; i < 1024; i++)
        {
            uint32_t col = (uint32_t)(off * 1024 + i);
            col = (col * 2654435761u) & 0xFFFFFF; /* odd multiplier: a permutation */
            int R = col >> 16, G = col >> 8 & 255, B = col & 255;
            if (corners) { R = lv[i & 7]; G = lv[i >> 3 & 7]; B = lv[i >> 6 & 7]; }
            int bx = (i % 32) * 8, by = (i / 32) * 8;
            for (int y = 0; y < 8; y++) for (int x = 0; x < 8; x++) set_px(*c.pic, bx + x, by + y, R, G, B, (int)(r.s >> 8 & 255) ^ x);
        }
        for (int y = 0; y < 4; y++) for (int x = 0; x < 4; x++) c.tiles.push_back(rfx_tile{x * 64, y * 64, 64, 64, 0, 0, 0});
        check(m, l, cfg, c);
        m.count(fmt("colours %s", fmt_name(f)), 1024);
        if (n < 8) m.sample(fmt("%s: 1024 colours from group %ld on %s", fmt_name(f), off, l.name.c_str()));
        return;
    }
    if (n < NCOL + NODD)
    {
        /* one odd pixel in a plain (often grey) tile, at every place, in every format, with and without alpha */
        long id = n - NCOL;
        int f = id % 5, group = (int)(id / 5 & 255);
        Cfg cfg = base(r, f);
        Call c;
        if (id / 5 >> 8 & 1) c.flags |= RFX_FLAGS_ALPHAV1;
        c.pic = std::make_shared<Pic>();
        c.pic->fmt = f;
        c.pic->w = c.pic->h = 256;
        c.pic->kind = "one odd pixel";
        c.quants.assign(fine, fine + 5);
        if (f == RFX_FORMAT_YUV)
        {
            c.pic->stride = 1024;
            c.pic->mem.resize(16 * 16384);
        }
        else
        {
            c.pic->stride = 256 * bpp_of(f) + r.in(0, 40);
            c.pic->mem.resize((size_t)c.pic->stride * 255 + 256 * bpp_of(f));
        }
        for (int t = 0; t < 16; t++)
        {
            int g = r.one_in(3) ? 255 : r.one_in(2) ? 0 : r.in(0, 255), at = group * 16 + t, ch = r.in(0, 2);
            int odd[3] = {g, g, g};
            if (r.one_in(2)) odd[ch] = g < 128 ? g + 40 + r.in(0, 80) : g - 40 - r.in(0, 80);
            else for (int i = 0; i < 3; i++) odd[i] = g < 128 ? g + 40 + r.in(0, 80) : g - 40 - r.in(0, 80);
            if (f == RFX_FORMAT_YUV)
            {
                uint8_t *p = &c.pic->mem[(size_t)t * 16384];
                int cb = r.one_in(2) ? 128 : r.in(0, 255), cr = r.one_in(3) ? r.in(0, 255) : cb;
                memset(p, g, 4096);
                memset(p + 4096, cb, 4096);
                memset(p + 8192, cr, 4096);
                memset(p + 12288, 255, 4096);
                p[ch * 4096 + at] ^= 64;
            }
            else
            {
                for (int y = 0; y < 64; y++)
                    for (int x = 0; x < 64; x++)
                        if (y * 64 + x == at) set_px(*c.pic, t % 4 * 64 + x, t / 4 * 64 + y, odd[0], odd[1], odd[2], 255);
                        else set_px(*c.pic, t % 4 * 64 + x, t / 4 * 64 + y, g, g, g, 255);
            }
            c.tiles.push_back(rfx_tile{t % 4 * 64, t / 4 * 64, 64, 64, 0, 0, 0});
        }
        check(m, l, cfg, c);
        m.count("places of an odd pixel", 16);
        return;
    }
    long k = n - NCOL - NODD;
    int f = k / 6 % 4;
    if (k % 6 < 4)
    {
        /* every edge size, of every format, through the path with and without alpha */
        long id = k / 6 * 4 + k % 6;
        int cx = 1 + id % 64, cy = 1 + id / 64 % 64;
        f = (int)(id / 4096 & 3);
        Cfg cfg = base(r, f);
        Call c;
        if (id / 16384 & 1) c.flags |= RFX_FLAGS_ALPHAV1;
        c.pic = make_pic(r, f, cx, cy, id < 32768 || r.one_in(2) ? PK_NOISE : -1, 1023);
        c.quants.assign(fine, fine + 5);
        c.tiles.push_back(rfx_tile{c.pic->ox, c.pic->oy, cx, cy, 0, 0, 0});
        check(m, l, cfg, c);
        m.count("edge sizes");
        m.see(mix64(cx * 64 + cy));
    }
    else if (k % 6 == 4)
    {
        /* positions: noise and sparse pictures, any place, any stride, parts of bigger pictures */
        Cfg cfg = base(r, f);
        Call c;
        int ph = make_dim(r, 330);
        if (r.one_in(6)) ph = r.in(1, 64); /* few rows: the window can be very wide */
        c.pic = make_pic(r, f, make_dim(r, 330), ph, r.one_in(2) ? PK_NOISE : r.one_in(2) ? PK_IMPULSE : -1, 1023);
        if (c.pic->stride > 32767) m.count("rows beyond 32 KiB");
        if (c.pic->stride > 65535) m.count("rows beyond 64 KiB");
        c.quants.assign(fine, fine + 5);
        make_tiles(r, c, 4);
        if (r.one_in(3)) c.flags |= RFX_FLAGS_ALPHAV1;
        check(m, l, cfg, c);
        m.count("position tiles", c.tiles.size());
        if (c.pic->offset() > 1000000) m.count("far pictures");
    }
    else
    {
        Cfg cfg = base(r, RFX_FORMAT_YUV);
        Call c;
        c.pic = make_pic(r, RFX_FORMAT_YUV, make_dim(r, 200), make_dim(r, 200), r.one_in(2) ? PK_NOISE : -1, 500);
        c.quants.assign(fine, fine + 5);
        make_tiles(r, c, 4);
        if (r.one_in(3)) c.flags |= RFX_FLAGS_ALPHAV1;
        check(m, l, cfg, c);
        if (c.pic->stride > 65535) m.count("rows beyond 64 KiB (YUV)");
        m.count("YUV tiles", c.tiles.size());
    }
}
void mon_done(Mon &m) {}
