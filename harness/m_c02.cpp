/* C02: only the described input bytes are read, none is modified, and nothing
 * else influences the output.  Pages without described bytes are inaccessible,
 * the others read-only; rows are laid out so that each row (or the whole
 * picture) starts or ends exactly at an inaccessible page; every history is run
 * on two encoders that see different junk in all bytes that must not matter. */
#include "main.h"
#ifdef MON_ASAN
#include <sanitizer/asan_interface.h>
#endif

#ifdef MON_ASAN
long mon_cases(Mon &m) { return m.thorough() ? 60000 : 4800; }
#else
long mon_cases(Mon &m) { return m.thorough() ? 240000 : 24000; }
#endif

struct Placed
{
    std::unique_ptr<Guarded> g;
    uint8_t *at = nullptr; /* where Pic::mem goes */
#ifdef MON_ASAN
    ~Placed() { if (g) __asan_unpoison_memory_region(g->base, g->cap); }
#endif
};
/* copy the described bytes of a picture; fill the rest with junk */
static void place(Mon &m, Placed &pl, const Pic &p, const std::vector<uint8_t> &d /* readable */,
                  const std::vector<uint8_t> &used, bool at_end, uint64_t junk)
{
    size_t n = p.mem.size(), first = 0, last = n;
    while (first < n && !d[first]) first++;
    while (last > first && !d[last - 1]) last--;
    pl.g.reset(new Guarded(n + 8192));
    Guarded &g = *pl.g;
    /* position so that the described part touches a page border */
    if (at_end) pl.at = (uint8_t *)(((uintptr_t)g.base + 4096 + last + 4095) / 4096 * 4096 - last);
    else pl.at = (uint8_t *)(((uintptr_t)g.base + 4096 + 4095) / 4096 * 4096) - (first % 4096);
    if (!at_end && pl.at + n > g.base + g.cap) pl.at = g.base + 4096 - first % 4096;
    if (pl.at < g.base || pl.at + n > g.base + g.cap)
    {
        fprintf(stderr, "HARNESS: placement\n");
        exit(2);
    }
    Rng r(junk);
    for (size_t i = 0; i < g.cap; i += 8)
    {
        uint64_t v = junk == 0 ? 0 : junk == 1 ? ~0ull : r.u64();
        memcpy(g.base + i, &v, 8);
    }
    for (size_t i = first; i < last; i++) if (used[i]) pl.at[i] = p.mem[i];
    long open = 0;
    mprotect(g.base, g.cap, PROT_NONE);
    for (uint8_t *pg = g.base; pg < g.base + g.cap; pg += 4096)
    {
        bool any = false;
        for (uint8_t *q = pg; q < pg + 4096 && !any; q++) any = q >= pl.at && q < pl.at + n && d[q - pl.at];
        if (any)
        {
            mprotect(pg, 4096, PROT_READ);
            open++;
        }
    }
    m.count("input pages open", open);
    m.count("input pages closed", g.cap / 4096 - open);
#ifdef MON_ASAN
    /* single bytes: anything undescribed behind described bytes of its 8-byte
     * unit, and whole units, are off limits for the instrumented C code */
    for (uint8_t *u = g.base; u < g.base + g.cap; u += 8)
    {
        int k = 0;
        bool any = false;
        for (int i = 0; i < 8; i++)
        {
            uint8_t *q = u + i;
            if (q >= pl.at && q < pl.at + n && d[q - pl.at]) { k = i + 1; any = true; }
        }
        if (!any) __asan_poison_memory_region(u, 8);
        else if (k < 8) __asan_poison_memory_region(u + k, 8 - k);
    }
#endif
}
template <class T> struct Fixed
{
    Guarded g;
    T *p;
    Fixed(const std::vector<T> &v, bool at_end) : g(v.size() * sizeof(T) + 1)
    {
        p = (T *)(at_end ? g.at_end(v.size() * sizeof(T)) : g.at_start());
        if (!v.empty()) memcpy((void *)p, v.data(), v.size() * sizeof(T));
        g.ro();
        if (v.empty()) mprotect(g.base, g.cap, PROT_NONE);
    }
};
/* row layouts: the tile's row segment ends (or starts) at a page border and the
 * neighbouring page is empty */
static PicP row_layout(Rng &r, const Call &c, bool at_end)
{
    auto p = std::make_shared<Pic>(*c.pic);
    const Pic &o = *c.pic;
    int bpp = bpp_of(o.fmt);
    p->stride = 8192 * (1 + (o.w * bpp + 4095) / 8192);
    p->ox = p->oy = 0;
    p->mem.assign((size_t)p->stride * (o.h - 1) + (size_t)o.w * bpp, 0);
    for (int y = 0; y < o.h; y++) memcpy(&p->mem[(size_t)y * p->stride], &o.mem[(size_t)y * o.stride], (size_t)o.w * bpp);
    return p;
}
void mon_case(Mon &m, long n)
{
    Rng r = m.rng(n);
    HistOpt ho;
    ho.maxtiles = 5;
    ho.maxdim = 200;
    ho.max_calls = 3;
    ho.min_calls = 1;
    Hist h = make_hist(r, ho);
    const char *names[] = {"acc", "acc", "nosimd", "port"};
    std::string ln = names[r.in(0, 3)];
#ifdef MON_ASAN
    ln = r.one_in(2) ? "asan" : "asan_c";
#endif
    const Lib &l = m.lib(m.has(ln) ? ln : "acc");
    Enc a(l, h.cfg), b(l, h.cfg);
    m.sample(describe(h.cfg) + "; " + describe(h.calls[0]));
    for (auto &c0 : h.calls)
    {
        Call c = c0;
        int layout = r.in(0, 3);
        bool at_end = r.one_in(2);
        if (h.cfg.fmt != RFX_FORMAT_YUV && layout == 0)
        {
            /* one tile, rows at page borders */
            rfx_tile t = c.tiles[r.u64() % c.tiles.size()];
            t.x -= c.pic->ox;
            t.y -= c.pic->oy;
            c.tiles.assign(1, t);
            c.pic = row_layout(r, c, at_end);
            m.count("row-border layouts");
        }
        std::vector<uint8_t> d, rd;
        c.pic->describe(c.tiles, c.alpha(), d);
        c.pic->describe(c.tiles, c.alpha(), rd, true);
        Placed p1, p2;
        place(m, p1, *c.pic, rd, d, at_end, 0 + 1 * (r.u64() % 3));
        place(m, p2, *c.pic, rd, d, r.one_in(2), r.u64() | 4);
        Bytes q = c.quants;
        Fixed<uint8_t> q1(q, true), q2(q, r.one_in(2));
        Fixed<rfx_tile> t1(c.tiles, true), t2(c.tiles, r.one_in(2));
        Fixed<rfx_rect> r1(c.rects, true), r2(c.rects, r.one_in(2));
        RunOpt o1, o2;
        o1.pic_at = p1.at; o1.quants_at = q1.p; o1.tiles_at = t1.p; o1.rects_at = r1.p;
        o2.pic_at = p2.at; o2.quants_at = q2.p; o2.tiles_at = t2.p; o2.rects_at = r2.p;
        Result x = a.run(c, o1), y = b.run(c, o2);
        if (!(x == y)) VIOL("output depends on bytes the call does not describe (%s; %s)", describe(h.cfg).c_str(), describe(c).c_str());
        m.count("call pairs compared");
        m.count(x.ret < 0 ? "refused" : "encoded");
        m.count("tiles read", x.ret > 0 ? x.ret : 0);
        long nd = 0;
        for (auto v : d) nd += v;
        m.count("described bytes", nd);
        if (c.pic->offset() > 100000000) m.count("far pictures (>100 MB away)");
        m.see(hash_bytes(x.out.data(), x.out.size()));
    }
}
void mon_done(Mon &m) {}
