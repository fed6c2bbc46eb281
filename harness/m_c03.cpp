/* C03: no misuse of memory.  The same histories run on
 *  - address+undefined sanitizer builds whose work areas are kept apart by
 *    poisoned zones (C code),
 *  - the optimised builds with checked canary zones between the work areas and
 *    all direct stage calls on buffers that touch inaccessible pages (SIMD code),
 *  - valgrind (uninitialised values, and again all accesses incl. the SIMD code),
 *  - a MemorySanitizer build of the C code in a process of its own (undefined
 *    values that decide a branch, an address or an output byte),
 *  - the 32-bit build, with zones between its work areas and guarded buffers.
 */
#include "main.h"
#include "x32.h"
#include <valgrind/memcheck.h>
#include <valgrind/valgrind.h>

static bool g_vg;
long mon_cases(Mon &m)
{
    g_vg = m.opt.count("vg") > 0;
    if (g_vg) return m.thorough() ? 12000 : 600;
    if (m.opt.count("msan") || m.opt.count("x32")) return m.thorough() ? 40000 : 2400;
#ifdef MON_ASAN
    return m.thorough() ? 60000 : 4000;
#else
    return m.thorough() ? 120000 : 16000;
#endif
}
static const Lib &pick_lib(Mon &m, Rng &r)
{
#ifdef MON_ASAN
    const Lib &l = m.lib(r.one_in(2) ? "asan" : "asan_c");
    l.shim->rz_mode = 1;
#else
    static const char *n[] = {"acc", "acc", "acc", "nosimd", "port"};
    std::string k = n[r.in(0, 4)];
    if (g_vg) k = "vg";
    const Lib &l = m.has(k) ? m.lib(k) : m.lib("acc");
    l.shim->rz_mode = g_vg ? 2 : 0;
    if (!g_vg) l.shim->rz_fill = r.in(0, 255);
#endif
    l.shim->junk = r.one_in(3) ? 0 : r.in(0, 255);
    return l;
}
static void zones(Mon &m, const Lib &l, const std::string &what)
{
    long d = l.check_zones();
    if (d) VIOL("%ld zone(s) between the encoder's work areas overwritten by %s", d, what.c_str());
    if (l.shim->bad_frees) VIOL("memory freed that was not allocated, in %s", what.c_str());
    m.count("zone sweeps");
}
static void history(Mon &m, Rng &r)
{
    const Lib &l = pick_lib(m, r);
    HistOpt ho;
    ho.maxtiles = g_vg ? 3 : 8;
    ho.maxdim = g_vg ? 130 : 260;
    ho.max_calls = g_vg ? 3 : 7;
    ho.min_calls = 1;
    ho.big_lists = ho.crowds = !g_vg;
    if (g_vg) ho.pro = m.cur % 3 == 0;
    Hist h = make_hist(r, ho);
    m.sample(describe(h.cfg) + "; " + describe(h.calls[0]));
    m.count("histories");
    if (!g_vg && r.one_in(25))
    {
        /* lists as long as a message can count, in little space */
        Call c = h.calls[r.u64() % h.calls.size()];
        if (!c.tiles.empty())
        {
            size_t n = r.one_in(2) ? 65535 : r.in(1000, 65535), k = c.tiles.size();
            c.tiles.resize(n);
            for (size_t i = k; i < n; i++) c.tiles[i] = c.tiles[i % k];
            if (r.one_in(2))
            {
                c.rects.resize(r.in(1000, 65535), rfx_rect{0, 0, 64, 64});
                c.cap = (int)c.rects.size() * 8 + r.in(0, 60000);
            }
            else c.cap = r.in(0, 60000);
            h.calls.push_back(c);
            m.count("longest lists");
        }
    }
    std::map<size_t, int> spoilt;
    if (h.cfg.pro() && r.one_in(3))
    {
        /* a call that names a tile outside the grid or a table that was not given */
        size_t at = r.u64() % (h.calls.size() + 1);
        Call c = h.calls[std::min(at, h.calls.size() - 1)];
        if (c.tiles.size() < 200 && r.one_in(2)) c.cap = -1;
        h.calls.insert(h.calls.begin() + at, c);
        spoilt[at] = spoil(r, h.calls[at]);
    }
    {
        Enc e(l, h.cfg);
        for (auto &c : h.calls)
        {
            RunOpt o;
            o.align = r.one_in(3) ? r.in(1, 63) : 0;
            if (g_vg && c.rects.size() > 20) c.rects.resize(20);
            if (g_vg && c.quants.size() > 40 && 0) {}
            Result x;
            if (g_vg)
            {
                /* output memory undefined beforehand, and checked afterwards */
                Call k = c;
                int cap = k.cap < 0 ? k.ample() : k.cap;
                static Guarded arena(4 << 20);
                cap = std::min<int>(cap, arena.cap);
                uint8_t *cd = arena.at_end(cap);
                VALGRIND_MAKE_MEM_UNDEFINED(cd, cap);
                int cb = cap;
                x.ret = l.encode_ex(e.h, (char *)cd, &cb, c.pic->origin(c.pic->mem.data()), c.pic->ox + c.pic->w, c.pic->oy + c.pic->h,
                                    c.pic->stride, c.rects.data(), (int)c.rects.size(), c.tiles.data(), (int)c.tiles.size(),
                                    c.null_quants ? nullptr : (const char *)c.quants.data(), c.null_quants ? 0 : (int)c.quants.size() / 5, c.flags);
                if (x.ret >= 0)
                {
                    if (cb < 0 || cb > cap) VIOL("size %d of %d", cb, cap);
                    uintptr_t bad = VALGRIND_CHECK_MEM_IS_DEFINED(cd, cb);
                    if (bad) VIOL("output byte %ld of %d was never given a defined value (%s; %s)", (long)((uint8_t *)bad - cd), cb, describe(h.cfg).c_str(), describe(c).c_str());
                    x.out.assign(cd, cd + cb);
                }
                if (VALGRIND_COUNT_ERRORS) VIOL("valgrind reports %u error(s) (%s; %s)", (unsigned)VALGRIND_COUNT_ERRORS, describe(h.cfg).c_str(), describe(c).c_str());
            }
            else
            {
                x = e.run(c, o);
            }
            auto sp = spoilt.find(&c - h.calls.data());
            if (sp != spoilt.end() && sp->second >= 0)
            {
                m.count("unservable calls");
                if (x.ret > sp->second) VIOL("a tile outside the grid or with a table not given was encoded (%s; %s)", describe(h.cfg).c_str(), describe(c).c_str());
            }
            m.count(x.ret < 0 ? "calls refused" : "calls encoded");
            if (x.ret > 0) m.count("tiles", x.ret);
            m.see(hash_bytes(x.out.data(), x.out.size()));
            zones(m, l, describe(h.cfg) + "; " + describe(c));
        }
    }
    if (l.shim->live_blocks != 0)
    {
        /* leaks are C19's business; only keep the books straight here */
        l.shim->live_blocks = 0;
    }
    zones(m, l, "destroy");
}
/* one object of exactly n bytes whose end (or start) is next to something inaccessible */
struct Exact
{
    uint8_t *p;
    size_t n;
    std::unique_ptr<Guarded> g;
    Exact(size_t bytes, bool at_end) : n(bytes)
    {
#ifdef MON_ASAN
        p = (uint8_t *)malloc(bytes);
#else
        g.reset(new Guarded(bytes ? bytes : 1));
        p = at_end ? g->at_end(bytes) : g->at_start();
#endif
    }
    ~Exact()
    {
#ifdef MON_ASAN
        free(p);
#endif
    }
    short *s() { return (short *)p; }
};
static void stages(Mon &m, Rng &r)
{
    const Lib &l = pick_lib(m, r);
    bool e = r.one_in(2);
    Exact pix(4096, r.one_in(2)), c1(8192, e), c2(8192, r.one_in(2)), q(5, true);
    fill_plane(pix.p, 64, 64, 64, pick_kind(r), r);
    Bytes qv = make_quants(r, 1);
    memcpy(q.p, qv.data(), 5);
    memset(c1.p, r.in(0, 255), 8192);
    memset(c2.p, r.in(0, 255), 8192);
    l.in.rfxencode_dwt_2d(pix.p, c1.s(), c2.s());
    l.in.rfxencode_quantization(c1.s(), (const char *)q.p);
    if (l.in.rfxencode_dwt_shift_amd64_sse2)
    {
        l.in.rfxencode_dwt_shift_amd64_sse2((const char *)q.p, pix.p, c1.s(), c2.s());
        if (l.in.rfxencode_dwt_shift_amd64_sse41) l.in.rfxencode_dwt_shift_amd64_sse41((const char *)q.p, pix.p, c1.s(), c2.s());
        m.count("SIMD stage calls", 2);
    }
    int how = r.in(0, 3);
    std::vector<short> co(4096);
    for (auto &v : co) v = how == 0 ? 0 : how == 1 ? (short)r.in(-8191, 8191) : how == 2 ? (short)(r.one_in(9) ? r.in(-300, 300) : 0) : (short)r.in(-2, 2);
    if (how == 2) for (int i = r.in(0, 4000); i < 4096; i++) co[i] = 0;
    int dl = r.one_in(2) ? 64 : r.one_in(2) ? 81 : r.in(1, 4096);
    for (int k = 0; k < 5; k++)
    {
        memcpy(c1.p, co.data(), 8192);
        int room = r.one_in(3) ? r.in(0, 40) : r.in(0, 40000);
        Exact out(room, true);
        if (k == 0) l.in.rfxencode_rlgr1(c1.s(), out.p, room);
        else if (k == 1) l.in.rfxencode_rlgr3(c1.s(), out.p, room);
        else if (k == 2) l.in.rfxencode_diff_rlgr1(c1.s(), out.p, room, dl);
        else if (k == 3) l.in.rfxencode_diff_rlgr3(c1.s(), out.p, room, dl);
        else
        {
            int n = r.in(1, 4096);
            Exact d((size_t)n * 2, r.one_in(2));
            memcpy(d.p, co.data(), (size_t)n * 2);
            l.in.rfxencode_differential(d.s(), n);
        }
    }
    m.count("stage call sets");
    if (g_vg && VALGRIND_COUNT_ERRORS) VIOL("valgrind reports %u error(s) in direct stage calls", (unsigned)VALGRIND_COUNT_ERRORS);
}
/* histories played by a worker process */
static void worker_history(Mon &m, Rng &r, X32 &w, bool x32)
{
    HistOpt ho;
    ho.maxtiles = 8;
    ho.maxdim = 260;
    ho.max_calls = 6;
    ho.min_calls = 1;
    ho.big_lists = ho.crowds = true;
    Hist h = make_hist(r, ho);
    m.sample(describe(h.cfg) + "; " + describe(h.calls[0]));
    m.count("histories");
    int id = w.create(h.cfg, r.in(0, 255), (uint32_t)r.u64());
    if (h.cfg.pro() && r.one_in(3))
    {
        size_t at = r.u64() % (h.calls.size() + 1);
        Call c = h.calls[std::min(at, h.calls.size() - 1)];
        h.calls.insert(h.calls.begin() + at, c);
        spoil(r, h.calls[at]);
        m.count("unservable calls");
    }
    for (auto &c : h.calls)
    {
        if (!w.fits(c)) continue;
        Result x = w.encode(id, c);
        m.count(x32 ? "32-bit calls" : "MemorySanitizer calls");
        m.count(x.ret < 0 ? "calls refused" : "calls encoded");
        m.see(hash_bytes(x.out.data(), x.out.size()));
        if (w.bad >> 16) VIOL("the 32-bit build damaged %s (%s; %s)", x32_what(w.bad >> 16 << 16), describe(h.cfg).c_str(), describe(c).c_str());
    }
    w.destroy(id);
    if (w.bad >> 16) VIOL("the 32-bit build damaged %s in destroy (%s)", x32_what(w.bad >> 16 << 16), describe(h.cfg).c_str());
}
void mon_case(Mon &m, long n)
{
    Rng r = m.rng(n);
    if (m.opt.count("msan"))
    {
        static X32 w;
        if (w.fd < 0)
        {
            w.label = "the MemorySanitizer build";
            if (!w.open(m.opt["msan"])) { fprintf(stderr, "HARNESS: cannot start the worker\n"); exit(2); }
        }
        worker_history(m, r, w, false);
        return;
    }
    if (m.opt.count("x32"))
    {
        worker_history(m, r, *x32_worker(m, r.in(0, 1)), true);
        return;
    }
    if (n % 4 == 3) stages(m, r);
    else history(m, r);
}
void mon_done(Mon &m)
{
    long armed = 0;
    for (auto &l : m.libs) armed += l.second.shim->rz_armed;
    m.count("zones armed", armed);
}
