/* C21: machine state after every call is what the calling convention promises. */
#include "x32.h"
#include "main.h"
#include "tramp.h"
long mon_cases(Mon &m) { return m.thorough() ? 400000 : 100000; }
static uint64_t g_rs = 1;
static void ok(Mon &m, unsigned bad, const std::string &what)
{
    m.count("calls observed");
    if (bad) VIOL("%s does not preserve %s", what.c_str(), tramp_what(bad));
}
static void history(Mon &m, Rng &r)
{
    HistOpt ho;
    ho.maxtiles = 4;
    ho.maxdim = 180;
    ho.min_calls = 1;
    ho.max_calls = 4;
    Hist h = make_hist(r, ho);
    m.sample(describe(h.cfg) + "; " + describe(h.calls[0]));
    static const char *names[] = {"acc", "acc", "acc", "clang", "o0", "nosimd"};
    const Lib &l = m.lib(names[r.in(0, 5)]);
    l.shim->cpu_level = h.cfg.cpu;
    uint64_t ret;
    void *e = nullptr;
    if (r.one_in(3))
    {
        /* calls that are refused */
        static const int odd[] = {-1, 5, 6, 7, 8, 16, 100, 255, 256, 0x7fffffff, (int)0x80000000};
        int f = r.one_in(2) ? odd[r.in(0, 10)] : r.in(5, 100000);
        bool nomem = r.one_in(3);
        if (nomem) { f = h.cfg.fmt; l.shim->fail_in = 1; l.shim->fail_every = 0; }
        if (r.one_in(2))
            ok(m, tramp_call(l.create, {(uint32_t)h.cfg.w, (uint32_t)h.cfg.h, (uint32_t)f, (uint32_t)h.cfg.flags}, &ret, g_rs, true), "a refused rfxcodec_encode_create");
        else
            ok(m, tramp_call(l.create_ex, {(uint32_t)h.cfg.w, (uint32_t)h.cfg.h, (uint32_t)f, (uint32_t)h.cfg.flags, (uint64_t)&e}, &ret, g_rs, true), "a refused rfxcodec_encode_create_ex");
        l.shim->fail_in = 0;
        e = nullptr;
        m.count("refused creations");
        ok(m, tramp_call(l.destroy, {0}, &ret, g_rs, true), "rfxcodec_encode_destroy of nothing");
    }
    if (r.one_in(2))
    {
        ok(m, tramp_call(l.create, {(uint32_t)h.cfg.w, (uint32_t)h.cfg.h, (uint32_t)h.cfg.fmt, (uint32_t)h.cfg.flags}, &ret, g_rs, true), "rfxcodec_encode_create");
        e = (void *)ret;
    }
    else
    {
        ok(m, tramp_call(l.create_ex, {(uint32_t)h.cfg.w, (uint32_t)h.cfg.h, (uint32_t)h.cfg.fmt, (uint32_t)h.cfg.flags, (uint64_t)&e}, &ret, g_rs, true), "rfxcodec_encode_create_ex");
        if ((int)ret) e = nullptr;
    }
    if (!e) VIOL("creating an encoder failed: %s", describe(h.cfg).c_str());
    for (auto &c : h.calls)
    {
        int cap = c.cap < 0 ? c.ample() : c.cap;
        Guarded &a = out_arena(cap + 256);
        uint8_t *cd = a.base + a.cap - cap;
        int cb = cap, nq = c.null_quants ? 0 : (int)c.quants.size() / 5;
        const char *q = c.null_quants ? nullptr : (const char *)c.quants.data();
        const char *buf = c.pic->origin(c.pic->mem.data());
        bool sh = !c.flags && r.one_in(3);
        unsigned bad;
        if (h.cfg.pro() && r.one_in(6)) { l.shim->fail_in = r.in(1, 3); l.shim->fail_every = 0; }
        if (sh)
            bad = tramp_call(l.encode, {(uint64_t)e, (uint64_t)cd, (uint64_t)&cb, (uint64_t)buf, (uint32_t)(c.pic->ox + c.pic->w), (uint32_t)(c.pic->oy + c.pic->h),
                             (uint32_t)c.pic->stride, (uint64_t)c.rects.data(), c.rects.size(), (uint64_t)c.tiles.data(), c.tiles.size(), (uint64_t)q, (uint32_t)nq}, &ret, g_rs, true);
        else
            bad = tramp_call(l.encode_ex, {(uint64_t)e, (uint64_t)cd, (uint64_t)&cb, (uint64_t)buf, (uint32_t)(c.pic->ox + c.pic->w), (uint32_t)(c.pic->oy + c.pic->h),
                             (uint32_t)c.pic->stride, (uint64_t)c.rects.data(), c.rects.size(), (uint64_t)c.tiles.data(), c.tiles.size(), (uint64_t)q, (uint32_t)nq, (uint32_t)c.flags}, &ret, g_rs, true);
        l.shim->fail_in = 0;
        ok(m, bad, fmt("encoding (%s, %s; %s)", l.name.c_str(), describe(h.cfg).c_str(), describe(c).c_str()));
        m.count((int)ret < 0 ? "encode calls refused" : "encode calls");
        if ((int)ret > 0) m.count("tiles", (int)ret);
        if ((int)ret >= 0) m.see(hash_bytes(cd, cb));
    }
    ok(m, tramp_call(l.destroy, {(uint64_t)e}, &ret, g_rs, true), "rfxcodec_encode_destroy");
}
static void stages(Mon &m, Rng &r)
{
    static const char *names[] = {"acc", "clang", "o0", "nosimd"};
    const Lib &l = m.lib(names[r.in(0, 3)]);
    static Guarded pixg(4096), b1g(8192), b2g(8192), qg(4096), og(65536);
    uint8_t *pix = pixg.base, *q = qg.at_end(5);
    short *b1 = (short *)b1g.base, *b2 = (short *)b2g.base;
    fill_plane(pix, 64, 64, 64, pick_kind(r), r);
    memcpy(q, make_quants(r, 1).data(), 5);
    uint64_t ret;
    rfxcodec_encode_internals in;
    ok(m, tramp_call(l.get_internals, {(uint64_t)&in}, &ret, g_rs, true), "rfxcodec_encode_get_internals");
    ok(m, tramp_call(in.rfxencode_dwt_2d, {(uint64_t)pix, (uint64_t)b1, (uint64_t)b2}, &ret, g_rs, true), "dwt_2d");
    ok(m, tramp_call(in.rfxencode_quantization, {(uint64_t)b1, (uint64_t)q}, &ret, g_rs, true), "quantization");
    std::vector<short> co(b1, b1 + 4096);
    if (in.rfxencode_dwt_shift_amd64_sse2)
    {
        ok(m, tramp_call(in.rfxencode_dwt_shift_amd64_sse2, {(uint64_t)q, (uint64_t)pix, (uint64_t)b1, (uint64_t)b2}, &ret, g_rs, true), "dwt_shift_amd64_sse2");
        m.count("assembly called directly");
    }
    if (in.rfxencode_dwt_shift_amd64_sse41)
    {
        ok(m, tramp_call(in.rfxencode_dwt_shift_amd64_sse41, {(uint64_t)q, (uint64_t)pix, (uint64_t)b1, (uint64_t)b2}, &ret, g_rs, true), "dwt_shift_amd64_sse41");
        m.count("assembly called directly");
    }
    void *cpuid = dlsym(l.so, "cpuid_amd64");
    if (cpuid)
    {
        static int a, b, c, d;
        ok(m, tramp_call(cpuid, {(uint32_t)(r.one_in(2) ? 1 : 0x80000001), 0, (uint64_t)&a, (uint64_t)&b, (uint64_t)&c, (uint64_t)&d}, &ret, g_rs, true), "cpuid_amd64");
        m.count("cpuid called directly");
    }
    for (int k = 0; k < 4; k++)
    {
        memcpy(b1, co.data(), 8192);
        int room = r.one_in(3) ? r.in(0, 400) : 40000;
        uint8_t *o = og.at_end(room);
        const char *nm[] = {"rlgr1", "rlgr3", "diff_rlgr1", "diff_rlgr3"};
        void *f[] = {(void *)in.rfxencode_rlgr1, (void *)in.rfxencode_rlgr3, (void *)in.rfxencode_diff_rlgr1, (void *)in.rfxencode_diff_rlgr3};
        ok(m, tramp_call(f[k], {(uint64_t)b1, (uint64_t)o, (uint32_t)room, 64}, &ret, g_rs, true), nm[k]);
    }
    ok(m, tramp_call(in.rfxencode_differential, {(uint64_t)b1, (uint32_t)r.in(1, 4096)}, &ret, g_rs, true), "differential");
    m.see(hash_bytes((const uint8_t *)co.data(), 8192));
}
static void x32(Mon &m, Rng &r, long n)
{
    X32 *x = x32_worker(m, (n / 4) & 1);
    if (!x) return;
    auto chk = [&](const std::string &w) {
        m.count("32-bit calls observed");
        if (x->bad & 0xffff) VIOL("32-bit build: %s does not preserve %s", w.c_str(), x32_what(x->bad));
    };
    HistOpt ho;
    ho.maxtiles = 4;
    ho.maxdim = 130;
    ho.max_calls = 3;
    Hist h = make_hist(r, ho);
    h.cfg.cpu = r.in(0, 2);
    if (r.one_in(4))
    {
        Cfg bad = h.cfg;
        bad.fmt = r.one_in(2) ? -1 : r.in(5, 300);
        int g = x->create(bad, r.in(0, 255), (uint32_t)r.u64(), true);
        chk("a refused rfxcodec_encode_create");
        m.count("32-bit refused creations");
        if (g >= 0) x->destroy(g);
    }
    int e = x->create(h.cfg, r.in(0, 255), (uint32_t)r.u64());
    chk("rfxcodec_encode_create");
    for (auto &c : h.calls)
    {
        if (!x->fits(c)) continue;
        Result y = x->encode(e, c);
        chk(fmt("encoding (%s; %s)", describe(h.cfg).c_str(), describe(c).c_str()));
        m.see(hash_bytes(y.out.data(), y.out.size()));
    }
    x->destroy(e);
    chk("rfxcodec_encode_destroy");
    uint8_t pix[4096];
    fill_plane(pix, 64, 64, 64, pick_kind(r), r);
    Bytes q = make_quants(r, 1);
    std::vector<short> co;
    for (int k = 0; k < 3; k++)
    {
        x->stage(k, q.data(), pix, co, r.in(0, 255), r.in(0, 255));
        chk(k == 0 ? "dwt_2d/quantization" : k == 1 ? "dwt_shift_x86_sse2" : "dwt_shift_x86_sse41");
    }
    if (x->cpuid(1)) chk("cpuid_x86");
}
void mon_case(Mon &m, long n)
{
    Rng r = m.rng(n);
    g_rs = r.u64();
    if (n % 4 == 3) x32(m, r, n);
    else if (n % 4 == 2) stages(m, r);
    else history(m, r);
}
void mon_done(Mon &m) {}
