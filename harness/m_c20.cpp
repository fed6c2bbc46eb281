/* C20: defaults, equivalent forms, refusals, the internals query. */
#include "x32.h"
#include "main.h"
long mon_cases(Mon &m) { return m.thorough() ? 150000 : 50000; }
static const Lib &pick_lib(Mon &m, Rng &r)
{
    static const char *n[] = {"acc", "acc", "nosimd", "port", "clang"};
    std::string k = n[r.in(0, 4)];
    return m.has(k) ? m.lib(k) : m.lib("acc");
}
static void refuse(Mon &m, const Lib &l, Rng &r)
{
    int f;
    switch (r.in(0, 4))
    {
        case 0: f = 5 + r.in(0, 20); break;
        case 1: f = -r.in(1, 20); break;
        case 2: f = (int)r.u64(); if (f >= 0 && f < 5) f = 77; break;
        case 3: f = (1 << r.in(3, 30)) + r.in(0, 4); break;
        default: f = 256 + r.in(0, 4); break;
    }
    GenOpt go;
    Cfg c = make_cfg(r, go);
    long a = l.shim->live_blocks, b = l.shim->live_bytes;
    if (r.one_in(2))
    {
        void *h = nullptr;
        int rc = l.create_ex(c.w, c.h, f, c.flags, &h);
        if (rc == 0) VIOL("an encoder for unknown format %d was created", f);
    }
    else
    {
        if (l.create(c.w, c.h, f, c.flags)) VIOL("an encoder for unknown format %d was created", f);
    }
    if (l.shim->live_blocks != a || l.shim->live_bytes != b) VIOL("refusing format %d left %ld block(s) behind", f, l.shim->live_blocks - a);
    l.destroy(nullptr);
    if (l.shim->live_blocks != a || l.shim->live_bytes != b || l.shim->bad_frees) VIOL("destroying nothing changed the heap");
    m.count("unknown formats refused");
    m.see(mix64(f));
}
static void internals(Mon &m, const Lib &l, Rng &r)
{
    rfxcodec_encode_internals in;
    memset(&in, r.in(1, 255), sizeof in);
    struct { rfxcodec_encode_internals in; char tail[64]; } z;
    memset(&z, 0x5A, sizeof z);
    l.get_internals(&z.in);
    for (char c : z.tail) if (c != 0x5A) VIOL("the internals query writes behind the structure");
    l.get_internals(&in);
    if (memcmp(&in, &z.in, sizeof in)) VIOL("the internals query leaves entries unset");
    bool acc = l.name == "acc" || l.name == "clang" || l.name == "o0";
    if (!in.rfxencode_rlgr1 || !in.rfxencode_rlgr3 || !in.rfxencode_differential || !in.rfxencode_quantization || !in.rfxencode_dwt_2d ||
        !in.rfxencode_diff_rlgr1 || !in.rfxencode_diff_rlgr3)
        VIOL("an entry of the internals is missing (%s)", l.name.c_str());
    if (acc != (in.rfxencode_dwt_shift_amd64_sse2 != nullptr) || acc != (in.rfxencode_dwt_shift_amd64_sse41 != nullptr))
        VIOL("SIMD entries of the internals do not match the build (%s)", l.name.c_str());
    if (in.rfxencode_dwt_shift_x86_sse2 || in.rfxencode_dwt_shift_x86_sse41) VIOL("x86 entries set in a build without them (%s)", l.name.c_str());
    /* each is a working routine: the chain reproduces what encoding gives */
    static uint8_t pix[4096] __attribute__((aligned(64)));
    static short a[4096] __attribute__((aligned(64))), b[4096] __attribute__((aligned(64))), t[4096] __attribute__((aligned(64)));
    fill_plane(pix, 64, 64, 64, pick_kind(r), r);
    Bytes q = make_quants(r, 1);
    static FwdOut f;
    forward_tile(pix, false, qtab_from(q.data()), f);
    auto same = [&](const short *x, const char *w) {
        for (int i = 0; i < 4096; i++) if (x[i] != f.c[i]) VIOL("internals: %s gives %d for coefficient %d, expected %d (%s)", w, x[i], i, f.c[i], l.name.c_str());
    };
    in.rfxencode_dwt_2d(pix, a, t);
    in.rfxencode_quantization(a, (const char *)q.data());
    same(a, "dwt_2d + quantization");
    if (acc)
    {
        in.rfxencode_dwt_shift_amd64_sse2((const char *)q.data(), pix, b, t);
        same(b, "dwt_shift_amd64_sse2");
        in.rfxencode_dwt_shift_amd64_sse41((const char *)q.data(), pix, b, t);
        same(b, "dwt_shift_amd64_sse41");
    }
    static uint8_t out[65536];
    std::string why;
    std::vector<int> dec;
    for (int mode = 1; mode <= 3; mode += 2)
        for (int k = 0; k < 2; k++)
        {
            memcpy(b, a, sizeof b);
            int n;
            if (k == 0)
            {
                in.rfxencode_differential(b + 4032, 64);
                n = mode == 1 ? in.rfxencode_rlgr1(b, out, sizeof out) : in.rfxencode_rlgr3(b, out, sizeof out);
            }
            else
            {
                n = mode == 1 ? in.rfxencode_diff_rlgr1(b, out, sizeof out, 64) : in.rfxencode_diff_rlgr3(b, out, sizeof out, 64);
            }
            if (n <= 0 || n > (int)sizeof out) VIOL("internals: %srlgr%d returns %d", k ? "diff_" : "", mode, n);
            Bytes c(out, out + n);
            if (!decode_component(c, mode, false, dec, &why)) VIOL("internals: %srlgr%d: %s", k ? "diff_" : "", mode, why.c_str());
            for (int i = 0; i < 4096; i++) if (dec[i] != f.c[i]) VIOL("internals: %srlgr%d does not reproduce coefficient %d", k ? "diff_" : "", mode, i);
        }
    m.count("internals exercised");
    X32 *x = x32_worker(m, 0);
    if (x && r.one_in(10))
    {
        unsigned v = x->internals();
        if (v >> 16) VIOL("32-bit build: entries of the internals left unset (mask %x)", v >> 16);
        if (v != 0x1FF) VIOL("32-bit build: internals entries set: %x, expected %x", v, 0x1FF);
        m.count("32-bit internals queries");
    }
}
void mon_case(Mon &m, long n)
{
    Rng r = m.rng(n);
    const Lib &l = pick_lib(m, r);
    if (n % 5 == 0) { refuse(m, l, r); return; }
    if (n % 5 == 1) { internals(m, l, r); return; }
    HistOpt ho;
    ho.maxtiles = 5;
    ho.maxdim = 180;
    ho.min_calls = 1;
    ho.max_calls = 5;
    ho.pro = n % 3 == 0;
    Hist h = make_hist(r, ho);
    m.sample(describe(h.cfg) + "; " + describe(h.calls[0]));
    int what = r.in(0, 3);
    auto cmp = [&](const Result &x, const Result &y, const char *w, const Call &c) {
        m.count(w);
        m.see(hash_bytes(x.out.data(), x.out.size()));
        if (!((x.ret < 0 && y.ret < 0) || x == y))
            VIOL("%s: %d/%zu against %d/%zu (%s %s; %s)", w, x.ret, x.out.size(), y.ret, y.out.size(), l.name.c_str(), describe(h.cfg).c_str(), describe(c).c_str());
    };
    if (what == 0)
    {
        /* no tables = the one default table */
        Enc a(l, h.cfg), b(l, h.cfg);
        static const uint8_t def[5] = {0x66, 0x66, 0x77, 0x88, 0x98};
        for (auto &c : h.calls)
        {
            for (auto &t : c.tiles) t.quant_y = t.quant_cb = t.quant_cr = 0;
            Call c1 = c, c2 = c;
            c1.null_quants = true;
            c1.quants.clear();
            /* the count given along with no tables is of no consequence */
            static const int cnts[] = {0, 0, 1, 1, 2, 7, 255};
            c1.null_nq = c.cap < 0 ? cnts[r.in(0, 6)] : r.in(0, 1);
            c2.null_quants = false;
            c2.quants.assign(def, def + 5);
            int cap = c.cap;
            c1.cap = c2.cap = cap;
            cmp(a.run(c1), b.run(c2), "default tables against explicit ones", c1);
        }
    }
    else if (what == 1)
    {
        /* short and extended forms, creation and encoding, in any mix */
        Enc a(l, h.cfg, false), b(l, h.cfg, true);
        for (auto &c : h.calls)
        {
            bool s = c.flags == 0;
            RunOpt o1, o2;
            o1.use_short = s;
            o2.use_short = s && r.one_in(4);
            cmp(a.run(c, o1), b.run(c, o2), "short forms against extended ones", c);
        }
    }
    else if (what == 2)
    {
        /* neither entropy flag = RLGR3 (its flag is 0 or not, both accepted) */
        Cfg c1 = h.cfg, c2 = h.cfg;
        c1.flags &= ~(RFX_FLAGS_RLGR1 | RFX_FLAGS_RLGR3);
        c2.flags &= ~RFX_FLAGS_RLGR1;
        c2.flags |= RFX_FLAGS_RLGR3;
        Enc a(l, c1), b(l, c2);
        for (auto &c : h.calls)
        {
            Result x = a.run(c), y = b.run(c);
            cmp(x, y, "default entropy mode against RLGR3", c);
            if (x.ret >= 0 && !h.cfg.pro())
            {
                PMsg pm;
                Cfg k = c2;
                check_fields(k, c, x, pm, false, false);
                check_classic_content(k, c, pm, true, false);
                m.count("default-mode messages decoded as RLGR3");
            }
        }
    }
    else
    {
        /* destroying nothing, refusals and queries in between change nothing */
        Enc a(l, h.cfg), b(l, h.cfg);
        for (auto &c : h.calls)
        {
            Result x = a.run(c);
            refuse(m, l, r);
            rfxcodec_encode_internals in;
            l.get_internals(&in);
            cmp(x, b.run(c), "calls around refusals", c);
        }
    }
}
void mon_done(Mon &m) {}
