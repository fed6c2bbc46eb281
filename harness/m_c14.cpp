/* C14: the same calls give the same bytes, whatever surrounds them.  Two
 * encoders get the same history; everything that must not matter differs:
 * old output contents, recycled heap contents, heap placement, addresses and
 * alignment of inputs and output, registers, stack contents, floating point
 * modes' leftovers, other encoders created, used and destroyed in between,
 * errno, the clock, the environment, the process id.  Long loops of the same
 * calls show that the number of calls so far does not matter either. */
#include "main.h"
#include "tramp.h"
long mon_cases(Mon &m) { return m.thorough() ? 60000 : 8000; }
struct World
{
    const Lib *l;
    Rng r{1};
    void *h = nullptr;
    uint64_t rs = 1;
    int mode = 0, err = 0;
    bool recycle = false;
    std::vector<std::pair<void *, Hist>> others;
    std::vector<void *> holes;
};
static void shake(World &w)
{
    w.l->shim->junk = w.mode == 0 ? 0 : w.recycle ? -2 : w.r.in(0, 255);
    w.l->shim->jitter = w.mode == 0 ? 0 : w.r.in(0, 12);
    w.l->shim->world = w.mode == 0 ? 0 : w.r.in(1, 1 << 30);
    static const int errs[] = {0, ENOMEM, EINTR, EAGAIN, EINVAL, ERANGE, 4711};
    w.err = w.mode == 0 ? 0 : errs[w.r.in(0, 6)];
}
static void other_activity(Mon &m, World &w)
{
    if (w.mode == 0) return;
    for (int k = w.r.in(0, 2); k > 0; k--)
    {
        if (w.others.size() < 3)
        {
            HistOpt ho;
            ho.maxtiles = 2;
            ho.maxdim = 100;
            ho.max_calls = 3;
            Hist h = make_hist(w.r, ho);
            w.l->shim->cpu_level = h.cfg.cpu;
            void *e = w.l->create(h.cfg.w, h.cfg.h, h.cfg.fmt, h.cfg.flags);
            if (!e) continue;
            w.others.push_back({e, h});
        }
        auto &o = w.others[w.r.u64() % w.others.size()];
        run_call(*w.l, o.first, o.second.calls[w.r.u64() % o.second.calls.size()]);
        m.count("calls of other encoders in between");
        if (w.r.one_in(3))
        {
            w.l->destroy(o.first);
            o = w.others.back();
            w.others.pop_back();
        }
    }
}
static uint64_t J(World &w, int v) { return (uint32_t)v | (w.r.u64() << 32); } /* upper half undefined */
static Result call(Mon &m, World &w, const Call &c, Guarded &in)
{
    Result res;
    int cap = c.cap < 0 ? c.ample() : c.cap;
    Guarded &a = out_arena(cap + 256);
    int align = w.mode == 0 ? 0 : w.r.in(0, 127);
    uint8_t *cd = a.base + a.cap - align - cap;
    int fill = w.r.in(0, 4);
    if (w.mode == 0) memset(cd, 0, cap);
    else if (fill == 0) memset(cd, 0xFF, cap);
    else if (fill == 1) for (int i = 0; i < cap; i++) cd[i] = (uint8_t)(mix64(i + w.rs) >> 11);
    else if (fill == 2) memset(cd, 0, cap); /* else: whatever is there */
    /* inputs copied to fresh addresses of any alignment */
    size_t need = c.pic->mem.size() + 64;
    if (in.cap < need + 64) { fprintf(stderr, "HARNESS: picture too big\n"); exit(2); }
    uint8_t *pic = in.base + (w.mode == 0 ? 0 : w.r.in(0, 63));
    memcpy(pic, c.pic->mem.data(), c.pic->mem.size());
    std::vector<rfx_tile> ts = c.tiles;
    std::vector<rfx_rect> rs = c.rects;
    std::vector<uint8_t> q(c.quants.size() + 64, 0x99);
    uint8_t *qp = q.data() + (w.mode == 0 ? 0 : w.r.in(0, 63));
    if (!c.quants.empty()) memcpy(qp, c.quants.data(), c.quants.size());
    int cb = cap;
    int nq = c.null_quants ? 0 : (int)c.quants.size() / 5;
    const char *qarg = c.null_quants ? nullptr : (const char *)qp;
    const char *buf = c.pic->origin(pic);
    int pw = c.pic->ox + c.pic->w, ph = c.pic->oy + c.pic->h;
    errno = w.err;
    if (w.mode == 0)
    {
        res.ret = w.l->encode_ex(w.h, (char *)cd, &cb, buf, pw, ph, c.pic->stride, rs.data(), (int)rs.size(), ts.data(), (int)ts.size(), qarg, nq, c.flags);
    }
    else
    {
        uint64_t ret;
        junk_stack(w.r.in(-1, 255), 24000);
        errno = w.err;
        tramp_call(w.l->encode_ex, {(uint64_t)w.h, (uint64_t)cd, (uint64_t)&cb, (uint64_t)buf, J(w, pw), J(w, ph), J(w, c.pic->stride),
                   (uint64_t)rs.data(), J(w, (int)rs.size()), (uint64_t)ts.data(), J(w, (int)ts.size()), (uint64_t)qarg, J(w, nq), J(w, c.flags)},
                   &ret, w.rs, false);
        res.ret = (int)ret;
    }
    res.bytes = cb;
    if (res.ret >= 0)
    {
        if (cb < 0 || cb > cap) VIOL("reported size %d exceeds the capacity %d", cb, cap);
        res.out.assign(cd, cd + cb);
    }
    return res;
}
/* what a message says apart from its frame number */
static uint64_t sense(Bytes &o, bool pro)
{
    size_t at = pro ? 6 : 8;
    int t = o[0] | o[1] << 8;
    if (t == 0xCCC0) return 0; /* the one with the stream header */
    if (o.size() >= at + 4) memset(&o[at], 0, 4);
    return hash_bytes(o.data(), o.size());
}
/* the same calls over and over: nothing changes with their number */
static void long_loop(Mon &m, long n, Rng &r)
{
    static const char *names[] = {"acc", "acc", "nosimd", "clang"};
    std::string ln = names[n / 8 % 4];
    const Lib &l = m.lib(m.has(ln) ? ln : "acc");
    l.shim->junk = 0;
    l.shim->world = 0;
    int kind = n % 8; /* 0..3 progressive, 4..5 classic, 6 encoders, 7 refused calls */
    bool pro = kind < 4 || (kind == 7 && r.one_in(2));
    long tiles = m.thorough() ? 600000 : n < 8 ? 72000 : 24000;
    Cfg cfg;
    cfg.fmt = pro ? RFX_FORMAT_YUV : r.in(0, 3);
    cfg.flags = pro ? RFX_FLAGS_PRO1 : r.one_in(2) ? RFX_FLAGS_RLGR1 : 0;
    cfg.w = cfg.h = 256;
    Call a, b;
    a.pic = make_pic(r, cfg.fmt, 256, 64, PK_TEXT, 0);
    b.pic = std::make_shared<Pic>(*a.pic);
    int nt = kind == 6 ? 1 : 4;
    for (int k = 0; k < nt; k++)
    {
        /* from little changes, so that differences are preferred, to much */
        if (pro)
        {
            uint8_t *ta = a.pic->mem.data() + a.pic->mem.size() / nt * k, *tb = b.pic->mem.data() + b.pic->mem.size() / nt * k;
            if (k != 1) { memset(ta + 4096, 100 + k, 8192); memset(tb + 4096, 100 + k, 8192); } /* the choice hangs on one plane */
            int changes = k == 3 ? r.in(100, 1500) : r.in(1, 60);
            for (int j = 0; j < changes; j++) tb[r.u64() % 4096] ^= 31;
        }
        else for (int j = 0; j < 40; j++) b.pic->mem[b.pic->mem.size() / nt * k + r.u64() % 4000] ^= 31;
        a.tiles.push_back(rfx_tile{a.pic->ox + k * 64, a.pic->oy, 64, 64, 0, 0, 0});
    }
    b.tiles = a.tiles;
    a.rects.push_back(rfx_rect{0, 0, 64, 64});
    b.rects = a.rects;
    a.null_quants = b.null_quants = true;
    if (!pro && kind != 6 && r.one_in(2)) a.flags = b.flags = RFX_FLAGS_ALPHAV1;
    std::unique_ptr<Enc> e;
    uint64_t want[2] = {0, 0};
    bool have[2] = {false, false};
    for (long i = 0, done = 0; done < tiles; i++, done += nt)
    {
        if (!e || kind == 6) e.reset(new Enc(l, cfg));
        Call &c = i & 1 ? b : a;
        if (kind == 7 && i % 3)
        {
            Call k = c;
            k.cap = 90 + (int)(i % 7);
            if (k.cap > 0) e->run(k);
            i += 2;
            done -= nt / 2;
        }
        Result x = e->run(i & 1 ? b : a);
        if (x.ret != nt) VIOL("round %ld of the same calls returns %d, before %d (%s; %s)", i, x.ret, nt, describe(cfg).c_str(), describe(a).c_str());
        if (kind != 6 && i < 6) continue;
        uint64_t s = kind == 6 ? hash_bytes(x.out.data(), x.out.size()) : sense(x.out, pro);
        if (!have[i & 1]) { have[i & 1] = true; want[i & 1] = s; }
        if (s != want[i & 1]) VIOL("round %ld of the same calls gives another message than the rounds before (%s %s; %s)", i, l.name.c_str(), describe(cfg).c_str(), describe(a).c_str());
        m.count("rounds of the same calls");
    }
    m.see(mix64(want[0] ^ want[1] ^ n));
    m.count("long loops");
}
void mon_case(Mon &m, long n)
{
    Rng r = m.rng(n);
    if (n < 16)
    {
        long_loop(m, n, r);
        return;
    }
    HistOpt ho;
    ho.maxtiles = 5;
    ho.maxdim = 180;
    ho.min_calls = 1;
    ho.max_calls = 6;
    ho.pro = n % 5 < 2;
    Hist h = make_hist(r, ho);
    m.sample(describe(h.cfg) + "; " + describe(h.calls[0]));
    static const char *names[] = {"acc", "acc", "clang", "o0", "nosimd", "port"};
    std::string ln = names[r.in(0, 5)];
    const Lib &l = m.lib(m.has(ln) ? ln : "acc");
    static Guarded in(16 << 20);
    std::vector<Result> first;
    for (int t = 0; t < 3; t++)
    {
        World w;
        std::vector<void *> crowd;
        w.l = &l;
        w.mode = t;
        w.r = Rng(r.u64());
        w.rs = r.u64();
        w.recycle = t > 0 && r.one_in(2);
        shake(w);
        other_activity(m, w);
        if (w.recycle)
        {
            /* somebody else has done much the same before; the heap still shows it */
            for (int k = w.r.in(1, 2); k > 0; k--)
            {
                l.shim->cpu_level = h.cfg.cpu;
                void *e = l.create(h.cfg.w, h.cfg.h, h.cfg.fmt, h.cfg.flags);
                if (!e) continue;
                for (auto &c : h.calls) run_call(l, e, c);
                l.destroy(e);
            }
            m.count("worlds with recycled heap contents");
        }
        if (t > 0 && n % 200 == 17 + t)
        {
            /* a server with very many clients */
            for (int k = r.one_in(2) ? 1200 : r.in(65, 300); k > 0; k--)
            {
                Cfg oc = make_cfg(w.r, GenOpt());
                l.shim->cpu_level = oc.cpu;
                void *e = l.create(oc.w, oc.h, oc.fmt, oc.flags);
                if (!e) VIOL("creating one of many encoders failed: %s", describe(oc).c_str());
                crowd.push_back(e);
            }
            m.count("crowds of encoders");
        }
        l.shim->cpu_level = h.cfg.cpu;
        errno = w.err;
        if (t == 0)
        {
            w.h = l.create(h.cfg.w, h.cfg.h, h.cfg.fmt, h.cfg.flags);
        }
        else
        {
            uint64_t ret;
            junk_stack(w.r.in(-1, 255), 24000);
            errno = w.err;
            tramp_call(l.create, {J(w, h.cfg.w), J(w, h.cfg.h), J(w, h.cfg.fmt), J(w, h.cfg.flags)}, &ret, w.rs, false);
            w.h = (void *)ret;
        }
        if (!w.h) VIOL("creating an encoder failed: %s", describe(h.cfg).c_str());
        for (size_t i = 0; i < h.calls.size(); i++)
        {
            shake(w);
            other_activity(m, w);
            Result x = call(m, w, h.calls[i], in);
            if (t == 0)
            {
                first.push_back(x);
                m.see(hash_bytes(x.out.data(), x.out.size()));
                m.count(x.ret < 0 ? "calls refused" : "calls encoded");
                continue;
            }
            m.count("repetitions compared");
            if (!((x.ret < 0 && first[i].ret < 0) || x == first[i]))
            {
                size_t d = 0;
                while (d < x.out.size() && d < first[i].out.size() && x.out[d] == first[i].out[d]) d++;
                VIOL("call %zu gives %d/%zu, repeated in other surroundings %d/%zu, first difference at byte %zu (%s %s; %s)", i, first[i].ret, first[i].out.size(),
                     x.ret, x.out.size(), d, l.name.c_str(), describe(h.cfg).c_str(), describe(h.calls[i]).c_str());
            }
        }
        l.destroy(w.h);
        for (auto &o : w.others) l.destroy(o.first);
        for (auto e : crowd) l.destroy(e);
    }
    l.shim->jitter = 0;
    l.shim->world = 0;
}
void mon_done(Mon &m) {}
