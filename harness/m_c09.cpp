/* C09: every build, CPU level and acceleration setting produces the same bytes. */
#include "x32.h"
#include "main.h"
long mon_cases(Mon &m) { return m.thorough() ? 120000 : 7000; }
struct Cand
{
    std::string name;
    std::unique_ptr<Enc> e;
    X32 *x = nullptr;
    int h = -1;
};
void mon_case(Mon &m, long n)
{
    Rng r = m.rng(n);
    HistOpt ho;
    ho.maxtiles = 6;
    ho.maxdim = 200;
    ho.min_calls = 1;
    ho.max_calls = 5;
    ho.pro = n % 4 == 0;
    ho.big_lists = r.one_in(4);
    if (r.one_in(4)) ho.kind = PK_EXTREME;
    ho.screens = 500;
    Hist h = make_hist(r, ho);
    if (h.calls[0].tiles.size() > 90) m.count("screens");
    h.cfg.flags &= ~(RFX_FLAGS_NOACCEL);
    m.sample(describe(h.cfg) + "; " + describe(h.calls[0]));
    std::vector<Cand> cs;
    auto add = [&](const std::string &lib, int cpu, int flag) {
        if (!m.has(lib)) return;
        Cfg c = h.cfg;
        c.cpu = cpu;
        c.flags |= flag;
        Cand k;
        k.name = lib + fmt("/cpu%d%s", cpu, flag ? "/noaccel" : "");
        m.lib(lib).shim->junk = r.in(0, 255);
        k.e.reset(new Enc(m.lib(lib), c));
        cs.push_back(std::move(k));
    };
    /* the reference: plain C */
    add("nosimd", -1, 0);
    add("acc", -1, 0);
    add("acc", 0, 0);
    add("acc", 1, 0);
    add("acc", 2, 0);
    add("acc", -1, RFX_FLAGS_NOACCEL);
    add("nosimd", -1, RFX_FLAGS_NOACCEL);
    add("port", -1, 0);
    add("uchar", -1, 0);
    add(r.one_in(2) ? "clang" : "o0", r.in(-1, 2), 0);
    if (r.one_in(2)) add("clang", r.in(-1, 2), RFX_FLAGS_NOACCEL);
    X32 *x = x32_worker(m, n & 1);
    bool xok = x != nullptr;
    for (auto &c : h.calls) if (xok && !x->fits(c)) xok = false;
    if (xok)
    {
        for (int lev = 0; lev <= 2; lev++)
        {
            if (lev != (int)(n % 3) && lev != 2) continue;
            Cfg c = h.cfg;
            c.cpu = lev;
            if (r.one_in(4)) c.flags |= RFX_FLAGS_NOACCEL;
            Cand k;
            k.name = fmt("32-bit%s/cpu%d%s", n & 1 ? "(not PIC)" : "", lev, c.flags & RFX_FLAGS_NOACCEL ? "/noaccel" : "");
            k.x = x;
            k.h = x->create(c, r.in(0, 255), (uint32_t)r.u64());
            cs.push_back(std::move(k));
        }
    }
    for (auto &c : h.calls)
    {
        Result ref;
        for (size_t i = 0; i < cs.size(); i++)
        {
            Cand &k = cs[i];
            Result y = k.x ? k.x->encode(k.h, c) : k.e->run(c);
            if (i == 0)
            {
                ref = y;
                m.see(hash_bytes(y.out.data(), y.out.size()));
                m.count(y.ret < 0 ? "calls refused" : y.ret < (int)c.tiles.size() ? "calls partial" : "calls complete");
                if (y.ret > 0) m.count("tiles", y.ret);
                continue;
            }
            m.count(k.x ? "32-bit comparisons" : "comparisons");
            m.count("with " + k.name.substr(0, k.name.find('/')));
            /* a refused call has no bytes: all builds must refuse it */
            bool same = (ref.ret < 0 && y.ret < 0) || y == ref;
            if (!same)
            {
                size_t d = 0;
                while (d < ref.out.size() && d < y.out.size() && ref.out[d] == y.out[d]) d++;
                VIOL("%s gives %d/%zu, %s gives %d/%zu, first difference at byte %zu (%s; %s)", cs[0].name.c_str(), ref.ret, ref.out.size(), k.name.c_str(), y.ret,
                     y.out.size(), d, describe(h.cfg).c_str(), describe(c).c_str());
            }
        }
    }
    for (auto &k : cs) if (k.x) k.x->destroy(k.h);
}
void mon_done(Mon &m) {}
