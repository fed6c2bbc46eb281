/* C10: alpha planes are lossless, self-delimiting, and leave colour alone. */
#include "main.h"
long mon_cases(Mon &m) { return m.thorough() ? 1200000 : 60000; }

/* alpha plane whose row differences (as coded) follow a chosen byte pattern */
static void make_alpha(Mon &m, Rng &r, uint8_t *a /* 4096 */, std::string *name)
{
    uint8_t e[4096];
    int kind = r.in(0, 9);
    auto rnd = [&]() { int k = r.in(0, 3); return (uint8_t)(k == 0 ? r.in(1, 255) : k == 1 ? 255 : k == 2 ? r.in(1, 3) : r.in(1, 255)); };
    switch (kind)
    {
        case 0:
        case 1:
            *name = "segments";
            for (int y = 0; y < 64; y++)
            {
                int x = 0;
                uint8_t *row = e + y * 64;
                uint8_t last = 0;
                int bias = r.in(0, 3);
                while (x < 64)
                {
                    int raw = bias == 0 ? r.in(0, 3) : bias == 1 ? r.in(0, 20) : r.in(0, 64), run = bias == 2 ? r.in(0, 5) : r.one_in(2) ? r.in(0, 8) : r.in(0, 64);
                    for (int i = 0; i < raw && x < 64; i++)
                    {
                        uint8_t v = rnd();
                        if (v == last) v = (uint8_t)(v ^ 1);
                        row[x++] = last = v;
                    }
                    if (raw == 0 && x > 0 && r.one_in(2)) last = 0;
                    for (int i = 0; i < run && x < 64; i++) row[x++] = last;
                }
            }
            break;
        case 2:
        {
            *name = "one run";
            /* every row: zeros, one run of a length depending on the row, rest raw */
            int pre = r.in(0, 63);
            uint8_t v = rnd();
            bool zero = r.one_in(3);
            for (int y = 0; y < 64; y++)
            {
                uint8_t *row = e + y * 64;
                int x = 0;
                for (; x < pre && x < 64; x++) row[x] = (uint8_t)(1 + (x * 37 + y) % 254);
                for (int i = 0; i <= y && x < 64; i++) row[x++] = zero ? 0 : v;
                for (; x < 64; x++) row[x] = (uint8_t)(1 + (x * 91 + y * 3) % 254);
            }
            break;
        }
        case 3:
        {
            *name = "near the raw limit";
            /* mostly incompressible; a number of saved bytes around the break-even */
            for (int i = 0; i < 4096; i++) e[i] = (uint8_t)r.u64();
            int rows = r.in(0, 12);
            for (int k = 0; k < rows; k++)
            {
                int y = r.in(0, 63), n = r.in(3, 64), x = r.in(0, 64 - n);
                memset(e + y * 64 + x, r.one_in(2) ? 0 : e[y * 64 + x], n);
            }
            break;
        }
        case 4:
            *name = "constant";
            memset(e, 0, 4096);
            memset(e, r.one_in(2) ? 255 : r.in(0, 255), 64);
            break;
        case 5:
            *name = "noise";
            for (int i = 0; i < 4096; i++) e[i] = (uint8_t)r.u64();
            break;
        case 6:
        {
            *name = "value steps";
            /* all 256 differences between neighbouring rows */
            int o = r.in(0, 255);
            for (int i = 0; i < 4096; i++) e[i] = (uint8_t)(o + i * 255 / 17);
            break;
        }
        case 7:
        {
            *name = "almost constant";
            memset(a, r.one_in(2) ? 255 : r.one_in(2) ? 0 : r.in(0, 255), 4096);
            if (r.one_in(4)) for (int i = r.in(0, 4095); i < 4096; i++) a[i] = (uint8_t)(r.one_in(2) ? r.u64() : 255);
            for (int i = r.in(1, 3); i > 0; i--)
            {
                int at = r.one_in(3) ? r.in(0, 4095) : r.one_in(2) ? 4095 - r.in(0, 70) * (int)r.in(0, 1) : r.one_in(2) ? r.in(0, 63) * 64 + 63 : r.in(0, 70);
                a[at] = r.one_in(2) ? (uint8_t)(a[at] + (r.one_in(2) ? 1 : -1)) : (uint8_t)r.u64();
            }
            return;
        }
        default:
        {
            *name = "picture";
            fill_plane(a, 64, 64, 64, pick_kind(r), r);
            return;
        }
    }
    memcpy(a, e, 64);
    for (int i = 64; i < 4096; i++)
    {
        int v = e[i], delta = (v & 1) ? -((v + 1) >> 1) : (v >> 1);
        a[i] = (uint8_t)(a[i - 64] + delta);
    }
}
void mon_case(Mon &m, long n)
{
    Rng r = m.rng(n);
    static const char *names[] = {"acc", "acc", "nosimd", "port", "uchar", "clang"};
    std::string ln = names[r.in(0, 5)];
    const Lib &l = m.lib(m.has(ln) ? ln : "acc");
    GenOpt go;
    go.pro = 0;
    go.alpha = 1;
    go.maxtiles = 5;
    go.maxdim = 200;
    Cfg cfg = make_cfg(r, go);
    static const int fm[] = {RFX_FORMAT_BGRA, RFX_FORMAT_RGBA, RFX_FORMAT_YUV};
    cfg.fmt = fm[r.in(0, 2)];
    Enc e(l, cfg), plainenc(l, cfg);
    int calls = r.in(1, 3);
    std::string name;
    for (int k = 0; k < calls; k++)
    {
        Call c = make_call(r, cfg, go);
        if (r.one_in(10)) c.flags |= RFX_FLAGS_PRO_KEY;
        if (r.one_in(10)) c.flags |= RFX_FLAGS_NOACCEL | RFX_FLAGS_OPT1;
        Pic &p = *c.pic;
        /* put designed alpha into most tiles */
        int tw = (p.w + 63) / 64, th = (p.h + 63) / 64;
        for (int ty = 0; ty < th; ty++)
            for (int tx = 0; tx < tw; tx++)
            {
                if (r.one_in(6)) continue;
                uint8_t a[4096];
                make_alpha(m, r, a, &name);
                if (cfg.fmt == RFX_FORMAT_YUV)
                {
                    memcpy(&p.mem[(size_t)ty * ((size_t)p.stride * 64) + (size_t)tx * 16384 + 12288], a, 4096);
                    continue;
                }
                for (int y = 0; y < 64 && ty * 64 + y < p.h; y++)
                    for (int x = 0; x < 64 && tx * 64 + x < p.w; x++)
                        p.mem[(size_t)(ty * 64 + y) * p.stride + (size_t)(tx * 64 + x) * 4 + 3] = a[y * 64 + x];
            }
        m.sample(name + ": " + describe(cfg) + "; " + describe(c));
        if (r.one_in(4)) c.cap = pick_cap(r, cfg, c);
        RunOpt o;
        o.prefill = r.in(0, 255);
        Result x = e.run(c, o);
        if (x.ret < 0)
        {
            m.count("calls refused");
            continue;
        }
        PMsg pm, pc;
        std::string why;
        if (!parse_classic(x.out.data(), x.out.size(), pm, &why)) VIOL("malformed message: %s (%s; %s)", why.c_str(), describe(cfg).c_str(), describe(c).c_str());
        if (pm.tiles.size() > c.tiles.size()) VIOL("more tiles than asked for");
        if (!pm.alpha && !pm.tiles.empty()) VIOL("alpha was requested but the message carries none");
        check_classic_content(cfg, c, pm, false, true);
        for (auto &t : pm.tiles)
        {
            m.count(t.alpha.size() && t.alpha[0] ? "compressed planes" : "raw planes");
            if (t.alpha.size() > 3900 && t.alpha.size() < 4300 && t.alpha[0]) m.count("compressed planes close to raw size");
            m.see(hash_bytes(t.alpha.data(), t.alpha.size()));
        }
        m.count("alpha planes checked", pm.tiles.size());
        for (size_t i = 0; i < pm.tiles.size(); i++) if (c.tiles[i].cx < 64 || c.tiles[i].cy < 64) m.count("edge tiles");
        /* the same without alpha: colour components must be the same */
        Call b = c;
        b.flags &= ~RFX_FLAGS_ALPHAV1;
        b.cap = -1;
        Result y = plainenc.run(b);
        if (y.ret < 0 || !parse_classic(y.out.data(), y.out.size(), pc, &why)) continue;
        for (size_t i = 0; i < pm.tiles.size() && i < pc.tiles.size(); i++)
            for (int q = 0; q < 3; q++)
                if (pm.tiles[i].comp[q] != pc.tiles[i].comp[q])
                    VIOL("tile %zu %s differs when alpha is requested (%s; %s)", i, comp_name(q), describe(cfg).c_str(), describe(c).c_str());
        m.count("colour comparisons", pm.tiles.size());
    }
}
void mon_done(Mon &m) {}
