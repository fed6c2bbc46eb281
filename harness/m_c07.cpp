/* C07: entropy coders: lossless, bounded, plain == combined. */
#include "main.h"
long mon_cases(Mon &m) { return m.thorough() ? 4000000 : 100000; }

static const int AMPLE = 1 << 18;
typedef std::vector<short> Co;

static Co gen(Mon &m, Rng &r, long n, std::string *name)
{
    Co c(4096, 0);
    int kind = n % 10;
    auto val = [&](int mx) { int v = r.in(1, mx); return (short)(r.one_in(2) ? v : -v); };
    switch (kind)
    {
        case 0:
        {
            /* one zero run of a chosen length, then a value, then a tail */
            *name = "run";
            int L = m.thorough() ? (int)((n / 10) % 4097) : (int)(mix64(n ^ m.seed) % 4097);
            int p = 0, pre = r.one_in(2) ? 0 : r.in(1, 60);
            for (; p < pre && p < 4096; p++) c[p] = val(r.one_in(2) ? 2 : 200);
            p += L;
            if (p < 4096) c[p++] = val(r.one_in(2) ? 1 : 8191);
            if (r.one_in(2)) for (; p < 4096; p++) c[p] = r.one_in(3) ? val(30) : 0;
            break;
        }
        case 1:
        {
            *name = "last coefficients";
            int k = r.in(1, 12);
            for (int i = 0; i < k; i++) c[4095 - r.in(0, 15)] = val(r.one_in(2) ? 3 : 8191);
            if (r.one_in(2)) for (int i = 0; i < 4080; i++) c[i] = r.one_in(4) ? val(9) : 0;
            break;
        }
        case 2:
        {
            *name = "uniform";
            int mx = 1 << r.in(0, 13);
            if (mx > 8191) mx = 8191;
            for (auto &v : c) v = (short)r.in(-mx, mx);
            break;
        }
        case 3:
        {
            *name = "sparse";
            int d = r.in(2, 300), mx = 1 << r.in(0, 12);
            for (auto &v : c) v = r.one_in(d) ? val(mx) : 0;
            break;
        }
        case 4:
        {
            *name = "phases";
            int p = 0;
            while (p < 4096)
            {
                int len = r.in(1, 400), how = r.in(0, 5), mx = 1 << r.in(0, 12);
                for (int i = 0; i < len && p < 4096; i++, p++)
                    c[p] = how == 0 ? 0 : how == 1 ? val(mx) : how == 2 ? (short)r.in(-1, 1) : how == 3 ? (short)(r.one_in(2) ? 8191 : -8191) : how == 4 ? (short)((i & 1) ? val(mx) : 0) : val(8191);
            }
            break;
        }
        case 5:
        {
            *name = "extremes";
            int d = r.in(1, 40);
            for (auto &v : c) v = r.one_in(d) ? (short)(r.one_in(2) ? 8191 : -8191) : 0;
            break;
        }
        case 6:
        {
            *name = "picture";
            Bytes p(4096);
            fill_plane(p.data(), 64, 64, 64, pick_kind(r), r);
            Bytes q = make_quants(r, 1);
            FwdOut f;
            bool pro = r.one_in(2);
            forward_tile(p.data(), pro, qtab_from(q.data()), f);
            for (int i = 0; i < 4096; i++) c[i] = (short)std::max(-8191, std::min(8191, f.c[i]));
            if (r.one_in(3))
            {
                Bytes p2 = p;
                for (int k = r.in(1, 300); k > 0; k--) p2[r.in(0, 4095)] = (uint8_t)r.u64();
                FwdOut g;
                forward_tile(p2.data(), pro, qtab_from(q.data()), g);
                for (int i = 0; i < 4096; i++) c[i] = (short)std::max(-8191, std::min(8191, g.c[i] - f.c[i]));
            }
            break;
        }
        case 7:
        {
            *name = "alternating";
            int per = r.in(1, 9), mx = 1 << r.in(0, 12);
            for (int i = 0; i < 4096; i++) c[i] = (i % (per + 1)) ? 0 : val(mx);
            if (r.one_in(2)) std::reverse(c.begin(), c.end());
            break;
        }
        case 8:
        {
            *name = "constant";
            short v = r.one_in(3) ? 0 : val(1 << r.in(0, 13) > 8191 ? 8191 : 1 << r.in(0, 12));
            for (auto &x : c) x = v;
            if (r.one_in(2)) c[r.in(0, 4095)] = val(8191);
            break;
        }
        default:
        {
            *name = "geometric";
            double s = r.in(1, 4000) / 10.0;
            for (auto &v : c)
            {
                double u = (r.u64() >> 11) * (1.0 / 9007199254740992.0);
                int k = (int)(-log(1 - u) * s);
                if (k > 8191) k = 8191;
                v = (short)(r.one_in(2) ? k : -k);
            }
            break;
        }
    }
    return c;
}
static std::string show(const Co &c)
{
    /* short description of the block */
    std::string s;
    int i = 0, parts = 0;
    while (i < 4096 && parts < 12)
    {
        int j = i;
        while (j < 4096 && c[j] == c[i]) j++;
        s += fmt("%s%dx%d", parts ? " " : "", j - i, c[i]);
        i = j;
        parts++;
    }
    return s + (i < 4096 ? " ..." : "");
}
void mon_case(Mon &m, long n)
{
    Rng r = m.rng(n);
    std::string kind;
    Co d = gen(m, r, n, &kind); /* what the coder has to carry */
    /* tail to be differenced: keep sums within what 16 bits hold */
    int T = r.one_in(2) ? 64 : r.one_in(2) ? 81 : r.one_in(3) ? 0 : r.in(1, 4096);
    Co c = d;
    if (T > 1)
    {
        int first = 4096 - T; /* first + 1 .. 4095 are differences */
        long s = c[first];
        for (int i = first + 1; i < 4096; i++)
        {
            if (s + d[i] > 16000 || s + d[i] < -16000) d[i] = (short)-d[i];
            s += d[i];
            c[i] = (short)s;
        }
    }
    static Guarded arena(AMPLE + 8192), carena(16384);
    static const char *names[] = {"acc", "acc", "port", "clang", "uchar"};
    std::string ln = names[r.in(0, 4)];
    const Lib &l = m.lib(m.has(ln) ? ln : "acc");
    if (m.cur < 12) m.sample(kind + ": " + show(d));
    auto coefs = [&](const Co &v) {
        short *p = (short *)(r.one_in(2) ? carena.at_end(8192) : carena.at_start());
        memcpy(p, v.data(), 8192);
        return p;
    };
    for (int mode = 1; mode <= 3; mode += 2)
    {
        uint8_t *buf = arena.at_end(AMPLE);
        memset(buf, r.in(0, 255), 65536);
        int len = mode == 1 ? l.in.rfxencode_rlgr1(coefs(d), buf, AMPLE) : l.in.rfxencode_rlgr3(coefs(d), buf, AMPLE);
        if (len <= 0 || len > AMPLE) VIOL("RLGR%d reports %d bytes for %s [%s]", mode, len, kind.c_str(), show(d).c_str());
        Bytes plain(buf, buf + len);
        std::vector<int> back;
        size_t used = 0;
        std::string why;
        if (!rlgr_decode(mode, plain.data(), plain.size(), 4096, back, &used, &why))
            VIOL("RLGR%d: %s (%s: %s)", mode, why.c_str(), kind.c_str(), show(d).c_str());
        for (int i = 0; i < 4096; i++)
            if (back[i] != d[i]) VIOL("RLGR%d: coefficient %d comes back as %d, was %d (%s: %s)", mode, i, back[i], d[i], kind.c_str(), show(d).c_str());
        if (used != plain.size()) VIOL("RLGR%d: %zu bytes emitted but the coefficients end after %zu (%s: %s)", mode, plain.size(), used, kind.c_str(), show(d).c_str());
        m.count("blocks decoded back");
        m.count("bytes decoded", len);
        m.see(hash_bytes(plain.data(), plain.size()));
        auto diff = [&](int room, Bytes *out) {
            uint8_t *b = arena.at_end(room);
            memset(b - 64, 0x99, 64);
            memset(b, r.in(0, 255), std::min(room, 65536));
            short *p = coefs(c);
            int got = mode == 1 ? l.in.rfxencode_diff_rlgr1(p, b, room, T) : l.in.rfxencode_diff_rlgr3(p, b, room, T);
            for (int i = 1; i <= 64; i++) if (b[-i] != 0x99) VIOL("RLGR%d combined coder wrote in front of its buffer", mode);
            if (got > room) VIOL("RLGR%d combined coder reports %d bytes in %d", mode, got, room);
            if (got >= 0) out->assign(b, b + got);
            return got;
        };
        Bytes o;
        int rooms[6] = {AMPLE, len, len + 1, len - 1, r.in(0, len - 1), r.one_in(2) ? 0 : std::max(0, len - r.in(2, 12))};
        for (int k = 0; k < 6; k++)
        {
            o.clear();
            int got = diff(rooms[k], &o);
            if (rooms[k] >= len)
            {
                if (got < 0) VIOL("RLGR%d combined coder fails with %d bytes of room for %d (%s, tail %d: %s)", mode, rooms[k], len, kind.c_str(), T, show(d).c_str());
                if (o != plain) VIOL("RLGR%d combined coder (tail %d) emits other bytes than the plain one (%zu vs %d; %s: %s)", mode, T, o.size(), len, kind.c_str(), show(d).c_str());
                m.count("combined streams compared");
            }
            else
            {
                if (got >= 0) VIOL("RLGR%d combined coder claims %d bytes in %d bytes of room, the stream has %d (%s: %s)", mode, got, rooms[k], len, kind.c_str(), show(d).c_str());
                m.count("too little room refused");
            }
        }
        /* the plain coder with too little room: must stay inside */
        for (int k = 0; k < 3; k++)
        {
            int room = k == 0 ? len - 1 : k == 1 ? r.in(0, len - 1) : r.in(0, std::min(len - 1, 9));
            uint8_t *b = arena.at_end(room);
            memset(b - 64, 0x99, 64);
            if (mode == 1) l.in.rfxencode_rlgr1(coefs(d), b, room);
            else l.in.rfxencode_rlgr3(coefs(d), b, room);
            for (int i = 1; i <= 64; i++) if (b[-i] != 0x99) VIOL("RLGR%d coder wrote in front of its buffer", mode);
            m.count("plain coder in too little room");
        }
    }
}
void mon_done(Mon &m) {}
