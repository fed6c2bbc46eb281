/* Client side of the 32-bit worker process. */
#pragma once
#include "common.h"
#include <sys/socket.h>
#include <sys/wait.h>
struct X32
{
    int fd = -1;
    pid_t pid = -1;
    std::string path, label = "the 32-bit build";
    unsigned bad = 0; /* machine state / zone complaints of the last command */
    int live = 0;
    bool open(const std::string &p)
    {
        path = p;
        int sv[2];
        if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) return false;
        pid = fork();
        if (pid == 0)
        {
            dup2(sv[1], 0);
            dup2(sv[1], 1);
            for (int i = 3; i < 200; i++) close(i);
            execl(path.c_str(), path.c_str(), (char *)nullptr);
            _exit(96);
        }
        close(sv[1]);
        fd = sv[0];
        return pid > 0;
    }
    ~X32()
    {
        if (fd >= 0) close(fd);
        if (pid > 0) waitpid(pid, nullptr, 0);
    }
    void gone()
    {
        int st = 0;
        waitpid(pid, &st, 0);
        pid = -1;
        close(fd);
        fd = -1;
        if (WIFEXITED(st) && WEXITSTATUS(st) >= 95)
        {
            fprintf(stderr, "HARNESS: 32-bit worker status %d\n", WEXITSTATUS(st));
            exit(2);
        }
        VIOL("%s went down with %s %d", label.c_str(), WIFSIGNALED(st) ? "signal" : "status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
    }
    void put(const void *p, size_t n)
    {
        const char *c = (const char *)p;
        while (n)
        {
            ssize_t k = send(fd, c, n, MSG_NOSIGNAL);
            if (k <= 0) gone();
            c += k;
            n -= k;
        }
    }
    void get(void *p, size_t n)
    {
        char *c = (char *)p;
        while (n)
        {
            ssize_t k = recv(fd, c, n, 0);
            if (k < 0 && errno == EINTR) continue;
            if (k <= 0) gone();
            c += k;
            n -= k;
        }
    }
    void cmd(std::initializer_list<uint32_t> w)
    {
        uint32_t c[16] = {0};
        int i = 0;
        for (auto x : w) c[i++] = x;
        put(c, sizeof c);
    }
    int reply(int *b, Bytes &out)
    {
        uint32_t h[6];
        get(h, sizeof h);
        if (h[0] != 0x52504c59)
        {
            fprintf(stderr, "HARNESS: 32-bit worker out of step\n");
            exit(2);
        }
        *b = (int)h[2];
        bad = h[4];
        live = (int)h[5];
        out.resize(h[3]);
        get(out.data(), out.size());
        return (int)h[1];
    }
    int create(const Cfg &c, int junk, uint32_t seed, bool may_fail = false)
    {
        int b;
        Bytes o;
        cmd({1, (uint32_t)c.w, (uint32_t)c.h, (uint32_t)c.fmt, (uint32_t)c.flags, (uint32_t)c.cpu, (uint32_t)junk, seed});
        int h = reply(&b, o);
        if (h < 0 && !may_fail) VIOL("creating an encoder failed in %s: %s", label.c_str(), describe(c).c_str());
        return h;
    }
    void destroy(int h)
    {
        int b;
        Bytes o;
        cmd({2, (uint32_t)h});
        reply(&b, o);
    }
    bool fits(const Call &c) const
    {
        return (c.cap < 0 ? c.ample() : c.cap) < (40 << 20) && c.pic->mem.size() < (64u << 20);
    }
    Result encode(int h, const Call &c, int prefill = 0xC3)
    {
        Result r;
        int cap = c.cap < 0 ? c.ample() : c.cap;
        int nq = c.null_quants ? 0 : (int)c.quants.size() / 5;
        cmd({3, (uint32_t)h, (uint32_t)cap, (uint32_t)c.pic->mem.size(), (uint32_t)c.pic->offset(), (uint32_t)c.pic->stride,
             (uint32_t)(c.pic->ox + c.pic->w), (uint32_t)(c.pic->oy + c.pic->h), (uint32_t)c.rects.size(), (uint32_t)c.tiles.size(),
             (uint32_t)nq, (uint32_t)c.flags, (uint32_t)prefill});
        put(c.rects.data(), c.rects.size() * 16);
        put(c.tiles.data(), c.tiles.size() * 28);
        if (nq) put(c.quants.data(), nq * 5);
        put(c.pic->mem.data(), c.pic->mem.size());
        int b;
        r.ret = reply(&b, r.out);
        r.bytes = b;
        if (r.ret >= 0 && (b < 0 || b > cap)) VIOL("%s: reported size %d exceeds the capacity %d", label.c_str(), b, cap);
        return r;
    }
    /* -77: routine not in this build */
    int stage(int which, const uint8_t *q5, const uint8_t *pix, std::vector<short> &co, int f1, int f2)
    {
        int b;
        Bytes o;
        cmd({4, (uint32_t)which, (uint32_t)f1, (uint32_t)f2});
        put(q5, 5);
        put(pix, 4096);
        int r = reply(&b, o);
        co.resize(4096);
        memcpy(co.data(), o.data(), 8192);
        return r;
    }
    int cpuid(int leaf)
    {
        int b;
        Bytes o;
        cmd({5, (uint32_t)leaf});
        return reply(&b, o);
    }
    unsigned internals()
    {
        int b;
        Bytes o;
        cmd({6});
        return (unsigned)reply(&b, o);
    }
};
/* the two workers (position independent and not), started on first use */
static inline X32 *x32_worker(Mon &m, int which = 0)
{
    static X32 w[2];
    const char *k = which ? "x32np" : "x32";
    if (!m.opt.count(k)) return nullptr;
    if (w[which].fd < 0 && !w[which].open(m.opt[k]))
    {
        fprintf(stderr, "HARNESS: cannot start the 32-bit worker\n");
        exit(2);
    }
    return &w[which];
}
static inline const char *x32_what(unsigned bad)
{
    static const char *n[] = {"ebx", "esi", "edi", "ebp", "the SSE control register", "the x87 control word",
                              "a non-empty x87 register stack (MMX state not cleared)", "the direction flag", "the stack pointer"};
    for (int i = 0; i < 9; i++) if (bad >> i & 1) return n[i];
    if (bad >> 16 & 1) return "zones between the work areas";
    if (bad >> 17 & 1) return "the heap (bad free)";
    return "nothing";
}
