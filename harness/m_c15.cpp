/* C15: threads with encoders of their own, or handing them over between calls.
 * Built twice: with ThreadSanitizer (races), and plain (real parallel load).
 * Results are compared with the same histories run by one thread. */
#include "main.h"
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <pthread.h>
#include <thread>
long mon_cases(Mon &m)
{
#ifdef MON_TSAN
    return m.thorough() ? 2400 : 480;
#else
    return m.thorough() ? 36000 : 2400;
#endif
}
/* a copy of the library nobody has called into yet */
static Lib fresh(Mon &m, const std::string &name, long n)
{
    Dl_info di;
    const Lib &l = m.lib(name);
    if (!dladdr((void *)l.encode_ex, &di)) return l;
    std::string to = fmt("cold.%d.%ld.so", (int)getpid(), n);
    std::string path = "./" + to;
    FILE *a = fopen(di.dli_fname, "rb"), *b = fopen(path.c_str(), "wb");
    if (!a || !b) { fprintf(stderr, "HARNESS: copy\n"); exit(2); }
    static char buf[1 << 16];
    size_t k;
    while ((k = fread(buf, 1, sizeof buf, a)) > 0) fwrite(buf, 1, k, b);
    fclose(a);
    fclose(b);
    Lib f = load_lib_cold(name, path);
    unlink(path.c_str());
    return f;
}
struct Job
{
    Hist h;
    void *e = nullptr;
    size_t next = 0;
    std::vector<Result> got;
};
struct Start
{
    pthread_barrier_t b;
    explicit Start(int n) { pthread_barrier_init(&b, nullptr, n); }
    ~Start() { pthread_barrier_destroy(&b); }
    void wait() { pthread_barrier_wait(&b); }
};
static std::mutex g_mx;
static std::string g_viol;
static void note(const std::string &s)
{
    std::lock_guard<std::mutex> g(g_mx);
    if (g_viol.empty()) g_viol = s;
}
static void step(const Lib &l, Job &j, Rng &r)
{
    if (!j.e)
    {
        j.e = l.create(j.h.cfg.w, j.h.cfg.h, j.h.cfg.fmt, j.h.cfg.flags);
        if (!j.e) { note("creating an encoder failed in a thread"); j.next = j.h.calls.size(); return; }
    }
    RunOpt o;
    o.use_short = j.h.calls[j.next].flags == 0 && r.one_in(2);
    j.got.push_back(run_call(l, j.e, j.h.calls[j.next], o));
    j.next++;
    if (j.next == j.h.calls.size()) l.destroy(j.e);
}
void mon_case(Mon &m, long n)
{
    Rng r = m.rng(n);
    HistOpt ho;
    ho.maxtiles = 3;
    ho.maxdim = 130;
    ho.min_calls = 1;
    ho.max_calls = 5;
    int nt = r.in(2, 6);
    bool hand = n % 3 == 2;
    bool cold = n % 3 == 0 || n % 3 == 2;
    int nj = hand ? nt + r.in(0, 4) : nt;
    /* often everybody does the same kind of thing at once */
    int same = r.in(0, 4);
    std::vector<Job> jobs(nj);
    for (auto &j : jobs)
    {
        HistOpt q = ho;
        if (same == 0) q.pro = 1;
        if (same == 1) { q.pro = 0; q.alpha = 1; }
        if (same == 2) { q.pro = 0; }
        j.h = make_hist(r, q);
        for (auto &c : j.h.calls) if (c.rects.size() > 50) c.rects.resize(50);
    }
#ifdef MON_TSAN
    std::string name = "tsan";
#else
    static const char *names[] = {"acc", "acc", "clang", "nosimd", "port"};
    std::string name = names[r.in(0, 4)];
    if (!m.has(name)) name = "acc";
#endif
    int level = r.in(-1, 2);
    Lib l = cold ? fresh(m, name, n) : m.lib(name);
    l.shim->cpu_level = level;
    m.count(cold ? "first calls of the process made in parallel" : "warm starts");
    Start st(nt);
    std::vector<uint64_t> seeds(nt);
    for (auto &s : seeds) s = r.u64();
    std::atomic<long> overlap{0}, maxover{0};
    std::vector<std::thread> ts;
    std::mutex qm;
    std::vector<int> ready;
    for (int i = 0; i < nj; i++) ready.push_back(i);
    std::atomic<int> left{nj};
    std::vector<long> handed(nt, 0);
    std::vector<int> last(nj, -1);
    auto body = [&](int t) {
        Rng tr(seeds[t]);
        try
        {
            st.wait();
            if (!hand)
            {
                Job &j = jobs[t];
                while (j.next < j.h.calls.size())
                {
                    long o = overlap.fetch_add(1, std::memory_order_relaxed) + 1, mo = maxover.load(std::memory_order_relaxed);
                    if (o > mo) maxover.store(o, std::memory_order_relaxed);
                    step(l, j, tr);
                    overlap.fetch_sub(1, std::memory_order_relaxed);
                }
                return;
            }
            for (;;)
            {
                int k = -1;
                {
                    std::lock_guard<std::mutex> g(qm);
                    if (left.load() == 0) return;
                    if (!ready.empty())
                    {
                        size_t i = tr.u64() % ready.size();
                        k = ready[i];
                        ready[i] = ready.back();
                        ready.pop_back();
                        if (last[k] >= 0 && last[k] != t) handed[t]++;
                        last[k] = t;
                    }
                }
                if (k < 0) { std::this_thread::yield(); continue; }
                long o = overlap.fetch_add(1, std::memory_order_relaxed) + 1, mo = maxover.load(std::memory_order_relaxed);
                if (o > mo) maxover.store(o, std::memory_order_relaxed);
                step(l, jobs[k], tr);
                overlap.fetch_sub(1, std::memory_order_relaxed);
                std::lock_guard<std::mutex> g(qm);
                if (jobs[k].next < jobs[k].h.calls.size()) ready.push_back(k);
                else left.fetch_sub(1);
            }
        }
        catch (Violation &v)
        {
            note(v.msg);
            left.store(0);
        }
    };
    for (int t = 0; t < nt; t++) ts.emplace_back(body, t);
    for (auto &t : ts) t.join();
    if (!g_viol.empty()) VIOL("%s", g_viol.c_str());
    for (auto x : handed) m.count("encoders handed over", x);
    if (maxover.load() > 1) m.count("cases with calls overlapping in time");
    m.count("threads", nt);
    m.count("encoders", nj);
    /* one thread, one encoder after the other, in a library of its own */
    const Lib &ref = m.lib(name);
    ref.shim->cpu_level = level;
    for (auto &j : jobs)
    {
        void *e = ref.create(j.h.cfg.w, j.h.cfg.h, j.h.cfg.fmt, j.h.cfg.flags);
        if (!e) VIOL("creating an encoder failed");
        for (size_t i = 0; i < j.h.calls.size(); i++)
        {
            Result x = run_call(ref, e, j.h.calls[i]);
            const Result &y = j.got[i];
            m.count("calls compared with single-threaded run");
            m.see(hash_bytes(x.out.data(), x.out.size()));
            if (!((x.ret < 0 && y.ret < 0) || x == y))
                VIOL("with %d threads a call gives %d/%zu, single-threaded %d/%zu (%s; %s)", nt, y.ret, y.out.size(), x.ret, x.out.size(),
                     describe(j.h.cfg).c_str(), describe(j.h.calls[i]).c_str());
        }
        ref.destroy(e);
    }
    m.sample(fmt("%d threads, %d encoders%s%s; ", nt, nj, hand ? ", handed over" : "", cold ? ", cold" : "") + describe(jobs[0].h.cfg));
}
void mon_done(Mon &m) {}
