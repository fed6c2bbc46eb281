/* main() of every monitor */
#pragma once
#include "common.h"

static char *g_crumb; /* shared file: current case as text, for the driver */
static long g_case = -1;
static void crumb(long n)
{
    g_case = n;
    if (g_crumb) snprintf(g_crumb, 64, "%ld\n", n);
}
static int g_report = 1;
static void on_cpu_limit(int)
{
    static const char m[] = "HANG: cpu time limit reached in one case\n";
    ssize_t x = write(g_report, m, sizeof m - 1);
    (void)x;
    _exit(97);
}
static void arm(double sec)
{
    struct itimerval t;
    memset(&t, 0, sizeof t);
    t.it_value.tv_sec = (long)sec;
    t.it_value.tv_usec = (long)((sec - (long)sec) * 1e6);
    setitimer(ITIMER_VIRTUAL, &t, nullptr);
}
static std::string jstr(const std::string &s)
{
    std::string o = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32 || c > 126) o += fmt("\\u%04x", c);
        else o += c;
    }
    return o + "\"";
}
static void write_stats(Mon &m, const std::string &path)
{
    FILE *f = fopen(path.c_str(), "w");
    if (!f) return;
    fprintf(f, "{\"evaluations\": %ld, \"known_wrap16\": %ld, \"cases\": [", m.evaluations, g_known.wrap16);
    bool firstc = true;
    for (auto d : m.case_sigs)
    {
        fprintf(f, "%s\"%llx\"", firstc ? "" : ",", (unsigned long long)d);
        firstc = false;
    }
    fprintf(f, "], \"counters\": {");
    bool first = true;
    for (auto &k : m.cnt)
    {
        fprintf(f, "%s%s: %ld", first ? "" : ", ", jstr(k.first).c_str(), k.second);
        first = false;
    }
    fprintf(f, "}, \"distinct\": [");
    first = true;
    for (auto d : m.distinct)
    {
        fprintf(f, "%s\"%llx\"", first ? "" : ",", (unsigned long long)d);
        first = false;
    }
    fprintf(f, "], \"samples\": [");
    for (size_t i = 0; i < m.samples.size(); i++) fprintf(f, "%s%s", i ? ", " : "", jstr(m.samples[i]).c_str());
    fprintf(f, "]}\n");
    fclose(f);
}

int main(int argc, char **argv)
{
    Mon m;
    long only = -1;
    int shard = 0, shards = 1;
    double cpu = 60;
    std::string stats;
    std::vector<std::pair<std::string, std::string>> todo;
    long scale_num = 1, scale_den = 1;
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        auto val = [&]() { if (i + 1 >= argc) exit(2); return std::string(argv[++i]); };
        if (a == "--seed") m.seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--tier") m.tier = val();
        else if (a == "--case") only = atol(val().c_str());
        else if (a == "--shard") shard = atoi(val().c_str());
        else if (a == "--shards") shards = atoi(val().c_str());
        else if (a == "--stats") stats = val();
        else if (a == "--cpu") cpu = atof(val().c_str());
        else if (a == "--div") scale_den = atol(val().c_str());
        else if (a == "--mul") scale_num = atol(val().c_str());
        else if (a == "--lib") { std::string n = val(); todo.push_back({n, val()}); }
        else if (a == "--opt") { std::string n = val(); m.opt[n] = val(); }
        else if (a == "--crumb")
        {
            int fd = open(val().c_str(), O_RDWR | O_CREAT, 0600);
            if (fd >= 0 && ftruncate(fd, 4096) == 0)
            {
                void *p = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
                if (p != MAP_FAILED) g_crumb = (char *)p;
            }
        }
        else { fprintf(stderr, "HARNESS: bad argument %s\n", a.c_str()); return 2; }
    }
    /* the library prints; keep its output away from ours */
    fflush(stdout);
    g_report = dup(1);
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);
    for (auto &t : todo) m.libs[t.first] = load_lib(t.first, t.second);
    signal(SIGVTALRM, on_cpu_limit);
    long total = mon_cases(m);
    if (scale_num != 1 || scale_den != 1) total = std::max(1L, total * scale_num / scale_den);
    int rc = 0;
    std::string msg;
    try
    {
        for (long c = 0; c < total; c++)
        {
            if (only >= 0) { if (c != only) continue; }
            else if ((int)(mix64(c ^ 0x5bd1) % (uint64_t)shards) != shard) continue;
            crumb(c);
            arm(cpu);
            m.cur = c;
            m.evaluations++;
            m.case_sig = 0;
            mon_case(m, c);
            if (m.case_sig) m.case_sigs.insert(m.case_sig);
        }
        arm(0);
        crumb(-2);
        if (only < 0) mon_done(m);
    }
    catch (Violation &v)
    {
        rc = 1;
        msg = fmt("VIOL case=%ld ", m.cur) + v.msg + "\n";
    }
    arm(0);
    if (rc)
    {
        ssize_t x = write(g_report, msg.data(), msg.size());
        (void)x;
    }
    if (!stats.empty()) write_stats(m, stats);
    fflush(nullptr);
    _exit(rc);
}
