#include "core.h"
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <string>

std::vector<Lib> g_libs;
static Module*   g_mods = nullptr;
static std::vector<std::string> g_known;

void Ctx::known(const char* key, const char* msg)
{
    for (auto& k : g_known)
        if (k == key)
        {
            count(std::string("known.") + key);
            log("known finding %s", key);
            return;
        }
    fail(std::string("finding:") + key, "%s", msg);
}

Module::Module(const char* i, void (*g)(Prng&, Plan&), void (*e)(const Plan&, Ctx&), bool (*d)(size_t, Plan&), void (*in)())
    : id(i), gen(g), exec(e), directed(d), init(in), next(g_mods)
{
    g_mods = this;
}

void* Lib::sym(const char* s) const { return dlsym(h, s); }

void sim_vary(Bytes& b, u64 seed)
{
    size_t n = b.size();
    if (!n) return;
    u64    q = mix64(seed ^ 0x5eed0f), p = mix64(q) % n, p2 = mix64(q + 1) % n;
    u8     m = (u8)(q >> 40 | 1);
    auto   from = [&](size_t a, size_t e) { for (size_t i = a; i < e; i++) b[i] ^= (u8)(mix64(q + i) % 255 + 1); };
    switch (q % 12)
    {
        case 0: b[p] ^= (u8)(1 << (q >> 32) % 8); break;
        case 1: from(std::min<size_t>(8, n - 1), n); break; // the first word is the same
        case 2: from(0, n > 8 ? n - 8 : 1); break;           // the last word is
        case 3: std::swap(b[p], b[p2]); break;
        case 4: std::rotate(b.begin(), b.begin() + (n / 2 ? n / 2 : 0), b.end()); break;
        case 5: from(n / 2, n); break;
        case 6: b[n - 1] ^= m; break;
        case 7: // the xor of all bytes (and, sixteen apart, of all blocks) is the same
            p2 = p + 16 < n ? p + 16 : p2;
            if (p != p2) b[p] ^= m, b[p2] ^= m;
            break;
        case 8: // the sum of all bytes is the same
            if (p != p2 && b[p] < 255 && b[p2]) b[p]++, b[p2]--;
            break;
        case 9: from(std::min<size_t>(16, n - 1), n); break;
        case 10: std::reverse(b.begin(), b.end()); break;
        case 11: // equal up to a zero byte
            b[p] = 0;
            if (p + 1 < n) b[n - 1] ^= m;
            break;
    }
}
Bytes sim_data(u64 seed, size_t n)
{
    Bytes b(n);
    switch (seed % 16)
    {
        case 5: // a near relative of the data of the seed before
        case 9:
        case 13:
            b = sim_data(seed - 1, n);
            sim_vary(b, seed);
            return b;
        case 0: return b;
        case 1: std::fill(b.begin(), b.end(), 0xff); return b;
        case 2:
            for (size_t i = 0; i < n; i++) b[i] = (u8)i;
            return b;
        case 3: // sparse
            for (size_t i = 0; i < n; i++) b[i] = (mix64(seed + i) % 7 == 0) ? (u8)mix64(seed ^ i) : 0;
            return b;
        default: break;
    }
    Prng r(seed);
    size_t i = 0;
    for (; i + 8 <= n; i += 8)
    {
        u64 x = r.next();
        memcpy(&b[i], &x, 8);
    }
    if (i < n)
    {
        u64 x = r.next();
        memcpy(&b[i], &x, n - i);
    }
    return b;
}
std::string hexs(const void* p, size_t n)
{
    static const char* d = "0123456789abcdef";
    std::string s;
    const u8* b = (const u8*)p;
    for (size_t i = 0; i < n; i++) s += d[b[i] >> 4], s += d[b[i] & 15];
    return s;
}
Bytes unhex(const char* s)
{
    Bytes b;
    auto v = [](char c) -> int { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
    while (*s)
    {
        if (*s == ' ' || *s == '\n')
        {
            s++;
            continue;
        }
        b.push_back((u8)(v(s[0]) << 4 | v(s[1])));
        s += 2;
    }
    return b;
}

__attribute__((noinline, no_sanitize("address"))) void scribble(u64 seed)
{
    volatile u64 a[6144];
    u64 x = seed | 1;
    for (size_t i = 0; i < 6144; i++)
    {
        x = x * 6364136223846793005ull + 1442695040888963407ull;
        a[i] = x;
    }
    __asm__ volatile("" ::"r"(a) : "memory");
}

// ---------------------------------------------------------------------------
static double now_s()
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

static bool parse_plans(const char* path, std::vector<Plan>& out)
{
    FILE* f = fopen(path, "r");
    if (!f) return false;
    char* line = nullptr;
    size_t cap = 0;
    out.clear();
    out.push_back(Plan());
    while (getline(&line, &cap, f) > 0)
    {
        if (line[0] == '#' || line[0] == '\n') continue;
        if (!strncmp(line, "---", 3))
        {
            out.push_back(Plan());
            continue;
        }
        Op o;
        char* p = strtok(line, " \n");
        if (!p) continue;
        o.n = p;
        while ((p = strtok(nullptr, " \n"))) o.a.push_back((i64)strtoll(p, nullptr, 10));
        out.back().ops.push_back(o);
    }
    free(line);
    fclose(f);
    return true;
}

struct Outcome
{
    bool        viol = false;
    std::string cls, msg;
    u64         h = 0;
    u64         nontrivial = 0;
};

static int g_cpu_limit = 25;
static void arm_timer(int sec)
{
    struct itimerval it;
    memset(&it, 0, sizeof it);
    it.it_value.tv_sec = sec;
    setitimer(ITIMER_PROF, &it, nullptr);
}
static void on_prof(int)
{
    static const char m[] = "\nSIM-HANG: the run exceeded its CPU bound\n";
    if (write(2, m, sizeof m - 1) < 0) {}
    _exit(98);
}

// ------------------------------------------------------------- memory reuse
#ifdef __SANITIZE_ADDRESS__
#include <malloc.h>
extern "C" int __asan_address_is_poisoned(void const volatile*);
#include <new>
enum { POOL_MAX = 8192, POOL_DEPTH = 6 };
static void* g_pool[POOL_MAX + 1][POOL_DEPTH];
static u8    g_pooln[POOL_MAX + 1];
static bool  g_pseen[POOL_MAX + 1];
static bool  g_recycle = false;
static u64   g_recycled = 0;
static u32   g_used[POOL_MAX + 1];
static u32   g_nused = 0;
void* sim_alloc(size_t n)
{
    if (n <= POOL_MAX && g_pooln[n])
    {
        void* p = g_pool[n][--g_pooln[n]];
        __asan_unpoison_memory_region(p, n);
        g_recycled++;
        return p;
    }
    return malloc(n);
}
void sim_free(void* p)
{
    if (g_recycle && p)
    {
        if (__asan_address_is_poisoned(p)) fprintf(stderr, "SIM-DOUBLE-FREE\n"), abort();
        size_t n = malloc_usable_size(p);
        if (n && n <= POOL_MAX && g_pooln[n] < POOL_DEPTH)
        {
            if (!g_pseen[n]) g_pseen[n] = true, g_used[g_nused++] = (u32)n;
            __asan_poison_memory_region(p, n);
            g_pool[n][g_pooln[n]++] = p;
            return;
        }
    }
    free(p);
}
static void recycle(bool on)
{
    g_recycle = false;
    for (u32 i = 0; i < g_nused; i++)
    {
        size_t n   = g_used[i];
        g_pseen[n] = false;
        while (g_pooln[n])
        {
            void* p = g_pool[n][--g_pooln[n]];
            __asan_unpoison_memory_region(p, n);
            free(p);
        }
    }
    g_nused = 0;
    g_recycle = on;
}
void* operator new(size_t n)
{
    void* p = sim_alloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void  operator delete(void* p) noexcept { sim_free(p); }
void  operator delete[](void* p) noexcept { sim_free(p); }
void  operator delete(void* p, size_t) noexcept { sim_free(p); }
void  operator delete[](void* p, size_t) noexcept { sim_free(p); }
#else
static u64 g_recycled = 0;
void* sim_alloc(size_t n) { return malloc(n); }
void  sim_free(void* p) { free(p); }
static void recycle(bool) {}
#endif
static u64 g_align = 0, g_align_n = 0;
unsigned sim_shift(size_t n)
{
    if (g_align % 4 == 0) return 0;
    u64 k = g_align & 4 ? g_align_n++ & 1 : 0;
    return (unsigned)(mix64(g_align ^ (n * 2 + k) * 0x9e3779b97f4a7c15ull) % 16);
}
static u64 run_hash(const Plan& p)
{ // decided by the first operation, which a minimised plan usually keeps
    u64 h = 7;
    if (!p.ops.empty())
    {
        for (char ch : p.ops[0].n) h = hcomb(h, (u64)ch);
        for (i64 v : p.ops[0].a) h = hcomb(h, (u64)v);
    }
    return h;
}

static Outcome exec_once(Module* m, const Plan& p, Stats* st, bool trace)
{
    Outcome o;
    Ctx c(st);
    c.trace = trace;
    int limit = g_cpu_limit;
    for (auto& op : p.ops)
        if (op.n.compare(0, 4, "huge") == 0) limit = std::max(limit, 110);
    arm_timer(limit);
    u64  rh   = run_hash(p);
    bool re   = rh & 1;
    g_align   = mix64(rh), g_align_n = 0;
    g_recycled = 0;
    recycle(re);
    try
    {
        m->exec(p, c);
    }
    catch (Violation& v)
    {
        o.viol = true;
        o.cls = v.cls, o.msg = v.msg;
    }
    recycle(false);
    arm_timer(0);
    if (re) c.count("memory.reused", g_recycled);
    if (g_align % 4) c.count("memory.unaligned-run");
    o.h = c.h;
    o.nontrivial = c.nontrivial;
    return o;
}

static void make_plan(Module* m, u64 seed, u64 idx, Plan& p)
{
    p.ops.clear();
    if (m->directed && m->directed(idx, p)) return;
    u64 hs = seed;
    for (const char* s = m->id; *s; s++) hs = hcomb(hs, (u64)*s);
    Prng r(hcomb(hs, idx));
    m->gen(r, p);
}

// outcome of executing a plan twice: also detects results that depend on
// process history
static Outcome exec_twice(Module* m, const Plan& p, Stats* st, bool trace)
{
    Outcome a = exec_once(m, p, st, trace);
    if (a.viol) return a;
    for (auto& o : p.ops)
        if (o.n.compare(0, 4, "huge") == 0) return a; // gigabytes: once is enough
    Stats   tmp;
    Outcome b = exec_once(m, p, &tmp, false);
    if (b.viol)
    {
        b.cls = "second-run:" + b.cls;
        return b;
    }
    if (a.h != b.h)
    {
        a.viol = true;
        a.cls = "history-dependent";
        a.msg = "the same plan executed twice in one process gave different observable results";
    }
    return a;
}

static std::string json_escape(const std::string& s)
{
    std::string o;
    for (char ch : s)
    {
        if (ch == '"' || ch == '\\') o += '\\', o += ch;
        else if (ch == '\n') o += "\\n";
        else if ((u8)ch < 32) o += ' ';
        else o += ch;
    }
    return o;
}

int main(int argc, char** argv)
{
    // one address-space layout, so that even what depends on addresses repeats
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("GM_LAYOUT"))
    {
        setenv("GM_LAYOUT", "1", 1);
        if (personality((unsigned)pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    std::string mode = argc > 1 ? argv[1] : "";
    std::string prop, out, cur, planfile, statesf;
    u64 seed = 1, start = 0, stride = 1, maxruns = ~0ull, floor_runs = 1;
    double budget = 10;
    bool trace = false;
    for (int i = 2; i < argc; i++)
    {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--prop") prop = val();
        else if (a == "--lib")
        {
            std::string v = val();
            size_t e = v.find('=');
            Lib l;
            l.name = v.substr(0, e);
            l.asan = l.name.find("asan") != std::string::npos;
            l.h = dlopen(v.substr(e + 1).c_str(), RTLD_NOW | RTLD_LOCAL);
            if (!l.h)
            {
                fprintf(stderr, "dlopen: %s\n", dlerror());
                return 2;
            }
            g_libs.push_back(l);
        }
        else if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--start") start = strtoull(val().c_str(), 0, 10);
        else if (a == "--stride") stride = strtoull(val().c_str(), 0, 10);
        else if (a == "--runs") maxruns = strtoull(val().c_str(), 0, 10);
        else if (a == "--budget") budget = atof(val().c_str());
        else if (a == "--floor") floor_runs = strtoull(val().c_str(), 0, 10);
        else if (a == "--out") out = val();
        else if (a == "--states") statesf = val();
        else if (a == "--cur") cur = val();
        else if (a == "--plan") planfile = val();
        else if (a == "--trace") trace = true;
        else if (a == "--known") g_known.push_back(val());
        else if (a == "--cpu") g_cpu_limit = atoi(val().c_str());
    }
    Module* m = g_mods;
    while (m && prop != m->id) m = m->next;
    if (!m)
    {
        fprintf(stderr, "no module %s\n", prop.c_str());
        return 2;
    }
    signal(SIGPROF, on_prof);
    if (mode == "gen")
    {
        Plan p;
        make_plan(m, seed, start, p);
        fputs(p.text().c_str(), stdout);
        return 0;
    }
    if (m->init) m->init();
    if (mode == "run")
    {
        std::vector<Plan> ps;
        if (!parse_plans(planfile.c_str(), ps)) return 2;
        Stats st;
        u64 hh = 0;
        for (size_t i = 0; i < ps.size(); i++)
        {
            Outcome o = exec_twice(m, ps[i], &st, trace);
            hh = hcomb(hh, o.h);
            if (o.viol)
            {
                printf("VIOL %zu %s | %s\n", i, o.cls.c_str(), o.msg.c_str());
                printf("HASH %016llx\n", (unsigned long long)hh);
                if (trace)
                    for (auto& kv : st.c) printf("STAT %s %llu\n", kv.first.c_str(), (unsigned long long)kv.second);
                return 3;
            }
        }
        printf("HASH %016llx\n", (unsigned long long)hh);
        if (trace)
            for (auto& kv : st.c) printf("STAT %s %llu\n", kv.first.c_str(), (unsigned long long)kv.second);
        return 0;
    }
    if (mode == "hashes") // determinism audits: one line per run
    {
        Stats st;
        for (u64 k = 0; k < maxruns; k++)
        {
            Plan p;
            make_plan(m, seed, start + k * stride, p);
            Outcome o = exec_once(m, p, &st, false);
            printf("%llu %016llx %d\n", (unsigned long long)(start + k * stride), (unsigned long long)o.h, o.viol);
        }
        return 0;
    }
    if (mode != "batch") return 2;
    u64* curm = nullptr;
    if (!cur.empty())
    {
        int fd = open(cur.c_str(), O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ftruncate(fd, 16)) return 2;
        curm = (u64*)mmap(0, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
    }
    Stats st;
    std::unordered_set<u64> distinct;
    u64 runs = 0, nontriv = 0, det = 0, idx = start;
    double t0 = now_s();
    Outcome bad;
    std::string badplan, sample;
    u64 badidx = 0;
    u64 runhash = 0;
    // Plans with gigabytes in them come last, so that a slow machine cannot
    // spend the whole budget on them; a batch on a loaded machine goes on (up
    // to five budgets) until it has done a floor of runs.
    std::vector<u64> heavy;
    size_t           nheavy = 0;
    while (runs < maxruns)
    {
        double el = now_s() - t0;
        bool   light = el < budget || (runs < floor_runs && el < 5 * budget);
        u64    id = idx;
        Plan   p;
        if (light)
        {
            make_plan(m, seed, idx, p);
            bool h = false;
            for (auto& op : p.ops) h |= op.n.compare(0, 4, "huge") == 0;
            idx += stride;
            if (h)
            {
                heavy.push_back(id);
                continue;
            }
        }
        else if (nheavy < heavy.size() && el < 5 * budget + 180)
        {
            id = heavy[nheavy++];
            make_plan(m, seed, id, p);
        }
        else break;
        if (curm) curm[0] = id, curm[1] = 1;
        Outcome o;
        if (runs % 16 == 3)
        {
            o = exec_twice(m, p, &st, false);
            det++;
        }
        else o = exec_once(m, p, &st, false);
        runs++;
        runhash = hcomb(runhash, o.h);
        if (o.nontrivial)
        {
            u64 key = 1;
            std::string t = p.text();
            for (char ch : t) key = (key ^ (u8)ch) * 0x100000001b3ull;
            if (distinct.size() < 2000000 ? distinct.insert(mix64(key)).second : false) nontriv++;
        }
        if (sample.empty() && o.nontrivial && (runs > 20 || start + stride > 64)) sample = p.text();
        if (o.viol)
        {
            bad = o;
            badplan = p.text();
            badidx = id;
            break;
        }
    }
    double wall = now_s() - t0;
    FILE* f = fopen(out.c_str(), "w");
    if (!f) return 2;
    fprintf(f, "{\"runs\":%llu,\"nontrivial\":%llu,\"det\":%llu,\"wall\":%.3f,\"next\":%llu,\"runhash\":\"%016llx\",\"steps\":%llu,\"simtime\":%.6f,", (unsigned long long)runs,
            (unsigned long long)nontriv, (unsigned long long)det, wall, (unsigned long long)idx, (unsigned long long)runhash,
            (unsigned long long)st.steps, st.simtime);
    fprintf(f, "\"sample\":\"%s\",\"stats\":{", json_escape(sample.substr(0, 1500)).c_str());
    bool first = true;
    for (auto& kv : st.c)
    {
        fprintf(f, "%s\"%s\":%llu", first ? "" : ",", json_escape(kv.first).c_str(), (unsigned long long)kv.second);
        first = false;
    }
    fprintf(f, "},\"viol\":%s,\"badidx\":%llu,\"cls\":\"%s\",\"msg\":\"%s\",\"plan\":\"%s\"}\n", bad.viol ? "true" : "false", (unsigned long long)badidx,
            json_escape(bad.cls).c_str(), json_escape(bad.msg).c_str(), json_escape(badplan).c_str());
    fclose(f);
    if (!statesf.empty())
    {
        FILE* g = fopen(statesf.c_str(), "wb");
        if (g)
        {
            for (u64 v : st.states) fwrite(&v, 8, 1, g);
            fclose(g);
        }
    }
    return bad.viol ? 3 : 0;
}
