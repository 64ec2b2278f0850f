// C19 (hardware random adapters) and C20 (random_device and rand adapters)
// against simulated random devices that fail, fall silent and recover, and a
// simulated clock.
//
// Oracle: the plan is executed in three worlds that differ only in the values
// the device delivers.  Every delivered byte then carries a 24-bit label (its
// value in the three worlds); every byte a generator hands out must carry the
// label of a delivered byte, and no delivered byte may be handed out twice.
// Nothing is assumed about the order in which an adapter uses its bytes.
#include "util.h"
#include <ctime>
#include <random>
#include <unordered_map>
#include <stdexcept>
#include <sys/wait.h>
#include <unistd.h>

static std::vector<const RngApi*> A;

namespace {
// --------------------------------------------------------------- the device
struct Fail
{
    u64 from, n; // attempts [from, from + n); n == 0: until healed
};
struct World
{
    u64  salt = 0;
    bool special = false; // deliver extreme values
    // all three devices share the attempt counter of their own kind
    u64               attempts = 0;
    std::vector<Fail> sched;
    u64               consec = 0, worst = 0; // failures in a row, worst in this call
    u64               call_attempts = 0, fired = 0;
    bool              overrun = false;
    std::vector<u8>   pool; // delivered bytes, in delivery order
    // C library
    i64  clock = 1700000000;
    u64  rseed = 1, rctr = 0, srands = 0;
    std::vector<unsigned> srand_log;
    std::vector<u64>      rpos; // identity of every rand() value
    u64  bound = 60000;

    bool failing()
    {
        u64  a = attempts++;
        bool f = false;
        for (auto& s : sched) f |= a >= s.from && (s.n == 0 || a < s.from + s.n);
        call_attempts++;
        if (call_attempts > bound) overrun = true, f = false;
        if (f)
        {
            fired++;
            if (++consec > worst) worst = consec;
        }
        else consec = 0;
        return f;
    }
    u64 value(u64 tag)
    {
        u64 v = mix64(hcomb(salt, hcomb(tag, attempts)));
        if (special)
        {
            switch (v % 6)
            {
                case 0: return 0;
                case 1: return ~0ull;
                case 2: return 1;
                case 3: return 0x5a5a5a5a5a5a5a5aull; // the device repeats itself
                case 4: return v >> 40;
            }
        }
        return v;
    }
    void deliver(const void* p, size_t n)
    {
        const u8* b = (const u8*)p;
        pool.insert(pool.end(), b, b + n);
    }
};
World* g_w = nullptr;
u64    g_bulk = 0; // nonzero: a device that delivers at full speed; counts reads
int hw_bulk(void*, int, int unit, unsigned long long* v)
{
    *v = (g_bulk += (u64)unit) * 0x9e3779b97f4a7c15ull;
    return 1;
}

int hw_read(void*, int, int unit, unsigned long long* v)
{
    World* w = g_w;
    if (!w)
    {
        *v = 0;
        return 0;
    }
    bool bad = w->failing();
    u64  x   = w->value(1);
    if (bad)
    { // RDRAND/RDSEED clear the register; give back something recognisable
        *v = w->special ? 0 : mix64(x ^ 0x777);
        return 0;
    }
    *v = x;
    w->deliver(&x, (size_t)unit);
    return 1;
}
} // namespace

// ------------------------------------------------ interposed C and C++ library
std::random_device::result_type std::random_device::_M_getval()
{
    if (g_bulk) return (u32)++g_bulk;
    World* w = g_w;
    if (!w) return 0;
    bool bad = w->failing();
    u64  x   = w->value(2);
    if (bad) throw std::runtime_error("simulated random_device failure");
    u32 y = (u32)x;
    w->deliver(&y, 4);
    return y;
}
void std::random_device::_M_init(const std::string&) {}
void std::random_device::_M_fini() {}
extern "C" int rand()
{
    if (g_bulk) return (int)(++g_bulk & 0x7fffffff);
    World* w = g_w;
    if (!w) return 0;
    u64 x = mix64(hcomb(w->salt, hcomb(w->rseed, w->rctr)));
    if (w->special && x % 3 == 0) x = x % 2 ? 0 : 0x7fffffff;
    w->rpos.push_back(hcomb(w->rseed, w->rctr));
    w->rctr++, w->attempts++, w->call_attempts++;
    u32 y = (u32)x & 0x7fffffff;
    w->deliver(&y, 4);
    return (int)y;
}
extern "C" void srand(unsigned s)
{
    World* w = g_w;
    if (!w) return;
    w->rseed = s, w->rctr = 0, w->srands++;
    w->srand_log.push_back(s);
}
extern "C" time_t time(time_t* t)
{
    time_t  r;
    World*  w = g_w;
    if (w) r = (time_t)w->clock;
    else
    {
        struct timespec ts;
        clock_gettime(CLOCK_REALTIME, &ts);
        r = ts.tv_sec;
    }
    if (t) *t = r;
    return r;
}

namespace {
struct Rec
{ // what one operation did in one world
    int    rc = 0;
    Bytes  out;
    bool   intact = true;
    u64    attempts = 0, worst = 0;
    bool   overrun = false;
    size_t pool = 0;
};
struct Slot
{
    IRng* g = nullptr;
    int   kind = 0, retries = -1;
};
std::string g_seed_fault; // set by init: seeding of the rand adapter

// run the plan in one world
void run_world(const Plan& p, World& w, std::vector<Rec>& recs, Ctx* c, const RngApi* api, bool c20)
{
    g_w = &w;
    api->set_hw(hw_read, nullptr);
    Slot s[4];
    struct Clean
    {
        Slot*         s;
        const RngApi* a;
        ~Clean()
        {
            for (int i = 0; i < 4; i++) delete s[i].g;
            a->set_hw(nullptr, nullptr);
            g_w = nullptr;
        }
    } clean{s, api};
    for (auto& op : p.ops)
    {
        Slot& o = s[(u64)op.at(0) % 4];
        if (op.n == "mk" || op.n == "mkr")
        {
            int k = (int)((u64)op.at(1) % RK_COUNT);
            if (c20) k = op.at(1) % 2 ? RK_CSTD : RK_STD;
            else if (k == RK_STD || k == RK_CSTD) k = RK_RDRAND32 + k * 2;
            IRng* g = api->make(k);
            if (!g) continue;
            delete o.g;
            o.g = g, o.kind = k, o.retries = api->retries(k);
            if (c)
            {
                c->log("slot %d: generator kind %d (%s)", (int)((u64)op.at(0) % 4), k, g->name());
                c->count("op.construct");
            }
        }
        else if (op.n == "cpy" || op.n == "asg")
        { // to from: two generators with one past never hand out the same byte
            Slot& f = s[(u64)op.at(1) % 4];
            if (!f.g) continue;
            bool done = false;
            if (op.n == "asg" && o.g && o.kind == f.kind) done = o.g->assign(f.g) == RC_OK;
            else if (&o != &f)
                if (IRng* g = f.g->clone())
                {
                    delete o.g;
                    o.g = g, o.kind = f.kind, o.retries = f.retries, done = true;
                }
            if (c) c->log("slot %d copied from slot %d%s", (int)((u64)op.at(0) % 4), (int)((u64)op.at(1) % 4), done ? "" : ": not offered"), c->count(done ? "op.copy" : "op.copy-not-offered");
        }
        else if (op.n == "burst")
        { // offset from now, length
            w.sched.push_back({w.attempts + (u64)op.at(0), std::max<u64>(1, (u64)op.at(1))});
            if (c) c->log("device will fail %lld reads in a row, %lld reads from now", (long long)op.at(1), (long long)op.at(0));
        }
        else if (op.n == "silent")
        {
            w.sched.push_back({w.attempts + (u64)op.at(0), 0});
            if (c) c->log("device falls silent after %lld more reads", (long long)op.at(0)), c->count("fault.device-silent");
        }
        else if (op.n == "heal")
        {
            w.sched.clear();
            w.consec = 0;
            if (c) c->log("device healthy again"), c->count("op.heal");
        }
        else if (op.n == "clk")
        {
            w.clock += op.at(0);
            if (c)
            {
                c->log("clock moves by %lld s", (long long)op.at(0));
                c->st->simtime += op.at(0) > 0 ? (double)op.at(0) : 0;
                c->count(op.at(0) < 0 ? "fault.clock-jump-back" : op.at(0) > 100 ? "fault.clock-jump-forward" : "op.clock-tick");
            }
        }
        else if (op.n == "wear")
        { // wear slot k n: k requests of n bytes from one generator, recorded as one
            if (!o.g) continue;
            size_t k = (size_t)((u64)op.at(1) % 150000), n = 1 + (size_t)((u64)op.at(2) % 9), j = 0;
            Buf    b(n, 0x3d);
            Rec    r;
            for (; j < k && r.rc == RC_OK; j++)
            {
                w.call_attempts = 0, w.worst = w.consec = 0;
                r.rc = o.g->gen(b.d(), n);
                if (r.rc == RC_OK) r.out.insert(r.out.end(), b.d(), b.d() + n);
                r.worst = std::max<u64>(r.worst, w.worst), r.attempts += w.call_attempts;
                if (c && r.rc != RC_OK && o.kind != RK_STD && (o.kind == RK_CSTD || w.worst <= (u64)o.retries)) c->fail("not-absorbed", "request %zu of a long series failed without a reason", j);
                if (c && r.rc != RC_OK && o.kind == RK_STD && !w.worst) c->fail("refused", "request %zu of a long series failed although the device did not", j);
            }
            r.intact = b.intact();
            r.overrun = w.overrun, r.pool = w.pool.size();
            w.overrun = false;
            recs.push_back(r);
            if (!c) continue;
            c->st->steps += r.attempts;
            c->log("slot %d: %zu requests of %zu bytes -> %s", (int)((u64)op.at(0) % 4), j, n, rcname(r.rc));
            c->count("history.requests-in-a-long-series", j);
            if (!r.intact) c->fail("wild-write", "a request of %zu bytes wrote outside the request", n);
        }
        else if (op.n == "gen" || op.n == "pod")
        {
            if (!o.g) continue;
            bool   pod = op.n == "pod";
            static const size_t PODS[] = {1, 2, 4, 8, 16, 3, 7, 12, 17, 32, 61, 300, 4099};
            size_t n   = pod ? PODS[(u64)op.at(1) % 13] : (size_t)std::min<u64>(50000, (u64)op.at(1));
            Buf    b(n + (pod ? 0 : (size_t)op.at(2) % 8), 0x3d);
            size_t off = b.n - n; // alignment of the request
            w.call_attempts = 0, w.worst = w.consec = 0;
            Rec r;
            r.rc = pod ? o.g->rand_pod(b.d() + off, n) : o.g->gen(b.d() + off, n);
            r.out.assign(b.d() + off, b.d() + off + n);
            r.intact = b.intact();
            for (size_t i = 0; i < off; i++) r.intact &= b.d()[i] == 0x3d;
            r.attempts = w.call_attempts, r.worst = w.worst, r.overrun = w.overrun, r.pool = w.pool.size();
            w.overrun = false;
            recs.push_back(r);
            if (!c) continue;
            c->st->steps += r.attempts;
            c->log("slot %d: %s of %zu bytes -> %s after %llu device reads", (int)((u64)op.at(0) % 4), pod ? "typed draw" : "request", n, rcname(r.rc), (unsigned long long)r.attempts);
            c->count(std::string("op.request.") + rcname(r.rc));
            c->bytes(r.out.data(), r.rc == RC_OK ? n : 0);
            c->state(hcomb(hcomb((u64)o.kind * 64 + (u64)size_class(n), n % 8), hcomb((u64)r.rc, std::min<u64>(r.worst, 16) * 4 + (r.worst > (u64)std::max(0, o.retries)) * 2 + pod)));
            if (!r.intact) c->fail("wild-write", "a request of %zu bytes wrote outside the request", n);
            if (r.overrun) c->fail("hang", "a request of %zu bytes kept reading a silent device %llu times", n, (unsigned long long)r.attempts);
            if (o.kind == RK_CSTD || o.kind == RK_STD)
            {
                if (r.worst) c->count("fault.device-failure", 1);
                if (o.kind == RK_CSTD && r.rc != RC_OK) c->fail("refused", "the rand-based generator failed");
                if (o.kind == RK_STD && r.rc != RC_OK && !r.worst) c->fail("refused", "the generator failed although the device did not");
                if (o.kind == RK_STD && r.rc == RC_OTHER) c->fail("wrong-error", "device failure not reported as an exception derived from std::exception");
                if (o.kind == RK_STD && r.rc == RC_OK && r.worst && n) c->count("op.failure-absorbed");
            }
            else
            {
                if (r.worst) c->count(r.worst > (u64)o.retries ? "fault.burst-beyond-retries" : "fault.burst-within-retries");
                if (r.rc != RC_OK && r.worst <= (u64)o.retries)
                    c->fail("not-absorbed", "a request failed although no read failed more than %llu times in a row (%d retries configured)", (unsigned long long)r.worst, o.retries);
                if (r.rc != RC_OK && r.rc != RC_STD) c->fail("wrong-error", "device failure reported as %s", rcname(r.rc));
                if (r.worst > 4 * (u64)o.retries + 64) c->fail("unbounded", "%llu failed reads in a row before giving up (%d retries configured)", (unsigned long long)r.worst, o.retries);
            }
        }
    }
}
void huge_request(const Op& o, Ctx& c);
void exec_any(const Plan& p, Ctx& c, bool c20)
{
    for (auto& op : p.ops)
        if (op.n == "hugegen") return huge_request(op, c);
    if (c20 && !g_seed_fault.empty()) c.fail("seeding", "%s", g_seed_fault.c_str());
    const RngApi* api = A[0];
    u64           salt = 1;
    for (auto& op : p.ops)
        if (op.n == "lib") api = A[nlib(op.at(0))], salt = (u64)op.at(1);
    World            w[4];
    std::vector<Rec> r[4];
    for (int i = 0; i < 4; i++)
    {
        w[i].salt = hcomb(salt, i), w[i].special = i == 3;
        w[i].rseed = hcomb(salt, 99) >> 32; // the C library starts from some earlier seed
        scribble(hcomb(salt, i * 7 + 1));
        run_world(p, w[i], r[i], i == 0 ? &c : nullptr, api, c20);
    }
    // same C library value handed out twice: some construction rewound it
    {
        std::unordered_set<u64> seen;
        for (u64 x : w[0].rpos)
            if (!seen.insert(x).second)
                c.fail("repeated", "constructing a generator rewound the C library: a generator repeats bytes handed out before (srand called %llu times)", (unsigned long long)w[0].srands);
    }
    // extreme values: same verdicts, bytes still from the device
    std::map<u8, i64> have;
    size_t fed = 0;
    for (size_t k = 0; k < r[3].size(); k++)
    {
        Rec& x = r[3][k];
        if (!x.intact || x.overrun) c.fail("wild-write", "extreme device values: wild write or endless reading");
        if (k < r[0].size() && x.attempts == r[0][k].attempts && x.rc != r[0][k].rc) c.fail("value-dependent", "the verdict of a request depends on the values the device delivers");
        for (; fed < x.pool; fed++) have[w[3].pool[fed]]++;
        if (x.rc == RC_OK)
            for (u8 b : x.out)
                if (--have[b] < 0) c.fail("made-up", "extreme device values: byte %02x handed out more often than the device delivered it", b);
    }
    // labels
    bool same = r[0].size() == r[1].size() && r[0].size() == r[2].size();
    for (size_t k = 0; same && k < r[0].size(); k++)
        same = r[0][k].pool == r[1][k].pool && r[0][k].pool == r[2][k].pool && r[0][k].rc == r[1][k].rc && r[0][k].rc == r[2][k].rc;
    if (!same) c.fail("value-dependent", "device reads or verdicts depend on the values delivered");
    std::unordered_map<u32, int> pool;
    fed = 0;
    for (size_t k = 0; k < r[0].size(); k++)
    {
        for (; fed < r[0][k].pool; fed++) pool[w[0].pool[fed] | w[1].pool[fed] << 8 | w[2].pool[fed] << 16]++;
        if (r[0][k].rc != RC_OK) continue;
        for (size_t i = 0; i < r[0][k].out.size(); i++)
        {
            u32  l  = r[0][k].out[i] | r[1][k].out[i] << 8 | r[2][k].out[i] << 16;
            auto it = pool.find(l);
            if (it == pool.end()) c.fail("made-up", "byte %zu of a request of %zu bytes (request %zu) is not a byte the device delivered", i, r[0][k].out.size(), k);
            if (--it->second < 0) c.fail("reused", "byte %zu of a request of %zu bytes (request %zu) reuses a device byte handed out before", i, r[0][k].out.size(), k);
            c.nontrivial = 1;
        }
        if (r[0][k].rc == RC_OK) c.count("probe.bytes-traced", r[0][k].out.size());
    }
}
void huge_request(const Op& o, Ctx& c)
{ // hugegen kind len: one request longer than 2^32 bytes from a device that never fails
    int  k = (int)((u64)o.at(0) % RK_COUNT);
    u64  len = (u64)o.at(1);
    Huge out(len, true);
    if (!out.p) return;
    size_t L = 0;
    for (size_t i = 0; i < g_libs.size(); i++)
        if (g_libs[i].name == "simd") L = i;
    std::unique_ptr<IRng> g(A[L]->make(k));
    if (!g) return;
    A[L]->set_hw(hw_bulk, nullptr);
    g_bulk = 1;
    int rc = g->gen(out.p, len);
    u64 n  = (g_bulk - 1) * (k == RK_STD ? 4 : 1);
    g_bulk = 0;
    A[L]->set_hw(nullptr, nullptr);
    c.log("one request of %llu bytes from generator kind %d -> %s", (unsigned long long)len, k, rcname(rc));
    c.count("request.longer-than-2^32");
    if (rc) c.fail("refused", "a request of %llu bytes failed although the device did not", (unsigned long long)len);
    if (n < len) c.fail("made-up", "a request of %llu bytes was answered from at most %llu device bytes", (unsigned long long)len, (unsigned long long)n);
    bool same = true;
    for (u64 i = len - 64; i < len; i++) same &= out.p[i] == out.p[len - 64];
    if (same) c.fail("made-up", "the end of a request of %llu bytes was not written", (unsigned long long)len);
    c.nontrivial = 1;
}
void exec19(const Plan& p, Ctx& c) { exec_any(p, c, false); }
void exec20(const Plan& p, Ctx& c) { exec_any(p, c, true); }

// Seeding happens once per process: settle it before the first run so that
// runs do not depend on each other, after watching it in two child processes
// whose clocks differ.
void init()
{
    A = collect_api<const RngApi*>("gm_api_rng");
    for (size_t l = 0; l < A.size(); l++)
    {
        u32 seeds[2] = {0, 0};
        for (int k = 0; k < 2; k++)
        {
            int fd[2];
            if (pipe(fd)) abort();
            fflush(nullptr);
            pid_t pid = fork();
            if (pid == 0)
            {
                World w;
                w.clock = k ? 1700003601 : 1700000000;
                g_w     = &w;
                IRng* g = A[l]->make(RK_CSTD);
                u8    b[16];
                g->gen(b, 16);
                u32 v[2] = {(u32)w.srands, w.srand_log.empty() ? 0 : w.srand_log[0]};
                if (write(fd[1], v, 8) < 0) {}
                _exit(0);
            }
            u32 v[2] = {0, 0};
            close(fd[1]);
            if (read(fd[0], v, 8) != 8) g_seed_fault = "constructing the first rand-based generator ended the process";
            close(fd[0]);
            int st;
            waitpid(pid, &st, 0);
            if (!v[0] && g_seed_fault.empty()) g_seed_fault = "the rand-based generator never seeds the C library";
            seeds[k] = v[1];
        }
        if (seeds[0] == seeds[1] && g_seed_fault.empty()) g_seed_fault = "the seed of the rand-based generator does not depend on the clock";
        World w;
        g_w = &w;
        delete A[l]->make(RK_CSTD);
        g_w = nullptr;
    }
}
i64 glen(Prng& r)
{
    switch (r.below(6))
    {
        case 0: return r.range(0, 9);
        case 1: return r.range(0, 40);
        case 2: return 8 * r.range(0, 12) + r.range(-1, 1) + 1;
        case 3: return r.chance(1, 200) ? r.range(3000, 50000) : r.chance(1, 6) ? r.range(500, 3000) : r.range(0, 300);
        default: return r.pick({0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 64});
    }
}
void gen_any(Prng& r, Plan& p, bool c20)
{
    p.add("lib", {(i64)r.below(64), (i64)r.below(1000000000)});
    i64 ns = r.range(1, c20 ? 4 : 3);
    for (i64 i = 0; i < ns; i++) p.add("mk", {i, c20 ? (i64)r.below(2) : r.range(2, RK_COUNT - 1)});
    i64 n = r.range(3, 18);
    for (i64 i = 0; i < n; i++)
    {
        switch (r.below(c20 ? 12 : 10))
        {
            case 0:
            case 1:
            case 2: p.add("gen", {(i64)r.below(ns), glen(r), (i64)r.below(8)}); break;
            case 3: p.add("pod", {(i64)r.below(ns), (i64)r.below(r.chance(1, 8) ? 13 : 11)}); break;
            case 4:
            case 5:
                if (c20) p.add("burst", {r.chance(1, 2) ? r.range(0, 4) : r.range(0, 70), r.range(1, 3)});
                else
                    for (i64 b = r.range(1, 4), at = r.range(0, 6); b > 0; b--)
                    {
                        i64 len = r.chance(1, 4) ? r.pick({10, 10, 11, 3, 3, 4, 1}) : r.range(1, r.chance(1, 3) ? 12 : 3);
                        p.add("burst", {at, len});
                        at += len + 1 + (i64)r.below(6);
                    }
                p.add("gen", {(i64)r.below(ns), glen(r), (i64)r.below(8)});
                break;
            case 6:
                p.add("silent", {r.chance(1, 2) ? 0 : r.range(0, 30)});
                p.add("gen", {(i64)r.below(ns), glen(r), 0});
                if (r.chance(1, 2)) p.add("gen", {(i64)r.below(ns), glen(r), 0});
                p.add("heal", {});
                p.add(r.chance(1, 3) ? "pod" : "gen", {(i64)r.below(ns), glen(r), (i64)r.below(8)});
                break;
            case 7: p.add("mk", {(i64)r.below(ns), c20 ? (i64)r.below(2) : r.range(2, RK_COUNT - 1)}); break;
            case 8:
                if (r.chance(1, 2)) p.add("heal", {});
                else
                {
                    i64 f = (i64)r.below(ns), t = (i64)r.below(4);
                    p.add(r.chance(1, 2) ? "cpy" : "asg", {t, f});
                    p.add("gen", {f, glen(r), (i64)r.below(8)}), p.add("gen", {t, glen(r), (i64)r.below(8)});
                }
                break;
            case 10: p.add("clk", {r.pick({0, 1, 1, 2, 60, 86400, -1, -3600, 1000000000})}); break;
            default:
                p.add("gen", {(i64)r.below(ns), glen(r), (i64)r.below(8)});
                if (c20 && r.chance(1, 2)) p.add("mk", {(i64)r.below(ns), 1}), p.add("gen", {(i64)r.below(ns), glen(r), 0});
        }
    }
    while (r.chance(1, 20)) p.add("wear", {(i64)r.below(ns), r.chance(1, 400) ? r.range(66000, 140000) : r.range(250, 1100), (i64)r.below(9)});
}
void gen19(Prng& r, Plan& p) { gen_any(r, p, false); }
void gen20(Prng& r, Plan& p) { gen_any(r, p, true); }
bool dir19(size_t i, Plan& p)
{ // every adapter, a burst of every length 0..13 at every read, every tail
    if (i < 8)
    {
        p.add("hugegen", {RK_RDRAND32 + (i64)i, (1ll << 32) + 13 + (i64)i});
        return true;
    }
    i -= 8;
    if (i < 8 * 14 * 6)
    {
        i64 k = RK_RDRAND32 + (i64)(i % 8), len = (i64)(i / 8 % 14), at = (i64)(i / 112);
        p.add("lib", {3, (i64)i + 5}); // the last variant has every instruction
        p.add("mk", {0, k});
        for (i64 t = 0; t < 9; t++)
        {
            if (len) p.add("burst", {at, len});
            p.add("gen", {0, 16 + t, t});
            p.add("heal", {});
        }
        p.add("silent", {at}), p.add("gen", {0, 64 + (i64)i % 8, 0}), p.add("pod", {0, (i64)i % 12}), p.add("heal", {});
        p.add("pod", {0, (i64)(i / 5 % 13)}), p.add("gen", {0, 9, 1});
        return true;
    }
    return false;
}
bool dir20(size_t i, Plan& p)
{
    if (i < 2)
    {
        p.add("hugegen", {(i64)i, (1ll << 32) + 13});
        return true;
    }
    i -= 2;
    if (i < 40)
    { // a failure at every read of a request
        p.add("lib", {(i64)i, (i64)i + 5});
        p.add("mk", {0, 0});
        for (i64 t = 1; t < 12; t++)
        {
            p.add("burst", {(i64)i, 1 + t % 2});
            p.add("gen", {0, 3 * t, t}), p.add("heal", {});
            p.add("pod", {0, t});
        }
        return true;
    }
    i -= 40;
    if (i < 60)
    { // construct, draw, construct again with a clock that stands still, ticks or jumps
        static const i64 dt[] = {0, 1, -1, 3600, -86400};
        p.add("lib", {(i64)i, (i64)i + 9});
        p.add("mk", {0, 1}), p.add("gen", {0, 1 + (i64)(i / 5), 0}), p.add("clk", {dt[i % 5]});
        p.add("mk", {1, 1}), p.add("gen", {1, 1 + (i64)(i / 5), 0}), p.add("gen", {0, 7, 1});
        p.add("clk", {-dt[i % 5]}), p.add("mk", {2, 1}), p.add("gen", {2, i % 3 ? 40 : 9000, 0}), p.add("pod", {1, (i64)i % 13});
        return true;
    }
    return false;
}
Module m19("C19", gen19, exec19, dir19, init);
Module m20("C20", gen20, exec20, dir20, init);
} // namespace
