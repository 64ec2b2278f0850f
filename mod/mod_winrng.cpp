// C26 adapters for the random services of Windows (CNG and CryptoAPI), run
// against a simulated operating system that fails requests and refuses
// provider handles, and that watches what becomes of every handle.
// Oracle for the bytes: as in mod_rng, three worlds that differ only in the
// values delivered give every delivered byte a 24-bit label.
#include "util.h"
#include <set>
#include <unordered_map>

static std::vector<const WinApi*> A;
namespace {
struct Sim
{
    u64                              salt = 0, calls = 0, consec = 0, failed_here = 0, calls_here = 0;
    std::vector<std::pair<u64, u64>> sched; // failing calls [first, first + n); n == 0: until healed
    u64                              acq = 0, acq_fail_from = ~0ull, acq_fail_n = 0, acq_failed_here = 0;
    u64                              next = 0x1000;
    std::map<u64, int>               live; // handle -> kind
    std::set<u64>                    dead;
    std::string                      misuse;
    std::vector<u8>                  pool;
    bool                             overrun = false;
    // bulk requests: only the ranges count
    bool                             bulk = false;
    u64                              bulk_bytes = 0;
    std::map<uintptr_t, u64>         ranges;

    void bad(const char* what, u64 h)
    {
        char b[200];
        snprintf(b, sizeof b, "%s (handle %s)", what, h == 0 ? "none" : dead.count(h) ? "released before" : live.count(h) ? "of another kind" : "never handed out");
        if (misuse.empty()) misuse = b;
    }
    int fill(u8* p, u32 n)
    {
        u64  k = calls++;
        bool f = false;
        for (auto& s : sched) f |= k >= s.first && (s.second == 0 || k < s.first + s.second);
        if (++calls_here > 200000 && !bulk) overrun = true, f = false;
        if (bulk)
        {
            if (f)
            {
                failed_here++;
                return 1;
            }
            uintptr_t a  = (uintptr_t)p;
            auto      it = ranges.upper_bound(a);
            if (it != ranges.begin() && (--it)->first + it->second == a) it->second += n; // goes on where an earlier call ended
            else
            {
                u64& r = ranges[a];
                r      = std::max<u64>(r, n);
            }
            bulk_bytes += n;
            return 0;
        }
        u64 v = mix64(hcomb(salt, k));
        if (f)
        { // a failing call may leave anything in the buffer
            failed_here++;
            for (u32 i = 0; i < n && i < v % 9; i++) p[i] = (u8)(0x40 + i);
            return 1;
        }
        for (u32 i = 0; i < n; i++)
        {
            if (i % 8 == 0) v = mix64(hcomb(hcomb(salt, k), i));
            p[i] = (u8)(v >> i % 8 * 8);
        }
        pool.insert(pool.end(), p, p + n);
        return 0;
    }
};
int s_bcrypt(void* c, uint64_t h, int flags, uint8_t* b, uint32_t n)
{
    Sim* s = (Sim*)c;
    if (h == 0)
    { // without a handle only the system-preferred generator can be asked
        if (!(flags & 2))
        {
            s->bad("BCryptGenRandom without a provider", 0);
            return 1;
        }
    }
    else if (!s->live.count(h) || s->live[h] != WK_BCRYPT)
    {
        s->bad("BCryptGenRandom on a provider that is not open", h);
        return 1;
    }
    return s->fill(b, n);
}
int s_acquire(void* c, uint64_t* h, int kind, int flags)
{
    Sim* s = (Sim*)c;
    u64  k = s->acq++;
    if (k >= s->acq_fail_from && k - s->acq_fail_from < s->acq_fail_n)
    {
        s->acq_failed_here++;
        return 1;
    }
    if (kind == WK_WINCRYPT && !((unsigned)flags & 0xF0000000u)) return 1; // there is no key container
    *h = s->next += 0x10;
    s->live[*h] = kind;
    return 0;
}
int s_release(void* c, uint64_t h, int kind)
{
    Sim* s = (Sim*)c;
    if (!s->live.count(h) || s->live[h] != kind) s->bad("a provider was released that is not open", h);
    else s->live.erase(h), s->dead.insert(h);
    return 0; // a refusal would make the library end the process
}
int s_gen(void* c, uint64_t h, uint8_t* b, uint32_t n)
{
    Sim* s = (Sim*)c;
    if (!s->live.count(h) || s->live[h] != WK_WINCRYPT)
    {
        s->bad("CryptGenRandom on a provider that is not open", h);
        return 1;
    }
    return s->fill(b, n);
}
const WinHooks hooks = {s_bcrypt, s_acquire, s_release, s_gen};

struct Rec
{
    int    rc;
    Bytes  out;
    size_t pool;
};
void misuse(Sim& w, Ctx* c, const char* when)
{
    if (c && !w.misuse.empty()) c->fail("provider-misused", "%s: %s", when, w.misuse.c_str());
}
void huge(Ctx& c, const Op& o, IWin* g, Sim& w)
{
    u64  len = (u64)o.at(1);
    Huge out(len, true);
    if (!out.p) return;
    w.bulk = true;
    w.calls_here = w.failed_here = w.bulk_bytes = 0;
    if (o.at(2)) w.sched.push_back({w.calls + (u64)o.at(2) - 1, 1});
    int rc = g->gen(out.p, len);
    w.bulk = false;
    w.sched.clear();
    c.log("one request of %llu bytes -> %s in %llu calls, %llu failed", (unsigned long long)len, rcname(rc), (unsigned long long)w.calls_here, (unsigned long long)w.failed_here);
    if (w.failed_here) c.count("fault.request-failed");
    c.count("request.longer-than-2^32");
    misuse(w, &c, "long request");
    if (rc && !w.failed_here) c.fail("refused", "a request of %llu bytes failed although the system did not", (unsigned long long)len);
    if (rc == RC_OTHER) c.fail("wrong-error", "a failing service was not reported as an exception derived from std::exception");
    bool staged = false; // through a small buffer of the generator's own: only the sum can be checked
    for (auto& r : w.ranges)
        if (r.second <= 1 << 20 && (r.first + r.second <= (uintptr_t)out.p || r.first >= (uintptr_t)out.p + len)) staged = true;
        else if (r.first < (uintptr_t)out.p || r.first + r.second > (uintptr_t)out.p + len) c.fail("wild-write", "a request of %llu bytes let the system write outside it", (unsigned long long)len);
    if (rc)
    {
        w.ranges.clear();
        return;
    }
    if (staged && w.bulk_bytes < len) c.fail("made-up", "a request of %llu bytes was answered from %llu bytes of the system", (unsigned long long)len, (unsigned long long)w.bulk_bytes);
    uintptr_t at = (uintptr_t)out.p;
    for (auto& r : w.ranges)
    {
        if (r.first > at) break;
        at = std::max<uintptr_t>(at, r.first + r.second);
    }
    if (!staged && at != (uintptr_t)out.p + len) c.fail("made-up", "of a request of %llu bytes only the first %llu were filled", (unsigned long long)len, (unsigned long long)(at - (uintptr_t)out.p));
    w.ranges.clear();
    c.nontrivial = 1;
}
void run_world(const Plan& p, Sim& w, std::vector<Rec>& recs, Ctx* c, const WinApi* api)
{
    api->set(&hooks, &w);
    struct Slots
    {
        IWin*         g[4] = {nullptr, nullptr, nullptr, nullptr};
        const WinApi* a;
        ~Slots()
        {
            for (auto* x : g) delete x;
            a->set(nullptr, nullptr);
        }
    } s;
    s.a = api;
    for (auto& o : p.ops)
    {
        IWin*& g = s.g[(u64)o.at(0) % 4];
        int    i = (int)((u64)o.at(0) % 4);
        if (o.n == "mk")
        {
            delete g;
            g = nullptr;
            misuse(w, c, "destruction");
            w.acq_failed_here = 0;
            int rc = 0, k = (int)((u64)o.at(1) % WK_COUNT);
            g = api->make(k, &rc);
            if (!c) continue;
            c->log("slot %d: construct kind %d -> %s", i, k, rcname(rc));
            c->count(rc ? "fault.provider-refused" : "op.construct");
            c->state(hcomb(900 + k, rc * 8 + std::min<u64>(w.live.size(), 4)));
            misuse(w, c, "construction");
            if (rc && !w.acq_failed_here) c->fail("refused", "construction failed although the system did not");
            if (rc == RC_OTHER) c->fail("wrong-error", "a refused provider was not reported as an exception derived from std::exception");
        }
        else if (o.n == "acqfail")
        {
            w.acq_fail_from = w.acq + (u64)o.at(0), w.acq_fail_n = std::max<u64>(1, (u64)o.at(1));
            if (c) c->log("the system will refuse %lld providers", (long long)o.at(1));
        }
        else if (o.n == "burst")
        {
            w.sched.push_back({w.calls + (u64)o.at(0), std::max<u64>(1, (u64)o.at(1))});
            if (c) c->log("%lld requests will fail, %lld requests from now", (long long)o.at(1), (long long)o.at(0));
        }
        else if (o.n == "silent")
        {
            w.sched.push_back({w.calls + (u64)o.at(0), 0});
            if (c) c->log("the service goes down"), c->count("fault.service-down");
        }
        else if (o.n == "heal")
        {
            w.sched.clear();
            w.acq_fail_n = 0;
            if (c) c->log("the system is healthy again");
        }
        else if (o.n == "del")
        {
            delete g;
            g = nullptr;
            if (c) c->log("slot %d: destroyed", i);
            misuse(w, c, "destruction");
        }
        else if (o.n == "asg")
        {
            IWin* f = s.g[(u64)o.at(1) % 4];
            if (!g || !f || g->kind() != f->kind()) continue;
            int rc = g->assign(f);
            if (c) c->log("slot %d = slot %d -> %s", i, (int)((u64)o.at(1) % 4), rcname(rc)), c->count(rc ? "op.assignment-not-offered" : "op.assign");
            misuse(w, c, "assignment");
        }
        else if (o.n == "cpy")
        {
            IWin*& t = s.g[(u64)o.at(1) % 4];
            if (!g || &t == &g) continue;
            IWin* x = g->clone();
            if (!x) continue;
            delete t;
            t = x;
            if (c) c->log("slot %d copied to slot %d", i, (int)((u64)o.at(1) % 4)), c->count("op.copy");
            misuse(w, c, "copy");
        }
        else if (o.n == "hugegen")
        {
            if (g && c) huge(*c, o, g, w);
        }
        else if (o.n == "wear")
        { // wear slot k n: k requests of n bytes from one generator, recorded as one
            if (!g) continue;
            size_t k = (size_t)((u64)o.at(1) % 80000), n = 1 + (size_t)((u64)o.at(2) % 9), j = 0;
            Buf    b(n, 0x3d);
            w.failed_here = w.calls_here = w.acq_failed_here = 0;
            Rec r;
            r.rc = RC_OK;
            for (; j < k && r.rc == RC_OK; j++)
            {
                r.rc = g->gen(b.d(), n);
                if (r.rc == RC_OK) r.out.insert(r.out.end(), b.d(), b.d() + n);
            }
            r.pool = w.pool.size();
            recs.push_back(r);
            if (!c) continue;
            c->st->steps += j;
            c->log("slot %d: %zu requests of %zu bytes -> %s", i, j, n, rcname(r.rc));
            c->count("history.requests-in-a-long-series", (i64)j);
            misuse(w, c, "request");
            if (!b.intact()) c->fail("wild-write", "a request of %zu bytes wrote outside the request", n);
            if (r.rc && !w.failed_here && !w.acq_failed_here) c->fail("refused", "request %zu of a long series failed although the system did not", j);
        }
        else if (o.n == "gen" || o.n == "pod")
        {
            if (!g) continue;
            bool   pod = o.n == "pod";
            static const size_t PODS[] = {1, 2, 4, 8, 16, 13, 300};
            size_t n   = pod ? PODS[(u64)o.at(1) % 7] : (size_t)std::min<u64>(5000, (u64)o.at(1));
            size_t off = pod ? 0 : (size_t)((u64)o.at(2) % 8);
            Buf    b(n + off, 0x3d);
            w.failed_here = w.calls_here = w.acq_failed_here = 0;
            Rec r;
            r.rc = pod ? g->rand_pod(b.d() + off, n) : g->gen(b.d() + off, n);
            r.out.assign(b.d() + off, b.d() + off + n);
            r.pool = w.pool.size();
            recs.push_back(r);
            if (!c) continue;
            c->st->steps += 1 + w.calls_here;
            c->log("slot %d: %s of %zu bytes -> %s after %llu calls, %llu failed", i, pod ? "typed draw" : "request", n, rcname(r.rc), (unsigned long long)w.calls_here, (unsigned long long)w.failed_here);
            c->bytes(r.out.data(), r.rc == RC_OK ? n : 0);
            c->state(hcomb(hcomb(g->kind() * 64 + size_class(n), w.failed_here > 2 ? 2 : w.failed_here), hcomb(r.rc, w.live.size() * 2 + pod)));
            if (w.failed_here) c->count("fault.request-failed", (i64)w.failed_here);
            misuse(w, c, "request");
            bool ok = b.intact();
            for (size_t k = 0; k < off; k++) ok &= b.d()[k] == 0x3d;
            if (!ok) c->fail("wild-write", "a request of %zu bytes wrote outside the request", n);
            if (w.overrun) c->fail("hang", "a request of %zu bytes never gave up", n);
            if (r.rc && !w.failed_here && !w.acq_failed_here) c->fail("refused", "a request of %zu bytes failed although the system did not", n);
            if (r.rc == RC_OTHER) c->fail("wrong-error", "a failing service was not reported as an exception derived from std::exception");
        }
    }
    for (auto*& x : s.g) delete x, x = nullptr;
    misuse(w, c, "destruction");
    if (c && !w.live.empty()) c->fail("provider-leaked", "%zu providers were never released", w.live.size());
}
void exec(const Plan& p, Ctx& c)
{
    const WinApi* api = A[0];
    u64           salt = 1;
    for (auto& o : p.ops)
        if (o.n == "lib") api = A[nlib(o.at(0))], salt = (u64)o.at(1);
    Sim              w[3];
    std::vector<Rec> r[3];
    for (int i = 0; i < 3; i++)
    {
        w[i].salt = hcomb(salt, i);
        scribble(hcomb(salt, i * 7 + 1));
        run_world(p, w[i], r[i], i == 0 ? &c : nullptr, api);
    }
    bool same = r[0].size() == r[1].size() && r[0].size() == r[2].size();
    for (size_t k = 0; same && k < r[0].size(); k++) same = r[0][k].rc == r[1][k].rc && r[0][k].rc == r[2][k].rc && r[0][k].pool == r[1][k].pool && r[0][k].pool == r[2][k].pool;
    if (!same) c.fail("value-dependent", "requests or verdicts depend on the values the system delivers");
    std::unordered_map<u32, int> have;
    size_t fed = 0;
    for (size_t k = 0; k < r[0].size(); k++)
    {
        for (; fed < r[0][k].pool; fed++) have[w[0].pool[fed] | w[1].pool[fed] << 8 | w[2].pool[fed] << 16]++;
        if (r[0][k].rc) continue;
        for (size_t i = 0; i < r[0][k].out.size(); i++)
        {
            auto it = have.find(r[0][k].out[i] | r[1][k].out[i] << 8 | r[2][k].out[i] << 16);
            if (it == have.end()) c.fail("made-up", "byte %zu of a request of %zu bytes (request %zu) was not delivered by the system", i, r[0][k].out.size(), k);
            if (--it->second < 0) c.fail("reused", "byte %zu of a request of %zu bytes (request %zu) was handed out before", i, r[0][k].out.size(), k);
            c.nontrivial = 1;
        }
    }
}
i64 glen(Prng& r) { return r.chance(1, 8) ? r.range(200, 3000) : r.chance(1, 2) ? r.range(0, 40) : r.pick({0, 1, 2, 3, 4, 7, 8, 9, 16, 31, 32, 33, 255, 256}); }
void gen(Prng& r, Plan& p)
{
    p.add("lib", {(i64)r.below(64), (i64)r.below(1000000000)});
    i64 ns = r.range(1, 4);
    for (i64 i = 0; i < ns; i++) p.add("mk", {i, (i64)r.below(2)});
    for (i64 n = r.range(3, 20); n > 0; n--)
        switch (r.below(12))
        {
            case 0: p.add("burst", {r.range(0, 3), r.range(1, 4)}), p.add("gen", {(i64)r.below(ns), glen(r), (i64)r.below(8)}); break;
            case 1: p.add("acqfail", {r.range(0, 1), r.range(1, 2)}), p.add("mk", {(i64)r.below(4), (i64)r.below(2)}); break;
            case 2: p.add("asg", {(i64)r.below(4), (i64)r.below(4)}); break;
            case 3: p.add("cpy", {(i64)r.below(4), (i64)r.below(4)}); break;
            case 4: p.add("del", {(i64)r.below(4)}); break;
            case 5: p.add("mk", {(i64)r.below(4), (i64)r.below(2)}); break;
            case 6: p.add("silent", {r.range(0, 2)}), p.add("gen", {(i64)r.below(ns), glen(r), 0}), p.add("pod", {(i64)r.below(ns), (i64)r.below(7)}), p.add("heal", {}); break;
            case 7: p.add("pod", {(i64)r.below(4), (i64)r.below(7)}); break;
            case 8: p.add("heal", {}); break;
            default: p.add("gen", {(i64)r.below(4), glen(r), (i64)r.below(8)});
        }
    while (r.chance(1, 20)) p.add("wear", {(i64)r.below(ns), r.chance(1, 400) ? r.range(65500, 70000) : r.range(250, 1100), (i64)r.below(9)});
}
bool dir(size_t i, Plan& p)
{
    static const i64 len[] = {(1ll << 32) - 2, (1ll << 32) - 1, 1ll << 32, (1ll << 32) + 1, 2 * ((1ll << 32) - 1), (1ll << 33) + 77, (1ll << 34) + 5};
    if (i < 56)
    { // i / 14: no failure, or which system call of the request fails
        p.add("mk", {0, (i64)i % 2}), p.add("hugegen", {0, len[i / 2 % 7], (i64)(i / 14)}), p.add("gen", {0, 33, 1});
        return true;
    }
    return false;
}
void init() { A = collect_api<const WinApi*>("gm_api_winrng"); }
Module m26("C26", gen, exec, dir, init);
} // namespace
