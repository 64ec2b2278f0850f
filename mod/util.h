#pragma once
#include "../ref/ref.h"
#include "../shim/api.h"
#include "../sim/core.h"
#include <algorithm>

// chunk-size profiles (swarm: one profile per run)
// around a power of two from 2^11 to 2^17, the sizes of pages and staging buffers
static inline i64 gen_long(Prng& r, i64 bs) { return (1ll << r.range(11, r.chance(1, 4) ? 17 : 14)) + (r.chance(1, 2) ? r.range(-1, 1) : r.range(-2 * bs, 3 * bs)); }
// lengths in plans: small ones are taken modulo m, with bit 30 set they are up to 32 MiB
static inline size_t oplen(u64 v, u64 m = 70000) { return (size_t)(v >> 30 == 1 ? v & 0x1ffffff : v % m); }
static inline i64 gen_big(Prng& r, i64 bs)
{
    i64 base = r.pick({1 << 17, 1 << 17, 1 << 18, 1 << 19, 1 << 20, 1 << 20, 3 << 19, 1 << 21});
    i64 d = r.chance(1, 4) ? bs * r.range(-3, 300) : r.chance(1, 3) ? r.range(0, 1 << 17) : r.range(-1, 2 * bs);
    return (1 << 30) | (base + d);
}
// now and then one operation of a plan gets a length above everything else
static inline void grow_one(Prng& r, Plan& p, i64 bs, std::initializer_list<std::pair<const char*, int>> where)
{
    if (!r.chance(1, 150)) return;
    std::vector<i64*> v;
    for (auto& o : p.ops)
        for (auto& w : where)
            if (o.n == w.first && (int)o.a.size() > w.second) v.push_back(&o.a[w.second]);
    if (v.size()) *v[r.below(v.size())] = gen_big(r, bs);
}
static inline i64 gen_chunk(Prng& r, i64 bs, int prof)
{
    if (prof > 1 && r.chance(1, 80)) return gen_long(r, bs);
    switch (prof)
    {
        case 0: return r.range(0, 3);
        case 1: return r.pick({0, 1, bs - 1, bs, bs + 1, 2 * bs - 1, 2 * bs, 2 * bs + 1});
        case 2: return bs * r.range(0, 9);
        case 3: return bs * r.range(0, 40) + r.range(-1, 1) + (r.chance(1, 4) ? r.range(0, bs) : 1);
        case 4: return r.range(0, 3 * bs);
        case 5: return r.range(0, 1500);
        default:
            switch (r.below(8))
            {
                case 0: return 0;
                case 1: return 1;
                case 2: return bs;
                case 3: return bs - 1;
                case 4: return bs * r.range(1, 20);
                case 5: return r.range(0, 600);
                default: return r.range(0, 2 * bs);
            }
    }
}
static inline int size_class(u64 n)
{
    int c = 0;
    while (n) c++, n >>= 1;
    return c;
}
static inline const char* rcname(int rc)
{
    static const char* n[] = {"ok", "std-exception", "injected-fault", "other-exception"};
    return rc >= 0 && rc < 4 ? n[rc] : "?";
}
// compare with a message that names the first difference
static inline void expect_bytes(Ctx& c, const char* cls, const char* what, const u8* got, const u8* want, size_t n)
{
    for (size_t i = 0; i < n; i++)
        if (got[i] != want[i])
            c.fail(cls, "%s: byte %zu of %zu is %02x, expected %02x", what, i, n, got[i], want[i]);
}
// address ranges too long for 32-bit lengths, backed by next to no memory
// (not writable: sixteen bytes of data, then zeros; writable: a sink)
struct Huge
{
    u8*    p = nullptr;
    size_t n;
    Huge(size_t n_, bool writable);
    ~Huge();
    Huge(const Huge&) = delete;
};
static inline size_t nlib(i64 i) { return g_libs.empty() ? 0 : (size_t)((u64)i % g_libs.size()); }

// --------------------------------------------------------------- simulated RNG
// Serves scripted 32-byte blocks first, then a seeded stream; can fail at the
// n-th call; stops a caller that never stops drawing.
// Re-entrancy: while the library waits for a callback (random device, user-written hash or cipher), the callback itself uses
// the library with other objects.  "at" counts callbacks down; errors found inside are raised after the outer call.
struct Nest
{
    i64         at = -1;
    u64         seed = 0;
    bool        in = false;
    u64         done = 0;
    std::string err;
    std::vector<Bytes> served; // what random devices delivered to the inner operations
    void (*fn)(void*, u64) = nullptr;
    void* ctx = nullptr;
    void  clear() { *this = Nest(); }
    void  step();
    void  raise(Ctx& c)
    {
        if (done) c.count("history.nested-use", done), done = 0;
        if (!err.empty())
        {
            std::string e = err;
            err.clear();
            c.fail("nested-use-differs", "used from inside a callback of the library: %s", e.c_str());
        }
    }
};
extern Nest g_nest;
struct SimRng
{
    std::vector<Bytes> script;  // one entry per 32 bytes of the stream (cycled bytes)
    u64                seed = 1;
    u64                calls = 0, bytes = 0;
    i64                fail_at = -1; // call index that fails
    int                fail_kind = 1;
    u64                bound = 2000;
    bool               overrun = false;
    std::vector<Bytes> served;
    static int gen(void* p, void* out, size_t n)
    {
        SimRng* s = (SimRng*)p;
        u64     k = s->calls++;
        // the device uses the library itself: before it fills the request or after it did
        bool    late = g_nest.at == 0 && g_nest.seed >> 3 & 1;
        if (g_nest.at >= 0 && !late) g_nest.step();
        if (s->fail_at >= 0 && (i64)k == s->fail_at)
        {
            s->fired = true;
            // the device may have delivered part of the request before it failed
            size_t q = (size_t)(mix64(s->seed * 3 + k) % (n + 1));
            for (size_t i = 0; i < q; i++) ((u8*)out)[i] = (u8)(mix64(s->seed + i) | 1);
            return s->fail_kind;
        }
        if (s->bytes >= s->bound * 32 || k >= s->bound * 40)
        {
            s->overrun = true;
            return 1;
        }
        Bytes b(n);
        auto keep = [](std::vector<Bytes>& v, u8 x) { // what was served, in blocks of 32 bytes however it was asked for
            if (v.empty() || v.back().size() == 32) v.push_back({});
            v.back().push_back(x);
        };
        for (size_t i = 0; i < n; i++, s->bytes++)
        {
            u64 blk = s->bytes / 32, at = s->bytes % 32;
            if (at == 0 || i == 0) s->blk = s->block(blk);
            b[i] = s->blk[at];
            keep(s->served, b[i]);
            if (g_nest.in) keep(g_nest.served, b[i]);
        }
        if (n) memcpy(out, b.data(), n);
        if (late) g_nest.step();
        return 0;
    }
    Bytes block(u64 j) const
    {
        Bytes b(32);
        if (j < script.size())
        {
            const Bytes& t = script[j];
            for (size_t i = 0; i < 32; i++) b[i] = t.empty() ? 0 : t[i % t.size()];
            return b;
        }
        Prng r(hcomb(seed, j));
        for (auto& x : b) x = (u8)r.next();
        return b;
    }
    Bytes blk;
    bool  fired = false;
};
