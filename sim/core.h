// Deterministic-simulation core: PRNG, plans, run context, checked buffers.
// One run == exec(plan): a pure function of the plan text and the code.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <unordered_set>
#include <vector>

typedef uint8_t  u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;
typedef int64_t  i64;
typedef std::vector<u8> Bytes;

static inline u64 mix64(u64 x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
static inline u64 hcomb(u64 h, u64 v) { return mix64(h ^ (v + 0x632be59bd9b4e019ull + (h << 6) + (h >> 2))); }

struct Prng
{
    u64 s;
    explicit Prng(u64 seed) : s(mix64(seed ^ 0xd1b54a32d192ed03ull)) {}
    u64 next()
    {
        s += 0x9e3779b97f4a7c15ull;
        u64 x = s;
        x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
        x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
        return x ^ (x >> 31);
    }
    u64  below(u64 n) { return n ? next() % n : 0; }
    i64  range(i64 a, i64 b) { return a + (i64)below((u64)(b - a + 1)); }
    bool chance(u32 num, u32 den) { return below(den) < num; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    i64 pick(std::initializer_list<i64> l) { return *(l.begin() + below(l.size())); }
};

// ------------------------------------------------------------------ plan
struct Op
{
    std::string      n;
    std::vector<i64> a;
    i64 at(size_t i, i64 d = 0) const { return i < a.size() ? a[i] : d; }
};
struct Plan
{
    std::vector<Op> ops;
    void add(const char* n, std::initializer_list<i64> a) { ops.push_back({n, a}); }
    void add(const char* n, const std::vector<i64>& a) { ops.push_back({n, a}); }
    std::string text() const
    {
        std::string s;
        for (auto& o : ops)
        {
            s += o.n;
            for (i64 v : o.a) s += " " + std::to_string((long long)v);
            s += "\n";
        }
        return s;
    }
};

// ------------------------------------------------------------- run context
struct Violation
{
    std::string cls, msg;
};
struct Stats
{
    std::map<std::string, u64> c;
    std::unordered_set<u64>    states;
    u64                        steps = 0;
    double                     simtime = 0; // simulated seconds, where a module has a clock
};

struct Ctx
{
    Stats* st;
    u64    h = 0x1234;
    bool   trace = false;
    u64    nontrivial = 0; // set by the module
    explicit Ctx(Stats* s) : st(s) {}

    void count(const char* k, u64 n = 1) { st->c[k] += n; }
    void count(const std::string& k, u64 n = 1) { st->c[k] += n; }
    void state(u64 v)
    {
        if (st->states.size() < 400000) st->states.insert(v);
    }
    void ev(u64 v) { h = hcomb(h, v); }
    void bytes(const void* p, size_t n)
    {
        const u8* b = (const u8*)p;
        u64 x = n;
        size_t i = 0;
        for (; i + 8 <= n; i += 8)
        {
            u64 w;
            memcpy(&w, b + i, 8);
            x = (x ^ w) * 0x9fb21c651e98df25ull;
            x ^= x >> 32;
        }
        u64 w = 0;
        if (n - i) memcpy(&w, b + i, n - i);
        x = (x ^ w) * 0x9fb21c651e98df25ull;
        h = hcomb(h, x ^ (x >> 29));
        if (trace)
        {
            printf("    bytes[%zu] ", n);
            for (size_t k = 0; k < n && k < 48; k++) printf("%02x", b[k]);
            printf("%s\n", n > 48 ? ".." : "");
        }
    }
    // log an event (goes into the run hash; printed only when replaying)
    void log(const char* fmt, ...) __attribute__((format(printf, 2, 3)))
    {
        char buf[512];
        va_list ap;
        va_start(ap, fmt);
        int n = vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        if (n < 0) n = 0;
        if (n > 511) n = 511;
        u64 x = 7;
        for (int i = 0; i < n; i++) x = (x ^ (u8)buf[i]) * 0x100000001b3ull;
        h = hcomb(h, x);
        if (trace) printf("  %s\n", buf);
    }
    // a recorded finding: counted when listed in the known-findings file,
    // otherwise an ordinary violation
    void known(const char* key, const char* msg);
    [[noreturn]] void fail(const std::string& cls, const char* fmt, ...) __attribute__((format(printf, 3, 4)))
    {
        char buf[1024];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        throw Violation{cls, buf};
    }
};

// ------------------------------------------------------------ checked buffers
#if defined(__SANITIZE_ADDRESS__) || defined(SIM_ASAN)
extern "C" void __asan_poison_memory_region(void const volatile*, size_t);
extern "C" void __asan_unpoison_memory_region(void const volatile*, size_t);
#else
static inline void __asan_poison_memory_region(void const volatile*, size_t) {}
static inline void __asan_unpoison_memory_region(void const volatile*, size_t) {}
#endif

// Exact-size heap buffer with poisoned canaries on both sides: instrumented
// library builds trap on the access, others are caught by check().
// Memory of the simulated process.  In half of the runs freed memory is used
// again at once for the next request of its size (poisoned until then), so that
// objects and buffers reappear at the address of an earlier one with different
// contents; in the others it is never reused within the run.
void* sim_alloc(size_t n);
void  sim_free(void* p);
// Where a buffer of n bytes starts within its 16-byte line: no interface asks
// for alignment, so the run decides (a quarter of the runs keep everything
// aligned, half of the others move every other buffer of a size).
unsigned sim_shift(size_t n);
struct Buf
{
    u8*    raw;
    size_t n;
    size_t pre = 64, post = 80;
    u8     can = 0xC5;
    explicit Buf(size_t n_, u8 fill = 0xEE) : n(n_)
    {
        // pre + post is constant, so that a reused block fits whatever the shift
        unsigned shift = sim_shift(n);
        pre += shift, post -= shift;
        raw = (u8*)sim_alloc(pre + n + post);
        memset(raw, can, pre + n + post);
        memset(raw + pre, fill, n);
        arm();
    }
    Buf(const void* p, size_t n_) : Buf(n_)
    {
        if (n_) memcpy(d(), p, n_);
    }
    explicit Buf(const Bytes& b) : Buf(b.data(), b.size()) {}
    Buf(const Buf&) = delete;
    Buf& operator=(const Buf&) = delete;
    ~Buf()
    {
        __asan_unpoison_memory_region(raw, pre + n + post);
        sim_free(raw);
    }
    void arm()
    {
        // poisoning granularity is 8 bytes: the partial granule in front of the
        // data stays readable (writes there show in the canary), the end is exact
        __asan_poison_memory_region(raw, pre & ~(size_t)7);
        __asan_poison_memory_region(raw + pre + n, post);
    }
    u8*       d() { return raw + pre; }
    const u8* d() const { return raw + pre; }
    Bytes     b() const { return Bytes(raw + pre, raw + pre + n); }
    bool intact() const
    {
        __asan_unpoison_memory_region(raw, pre + n + post);
        bool ok = true;
        for (size_t i = 0; i < pre; i++) ok &= raw[i] == can;
        for (size_t i = 0; i < post; i++) ok &= raw[pre + n + i] == can;
        const_cast<Buf*>(this)->arm();
        return ok;
    }
    void check(Ctx& c, const char* what) const
    {
        if (!intact()) c.fail("wild-write", "%s: bytes outside the %zu-byte buffer were written", what, n);
    }
};

// deterministic data: kind selects patterns (mostly pseudo-random)
Bytes sim_data(u64 seed, size_t n);
// a near relative of b, of the same length: shares a prefix, suffix, half, multiset, sum or parity with it
void sim_vary(Bytes& b, u64 seed);
std::string hexs(const void* p, size_t n);
Bytes unhex(const char* s);
static inline std::string hexs(const Bytes& b) { return hexs(b.data(), b.size()); }

// overwrite dead stack with seed-determined bytes so that reads of
// uninitialised locals are a function of the plan
void scribble(u64 seed);

// --------------------------------------------------------------- modules
struct Lib
{
    std::string name;
    void*       h;
    bool        asan;
    void* sym(const char* s) const;
};
extern std::vector<Lib> g_libs;

struct Module
{
    const char* id;
    void (*gen)(Prng&, Plan&);
    void (*exec)(const Plan&, Ctx&);
    // directed plans: returns false when idx is out of range
    bool (*directed)(size_t idx, Plan&);
    void (*init)();
    Module* next;
    Module(const char* i, void (*g)(Prng&, Plan&), void (*e)(const Plan&, Ctx&), bool (*d)(size_t, Plan&), void (*in)());
};

template <class T>
std::vector<T> collect_api(const char* fn)
{
    std::vector<T> v;
    for (auto& l : g_libs)
    {
        auto f = (T(*)())l.sym(fn);
        v.push_back(f ? f() : nullptr);
    }
    return v;
}
