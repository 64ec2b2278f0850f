// The hardware RNG adapters are compiled with the CPU instructions replaced by
// the simulator's device (the intrinsics expand to these builtins).
#define __builtin_ia32_rdrand16_step sim_rdrand16
#define __builtin_ia32_rdrand32_step sim_rdrand32
#define __builtin_ia32_rdrand64_step sim_rdrand64
#define __builtin_ia32_rdseed_hi_step sim_rdseed16
#define __builtin_ia32_rdseed_si_step sim_rdseed32
#define __builtin_ia32_rdseed_di_step sim_rdseed64
static int (*g_hw)(void*, int, int, unsigned long long*) = nullptr;
static void* g_hwc = nullptr;
static inline int hw(int seed, int unit, unsigned long long* v)
{
    if (!g_hw)
    {
        *v = 0;
        return 0;
    }
    return g_hw(g_hwc, seed, unit, v);
}
#define S(nm, seed, unit, ty)                                                                                        \
    static inline int nm(ty* p)                                                                                      \
    {                                                                                                                \
        unsigned long long v = 0;                                                                                    \
        int                r = hw(seed, unit, &v);                                                                   \
        __builtin_memcpy((void*)p, &v, unit);                                                                        \
        return r;                                                                                                    \
    }
S(sim_rdrand16, 0, 2, void)
S(sim_rdrand32, 0, 4, void)
S(sim_rdrand64, 0, 8, void)
S(sim_rdseed16, 1, 2, void)
S(sim_rdseed32, 1, 4, void)
S(sim_rdseed64, 1, 8, void)
#include "shim_common.h"
#include <gmlib/rng/cstd_rng.h>
#include <gmlib/rng/std_rng.h>
#if defined(CPU_FLAG_RDRAND)
#include <gmlib/rng/hardware_rng/rdrand32_rng.h>
#include <gmlib/rng/hardware_rng/rdrand64_rng.h>
#endif
#if defined(CPU_FLAG_RDSEED)
#include <gmlib/rng/hardware_rng/rdseed32_rng.h>
#include <gmlib/rng/hardware_rng/rdseed64_rng.h>
#endif
namespace rng::hardware_rng {}
namespace {
template <size_t N>
struct Pod
{
    uint8_t b[N];
};
template <class T>
void draw(rng::Rng& g, void* o)
{
    T v = g.rand<T>();
    memcpy(o, &v, sizeof(T));
}
template <class R>
struct W : IRng
{
    R        r;
    unsigned turn = 0;
    W() {}
    explicit W(const R& x) : r(x) {}
    explicit W(R&& x) : r(std::move(x)) {}
    IRng* clone() override
    {
        if constexpr (std::is_copy_constructible<R>::value)
        {
            if (turn++ % 2) return new W(R(r));
            return new W((const R&)r);
        }
        else return nullptr;
    }
    int assign(IRng* o) override
    {
        if constexpr (std::is_copy_assignable<R>::value && std::is_copy_constructible<R>::value)
        {
            R& x = ((W*)o)->r;
            if (turn++ % 2) r = R(x);
            else r = x;
            return RC_OK;
        }
        else return RC_OTHER;
    }
    int gen(void* o, size_t n) override
    {
        rng::Rng& g = r;
        return guarded([&] { g.gen(o, n); });
    }
    int rand_pod(void* o, size_t n) override
    {
        rng::Rng& g = r;
        return guarded([&] {
            switch (n)
            {
                case 1: return draw<uint8_t>(g, o);
                case 2: return draw<uint16_t>(g, o);
                case 3: return draw<Pod<3>>(g, o);
                case 4: return draw<uint32_t>(g, o);
                case 7: return draw<Pod<7>>(g, o);
                case 8: return draw<uint64_t>(g, o);
                case 12: return draw<Pod<12>>(g, o);
                case 17: return draw<Pod<17>>(g, o);
                case 32: return draw<Pod<32>>(g, o);
                case 61: return draw<Pod<61>>(g, o);
                case 300: return draw<Pod<300>>(g, o);
                case 4099: return draw<Pod<4099>>(g, o);
                default: return draw<Pod<16>>(g, o);
            }
        });
    }
    const char* name() override { return ((rng::Rng&)r).name(); }
};
template <class R>
IRng* mk()
{
    return new W<R>;
}
IRng* make(int k)
{
    using namespace rng::hardware_rng;
    switch (k)
    {
        case RK_STD: return mk<rng::StdRng>();
        case RK_CSTD: return mk<rng::CstdRng>();
#if defined(CPU_FLAG_RDRAND)
        case RK_RDRAND32: return mk<RdrandRng_32<>>();
        case RK_RDRAND64: return mk<RdrandRng_64<>>();
        case RK_RDRAND32_R0: return mk<RdrandRng_32<0>>();
        case RK_RDRAND64_R3: return mk<RdrandRng_64<3>>();
#endif
#if defined(CPU_FLAG_RDSEED)
        case RK_RDSEED32: return mk<RdseedRng_32<>>();
        case RK_RDSEED64: return mk<RdseedRng_64<>>();
        case RK_RDSEED32_R3: return mk<RdseedRng_32<3>>();
        case RK_RDSEED64_R0: return mk<RdseedRng_64<0>>();
#endif
    }
    return nullptr;
}
int retries(int k)
{
    switch (k)
    {
        case RK_RDRAND32:
        case RK_RDRAND64:
        case RK_RDSEED32:
        case RK_RDSEED64: return 10;
        case RK_RDRAND32_R0:
        case RK_RDSEED64_R0: return 0;
        case RK_RDRAND64_R3:
        case RK_RDSEED32_R3: return 3;
    }
    return -1;
}
void set_hw(int (*fn)(void*, int, int, unsigned long long*), void* c) { g_hw = fn, g_hwc = c; }
const RngApi api = {make, retries, set_hw};
} // namespace
GM_EXPORT const RngApi* gm_api_rng() { return &api; }
