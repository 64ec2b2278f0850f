// The adapters for the random services of Windows, compiled against a
// stand-in SDK (shim/win) whose calls go to the simulator.
#include <Windows.h>
#include <bcrypt.h>
#include <wincrypt.h>
#include "shim_common.h"
#include <gmlib/rng/os_rng/bcrypt_rng.h>
#include <gmlib/rng/os_rng/wincrypt_rng.h>
#include <new>

static const WinHooks* g_h = nullptr;
static void*           g_c = nullptr;
NTSTATUS BCryptGenRandom(BCRYPT_ALG_HANDLE h, PUCHAR buf, ULONG n, ULONG flags)
{
    return g_h && !g_h->bcrypt(g_c, (uint64_t)(uintptr_t)h, (int)flags, buf, n) ? STATUS_SUCCESS : STATUS_UNSUCCESSFUL;
}
NTSTATUS BCryptOpenAlgorithmProvider(BCRYPT_ALG_HANDLE* h, LPCWSTR, LPCWSTR, ULONG flags)
{
    uint64_t v = 0;
    if (!g_h || g_h->acquire(g_c, &v, WK_BCRYPT, (int)flags)) return STATUS_UNSUCCESSFUL;
    *h = (void*)(uintptr_t)v;
    return STATUS_SUCCESS;
}
NTSTATUS BCryptCloseAlgorithmProvider(BCRYPT_ALG_HANDLE h, ULONG)
{
    return g_h && !g_h->release(g_c, (uint64_t)(uintptr_t)h, WK_BCRYPT) ? STATUS_SUCCESS : STATUS_INVALID_HANDLE;
}
static BOOL acq(HCRYPTPROV* h, DWORD flags)
{
    uint64_t v = 0;
    if (!g_h || g_h->acquire(g_c, &v, WK_WINCRYPT, (int)flags)) return FALSE;
    *h = (HCRYPTPROV)v;
    return TRUE;
}
BOOL CryptAcquireContextA(HCRYPTPROV* h, LPCSTR, LPCSTR, DWORD, DWORD flags) { return acq(h, flags); }
BOOL CryptAcquireContextW(HCRYPTPROV* h, LPCWSTR, LPCWSTR, DWORD, DWORD flags) { return acq(h, flags); }
BOOL CryptReleaseContext(HCRYPTPROV h, DWORD flags) { return !flags && g_h && !g_h->release(g_c, h, WK_WINCRYPT) ? TRUE : FALSE; }
BOOL CryptGenRandom(HCRYPTPROV h, DWORD n, BYTE* buf) { return g_h && !g_h->gen(g_c, h, buf, n) ? TRUE : FALSE; }

namespace {
template <size_t N>
struct Pod
{
    uint8_t b[N];
};
template <class R, int K>
struct W : IWin
{
    alignas(R) unsigned char mem[sizeof(R)];
    R*   r = nullptr;
    bool alive = false;
    unsigned turn = 0;
    ~W()
    {
        if (alive) r->~R();
    }
    int kind() override { return K; }
    int gen(void* o, size_t n) override
    {
        rng::Rng& g = *r;
        return guarded([&] { g.gen(o, n); });
    }
    int rand_pod(void* o, size_t n) override
    {
        rng::Rng& g = *r;
        return guarded([&] {
            if (n == 1) { auto v = g.template rand<uint8_t>(); memcpy(o, &v, 1); }
            else if (n == 2) { auto v = g.template rand<uint16_t>(); memcpy(o, &v, 2); }
            else if (n == 4) { auto v = g.template rand<uint32_t>(); memcpy(o, &v, 4); }
            else if (n == 8) { auto v = g.template rand<uint64_t>(); memcpy(o, &v, 8); }
            else if (n == 13) { auto v = g.template rand<Pod<13>>(); memcpy(o, &v, 13); }
            else if (n == 300) { auto v = g.template rand<Pod<300>>(); memcpy(o, &v, 300); }
            else { auto v = g.template rand<Pod<16>>(); memcpy(o, &v, 16); }
        });
    }
    int assign(IWin* o) override
    {
        if constexpr (std::is_copy_assignable<R>::value)
        {
            R* s = ((W*)o)->r;
            if (turn++ % 2)
            { // by moving a temporary copy
                if constexpr (std::is_copy_constructible<R>::value)
                {
                    R t(*s);
                    *r = std::move(t);
                    return RC_OK;
                }
            }
            *r = *s;
            return RC_OK;
        }
        else return RC_OTHER;
    }
    IWin* clone() override
    {
        if constexpr (std::is_copy_constructible<R>::value)
        {
            W* w     = new W;
            if (turn++ % 2)
            { // by moving a temporary copy
                R t(*r);
                w->r = new (w->mem) R(std::move(t));
            }
            else w->r = new (w->mem) R(*r);
            w->alive = true;
            return w;
        }
        else return nullptr;
    }
};
template <class R, int K>
IWin* mk(int* rc)
{
    auto* w = new W<R, K>;
    memset(w->mem, 0xa5, sizeof w->mem);
    *rc = guarded([&] { w->r = new (w->mem) R; });
    if (*rc)
    {
        delete w;
        return nullptr;
    }
    w->alive = true;
    return w;
}
IWin* make(int k, int* rc)
{
    using namespace rng::os_rng;
    return k == WK_BCRYPT ? mk<BcryptRng, WK_BCRYPT>(rc) : mk<WincryptRng, WK_WINCRYPT>(rc);
}
void set(const WinHooks* h, void* c) { g_h = h, g_c = c; }
const WinApi api = {make, set};
} // namespace
GM_EXPORT const WinApi* gm_api_winrng() { return &api; }
