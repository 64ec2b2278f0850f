#include "shim_common.h"
int (*g_mode_hook)(void*, int) __attribute__((weak)) = nullptr;
void* g_mode_hctx __attribute__((weak))              = nullptr;
#define D(x) IGcm* mk_gcm_##x(int enc, int cipher, int wk, const uint8_t* k, const uint8_t* iv, size_t ivl, const uint8_t* aad, size_t al, uint32_t f);
D(a) D(b)
static IGcm* make(int enc, int cipher, int wk, const uint8_t* k, const uint8_t* iv, size_t ivl, const uint8_t* aad, size_t al, uint32_t f)
{
    if (cipher <= CK_AES256) return mk_gcm_a(enc, cipher, wk, k, iv, ivl, aad, al, f);
    return mk_gcm_b(enc, cipher, wk, k, iv, ivl, aad, al, f);
}
static void set_hook(int (*fn)(void*, int), void* c) { g_mode_hook = fn, g_mode_hctx = c; }
static const GcmApi api = {make, set_hook};
GM_EXPORT const GcmApi* gm_api_gcm() { return &api; }
