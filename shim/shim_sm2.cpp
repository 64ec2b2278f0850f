#include "shim_common.h"
void (*g_digest_hook)(void*, size_t, uint8_t*) __attribute__((weak)) = nullptr;
void* g_digest_hctx __attribute__((weak))                            = nullptr;
#define D(x) ISm2* mk_sm2_##x(int sh, int priv, int how, const uint8_t* k, GenFn f, void* c, uint32_t fill, int* rc);
D(a) D(b) D(c)
static ISm2* make(int sh, int priv, int how, const uint8_t* k, GenFn f, void* c, uint32_t fill, int* rc)
{
    ISm2* r = mk_sm2_a(sh, priv, how, k, f, c, fill, rc);
    if (sh == SH_SM3) return r;
    if (sh == SH_S20 || sh == SH_S48) return mk_sm2_b(sh, priv, how, k, f, c, fill, rc);
    return mk_sm2_c(sh, priv, how, k, f, c, fill, rc);
}
static void set_hook(void (*fn)(void*, size_t, uint8_t*), void* c) { g_digest_hook = fn, g_digest_hctx = c; }
static const Sm2Api api = {make, set_hook};
GM_EXPORT const Sm2Api* gm_api_sm2() { return &api; }
