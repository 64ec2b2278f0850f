#include "shim_common.h"
void (*g_digest_hook)(void*, size_t, uint8_t*) __attribute__((weak)) = nullptr;
void* g_digest_hctx __attribute__((weak))                            = nullptr;
#define D(x)                                                                                                         \
    ISm9Master* mk_master9_##x(int sh, int how, const uint8_t* k, GenFn f, void* c, uint32_t fill, int* rc);          \
    ISm9Pub* mk_pub9_##x(int sh, uint32_t fill);                                                                     \
    ISm9User* mk_user9_##x(int sh, uint32_t fill);
D(a) D(b) D(c)
#define SEL(fn, ...)                                                                                                 \
    (sh == SH_SM3 ? fn##_a(__VA_ARGS__) : (sh == SH_S20 || sh == SH_S48) ? fn##_b(__VA_ARGS__) : fn##_c(__VA_ARGS__))
static ISm9Master* make_master(int sh, int how, const uint8_t* k, GenFn f, void* c, uint32_t fill, int* rc)
{
    return SEL(mk_master9, sh, how, k, f, c, fill, rc);
}
static ISm9Pub* make_pub(int sh, uint32_t fill) { return SEL(mk_pub9, sh, fill); }
static ISm9User* make_user(int sh, uint32_t fill) { return SEL(mk_user9, sh, fill); }
static void set_hook(void (*fn)(void*, size_t, uint8_t*), void* c) { g_digest_hook = fn, g_digest_hctx = c; }
static const Sm9Api api = {make_master, make_pub, make_user, set_hook};
GM_EXPORT const Sm9Api* gm_api_sm9() { return &api; }
