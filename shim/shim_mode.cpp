#include "shim_common.h"
int (*g_mode_hook)(void*, int) = nullptr;
void* g_mode_hctx              = nullptr;
#define D(x) ICipher* mk_cipher_##x(int cipher, int enc, int wk, const uint8_t* k, uint32_t f); IMode* mk_mode_##x(int mode, int enc, int cipher, int wk, const uint8_t* k, const uint8_t* iv, uint32_t f);
D(a) D(b) D(c) D(d)
static IMode* make(int mode, int enc, int cipher, int wk, const uint8_t* k, const uint8_t* iv, uint32_t f)
{
    if (cipher <= CK_AES128) return mk_mode_a(mode, enc, cipher, wk, k, iv, f);
    if (cipher <= CK_AES256) return mk_mode_b(mode, enc, cipher, wk, k, iv, f);
    if (cipher <= CK_SIM_12_2) return mk_mode_c(mode, enc, cipher, wk, k, iv, f);
    return mk_mode_d(mode, enc, cipher, wk, k, iv, f);
}
static void set_hook(int (*fn)(void*, int), void* c) { g_mode_hook = fn, g_mode_hctx = c; }
static ICipher* make_cipher(int cipher, int enc, int wk, const uint8_t* k, uint32_t f)
{
    if (cipher <= CK_AES128) return mk_cipher_a(cipher, enc, wk, k, f);
    if (cipher <= CK_AES256) return mk_cipher_b(cipher, enc, wk, k, f);
    if (cipher <= CK_SIM_12_2) return mk_cipher_c(cipher, enc, wk, k, f);
    return mk_cipher_d(cipher, enc, wk, k, f);
}
static const ModeApi api = {make, set_hook, make_cipher};
GM_EXPORT const ModeApi* gm_api_mode() { return &api; }
