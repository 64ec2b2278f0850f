#include "shim_mode.h"
IGcm* mk_gcm_b(int enc, int cipher, int wk, const uint8_t* k, const uint8_t* iv, size_t ivl, const uint8_t* aad, size_t al, uint32_t f)
{
    switch (cipher)
    {
        case CK_SIM_16_1: return mkgc<SimCipher<16, 1>>(enc, wk, k, iv, ivl, aad, al, f);
        case CK_SIM_16_2: return mkgc<SimCipher<16, 2>>(enc, wk, k, iv, ivl, aad, al, f);
        case CK_SIM_16_7: return mkgc<SimCipher<16, 7>>(enc, wk, k, iv, ivl, aad, al, f);
        case CK_SIM_16_43: return mkgc<SimCipher<16, 43>>(enc, wk, k, iv, ivl, aad, al, f);
    }
    return nullptr;
}
