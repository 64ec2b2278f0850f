#include "shim_mode.h"
IGcm* mk_gcm_a(int enc, int cipher, int wk, const uint8_t* k, const uint8_t* iv, size_t ivl, const uint8_t* aad, size_t al, uint32_t f)
{
    switch (cipher)
    {
        case CK_SM4: return mkgc<sm4::SM4>(enc, wk, k, iv, ivl, aad, al, f);
        case CK_AES128: return mkgc<aes::AES128>(enc, wk, k, iv, ivl, aad, al, f);
        case CK_AES192: return mkgc<aes::AES192>(enc, wk, k, iv, ivl, aad, al, f);
        case CK_AES256: return mkgc<aes::AES256>(enc, wk, k, iv, ivl, aad, al, f);
    }
    return nullptr;
}
