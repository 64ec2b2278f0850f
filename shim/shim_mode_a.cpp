#include "shim_mode.h"
IMode* mk_mode_a(int mode, int enc, int cipher, int wk, const uint8_t* k, const uint8_t* iv, uint32_t f)
{
    switch (cipher)
    {
        case CK_SM4: return mkc<sm4::SM4>(mode, enc, wk, k, iv, f);
        case CK_AES128: return mkc<aes::AES128>(mode, enc, wk, k, iv, f);
    }
    return nullptr;
}
ICipher* mk_cipher_a(int cipher, int enc, int wk, const uint8_t* k, uint32_t f)
{
    switch (cipher)
    {
        case CK_SM4: return mkb<sm4::SM4>(enc, wk, k, f);
        case CK_AES128: return mkb<aes::AES128>(enc, wk, k, f);
    }
    return nullptr;
}
