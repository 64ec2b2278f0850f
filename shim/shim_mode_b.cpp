#include "shim_mode.h"
IMode* mk_mode_b(int mode, int enc, int cipher, int wk, const uint8_t* k, const uint8_t* iv, uint32_t f)
{
    switch (cipher)
    {
        case CK_AES192: return mkc<aes::AES192>(mode, enc, wk, k, iv, f);
        case CK_AES256: return mkc<aes::AES256>(mode, enc, wk, k, iv, f);
    }
    return nullptr;
}
ICipher* mk_cipher_b(int cipher, int enc, int wk, const uint8_t* k, uint32_t f)
{
    switch (cipher)
    {
        case CK_AES192: return mkb<aes::AES192>(enc, wk, k, f);
        case CK_AES256: return mkb<aes::AES256>(enc, wk, k, f);
    }
    return nullptr;
}
