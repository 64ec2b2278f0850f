#include "shim_mode.h"
IMode* mk_mode_d(int mode, int enc, int cipher, int wk, const uint8_t* k, const uint8_t* iv, uint32_t f)
{
    switch (cipher)
    {
        case CK_SIM_16_1: return mkc<SimCipher<16, 1>>(mode, enc, wk, k, iv, f);
        case CK_SIM_16_2: return mkc<SimCipher<16, 2>>(mode, enc, wk, k, iv, f);
        case CK_SIM_16_7: return mkc<SimCipher<16, 7>>(mode, enc, wk, k, iv, f);
        case CK_SIM_32_3: return mkc<SimCipher<32, 3>>(mode, enc, wk, k, iv, f);
        case CK_SIM_16_43: return mkc<SimCipher<16, 43>>(mode, enc, wk, k, iv, f);
        case CK_SIM_20_33: return mkc<SimCipher<20, 33>>(mode, enc, wk, k, iv, f);
    }
    return nullptr;
}
ICipher* mk_cipher_d(int cipher, int enc, int wk, const uint8_t* k, uint32_t f)
{
    switch (cipher)
    {
        case CK_SIM_16_1: return mkb<SimCipher<16, 1>>(enc, wk, k, f);
        case CK_SIM_16_2: return mkb<SimCipher<16, 2>>(enc, wk, k, f);
        case CK_SIM_16_7: return mkb<SimCipher<16, 7>>(enc, wk, k, f);
        case CK_SIM_32_3: return mkb<SimCipher<32, 3>>(enc, wk, k, f);
        case CK_SIM_16_43: return mkb<SimCipher<16, 43>>(enc, wk, k, f);
        case CK_SIM_20_33: return mkb<SimCipher<20, 33>>(enc, wk, k, f);
    }
    return nullptr;
}
