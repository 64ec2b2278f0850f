#include "shim_mode.h"
IMode* mk_mode_c(int mode, int enc, int cipher, int wk, const uint8_t* k, const uint8_t* iv, uint32_t f)
{
    switch (cipher)
    {
        case CK_SIM_8_1: return mkc<SimCipher<8, 1>>(mode, enc, wk, k, iv, f);
        case CK_SIM_8_3: return mkc<SimCipher<8, 3>>(mode, enc, wk, k, iv, f);
        case CK_SIM_12_2: return mkc<SimCipher<12, 2>>(mode, enc, wk, k, iv, f);
    }
    return nullptr;
}
ICipher* mk_cipher_c(int cipher, int enc, int wk, const uint8_t* k, uint32_t f)
{
    switch (cipher)
    {
        case CK_SIM_8_1: return mkb<SimCipher<8, 1>>(enc, wk, k, f);
        case CK_SIM_8_3: return mkb<SimCipher<8, 3>>(enc, wk, k, f);
        case CK_SIM_12_2: return mkb<SimCipher<12, 2>>(enc, wk, k, f);
    }
    return nullptr;
}
