#include "shim_sm2.h"
ISm2* mk_sm2_a(int sh, int priv, int how, const uint8_t* k, GenFn f, void* c, uint32_t fill, int* rc)
{
    switch (sh)
    {
        case SH_SM3: return mk_sm2<sm3::SM3>(priv, how, k, f, c, fill, rc);
    }
    return nullptr;
}
