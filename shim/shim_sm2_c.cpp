#include "shim_sm2.h"
ISm2* mk_sm2_c(int sh, int priv, int how, const uint8_t* k, GenFn f, void* c, uint32_t fill, int* rc)
{
    switch (sh)
    {
        case SH_S32: return mk_sm2<ScriptHash<32>>(priv, how, k, f, c, fill, rc);
        case SH_S64: return mk_sm2<ScriptHash<64>>(priv, how, k, f, c, fill, rc);
    }
    return nullptr;
}
