#include "shim_sm2.h"
ISm2* mk_sm2_b(int sh, int priv, int how, const uint8_t* k, GenFn f, void* c, uint32_t fill, int* rc)
{
    switch (sh)
    {
        case SH_S20: return mk_sm2<ScriptHash<20>>(priv, how, k, f, c, fill, rc);
        case SH_S48: return mk_sm2<ScriptHash<48>>(priv, how, k, f, c, fill, rc);
    }
    return nullptr;
}
