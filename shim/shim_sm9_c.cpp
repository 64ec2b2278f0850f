#include "shim_sm9.h"
ISm9Master* mk_master9_c(int sh, int how, const uint8_t* k, GenFn f, void* c, uint32_t fill, int* rc)
{
    switch (sh)
    {
        case SH_S32: return mk_master<ScriptHash<32>>(how, k, f, c, fill, rc);
        case SH_S64: return mk_master<ScriptHash<64>>(how, k, f, c, fill, rc);
    }
    return nullptr;
}
ISm9Pub* mk_pub9_c(int sh, uint32_t fill)
{
    switch (sh)
    {
        case SH_S32: return mk_pub<ScriptHash<32>>(fill);
        case SH_S64: return mk_pub<ScriptHash<64>>(fill);
    }
    return nullptr;
}
ISm9User* mk_user9_c(int sh, uint32_t fill)
{
    switch (sh)
    {
        case SH_S32: return mk_user<ScriptHash<32>>(fill);
        case SH_S64: return mk_user<ScriptHash<64>>(fill);
    }
    return nullptr;
}
