#include "shim_sm9.h"
ISm9Master* mk_master9_b(int sh, int how, const uint8_t* k, GenFn f, void* c, uint32_t fill, int* rc)
{
    switch (sh)
    {
        case SH_S20: return mk_master<ScriptHash<20>>(how, k, f, c, fill, rc);
        case SH_S48: return mk_master<ScriptHash<48>>(how, k, f, c, fill, rc);
    }
    return nullptr;
}
ISm9Pub* mk_pub9_b(int sh, uint32_t fill)
{
    switch (sh)
    {
        case SH_S20: return mk_pub<ScriptHash<20>>(fill);
        case SH_S48: return mk_pub<ScriptHash<48>>(fill);
    }
    return nullptr;
}
ISm9User* mk_user9_b(int sh, uint32_t fill)
{
    switch (sh)
    {
        case SH_S20: return mk_user<ScriptHash<20>>(fill);
        case SH_S48: return mk_user<ScriptHash<48>>(fill);
    }
    return nullptr;
}
