#include "shim_sm9.h"
ISm9Master* mk_master9_a(int sh, int how, const uint8_t* k, GenFn f, void* c, uint32_t fill, int* rc)
{
    switch (sh)
    {
        case SH_SM3: return mk_master<sm3::SM3>(how, k, f, c, fill, rc);
    }
    return nullptr;
}
ISm9Pub* mk_pub9_a(int sh, uint32_t fill)
{
    switch (sh)
    {
        case SH_SM3: return mk_pub<sm3::SM3>(fill);
    }
    return nullptr;
}
ISm9User* mk_user9_a(int sh, uint32_t fill)
{
    switch (sh)
    {
        case SH_SM3: return mk_user<sm3::SM3>(fill);
    }
    return nullptr;
}
