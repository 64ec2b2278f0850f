#pragma once
#include "util.h"
#include "../shim/toy.h"
#include <map>
// digest overrides of the current run (shared by both worlds)
inline std::map<Bytes, Bytes>* g_over = nullptr;
inline void digest_hook(void*, size_t ds, u8* out)
{
    if (g_nest.at >= 0) g_nest.step();
    if (!g_over || g_over->empty()) return;
    auto it = g_over->find(Bytes(out, out + ds));
    if (it != g_over->end()) memcpy(out, it->second.data(), ds);
}
void sm2_init();
void sm2_exec(const Plan&, Ctx&);
void sm2_gen14(Prng&, Plan&);
bool dir_worn(size_t i, Plan& p, int prop);
void sm9_init();
void sm9_exec(const Plan&, Ctx&);
void sm9_gen14(Prng&, Plan&);
