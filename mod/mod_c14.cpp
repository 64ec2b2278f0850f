// C14: failing random devices and rejected imports, SM2 and SM9 worlds.
#include "sm2world.h"
static void exec(const Plan& p, Ctx& c)
{
    Plan a, b;
    for (auto& o : p.ops)
    {
        static const char* nine[] = {"lib9", "nst9", "mnew", "mgen", "mset", "mcpy", "masg", "ext", "upo", "uset", "unew", "ucpy", "uasg", "pfe", "pfu", "pimp", "pset", "pcpy", "pasg", "sign9", "dep9", "ver9", "mchk", "uchk", "pchk"};
        bool n = false;
        for (auto s : nine) n |= o.n == s;
        (n ? b : a).ops.push_back(o);
    }
    if (!a.ops.empty()) sm2_exec(a, c);
    if (!b.ops.empty()) sm9_exec(b, c);
}
static void gen(Prng& r, Plan& p)
{
    if (r.chance(2, 3)) sm2_gen14(r, p);
    else sm9_gen14(r, p);
}
static void init() { sm2_init(), sm9_init(); }
static bool dir(size_t i, Plan& p)
{
    // a failure at draw k of every operation that draws
    if (i < 48)
    {
        i64 k = (i64)(i % 2), fk = (i64)(i / 2 % 2), sp = (i64)(i / 4 % 4), lib = (i64)(i / 4);
        p.add("lib", {lib});
        p.add("new", {0, 1, SH_S32, 0, 1, 20, (i64)i, 3});
        p.add("pub", {0, 1});
        p.add("sign", {0, 5, 30, 0, 0, 0, (i64)i, k, fk, sp});
        p.add("enc", {1, 6, 1 + (i64)i % 20, (i64)(i % 4), 0, (i64)i, k, fk, sp});
        p.add("enc", {0, 6, 20, (i64)(i % 4), 0, (i64)i, k, fk, 1});
        p.add("genp", {0, 0, (i64)i, k, fk});
        p.add("new", {2, 1, SH_S32, 0, 2, 0, (i64)i, 3, k, fk});
        p.add("setp", {0, 1 + (i64)(i % 19), (i64)i});
        p.add("setpub", {1, 1 + (i64)(i % 18), (i64)i});
        p.add("chk", {0, 1}), p.add("chk", {1, 2});
        return true;
    }
    i -= 48;
    if (i < 40)
    {
        i64 k = (i64)(i % 2), fk = (i64)(i / 2 % 2);
        p.add("lib9", {(i64)i, SH_S32});
        p.add("mnew", {0, 0, 1, 20, (i64)i, 1, -1, 0});
        p.add("ext", {0, 0, 4, 8, -1, (i64)(i % 5), (i64)i, 1});
        p.add("sign9", {0, 4, 20, (i64)(i % 4), 0, (i64)i, k, fk, (i64)(i / 2 % 2)});
        p.add("mgen", {0, 0, (i64)i, k, fk});
        p.add("mset", {0, 1 + (i64)(i % 16), (i64)i});
        p.add("uset", {0, 1 + (i64)(i % 9), (i64)i});
        p.add("pfe", {0, 0}), p.add("pset", {0, 1 + (i64)(i % 6), (i64)i, 0});
        p.add("mchk", {0, 1}), p.add("uchk", {0, 2}), p.add("pchk", {0, 3});
        return true;
    }
    return dir_worn(i - 40, p, 14);
}
static Module m14("C14", gen, exec, dir, init);
