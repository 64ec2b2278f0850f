// C04 block modes, C05 session life cycle under faults, C06/C07 GCM.
#include "util.h"
#include <sys/mman.h>
#include <unistd.h>
using namespace ref;

static std::vector<const ModeApi*> MA;
static std::vector<const GcmApi*>  GA;
static i64 g_countdown = -1;
static int hook(void*, int)
{
    if (g_nest.in) return 0;
    if (g_nest.at >= 0) g_nest.step();
    if (g_countdown < 0) return 0;
    return g_countdown-- == 0;
}
static void init()
{
    MA = collect_api<const ModeApi*>("gm_api_mode");
    GA = collect_api<const GcmApi*>("gm_api_gcm");
}
static const int GCK[8] = {CK_SM4, CK_AES128, CK_AES192, CK_AES256, CK_SIM_16_1, CK_SIM_16_2, CK_SIM_16_7, CK_SIM_16_43};

// IVs: pseudo-random, with a run of ff at the end (counter wrap) for some seeds
static Bytes iv_data(u64 seed, size_t n)
{
    Bytes b = sim_data(seed, n);
    if (seed % 5 == 0 && n)
    {
        size_t k = 1 + mix64(seed) % n;
        for (size_t i = n - k; i < n; i++) b[i] = 0xff;
        if (mix64(seed + 1) & 1) b[n - 1] = (u8)(0xff - mix64(seed + 2) % 40);
    }
    return b;
}
// GCM IVs. For every third seed the IV is solved for, so that the counter derived from it (GHASH of the IV) starts just
// below a carry: J0 = IV-block * H^2 + length-block * H, hence IV-block = (J0 * H^-1 + length-block) * H^-1.
static Bytes gcm_iv(u64 seed, size_t n, int ck, const Bytes& key)
{
    if (seed % 3) return iv_data(seed, n);
    u8     h[16], z[16] = {0}, inv[16] = {0};
    Cipher ci = cipher(ck, key.data());
    ci.enc(h, z);
    if (!memcmp(h, z, 16)) return iv_data(seed, n);
    memcpy(inv, h, 16); // h^(2^128 - 2) = (...((h^2*h)^2*h)...)^2
    for (int i = 0; i < 126; i++) ghash_mul(inv, Bytes(inv, inv + 16).data()), ghash_mul(inv, h);
    ghash_mul(inv, Bytes(inv, inv + 16).data());
    u64   q = mix64(seed ^ 0x9c1);
    Bytes j0 = sim_data(seed ^ 0x51, 16);
    for (size_t i = 16 - (4 + q % 3 * 4); i < 16; i++) j0[i] = 0xff;
    switch (q >> 8 & 3)
    {
        case 0: j0[15] = 0xff; break;
        case 1: j0[15] = (u8)(0xff - (q >> 16) % 40); break;
        case 2: j0[14] = (u8)(q >> 24); break; // carry from the last byte only
        case 3: j0[12] = j0[13] = (u8)(q >> 24); break;
    }
    size_t lead = q >> 40 & 1 ? 16 : 0; // one more block in front
    Bytes  iv = sim_data(seed ^ 0x77, lead + 16), b(j0);
    auto   mul = [](Bytes& x, const u8* y) { ghash_mul(x.data(), y); };
    mul(b, inv);
    u64 bits = 8 * (lead + 16);
    for (int i = 0; i < 8; i++) b[15 - i] ^= (u8)(bits >> 8 * i);
    mul(b, inv);
    if (lead)
    {
        Bytes f(iv.begin(), iv.begin() + 16);
        mul(f, h);
        for (int i = 0; i < 16; i++) b[i] ^= f[i];
    }
    memcpy(&iv[lead], b.data(), 16);
    u8 chk[16];
    gcm_j0(chk, ci, iv.data(), iv.size());
    if (memcmp(chk, j0.data(), 16)) abort(); // the simulator's own arithmetic
    return iv;
}
enum St
{
    EMPTY,
    UNKEYED,
    LIVE,
    DONE,   // finished successfully
    FAILED, // finish reported an error
    BROKEN, // an injected fault escaped; key is set
    BROKENKEY
};
static const char* stn[] = {"empty", "unkeyed", "live", "done", "failed", "broken", "broken-key"};
struct Slot
{
    IMode* m = nullptr;
    IGcm*  g = nullptr;
    int    mode = 0, enc = 0, ck = 0;
    St     st = EMPTY;
    Bytes  key, iv, aad, in, out;
    u8     tag[16];
    bool   tagset = false;
    void clear()
    {
        delete m;
        delete g;
        m = nullptr, g = nullptr, st = EMPTY;
    }
    ~Slot()
    {
        delete m;
        delete g;
    }
    size_t bs() const { return g ? 16 : cipher_bs(ck); }
    bool is_gcm() const { return g != nullptr; }
};

// delivered output must be a prefix of the one-shot result
static Bytes want_all(const Slot& s, u8 tag[16])
{
    Cipher ci = cipher(s.ck, s.key.data());
    if (s.g)
    {
        Gcm r = gcm(s.enc, ci, s.iv.data(), s.iv.size(), s.aad, s.in);
        memcpy(tag, r.tag, 16);
        return r.out;
    }
    Bytes in = s.in;
    if (s.mode <= MK_CBC) in.resize(in.size() / s.bs() * s.bs());
    return mode(s.mode, s.enc, ci, s.iv.data(), in);
}
static void verify(Ctx& c, const Slot& s, const char* when)
{
    if (s.st == EMPTY || s.st == UNKEYED || s.st == BROKENKEY || s.out.empty()) return;
    u8    tg[16];
    Bytes w = want_all(s, tg);
    if (s.out.size() > w.size()) c.fail("wrong-output", "%s: %zu bytes of output for %zu bytes of input", when, s.out.size(), s.in.size());
    expect_bytes(c, "wrong-output", when, s.out.data(), w.data(), s.out.size());
}

// a user-written cipher that itself uses the library: a whole session of the same kind on another object
struct MNest
{
    Ctx*   c;
    size_t L;
    int    mode, enc, ck;
};
static void nested(void* p, u64 seed)
{
    MNest& h = *(MNest*)p;
    Ctx&   c = *h.c;
    Slot   s;
    bool   g = h.mode == MK_COUNT;
    s.mode = h.mode, s.enc = g || seed % 3 ? h.enc : !h.enc, s.ck = h.ck, s.st = LIVE;
    s.key = sim_data(seed + 1, cipher_keylen(s.ck));
    s.iv = g ? gcm_iv(seed + 2, seed & 2 ? 12 : 1 + seed % 40, s.ck, s.key) : iv_data(seed + 2, cipher_bs(s.ck));
    if (g) s.aad = sim_data(seed + 3, seed % 50);
    size_t n = seed / 16 % (s.bs() * 5), a = seed / 4096 % (n + 1);
    if (!g && s.mode <= MK_CBC) n -= n % s.bs(), a = std::min(a, n);
    s.in = sim_data(seed, n);
    Buf k(s.key), v(s.iv), ad(s.aad), in(s.in), out(n);
    if (g) s.g = GA[h.L]->make(s.enc, s.ck, 1, k.d(), v.d(), v.n, ad.d(), ad.n, 3);
    else s.m = MA[h.L]->make(s.mode, s.enc, s.ck, 1, k.d(), v.d(), 3);
    if (!s.m && !s.g) c.fail("construct-failed", "construction threw");
    u8     tag[16];
    Bytes  w = want_all(s, tag);
    size_t o1 = 0, o2 = 0;
    if (g && !s.enc) s.g->tag(tag);
    int rc = g ? s.g->update(out.d(), &o1, in.d(), a) : s.m->update(out.d(), &o1, in.d(), a);
    if (rc || o1 > a) c.fail("update-failed", "update of %zu bytes: %s, %zu bytes reported", a, rcname(rc), o1);
    rc = g ? s.g->final(out.d() + o1, &o2, in.d() + a, n - a, 1) : s.m->final(out.d() + o1, &o2, in.d() + a, n - a, 1);
    out.check(c, "output");
    if (rc) c.fail("final-failed", "do_final returned %s", rcname(rc));
    if (o1 + o2 != n) c.fail("wrong-length", "%zu bytes of output for %zu", o1 + o2, n);
    expect_bytes(c, "wrong-output", "output", out.d(), w.data(), n);
    if (g && s.enc)
    {
        u8 t[16] = {0};
        s.g->tag(t);
        expect_bytes(c, "wrong-tag", "tag", t, tag, 16);
    }
}

// Streams whose length does not fit into 32 bits (bits or bytes): zeros in, so that the reference needs no 4 GB of work.
static void fast_lib(size_t& L)
{
    for (size_t i = 0; i < g_libs.size(); i++)
        if (g_libs[i].name == "simd") L = i;
}
// GHASH of two such streams and the length block
static void ghash_huge(u8 y[16], const u8 h[16], const u8* aad, u64 alen, const u8* ct, u64 clen)
{
    memset(y, 0, 16);
    for (int k = 0; k < 2; k++)
    {
        u64       n = k ? clen : alen;
        const u8* p = k ? ct : aad;
        for (size_t i = 0; i < 16 && i < n; i++) y[i] ^= p[i];
        ghash_zeros(y, h, n / 16 + (n % 16 != 0));
    }
    alen *= 8, clen *= 8;
    for (int i = 0; i < 8; i++) y[7 - i] ^= (u8)(alen >> 8 * i), y[15 - i] ^= (u8)(clen >> 8 * i);
    ghash_mul(y, h);
}
static void huge_mode(Ctx& c, const Op& o, size_t L)
{ // hugem mode enc cipher len chunk keyseed
    int    mk = (u64)o.at(0) % MK_COUNT, enc = o.at(1) & 1, ck = (u64)o.at(2) % 4;
    u64    len = (u64)o.at(3), chunk = std::max<u64>(16, (u64)o.at(4));
    size_t map = std::min(len, chunk);
    Huge   in(map, false), out(map + 16, true);
    if (!in.p || !out.p) return;
    Bytes  key = sim_data((u64)o.at(5), cipher_keylen(ck)), iv = sim_data((u64)o.at(5) + 1, 16);
    Buf    kb(key), vb(iv);
    IMode* m = MA[L]->make(mk, enc, ck, 1, kb.d(), vb.d(), 3);
    Cipher ci = cipher(ck, key.data());
    u64    done = 0, outn = 0;
    u8     last[16];
    memset(last, 0, 16);
    while (done < len)
    {
        u64    q = std::min<u64>(map, len - done);
        size_t ol = 77;
        int    rc = m->update(out.p, &ol, in.p, q);
        done += q;
        if (rc) c.fail("update-failed", "update of %llu bytes returned %s", (unsigned long long)q, rcname(rc));
        if (outn + ol > done || done - outn - ol > 16) c.fail("wrong-length", "after %llu bytes of input %llu bytes of output were reported", (unsigned long long)done, (unsigned long long)(outn + ol));
        outn += ol;
        if (ol >= 16) memcpy(last, out.p + ol - 16 - (outn % 16), 16);
    }
    delete m;
    c.log("hugem mode %d enc %d cipher %d len %llu", mk, enc, ck, (unsigned long long)len);
    c.bytes(last, 16);
    // the last whole block
    u8 want[16], z[16] = {0};
    u64 blk = outn / 16 - 1;
    bool known = true;
    if (mk == MK_CTR)
    {
        u8 ctr[16];
        memcpy(ctr, iv.data(), 16);
        unsigned __int128 v = 0;
        for (int i = 0; i < 16; i++) v = v << 8 | ctr[i];
        v += blk;
        for (int i = 15; i >= 0; i--) ctr[i] = (u8)v, v >>= 8;
        ci.enc(want, ctr);
    }
    else if (mk == MK_ECB) enc ? ci.enc(want, z) : ci.dec(want, z);
    else if (mk == MK_CBC && !enc) ci.dec(want, z);
    else if (mk == MK_CFB && !enc) ci.enc(want, z);
    else known = false;
    if (known) expect_bytes(c, "wrong-output", "last block of a very long stream", last, want, 16);
    c.count("stream.longer-than-2^32");
}
static void huge_gcm(Ctx& c, const Op& o, size_t L)
{ // hugeg enc cipher ivlen aadlen ctlen chunk keyseed
    int  enc = o.at(0) & 1, ck = (u64)o.at(1) % 4;
    u64  ivl = std::max<u64>(1, (u64)o.at(2)), al = (u64)o.at(3), cl = (u64)o.at(4), chunk = std::max<u64>(16, (u64)o.at(5));
    u64  mx = std::max(std::max(ivl, al), std::min(cl, chunk));
    Huge in(mx + 16, false), out(std::min(cl, chunk) + 16, true);
    if (!in.p || !out.p) return;
    Bytes  key = sim_data((u64)o.at(6), cipher_keylen(ck));
    Buf    kb(key);
    Cipher ci = cipher(ck, key.data());
    u8     h[16], z[16] = {0}, j0[16] = {0}, tag[16], ej[16];
    ci.enc(h, z);
    if (ivl == 12) memcpy(j0, in.p, 12), j0[15] = 1;
    else ghash_huge(j0, h, nullptr, 0, in.p, ivl);
    ci.enc(ej, j0);
    ghash_huge(tag, h, in.p, al, in.p, cl);
    for (int i = 0; i < 16; i++) tag[i] ^= ej[i];
    c.log("hugeg enc %d cipher %d iv %llu aad %llu ct %llu", enc, ck, (unsigned long long)ivl, (unsigned long long)al, (unsigned long long)cl);
    c.count("stream.longer-than-2^32");
    IGcm* g = GA[L]->make(enc, ck, 1, kb.d(), in.p, ivl, in.p, al, 3);
    if (!g) c.fail("construct-failed", "construction threw");
    std::unique_ptr<IGcm> hold(g), dec;
    if (enc)
    { // the ciphertext is not zero: judged by the decryptor, whose own verdicts are checked against the model
        if (cl == 0)
        {
            u8     t[16] = {0}, o1[16] = {0};
            size_t ol = 0;
            if (g->final(o1, &ol, nullptr, 0, 0)) c.fail("final-failed", "do_final failed");
            g->tag(t);
            c.bytes(t, 16);
            expect_bytes(c, "wrong-tag", "tag over a very long header", t, tag, 16);
            return;
        }
        dec.reset(GA[L]->make(0, ck, 1, kb.d(), in.p, ivl, in.p, al, 5));
        Bytes mid(1 << 16), back(1 << 16);
        u64   k = 0;
        while (k < cl)
        {
            size_t q = (size_t)std::min<u64>(mid.size() - 16, cl - k), ol = 0, ol2 = 0;
            if (g->update(mid.data(), &ol, in.p + 16, q)) c.fail("update-failed", "update failed");
            if (dec->update(back.data(), &ol2, mid.data(), ol)) c.fail("update-failed", "update failed");
            if (ol2 && memcmp(back.data(), in.p + 16, ol2)) c.fail("wrong-output", "a very long stream did not decrypt to what was encrypted");
            k += q;
        }
        u8     t[16] = {0};
        size_t ol = 0, ol2 = 0;
        if (g->final(mid.data(), &ol, nullptr, 0, 0)) c.fail("final-failed", "do_final failed");
        g->tag(t);
        c.bytes(t, 16);
        dec->tag(t);
        if (dec->final(back.data(), &ol2, mid.data(), ol, 1)) c.fail("intact-stream-refused", "a very long intact stream was refused");
        return;
    }
    for (int bad = 0; bad < 2; bad++)
    {
        u64 k = 0, outn = 0;
        u8  last[16] = {0};
        if (bad)
        { // the same stream under the tag of a length that is equal modulo 2^32 bits
            if (cl > 1 << 20) break;
            hold.reset(g = GA[L]->make(0, ck, 1, kb.d(), in.p, ivl, in.p, al, 4));
            ghash_huge(tag, h, in.p, (u32)(al * 8) / 8, in.p, cl);
            for (int i = 0; i < 16; i++) tag[i] ^= ej[i];
        }
        if (bad && (al >> 29) == 0) break;
        while (k < cl)
        {
            u64    q = std::min<u64>(std::min(cl, chunk), cl - k);
            size_t ol = 77;
            int    rc = g->update(out.p, &ol, in.p, q);
            k += q;
            if (rc) c.fail("update-failed", "update returned %s", rcname(rc));
            if (outn + ol > k || k - outn - ol > 16) c.fail("wrong-length", "after %llu bytes of input %llu bytes of output were reported", (unsigned long long)k, (unsigned long long)(outn + ol));
            outn += ol;
            if (ol >= 16) memcpy(last, out.p + ol - 16 - (outn % 16), 16);
        }
        if (outn >= 16)
        {
            u8  want[16], ctr[16];
            u32 n32 = (u32)j0[12] << 24 | j0[13] << 16 | j0[14] << 8 | j0[15];
            n32 += (u32)(outn / 16);
            memcpy(ctr, j0, 12);
            ctr[12] = n32 >> 24, ctr[13] = n32 >> 16, ctr[14] = n32 >> 8, ctr[15] = n32;
            ci.enc(want, ctr);
            c.bytes(last, 16);
            expect_bytes(c, "wrong-output", "last block of a very long stream", last, want, 16);
        }
        u8     o1[64] = {0};
        size_t ol = 0;
        g->tag(tag);
        int rc = g->final(o1, &ol, nullptr, 0, 0);
        if (!bad && rc) c.fail("intact-stream-refused", "a very long intact stream was refused");
        if (bad && !rc) c.fail("forgery-accepted", "a stream was accepted under the tag of a shorter one");
    }
}

static int do_init(Slot& t, const Bytes& key, const Bytes& iv, const Bytes& aad)
{
    Buf k(key), v(iv), a(aad);
    return t.g ? t.g->init(k.d(), v.d(), iv.size(), a.d(), aad.size()) : t.m->init(k.d(), v.d());
}

// ------------------------------------------------- bare block-cipher objects
struct BSlot
{
    ICipher* o = nullptr;
    int      ck = 0, st = 0; // 0 empty, 1 unkeyed, 2 keyed, 3 broken (set_key threw)
    int      enc = 1;
    Bytes    key;
    ~BSlot() { delete o; }
};
static bool bare(const Op& o, Ctx& c, BSlot* bs, size_t L, int& checked, int& moves)
{
    BSlot& t = bs[(u64)o.at(0) % 3];
    static const char* sn[] = {"empty", "unkeyed", "keyed", "broken"};
    if (o.n == "bnew")
    { // bnew slot cipher enc how keyseed fill
        delete t.o;
        t.o = nullptr, t.st = 0;
        int   ck = (int)((u64)o.at(1) % CK_COUNT);
        Bytes key = sim_data((u64)o.at(4) + 1, cipher_keylen(ck));
        Buf   kb(key);
        bool  how = o.at(3) != 0;
        t.o = MA[L]->make_cipher(ck, o.at(2) != 0, how, kb.d(), (u32)o.at(5));
        kb.check(c, "key");
        if (!t.o)
        {
            if (g_countdown != -1 || ck < 4) c.fail("construct-failed", "constructing a bare cipher threw");
            c.count("fault.cipher-threw-in-constructor");
            return true;
        }
        t.ck = ck, t.enc = o.at(2) != 0, t.key = key, t.st = how ? 2 : 1;
        c.log("bare cipher %lld kind %d %s %s", (long long)o.at(0), ck, t.enc ? "enc" : "dec", sn[t.st]);
        return true;
    }
    if (o.n == "bkey")
    { // bkey slot enc keyseed
        if (!t.o) return true;
        Bytes key = sim_data((u64)o.at(2) + 1, cipher_keylen(t.ck));
        Buf   kb(key);
        c.state(hcomb(0xbc01, t.ck * 64 + t.st * 4 + t.enc * 2 + (o.at(1) != 0)));
        int rc = t.o->set_key(kb.d(), o.at(1) != 0);
        c.log("bare key %lld %s -> %s", (long long)o.at(0), o.at(1) ? "enc" : "dec", rcname(rc));
        kb.check(c, "key");
        if (rc == RC_FAULT)
        {
            t.st = 3;
            c.count("fault.cipher-threw-in-set-key");
            return true;
        }
        if (rc) c.fail("set-key-failed", "set_key of a bare cipher returned %s", rcname(rc));
        if (memcmp(kb.d(), key.data(), key.size())) c.fail("input-modified", "set_key changed the key");
        if (t.st == 2 && t.enc != (o.at(1) != 0)) c.count("history.bare-cipher-turned-round");
        if (t.st == 3) c.count("history.bare-cipher-rekeyed-after-fault");
        t.key = key, t.enc = o.at(1) != 0, t.st = 2;
        moves++;
        return true;
    }
    if (o.n == "bcpy" || o.n == "basg")
    { // slot <- copy of the other / assigned from it
        BSlot& f = bs[(u64)o.at(1) % 3];
        if (!f.o || (&f == &t && o.n == "bcpy")) return true;
        if (f.st != 2) return true;
        if (o.n == "basg" && t.o && t.ck == f.ck) t.o->assign(f.o); // to itself too
        else
        {
            delete t.o;
            t.o = f.o->clone();
        }
        t.ck = f.ck, t.st = f.st, t.enc = f.enc, t.key = f.key;
        c.count(o.n == "bcpy" ? "history.bare-cipher-copied" : "history.bare-cipher-assigned");
        moves++;
        return true;
    }
    if (o.n == "buse")
    { // buse slot seed blocks single inplace shift
        if (!t.o || t.st != 2) return true;
        size_t bsz = cipher_bs(t.ck), nb = (size_t)((u64)o.at(2) % 70000), sh = (size_t)((u64)o.at(5) % 16);
        if (t.o->block_size() != bsz || t.o->key_len() != t.key.size()) c.fail("wrong-length", "block or key size of a bare cipher");
        Bytes  d = sim_data((u64)o.at(1), nb * bsz), w(d.size());
        Cipher r = cipher(t.ck, t.key.data());
        for (size_t i = 0; i < nb; i++)
            if (t.enc) r.enc(w.data() + i * bsz, d.data() + i * bsz);
            else r.dec(w.data() + i * bsz, d.data() + i * bsz);
        Buf  in(sh + d.size()), out(((sh * 7) & 15) + d.size());
        u8*  ip = in.d() + sh;
        u8*  op = o.at(4) ? ip : out.d() + ((sh * 7) & 15);
        if (d.size()) memcpy(ip, d.data(), d.size());
        int rc = t.o->crypt(t.enc, op, ip, nb, o.at(3) != 0);
        c.log("bare use %lld %zu blocks%s%s -> %s", (long long)o.at(0), nb, o.at(3) ? " one by one" : "", o.at(4) ? " in place" : "", rcname(rc));
        c.state(hcomb(0xbc02, hcomb(t.ck * 8 + t.enc * 4 + (o.at(3) ? 2 : 0) + (o.at(4) ? 1 : 0), std::min<size_t>(nb, 80))));
        in.check(c, "input blocks"), out.check(c, "output blocks");
        if (rc == RC_FAULT)
        {
            c.count("fault.cipher-threw-in-use");
            return true;
        }
        if (rc) c.fail("use-failed", "a bare cipher returned %s", rcname(rc));
        expect_bytes(c, "wrong-output", t.enc ? "bare cipher, encrypted blocks" : "bare cipher, decrypted blocks", op, w.data(), w.size());
        if (!o.at(4) && d.size() && memcmp(ip, d.data(), d.size())) c.fail("input-modified", "a bare cipher changed its input");
        c.bytes(op, w.size());
        checked++;
        if (!nb) c.count("bare.no-blocks");
        return true;
    }
    return false;
}
static void gen_bare(Prng& r, Plan& p, bool sim)
{
    i64 ck = sim ? 4 + (i64)r.below(CK_COUNT - 4) : (i64)r.below(4);
    i64 n = r.range(3, 20);
    bool few = r.chance(1, 2);
    i64  k0 = (i64)r.below(64), kn = few ? r.range(1, 3) : 64;
    auto kid = [&] { return (k0 + (i64)r.below(kn)) % 64; };
    p.add("bnew", {0, ck, (i64)r.below(2), r.chance(2, 3), kid(), (i64)r.below(100)});
    auto use = [&](i64 sl) {
        p.add("buse", {sl, (i64)r.below(999), r.chance(1, 2) ? r.range(0, 9) : r.chance(3, 4) ? r.range(0, 70) : r.chance(1, 40) ? r.range(700, 66000) : r.range(0, 700), (i64)r.below(2), (i64)r.chance(1, 3), (i64)r.below(16)});
    };
    for (i64 i = 0; i < n; i++)
    {
        i64 sl = (i64)r.below(3);
        switch (r.below(9))
        {
            case 0: p.add("bnew", {sl, r.chance(3, 4) ? ck : (i64)r.below(CK_COUNT), (i64)r.below(2), (i64)r.below(2), kid(), (i64)r.below(100)}); break;
            case 1:
            case 2: p.add("bkey", {sl, (i64)r.below(2), kid()}); break;
            case 3: p.add("bcpy", {sl, (i64)r.below(3)}); break;
            case 4: p.add("basg", {sl, (i64)r.below(3)}); break;
            case 5:
                if (sim) p.add("flt", {(i64)r.below(5)});
                // fall through
            default: use(sl); break;
        }
    }
    for (i64 i = 0; i < 3; i++) use(i);
}
static void exec(const Plan& p, Ctx& c)
{
    size_t L = 0;
    Slot   s[4];
    BSlot  bslots[3];
    g_countdown = -1;
    for (auto* a : MA)
        if (a) a->set_hook(hook, nullptr);
    for (auto* a : GA)
        if (a) a->set_hook(hook, nullptr);
    int n = 0, checked = 0, moves = 0;
    MNest hn{&c, 0, MK_CTR, 1, CK_SIM_16_1};
    g_nest.clear();
    g_nest.fn = nested, g_nest.ctx = &hn;
    for (auto& o : p.ops)
    {
        c.st->steps++;
        n++;
        scribble(n * 7919);
        g_nest.raise(c);
        Slot& t = s[(u64)o.at(0) % 4];
        hn.L = L;
        if (o.n == "gnew") hn.mode = MK_COUNT, hn.enc = o.at(2) & 1, hn.ck = GCK[(u64)o.at(1) % 8];
        else if (o.n == "xfer") hn.mode = MK_COUNT, hn.enc = n & 1, hn.ck = GCK[(u64)o.at(0) % 8];
        else if (o.n == "new") hn.mode = (u64)o.at(1) % MK_COUNT, hn.enc = o.at(2) & 1, hn.ck = (u64)o.at(3) % CK_COUNT;
        else if (t.m || t.g) hn.mode = t.g ? (int)MK_COUNT : t.mode, hn.enc = t.enc, hn.ck = t.ck;
        u64   skey = hcomb(hcomb(t.st * 131 + t.mode * 7 + t.enc, t.ck + (t.g ? 100 : 0)), t.st == LIVE ? t.in.size() % t.bs() : 0);
        if (o.n == "lib")
        {
            L = nlib(o.at(0));
            continue;
        }
        if (o.n[0] == 'b' && bare(o, c, bslots, L, checked, moves)) continue;
        if (o.n == "hugem" || o.n == "hugeg")
        {
            size_t F = L;
            fast_lib(F);
            if (o.n == "hugem") huge_mode(c, o, F);
            else huge_gcm(c, o, F);
            moves++, checked++;
            continue;
        }
        if (o.n == "new" || o.n == "gnew")
        { // new slot mode enc cipher how keyseed ivseed fill | gnew slot cipher enc how keyseed ivseed ivlen aadseed aadlen fill
            verify(c, t, "output of a discarded session");
            t.clear();
            bool gcmk = o.n == "gnew";
            Bytes key, iv, aad;
            int   how;
            t.out.clear(), t.in.clear(), t.aad.clear(), t.tagset = false;
            if (gcmk)
            {
                t.ck = GCK[(u64)o.at(1) % 8], t.enc = o.at(2) & 1, how = o.at(3) & 1;
                key = sim_data((u64)o.at(4), cipher_keylen(t.ck));
                iv = gcm_iv((u64)o.at(5), 1 + ((u64)o.at(6) + 11) % 300, t.ck, key); // at(6)==0 -> 12
                aad = sim_data((u64)o.at(7), oplen((u64)o.at(8), 5000));
                Buf k(key), v(iv), a(aad);
                t.mode = MK_COUNT;
                t.g = GA[L]->make(t.enc, t.ck, how, k.d(), v.d(), iv.size(), a.d(), aad.size(), (u32)o.at(9));
            }
            else
            {
                t.mode = (u64)o.at(1) % MK_COUNT, t.enc = o.at(2) & 1, t.ck = (u64)o.at(3) % CK_COUNT, how = o.at(4) & 1;
                key = sim_data((u64)o.at(5), cipher_keylen(t.ck));
                iv = iv_data((u64)o.at(6), cipher_bs(t.ck));
                Buf k(key), v(iv);
                t.m = MA[L]->make(t.mode, t.enc, t.ck, how, k.d(), v.d(), (u32)o.at(7));
            }
            if (!t.m && !t.g)
            {
                if (g_countdown != -1) c.fail("construct-failed", "construction threw without a fault");
                c.count("fault.cipher-threw-in-constructor");
                c.log("new %lld failed", (long long)o.at(0));
                continue;
            }
            t.st = how ? LIVE : UNKEYED;
            t.key = key, t.iv = iv, t.aad = aad;
            c.log("new %lld mode %d enc %d cipher %d %s", (long long)o.at(0), t.mode, t.enc, t.ck, stn[t.st]);
        }
        else if (o.n == "ini")
        { // ini slot keyseed ivseed ivlen aadseed aadlen
            if (t.st == EMPTY) continue;
            verify(c, t, "output before re-initialisation");
            Bytes key = sim_data((u64)o.at(1), cipher_keylen(t.ck));
            Bytes iv = t.g ? gcm_iv((u64)o.at(2), 1 + ((u64)o.at(3) + 11) % 300, t.ck, key) : iv_data((u64)o.at(2), cipher_bs(t.ck));
            Bytes aad = t.g ? sim_data((u64)o.at(4), oplen((u64)o.at(5), 5000)) : Bytes();
            c.state(hcomb(skey, 1));
            int rc = do_init(t, key, iv, aad);
            c.log("ini %lld (%s) -> %s", (long long)o.at(0), stn[t.st], rcname(rc));
            if (rc == RC_FAULT)
            {
                c.count("fault.cipher-threw-in-init");
                t.st = BROKENKEY;
                t.out.clear(), t.in.clear();
                continue;
            }
            if (rc) c.fail("init-failed", "init returned %s", rcname(rc));
            if (t.st == LIVE && t.in.size() % t.bs()) c.count("history.init-with-buffered-bytes");
            if (t.st == FAILED) c.count("history.init-after-failed-finish");
            if (t.st == BROKEN || t.st == BROKENKEY) c.count("history.init-after-cipher-fault");
            if (t.st == DONE) c.count("history.init-after-finish");
            t.key = key, t.iv = iv, t.aad = aad, t.in.clear(), t.out.clear(), t.st = LIVE, t.tagset = false;
            moves++;
        }
        else if (o.n == "rst")
        {
            if (t.st == EMPTY || t.st == UNKEYED || t.st == BROKENKEY || t.g) continue;
            verify(c, t, "output before reset");
            Bytes iv = iv_data((u64)o.at(1), t.bs());
            Buf   v(iv);
            c.state(hcomb(skey, 2));
            int rc = t.m->reset(v.d());
            c.log("rst %lld (%s) -> %s", (long long)o.at(0), stn[t.st], rcname(rc));
            if (rc) c.fail("reset-failed", "reset returned %s", rcname(rc));
            if (t.st == LIVE && t.in.size() % t.bs()) c.count("history.reset-with-buffered-bytes");
            if (t.st == FAILED) c.count("history.reset-after-failed-finish");
            if (t.st == BROKEN) c.count("history.reset-after-cipher-fault");
            if (t.st == DONE) c.count("history.reset-after-finish");
            t.iv = iv, t.in.clear(), t.out.clear(), t.st = LIVE;
            moves++;
        }
        else if (o.n == "upd" || o.n == "fin" || o.n == "pad")
        { // upd slot seed len null | pad slot seed blocks | fin slot seed len withargs tagmode tagbit
            if (t.st != LIVE) continue;
            bool   fin = o.n == "fin";
            int    wa = !fin || o.at(3);
            size_t len = wa ? oplen((u64)o.at(2)) : 0, bs = t.bs();
            if (o.n == "pad") len = (bs - t.in.size() % bs) % bs + bs * ((u64)o.at(2) % 64);
            Bytes  d = sim_data((u64)o.at(1), len);
            Buf    b(d);
            size_t held = t.in.size() - t.out.size();
            Buf    out(held + len);
            size_t ol = 0xdeadbeef;
            Bytes  all = t.in;
            all.insert(all.end(), d.begin(), d.end());
            c.state(hcomb(hcomb(skey, fin ? 3 : 4), len < 3 * bs ? len : 1000 + (len / bs % 37) * 64 + len % bs));
            bool tag_ok = true;
            if (fin && t.g && !t.enc)
            {
                Slot x;
                u8   tg[16];
                Cipher ci = cipher(t.ck, t.key.data());
                Gcm r = gcm(false, ci, t.iv.data(), t.iv.size(), t.aad, all);
                memcpy(tg, r.tag, 16);
                if (t.tagset) tag_ok = !memcmp(t.tag, tg, 16);
                else
                {
                    int tm = (int)((u64)o.at(4) % 6);
                    u64 bit = (u64)o.at(5);
                    u8  use[16];
                    memcpy(use, tg, 16);
                    if (tm == 1 || tm == 2) use[bit / 8 % 16] ^= 1 << bit % 8, c.count("fault.tag-bit-flip");
                    else if (tm == 3)
                    {
                        Bytes rb = sim_data(bit, 16);
                        memcpy(use, rb.data(), 16);
                    }
                    else if (tm == 4) std::rotate(use, use + 1 + bit % 15, use + 16);
                    tag_ok = !memcmp(use, tg, 16);
                    Buf tb(use, 16);
                    if (t.g->tag(tb.d())) c.fail("set-tag-failed", "set_tag threw");
                    tb.check(c, "tag");
                }
            }
            int rc;
            const u8* ip = d.empty() && o.at(fin ? 6 : 3) ? nullptr : b.d();
            if (!fin) rc = t.g ? t.g->update(out.d(), &ol, ip, len) : t.m->update(out.d(), &ol, ip, len);
            else rc = t.g ? t.g->final(out.d(), &ol, ip, len, wa) : t.m->final(out.d(), &ol, ip, len, wa);
            c.log("%s %lld +%zu -> %s outl %zu", o.n.c_str(), (long long)o.at(0), len, rcname(rc), rc == RC_OK ? ol : 0);
            out.check(c, "output");
            b.check(c, "input");
            if (memcmp(b.d(), d.data(), len)) c.fail("input-modified", "input changed");
            if (rc == RC_FAULT)
            {
                c.count(fin ? "fault.cipher-threw-in-finish" : "fault.cipher-threw-in-update");
                t.st = BROKEN;
                moves++;
                continue;
            }
            t.in = all;
            bool must_fail = fin && ((!t.g && t.mode <= MK_CBC && t.in.size() % bs) || (t.g && !t.enc && !tag_ok));
            if (must_fail)
            {
                if (rc == RC_OK)
                    c.fail(t.g ? "forgery-accepted" : "partial-block-accepted", "do_final succeeded although it had to fail (%zu bytes)", t.in.size());
                t.st = FAILED;
                c.count(t.g ? "history.tag-rejected" : "history.partial-final-rejected");
                verify(c, t, "output before a failed finish");
                checked++;
                moves++;
                continue;
            }
            if (rc) c.fail(t.g && fin ? "intact-rejected" : "call-failed", "%s returned %s", o.n.c_str(), rcname(rc));
            if (ol > held + len) c.fail("wrong-length", "%s reported %zu bytes of output with only %zu bytes pending", o.n.c_str(), ol, held + len);
            // bytes past the reported length must be untouched
            for (size_t i = ol; i < out.n; i++)
                if (out.d()[i] != 0xEE) c.fail("wild-write", "%s wrote byte %zu but reported %zu", o.n.c_str(), i, ol);
            t.out.insert(t.out.end(), out.d(), out.d() + ol);
            c.bytes(out.d(), ol);
            size_t lag = t.in.size() - t.out.size();
            if (fin && lag) c.fail("wrong-length", "after the finish %zu bytes are still missing", lag);
            if (!fin && lag > bs) c.fail("wrong-length", "update holds back %zu bytes (block size %zu)", lag, bs);
            moves++;
            if (fin)
            {
                u8    tg[16];
                Bytes w = want_all(t, tg);
                expect_bytes(c, "wrong-output", "output", t.out.data(), w.data(), w.size());
                if (t.g && t.enc)
                {
                    Buf tb(16);
                    if (t.g->tag(tb.d())) c.fail("get-tag-failed", "get_tag threw");
                    tb.check(c, "tag");
                    expect_bytes(c, "wrong-tag", "tag", tb.d(), tg, 16);
                    c.bytes(tb.d(), 16);
                }
                t.st = DONE;
                checked++;
                c.count("op.finish");
            }
        }
        else if (o.n == "drip")
        { // drip slot seed k: k updates of 0..5 bytes
            if (t.st != LIVE) continue;
            size_t k = (size_t)((u64)o.at(2) % 80000), at = 0, j = 0, held = t.in.size() - t.out.size();
            Bytes  d = sim_data((u64)o.at(1) | 4, 5 * k);
            Buf    b(d), out(held + 5 * k);
            size_t got = 0;
            for (; j < k; j++)
            {
                size_t l = mix64((u64)o.at(1) + j) % 6, ol = 0xdeadbeef;
                int    rc = t.g ? t.g->update(out.d() + got, &ol, b.d() + at, l) : t.m->update(out.d() + got, &ol, b.d() + at, l);
                if (rc == RC_FAULT)
                {
                    c.count("fault.cipher-threw-in-update");
                    t.st = BROKEN;
                    break;
                }
                if (rc) c.fail("call-failed", "update %zu of a drip returned %s", j, rcname(rc));
                at += l;
                if (ol > held + at - got) c.fail("wrong-length", "update %zu of a drip reported %zu bytes of output with only %zu bytes pending", j, ol, held + at - got);
                got += ol;
                if (held + at - got > t.bs()) c.fail("wrong-length", "update %zu of a drip holds back %zu bytes", j, held + at - got);
            }
            out.check(c, "output");
            c.log("drip %lld %zu updates, +%zu", (long long)o.at(0), j, at);
            if (t.st == LIVE)
            {
                t.in.insert(t.in.end(), d.begin(), d.begin() + at);
                t.out.insert(t.out.end(), out.d(), out.d() + got);
            }
            c.count("chunk.drip", j);
            moves++;
        }
        else if (o.n == "rsts")
        { // rsts slot k: k resets (GCM: initialisations) in a row
            if (t.st != LIVE && t.st != DONE && t.st != FAILED) continue;
            verify(c, t, "output before a series of resets");
            size_t k = (size_t)((u64)o.at(1) % 80000), j = 0;
            if (t.g || t.ck >= 4) k %= 2000;
            t.aad.resize(std::min<size_t>(t.aad.size(), 20));
            if (k && t.st == LIVE && t.in.size() % t.bs()) c.count("history.reset-with-buffered-bytes");
            Buf v(t.iv);
            for (; j < k; j++)
            {
                int rc = t.g ? do_init(t, t.key, t.iv, t.aad) : t.m->reset(v.d());
                if (rc == RC_FAULT)
                {
                    t.st = BROKENKEY, t.in.clear(), t.out.clear();
                    break;
                }
                if (rc) c.fail("reset-failed", "reset %zu in a row returned %s", j, rcname(rc));
                t.st = LIVE, t.in.clear(), t.out.clear(), t.tagset = false;
            }
            c.log("rsts %lld %zu", (long long)o.at(0), k);
            c.count("history.resets-in-a-row", k);
            moves++;
        }
        else if (o.n == "wear")
        { // wear slot seed k: k short sessions one after the other on the same object
            if (t.st != LIVE && t.st != DONE && t.st != FAILED) continue;
            verify(c, t, "output before a long series of sessions");
            size_t k = (size_t)((u64)o.at(2) % 80000), j = 0, bs = t.bs();
            t.aad.resize(std::min<size_t>(t.aad.size(), 20)), t.tagset = false;
            Buf out(2 * bs), tb(16);
            for (; j < k; j++)
            {
                t.in.clear(), t.out.clear();
                u64 sd = (u64)o.at(1) + j;
                if (!t.g) t.iv = iv_data(sd % 640, bs);
                int rc;
                if (t.g || j % 2) rc = do_init(t, t.key, t.iv, t.aad);
                else
                {
                    Buf v(t.iv);
                    rc = t.m->reset(v.d());
                }
                if (rc == RC_FAULT)
                {
                    t.st = BROKENKEY;
                    break;
                }
                if (rc) c.fail("init-failed", "session %zu on one object: %s", j, rcname(rc));
                t.st = LIVE;
                t.in = sim_data(sd, !t.g && t.mode <= MK_CBC ? bs : 1 + mix64(sd) % (2 * bs));
                u8    tg[16];
                if (t.g && !t.enc)
                {
                    Cipher ci = cipher(t.ck, t.key.data());
                    Gcm    r  = gcm(false, ci, t.iv.data(), t.iv.size(), t.aad, t.in);
                    memcpy(tb.d(), r.tag, 16);
                    t.g->tag(tb.d());
                }
                Bytes  w = want_all(t, tg);
                Buf    b(t.in);
                size_t ol = 0xdeadbeef;
                rc = t.g ? t.g->final(out.d(), &ol, b.d(), t.in.size(), 1) : t.m->final(out.d(), &ol, b.d(), t.in.size(), 1);
                if (rc == RC_FAULT)
                {
                    c.count("fault.cipher-threw-in-finish");
                    t.st = BROKEN;
                    break;
                }
                if (rc) c.fail("call-failed", "finish of session %zu on one object returned %s", j, rcname(rc));
                if (ol != w.size()) c.fail("wrong-length", "finish of session %zu on one object reported %zu bytes", j, ol);
                if (memcmp(w.data(), out.d(), ol)) c.fail("wrong-output", "output of session %zu on one object", j);
                if (t.g && t.enc)
                {
                    t.g->tag(tb.d());
                    if (memcmp(tb.d(), tg, 16)) c.fail("wrong-tag", "tag of session %zu on one object", j);
                }
                t.out = w, t.st = DONE;
            }
            out.check(c, "output");
            c.log("wear %lld %zu sessions", (long long)o.at(0), j);
            c.count("history.sessions-on-a-worn-object", j);
            if (t.st != DONE && t.st != LIVE) t.in.clear(), t.out.clear();
            moves++, checked++;
        }
        else if (o.n == "tag")
        { // a decryptor may be told the (here: arbitrary) tag early
            if (t.st != LIVE || !t.g || t.enc) continue;
            Bytes rb = sim_data((u64)o.at(1), 16);
            Buf   tb(rb);
            t.g->tag(tb.d());
            memcpy(t.tag, rb.data(), 16);
            t.tagset = o.at(2) != 0;
            c.count("history.tag-set-early");
        }
        else if (o.n == "cpy")
        {
            Slot& d = s[(u64)o.at(1) % 4];
            if (&d == &t || t.st == EMPTY || t.st == UNKEYED) continue;
            verify(c, d, "output of a discarded session");
            d.clear();
            if (t.g) d.g = t.g->clone();
            else d.m = t.m->clone();
            d.mode = t.mode, d.enc = t.enc, d.ck = t.ck, d.st = t.st, d.key = t.key, d.iv = t.iv, d.aad = t.aad, d.in = t.in, d.out = t.out;
            d.tagset = t.tagset;
            memcpy(d.tag, t.tag, 16);
            c.count("history.copy");
            c.log("cpy");
            moves++;
        }
        else if (o.n == "asg")
        {
            Slot& d = s[(u64)o.at(1) % 4];
            if (t.st == EMPTY || t.st == UNKEYED || d.st == EMPTY || (d.g != nullptr) != (t.g != nullptr) || d.mode != t.mode || d.enc != t.enc || d.ck != t.ck) continue;
            if (&d != &t) verify(c, d, "output of an overwritten session");
            if (t.g) d.g->assign(t.g);
            else d.m->assign(t.m);
            if (&d != &t)
            {
                d.st = t.st, d.key = t.key, d.iv = t.iv, d.aad = t.aad, d.in = t.in, d.out = t.out;
                d.tagset = t.tagset;
                memcpy(d.tag, t.tag, 16);
            }
            c.count("history.assign");
            moves++;
        }
        else if (o.n == "del")
        {
            verify(c, t, "output of a discarded session");
            t.clear();
        }
        else if (o.n == "nst")
        { // nst at seed: the cipher uses the library at its call number "at"
            g_nest.at = o.at(0), g_nest.seed = (u64)o.at(1);
        }
        else if (o.n == "flt")
        {
            g_countdown = o.at(0);
        }
        else if (o.n == "xfer")
        { // xfer cipher msgseed msglen ivlen aadlen  fault pos arg  encprof decprof seed : full GCM transmission
            int   ck = GCK[(u64)o.at(0) % 8];
            Bytes m = sim_data((u64)o.at(1), oplen((u64)o.at(2))), key = sim_data((u64)o.at(10) + 1, cipher_keylen(ck)), iv = gcm_iv((u64)o.at(10) + 2, 1 + ((u64)o.at(3) + 11) % 300, ck, key),
                  aad = sim_data((u64)o.at(10) + 3, oplen((u64)o.at(4), 5000));
            auto  stream = [&](bool enc, const Bytes& in, Bytes& outv, Bytes& tg, const Bytes& k, const Bytes& v, const Bytes& ad, int prof, size_t lib) -> int {
                Buf   kb(k), vb(v), ab(ad);
                IGcm* g = GA[lib]->make(enc, ck, 1, kb.d(), vb.d(), v.size(), ab.d(), ad.size(), 5);
                if (!g) return -1;
                Prng   r((u64)o.at(10) * 3 + enc);
                auto once = [&](bool again) -> int {
                    size_t pos = 0;
                    int    rc = 0;
                    outv.clear();
                    bool early = r.chance(1, 2);
                    if (again) early = true;
                    else if (!enc && early) g->tag(tg.data());
                    while (pos < in.size() && !rc)
                    {
                        size_t q = std::min<size_t>(in.size() - pos, (size_t)gen_chunk(r, 16, prof) + (r.chance(1, 8) ? 0 : 1));
                        Buf    b(in.data() + pos, q), ob(pos + q - outv.size());
                        size_t ol = 0;
                        bool   last = pos + q == in.size() && r.chance(1, 2);
                        if (last) break;
                        rc = g->update(ob.d(), &ol, b.d(), q);
                        pos += q;
                        ob.check(c, "output");
                        if (rc || ol > ob.n) break;
                        outv.insert(outv.end(), ob.d(), ob.d() + ol);
                    }
                    if (!rc)
                    {
                        Buf    b(in.data() + pos, in.size() - pos), ob(in.size() - outv.size());
                        size_t ol = 0;
                        if (!enc && !early) g->tag(tg.data());
                        rc = g->final(ob.d(), &ol, b.d(), b.n, 1);
                        ob.check(c, "output");
                        if (!rc)
                        {
                            if (ol > ob.n) c.fail("wrong-length", "do_final reported %zu with %zu pending", ol, ob.n);
                            outv.insert(outv.end(), ob.d(), ob.d() + ol);
                            if (enc)
                            {
                                tg.assign(16, 0);
                                g->tag(tg.data());
                            }
                        }
                    }
                    return rc;
                };
                int rc = once(false);
                if (!enc && (rc == RC_OK || rc == RC_STD) && g_countdown < 0 && r.chance(1, 3))
                { // delivered once more: the tag received before still stands
                    Bytes first = outv;
                    int   r0 = g->init(kb.d(), vb.d(), v.size(), ab.d(), ad.size()), r1 = r0 ? r0 : once(true);
                    c.count("history.delivered-again");
                    if (r1 == RC_OK && rc != RC_OK) c.fail("forgery-accepted", "a stream that was rejected is accepted when it is delivered again");
                    if (r1 != rc) c.fail("intact-rejected", "a stream that was accepted is rejected when it is delivered again (%s)", rcname(r1));
                    if (rc == RC_OK && outv != first) c.fail("wrong-output", "a stream decrypts to something else when it is delivered again");
                }
                delete g;
                return rc;
            };
            Bytes ct, tg, pt;
            int   rc = stream(true, m, ct, tg, key, iv, aad, (int)((u64)o.at(8) % 8), L);
            if (rc == RC_FAULT || rc == -1)
            {
                c.count("fault.cipher-threw-in-transfer");
                continue;
            }
            if (rc || ct.size() != m.size()) c.fail("encrypt-failed", "encryption of %zu bytes gave %zu bytes (%s)", m.size(), ct.size(), rcname(rc));
            // the transport
            Bytes rct = ct, rtg = tg, rk = key, riv = iv, rad = aad;
            u64   pos = (u64)o.at(6), arg = (u64)o.at(7);
            static const char* fn[] = {"none", "ct-bit-flip", "tag-bit-flip", "aad-bit-flip", "iv-bit-flip", "key-bit-flip", "truncate", "append", "duplicate-block", "swap-blocks", "drop-bytes", "insert-bytes", "aad-truncate", "aad-extend", "tag-zeroed", "tag-prefix-kept", "aad-ct-boundary", "iv-extended"};
            int f = (int)((u64)o.at(5) % 18);
            // one bit, or all that keeps a prefix, a sum or the like
            auto flip = [&](Bytes& b, u64 at) {
                if (arg & 8) sim_vary(b, pos);
                else b[at] ^= 1 << arg % 8;
            };
            switch (f)
            {
                case 1:
                    if (rct.size()) flip(rct, pos % rct.size());
                    break;
                case 2: flip(rtg, pos % 16); break;
                case 3:
                    if (rad.size()) flip(rad, pos % rad.size());
                    break;
                case 4: flip(riv, pos % riv.size()); break;
                case 5: flip(rk, pos % rk.size()); break;
                case 6: rct.resize(rct.size() ? pos % rct.size() : 0); break;
                case 7: rct.insert(rct.end(), 1 + arg % 33, (u8)(arg & 1 ? 0 : arg)); break;
                case 8:
                    if (rct.size() >= 16)
                    {
                        size_t k = pos % (rct.size() / 16) * 16;
                        Bytes  blk(rct.begin() + k, rct.begin() + k + 16);
                        rct.insert(rct.begin() + k, blk.begin(), blk.end());
                    }
                    break;
                case 9:
                    if (rct.size() >= 32)
                    {
                        size_t nb = rct.size() / 16, a = pos % nb, b2 = (a + 1 + arg % (nb - 1)) % nb;
                        std::swap_ranges(rct.begin() + a * 16, rct.begin() + a * 16 + 16, rct.begin() + b2 * 16);
                    }
                    break;
                case 10:
                    if (rct.size())
                    {
                        size_t k = pos % rct.size(), q = std::min<size_t>(rct.size() - k, 1 + arg % 20);
                        rct.erase(rct.begin() + k, rct.begin() + k + q);
                    }
                    break;
                case 11: rct.insert(rct.begin() + pos % (rct.size() + 1), 1 + arg % 20, (u8)arg); break;
                case 12:
                    if (rad.size()) rad.resize(pos % rad.size());
                    break;
                case 13: rad.insert(rad.end(), 1 + arg % 33, (u8)(arg & 1 ? 0 : arg)); break;
                case 14: rtg.assign(16, 0); break;
                case 15:
                    for (size_t i = pos % 16; i < 16; i++) rtg[i] ^= (u8)(1 + mix64(arg + i) % 255);
                    break;
                case 16:
                { // move bytes across the AAD/ciphertext boundary
                    size_t k = 1 + arg % 16;
                    if (pos & 1)
                    {
                        k = std::min(k, rct.size());
                        rad.insert(rad.end(), rct.begin(), rct.begin() + k);
                        rct.erase(rct.begin(), rct.begin() + k);
                    }
                    else
                    {
                        k = std::min(k, rad.size());
                        rct.insert(rct.begin(), rad.end() - k, rad.end());
                        rad.resize(rad.size() - k);
                    }
                    break;
                }
                case 17: riv.insert(riv.end(), 1 + arg % 5, 0); break;
            }
            bool changed = rct != ct || rtg != tg || rk != key || riv != iv || rad != aad;
            if (changed) c.count(std::string("fault.transport-") + fn[f]);
            // what the standard says about the received tuple
            Gcm w = gcm(false, cipher(ck, rk.data()), riv.data(), riv.size(), rad, rct);
            bool good = !memcmp(w.tag, rtg.data(), 16);
            c.state(hcomb(hcomb(ck, f), hcomb(m.size() % 16 + 16 * std::min<size_t>(m.size() / 16, 20), aad.size() % 16 + 100 * (iv.size() == 12))));
            rc = stream(false, rct, pt, rtg, rk, riv, rad, (int)((u64)o.at(9) % 8), nlib((i64)L + o.at(11)));
            c.log("xfer cipher %d %zu bytes fault %s%s -> %s", ck, m.size(), fn[f], changed ? "" : " (no effect)", rcname(rc));
            if (rc == RC_FAULT || rc == -1)
            {
                c.count("fault.cipher-threw-in-transfer");
                continue;
            }
            if (!good && rc == RC_OK) c.fail("forgery-accepted", "a stream with fault %s (at %llu, %llu) of %zu bytes was accepted", fn[f], (unsigned long long)pos, (unsigned long long)arg, m.size());
            if (good && rc != RC_OK) c.fail("intact-rejected", "an authentic stream of %zu bytes was rejected (%s)", rct.size(), rcname(rc));
            if (good && !(pt == w.out)) c.fail("wrong-output", "an authentic stream decrypted to something else");
            if (!changed && pt != m) c.fail("wrong-output", "an intact stream of %zu bytes did not decrypt to the message", m.size());
            if (good) c.bytes(pt.data(), pt.size());
            checked++, moves++;
        }
    }
    g_nest.raise(c);
    g_nest.clear();
    for (auto& t : s) verify(c, t, "output at the end");
    c.nontrivial = checked && moves;
}

static void gen_ops(Prng& r, Plan& p, bool gcm, int mode, int ck, bool lifecycle, bool faults)
{
    i64 bs = gcm ? 16 : (i64)cipher_bs(ck);
    int prof = (int)r.below(8);
    // half of the runs use few keys and IVs, so that sessions recur
    bool few = r.chance(1, 2);
    i64  k0 = (i64)r.below(64), kn = few ? r.range(1, 3) : 64, v0 = (i64)r.below(640), vn = few && r.chance(1, 2) ? r.range(1, 3) : 640;
    auto kid = [&] { return (k0 + (i64)r.below(kn)) % 64; };
    auto ivd = [&] { return (v0 + (i64)r.below(vn)) % 640; };
    auto mk = [&](i64 slot) {
        i64 how = r.chance(3, 4);
        i64 enc = (i64)r.below(2);
        if (gcm)
            p.add("gnew", {slot, ck, enc, how, kid(), ivd(), r.chance(1, 2) ? 0 : r.chance(1, 2) ? r.range(1, 40) : r.range(0, 299), (i64)r.below(64), r.chance(1, 3) ? 0 : gen_chunk(r, 16, (int)r.below(8)), (i64)r.below(100)});
        else p.add("new", {slot, mode, enc, ck, how, kid(), ivd(), (i64)r.below(100)});
        if (!how || r.chance(1, 10)) p.add("ini", {slot, kid(), ivd(), (i64)r.below(40), (i64)r.below(64), (i64)r.below(60)});
    };
    mk(0);
    i64 nslots = lifecycle ? 3 : 1;
    if (lifecycle && r.chance(1, 2)) mk(1);
    i64 nops = r.chance(1, 5) ? r.range(12, 40) : r.range(2, 12);
    bool flt = faults && r.chance(1, 2), nst = ck >= 4 && r.chance(1, 5);
    for (i64 i = 0; i < nops; i++)
    {
        if (nst && r.chance(1, 2)) p.add("nst", {(i64)r.below(5), (i64)r.below(10000000)});
        i64 sl = r.chance(3, 4) ? 0 : (i64)r.below(nslots);
        int k = (int)r.below(lifecycle ? 16 : 9);
        if (k == 0 && !lifecycle && r.chance(2, 3)) k = 1;
        switch (k)
        {
            case 0:
            case 9:
                if (r.chance(1, 2)) p.add("pad", {sl, (i64)r.below(999), (i64)r.below(5), 0});
                p.add("fin", {sl, (i64)r.below(999), gcm || mode > MK_CBC ? gen_chunk(r, bs, prof) : r.chance(1, 2) ? 0 : gen_chunk(r, bs, prof), (i64)r.below(2), (i64)r.below(6), (i64)r.below(128), (i64)r.below(2)});
                if (lifecycle && r.chance(2, 3))
                {
                    if (!gcm && r.chance(1, 2)) p.add("rst", {sl, ivd()});
                    else p.add("ini", {sl, kid(), ivd(), (i64)r.below(40), (i64)r.below(64), (i64)r.below(60)});
                }
                break;
            case 10: p.add("ini", {sl, kid(), ivd(), r.chance(1, 2) ? 0 : (i64)r.below(40), (i64)r.below(64), (i64)r.below(60)}); break;
            case 11:
                if (!gcm) p.add("rst", {sl, ivd()});
                else if (r.chance(1, 6)) p.add("tag", {sl, (i64)r.below(64), (i64)r.below(2)});
                break;
            case 12: p.add("cpy", {sl, r.range(0, 3)}); break;
            case 13: p.add("asg", {sl, r.range(0, 3)}); break;
            case 14:
                if (flt) p.add("flt", {(i64)r.below(5)});
                else p.add("upd", {sl, (i64)r.below(999), gen_chunk(r, bs, prof), (i64)r.below(2)});
                break;
            default: p.add("upd", {sl, (i64)r.below(999), gen_chunk(r, bs, prof), (i64)r.below(2)}); break;
        }
    }
    while (r.chance(1, 14))
    { // a long life
        Op o;
        int w = lifecycle ? (int)r.below(3) : 0;
        o.n = w == 0 ? "drip" : w == 1 ? "wear" : "rsts";
        if (w == 2) o.a = {0, r.chance(1, 20) ? r.pick({65535, 65536, 65537}) : r.pick({127, 128, 255, 256, 256, 257, 512})};
        else o.a = {0, (i64)r.below(5000), r.chance(1, 100) ? r.range(65500, 66100) : r.range(250, 600)};
        p.ops.insert(p.ops.begin() + r.range(2, (i64)p.ops.size()), o);
    }
    grow_one(r, p, bs, {{"upd", 2}, {"upd", 2}, {"upd", 2}, {"fin", 2}, {"gnew", 8}, {"ini", 5}});
    for (i64 k = 0; k < (lifecycle ? 4 : 1); k++)
    {
        if (!gcm && mode <= MK_CBC && r.chance(9, 10)) p.add("pad", {k, (i64)r.below(999), (i64)r.below(20), 0}), p.add("fin", {k, 0, bs * (i64)r.below(5), (i64)r.below(2), (i64)r.below(2)});
        else p.add("fin", {k, (i64)r.below(999), gen_chunk(r, bs, prof), (i64)r.chance(1, 2), (i64)r.below(6), (i64)r.below(128)});
    }
}
static void gen4(Prng& r, Plan& p)
{
    p.add("lib", {(i64)r.below(64)});
    gen_ops(r, p, false, (int)r.below(MK_COUNT), r.chance(2, 3) ? (int)r.below(4) : (int)r.below(CK_COUNT), false, false);
}
static void gen5(Prng& r, Plan& p)
{
    p.add("lib", {(i64)r.below(64)});
    bool g = r.chance(1, 3);
    bool sim = r.chance(1, 2);
    if (r.chance(1, 6)) return gen_bare(r, p, sim);
    int  ck = g ? (int)(sim ? 4 + r.below(4) : r.below(4)) : (int)(sim ? 4 + r.below(CK_COUNT - 4) : r.below(4));
    gen_ops(r, p, g, (int)r.below(MK_COUNT), ck, true, sim);
}
static void gen6(Prng& r, Plan& p)
{
    p.add("lib", {(i64)r.below(64)});
    // encryptors mostly; interleaved sessions in half of the runs
    Plan q;
    gen_ops(r, q, true, 0, (int)(r.chance(3, 4) ? r.below(4) : r.below(8)), r.chance(1, 2), false);
    for (auto& o : q.ops)
    {
        if (o.n == "gnew" && o.a.size() > 2 && r.chance(9, 10)) o.a[2] = 1;
        p.ops.push_back(o);
    }
}
static void gen7(Prng& r, Plan& p)
{
    p.add("lib", {(i64)r.below(64)});
    i64 n = r.range(1, 3);
    for (i64 i = 0; i < n; i++)
    {
        int prof = (int)r.below(8);
        i64 len = r.chance(1, 2) ? gen_chunk(r, 16, prof) : r.range(0, 200);
        if (r.chance(1, 10)) len = r.range(500, 5000);
        if (r.chance(1, 6)) p.add("nst", {(i64)r.below(8), (i64)r.below(10000000)});
        p.add("xfer", {(i64)(r.chance(3, 4) ? r.below(4) : r.below(8)), (i64)r.below(999), len, r.chance(1, 2) ? 0 : (i64)r.below(64), r.chance(1, 3) ? 0 : gen_chunk(r, 16, prof), r.chance(1, 5) ? 0 : (i64)r.below(18),
                       (i64)r.below(len ? (u64)len : 1), (i64)r.below(256), (i64)r.below(8), (i64)r.below(8), (i64)r.below(100000), (i64)r.below(4)});
    }
    grow_one(r, p, 16, {{"xfer", 2}, {"xfer", 4}});
    if (r.chance(1, 3))
    {
        Plan q;
        gen_ops(r, q, true, 0, (int)r.below(8), r.chance(1, 2), false);
        for (auto& o : q.ops)
        {
            if (o.n == "gnew" && o.a.size() > 2 && r.chance(9, 10)) o.a[2] = 0;
            p.ops.push_back(o);
        }
    }
}
// directed: every residue x every mode x direction x cipher, on every variant
static bool dir4(size_t i, Plan& p)
{
    if (i < 5)
    {
        static const i64 e[5] = {1, 0, 0, 1, 1};
        p.add("hugem", {(i64)i, e[i], 1, (1ll << 32) + 37, 1ll << 40, 9});
        return true;
    }
    i -= 5;
    if (i >= 5 * 2 * 11 * 16) return false;
    i64 mode = i % 5, enc = i / 5 % 2, ck = i / 10 % 11, k = i / 110, bs = (i64)cipher_bs((int)ck);
    p.add("lib", {(i64)(i / 5)});
    p.add("new", {0, mode, enc, ck, 1, 20 + k, 5 * (k + 1), 7});
    p.add("upd", {0, 21, k % bs, 0});
    p.add("upd", {0, 22, (bs - k % bs) % bs + (k & 1), 0});
    p.add("upd", {0, 23, bs * (16 + k) + k, 0});
    p.add("upd", {0, 24, 0, 1});
    if (mode <= MK_CBC) p.add("pad", {0, 25, k, 0});
    p.add("fin", {0, 26, mode <= MK_CBC ? 0 : k, 1});
    return true;
}
static bool dir5(size_t i, Plan& p)
{ // abandon with residue k, restart in one of four ways
    if (i >= 5 * 2 * 4 * 12)
    { // bare ciphers: every kind, both directions, every number of blocks around the bulk paths
        i -= 5 * 2 * 4 * 12;
        if (i >= 4 * 11) return false;
        p.add("lib", {(i64)(i / 11)});
        for (i64 e = 0; e < 2; e++)
        {
            p.add("bnew", {0, (i64)i % 11, e, (i64)(i + e) % 2, (i64)i, 3}), p.add("bkey", {0, e, (i64)i + 1});
            for (i64 k = 0; k < 34; k++) p.add("buse", {0, k, k < 26 ? k : 32 * (k - 25) + (k & 1), k % 5 == 4, k % 3 == 2, (k * 5) & 15});
            p.add("bcpy", {1, 0}), p.add("bkey", {0, 1 - e, 77}), p.add("buse", {0, 5, 9, 0, 0, 0}), p.add("buse", {1, 6, 9, 1, 0, 1}), p.add("basg", {0, 1}), p.add("buse", {0, 7, 9, 0, 1, 2});
        }
        return true;
    }
    i64 mode = i % 5, enc = i / 5 % 2, way = i / 10 % 4, k = i / 40;
    p.add("lib", {(i64)k});
    p.add("new", {0, mode, enc, way == 3 ? (i64)CK_SIM_16_2 : k % 4, 1, 31, 32, 7});
    p.add("upd", {0, 21, k * 3 + 1, 0});
    if (way == 0) p.add("rst", {0, 33});
    if (way == 1) p.add("ini", {0, 34, 35});
    if (way == 2) p.add("fin", {0, 22, k, 1}), p.add("rst", {0, 33});
    if (way == 3) p.add("flt", {0}), p.add("upd", {0, 23, 40, 0}), p.add("rst", {0, 36});
    p.add("upd", {0, 24, 50 + k, 0});
    p.add("pad", {0, 25, 2, 0});
    p.add("fin", {0, 0, 0, 0});
    return true;
}
static bool dir6(size_t i, Plan& p)
{
    if (i < 4)
    {
        static const i64 d[4][3] = {{12, (1ll << 32) + 21, 0}, {(1ll << 32) + 3, 0, 0}, {12, 5, (1ll << 29) + 9}, {(1ll << 29) + 16, (1ll << 29) + 7, 0}};
        p.add("hugeg", {1, 1, d[i][0], d[i][1], d[i][2], 1ll << 40, 9});
        return true;
    }
    i -= 4;
    if (i >= 4 * 300) return false;
    i64 k = i / 4;
    p.add("lib", {(i64)i});
    p.add("gnew", {0, (i64)(k % 4), 1, 1, 40 + k, 5 * k, k, 41, k % 50, 3});
    p.add("gnew", {1, (i64)(k % 4), 1, 1, 50 + k, 51, 0, 52, 0, 3});
    p.add("upd", {0, 21, k % 17, 0});
    p.add("upd", {1, 21, k % 13, 0});
    p.add("upd", {0, 22, 16 * (k % 20), 0});
    p.add("fin", {0, 23, k % 33, 1});
    p.add("fin", {1, 23, k % 33, 1});
    return true;
}
static bool dir7(size_t i, Plan& p)
{ // every tag bit; every ciphertext bit of short streams
    if (i < 4)
    {
        static const i64 d[4][3] = {{12, (1ll << 32) + 21, 0}, {(1ll << 32) + 3, 0, 40}, {12, 5, (1ll << 32) + 9}, {12, (1ll << 29) + 7, 33}};
        p.add("hugeg", {0, 1, d[i][0], d[i][1], d[i][2], 1ll << 40, 9});
        return true;
    }
    i -= 4;
    if (i < 128)
    {
        p.add("lib", {(i64)i});
        p.add("xfer", {(i64)(i % 4), 3, (i64)(i % 40), 0, (i64)(i % 20), 2, (i64)(i / 8), (i64)(i % 8), 4, 4, (i64)i, 0});
        return true;
    }
    i -= 128;
    if (i < 18 * 40)
    {
        p.add("lib", {(i64)i});
        p.add("xfer", {(i64)(i % 4), (i64)i, (i64)(i / 18), 0, (i64)(i / 18 * 3 % 40), (i64)(i % 18), (i64)(i * 7), (i64)(i * 13), 0, 1, (i64)i, 1});
        return true;
    }
    return false;
}
static Module m4("C04", gen4, exec, dir4, init), m5("C05", gen5, exec, dir5, init), m6("C06", gen6, exec, dir6, init), m7("C07", gen7, exec, dir7, init);
