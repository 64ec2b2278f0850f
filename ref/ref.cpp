#include "ref.h"
#include "../shim/api.h"
#include "../shim/toy.h"

namespace ref {

// ------------------------------------------------------------------- SM3
static inline u32 rol(u32 x, unsigned n) { return (n &= 31) ? (x << n | x >> (32 - n)) : x; }
static void sm3_block(u32 V[8], const u8* p)
{
    u32 W[68], W1[64];
    for (int i = 0; i < 16; i++) W[i] = (u32)p[4 * i] << 24 | p[4 * i + 1] << 16 | p[4 * i + 2] << 8 | p[4 * i + 3];
    for (int j = 16; j < 68; j++)
    {
        u32 x = W[j - 16] ^ W[j - 9] ^ rol(W[j - 3], 15);
        W[j] = (x ^ rol(x, 15) ^ rol(x, 23)) ^ rol(W[j - 13], 7) ^ W[j - 6];
    }
    for (int j = 0; j < 64; j++) W1[j] = W[j] ^ W[j + 4];
    u32 A = V[0], B = V[1], C = V[2], D = V[3], E = V[4], F = V[5], G = V[6], H = V[7];
    for (int j = 0; j < 64; j++)
    {
        u32 T = j < 16 ? 0x79cc4519u : 0x7a879d8au;
        u32 SS1 = rol(rol(A, 12) + E + rol(T, j), 7), SS2 = SS1 ^ rol(A, 12);
        u32 FF = j < 16 ? A ^ B ^ C : (A & B) | (A & C) | (B & C);
        u32 GG = j < 16 ? E ^ F ^ G : (E & F) | (~E & G);
        u32 T1 = FF + D + SS2 + W1[j], T2 = GG + H + SS1 + W[j];
        D = C, C = rol(B, 9), B = A, A = T1;
        H = G, G = rol(F, 19), F = E, E = T2 ^ rol(T2, 9) ^ rol(T2, 17);
    }
    V[0] ^= A, V[1] ^= B, V[2] ^= C, V[3] ^= D, V[4] ^= E, V[5] ^= F, V[6] ^= G, V[7] ^= H;
}
Sm3::Sm3() : n(0)
{
    static const u32 iv[8] = {0x7380166f, 0x4914b2b9, 0x172442d7, 0xda8a0600, 0xa96f30bc, 0x163138aa, 0xe38dee4d, 0xb0fb0e4e};
    memcpy(v, iv, sizeof v);
}
void Sm3::update(const u8* p, size_t l)
{
    while (l)
    {
        size_t o = n % 64;
        if (o == 0 && l >= 64)
        {
            sm3_block(v, p);
            p += 64, l -= 64, n += 64;
            continue;
        }
        size_t k = 64 - o < l ? 64 - o : l;
        memcpy(b + o, p, k);
        p += k, l -= k, n += k;
        if (n % 64 == 0) sm3_block(v, b);
    }
}
Bytes Sm3::digest() const
{
    Sm3 t = *this;
    u64 bits = n * 8;
    u8 pad[72] = {0x80};
    size_t pl = (n % 64 < 56) ? 56 - n % 64 : 120 - n % 64;
    t.update(pad, pl);
    u8 lb[8];
    for (int i = 0; i < 8; i++) lb[i] = (u8)(bits >> (56 - 8 * i));
    t.update(lb, 8);
    Bytes o(32);
    for (int i = 0; i < 8; i++)
        for (int k = 0; k < 4; k++) o[4 * i + k] = (u8)(t.v[i] >> (24 - 8 * k));
    return o;
}
Bytes sm3(const u8* p, size_t n)
{
    Sm3 s;
    s.update(p, n);
    return s.digest();
}
Bytes hmac(const HashFn& h, size_t bs, size_t ds, const Bytes& key, const Bytes& msg)
{
    Bytes k(bs, 0);
    if (key.size() > bs)
    {
        Bytes d = h(key.data(), key.size());
        memcpy(k.data(), d.data(), d.size() < bs ? d.size() : bs);
    }
    else if (key.size()) memcpy(k.data(), key.data(), key.size());
    Bytes a(bs), b(bs);
    for (size_t i = 0; i < bs; i++) a[i] = k[i] ^ 0x36, b[i] = k[i] ^ 0x5c;
    a.insert(a.end(), msg.begin(), msg.end());
    Bytes d = h(a.data(), a.size());
    b.insert(b.end(), d.begin(), d.begin() + ds);
    return h(b.data(), b.size());
}

// ----------------------------------------------------------------- GHASH
void ghash_mul(u8 x[16], const u8 h[16])
{
    u64 zh = 0, zl = 0, vh = 0, vl = 0;
    for (int i = 0; i < 8; i++) vh = vh << 8 | h[i], vl = vl << 8 | h[8 + i];
    for (int i = 0; i < 128; i++)
    {
        u64 m = 0 - (u64)((x[i / 8] >> (7 - i % 8)) & 1);
        zh ^= vh & m, zl ^= vl & m;
        u64 lsb = vl & 1;
        vl = vl >> 1 | vh << 63;
        vh = (vh >> 1) ^ (lsb ? 0xe100000000000000ull : 0);
    }
    for (int i = 0; i < 8; i++) x[i] = (u8)(zh >> (56 - 8 * i)), x[8 + i] = (u8)(zl >> (56 - 8 * i));
}
void ghash_zeros(u8 y[16], const u8 h[16], u64 blocks)
{
    u8 p[16];
    memcpy(p, h, 16);
    for (; blocks; blocks >>= 1)
    {
        if (blocks & 1) ghash_mul(y, p);
        u8 t[16];
        memcpy(t, p, 16);
        ghash_mul(p, t);
    }
}
Bytes ghash(const u8 h[16], const u8* p, size_t n)
{
    Bytes y(16, 0);
    while (n)
    {
        size_t k = n < 16 ? n : 16;
        for (size_t i = 0; i < k; i++) y[i] ^= p[i];
        ghash_mul(y.data(), h);
        p += k, n -= k;
    }
    return y;
}

// ------------------------------------------------------------------- SM4
static u8 g_sm4s[256];
static u8 g_aess[256], g_aesi[256];
static u8 gmul(u8 a, u8 b, unsigned poly)
{
    unsigned r = 0, x = a;
    while (b)
    {
        if (b & 1) r ^= x;
        x <<= 1;
        if (x & 0x100) x ^= poly;
        b >>= 1;
    }
    return (u8)r;
}
static void tables()
{
    static bool done = false;
    if (done) return;
    // AES S-box from its definition
    u8 inv[256] = {0};
    for (int a = 1; a < 256; a++)
        for (int b = 1; b < 256; b++)
            if (gmul(a, b, 0x11b) == 1) inv[a] = b;
    for (int a = 0; a < 256; a++)
    {
        u8 x = inv[a], y = 0x63;
        for (int i = 0; i < 5; i++) y ^= (u8)(x << i | x >> (8 - i));
        if (a == 0) y = 0x63;
        g_aess[a] = y, g_aesi[y] = a;
    }
    // SM4 S-box: S(x) = A(I(A(x))) over GF(2^8)/0x1f5, A(x) = M x + d3
    u8 inv4[256] = {0};
    for (int a = 1; a < 256; a++)
        for (int b = 1; b < 256; b++)
            if (gmul(a, b, 0x1f5) == 1) inv4[a] = b;
    auto aff = [](u8 x) -> u8 {
        u8 r = 0;
        u8 row = 0xa7; // circulant rows: bit i of result = parity(rol(0xa7, i) & x)
        for (int i = 0; i < 8; i++)
        {
            u8 m = (u8)(row << i | row >> (8 - i));
            r |= (u8)(__builtin_parity(m & x) << i);
        }
        return r ^ 0xd3;
    };
    for (int a = 0; a < 256; a++) g_sm4s[a] = aff(inv4[aff((u8)a)]);
    done = true;
}
struct Init
{
    Init() { tables(); }
} g_init;

static u32 sm4_tau(u32 x) { return (u32)g_sm4s[x >> 24] << 24 | g_sm4s[x >> 16 & 255] << 16 | g_sm4s[x >> 8 & 255] << 8 | g_sm4s[x & 255]; }
static void sm4_keys(u32 rk[32], const u8* key)
{
    static const u32 FK[4] = {0xa3b1bac6, 0x56aa3350, 0x677d9197, 0xb27022dc};
    u32 K[36];
    for (int i = 0; i < 4; i++) K[i] = ((u32)key[4 * i] << 24 | key[4 * i + 1] << 16 | key[4 * i + 2] << 8 | key[4 * i + 3]) ^ FK[i];
    for (int i = 0; i < 32; i++)
    {
        u32 ck = 0;
        for (int j = 0; j < 4; j++) ck = ck << 8 | ((4 * i + j) * 7 & 255);
        u32 t = sm4_tau(K[i + 1] ^ K[i + 2] ^ K[i + 3] ^ ck);
        K[i + 4] = K[i] ^ t ^ rol(t, 13) ^ rol(t, 23);
        rk[i] = K[i + 4];
    }
}
static void sm4_crypt(u8* o, const u8* in, const u32* rk, bool dec)
{
    u32 X[36];
    for (int i = 0; i < 4; i++) X[i] = (u32)in[4 * i] << 24 | in[4 * i + 1] << 16 | in[4 * i + 2] << 8 | in[4 * i + 3];
    for (int i = 0; i < 32; i++)
    {
        u32 t = sm4_tau(X[i + 1] ^ X[i + 2] ^ X[i + 3] ^ rk[dec ? 31 - i : i]);
        X[i + 4] = X[i] ^ t ^ rol(t, 2) ^ rol(t, 10) ^ rol(t, 18) ^ rol(t, 24);
    }
    for (int i = 0; i < 4; i++)
        for (int k = 0; k < 4; k++) o[4 * i + k] = (u8)(X[35 - i] >> (24 - 8 * k));
}
// ------------------------------------------------------------------- AES
struct AesK
{
    u8  w[15][16];
    int nr;
};
static void aes_keys(AesK& k, const u8* key, int nk)
{
    k.nr = nk + 6;
    u8 w[60][4];
    for (int i = 0; i < nk; i++) memcpy(w[i], key + 4 * i, 4);
    u8 rc = 1;
    for (int i = nk; i < 4 * (k.nr + 1); i++)
    {
        u8 t[4];
        memcpy(t, w[i - 1], 4);
        if (i % nk == 0)
        {
            u8 x = t[0];
            t[0] = g_aess[t[1]] ^ rc, t[1] = g_aess[t[2]], t[2] = g_aess[t[3]], t[3] = g_aess[x];
            rc = gmul(rc, 2, 0x11b);
        }
        else if (nk > 6 && i % nk == 4)
            for (int j = 0; j < 4; j++) t[j] = g_aess[t[j]];
        for (int j = 0; j < 4; j++) w[i][j] = w[i - nk][j] ^ t[j];
    }
    memcpy(k.w, w, 16 * (k.nr + 1));
}
static inline u8 xt(u8 a) { return (u8)(a << 1 ^ (a & 0x80 ? 0x1b : 0)); }
static void aes_enc(u8* o, const u8* in, const AesK& k)
{
    u8 s[16], t[16];
    for (int i = 0; i < 16; i++) s[i] = in[i] ^ k.w[0][i];
    for (int r = 1; r <= k.nr; r++)
    {
        for (int c = 0; c < 4; c++)
            for (int j = 0; j < 4; j++) t[4 * c + j] = g_aess[s[4 * ((c + j) & 3) + j]];
        if (r < k.nr)
            for (int c = 0; c < 4; c++)
            {
                u8 *p = t + 4 * c, a = p[0] ^ p[1] ^ p[2] ^ p[3], x = p[0];
                u8 n0 = p[0] ^ a ^ xt(p[0] ^ p[1]), n1 = p[1] ^ a ^ xt(p[1] ^ p[2]), n2 = p[2] ^ a ^ xt(p[2] ^ p[3]), n3 = p[3] ^ a ^ xt(p[3] ^ x);
                p[0] = n0, p[1] = n1, p[2] = n2, p[3] = n3;
            }
        for (int i = 0; i < 16; i++) s[i] = t[i] ^ k.w[r][i];
    }
    memcpy(o, s, 16);
}
static void aes_dec(u8* o, const u8* in, const AesK& k)
{
    u8 s[16], t[16];
    for (int i = 0; i < 16; i++) s[i] = in[i] ^ k.w[k.nr][i];
    for (int r = k.nr - 1; r >= 0; r--)
    {
        for (int c = 0; c < 4; c++)
            for (int j = 0; j < 4; j++) t[4 * ((c + j) & 3) + j] = g_aesi[s[4 * c + j]];
        for (int i = 0; i < 16; i++) s[i] = t[i] ^ k.w[r][i];
        if (r)
            for (int c = 0; c < 4; c++)
            {
                u8 *p = s + 4 * c, q[4];
                for (int j = 0; j < 4; j++)
                {
                    u8 a = p[j], b = p[(j + 1) & 3], d = p[(j + 2) & 3], e = p[(j + 3) & 3];
                    u8 a2 = xt(a), a4 = xt(a2), a8 = xt(a4), b2 = xt(b), b8 = xt(xt(b2)), d4 = xt(xt(d)), d8 = xt(d4), e8 = xt(xt(xt(e)));
                    q[j] = (u8)(a8 ^ a4 ^ a2 ^ b8 ^ b2 ^ b ^ d8 ^ d4 ^ d ^ e8 ^ e);
                }
                memcpy(p, q, 4);
            }
    }
    memcpy(o, s, 16);
}
static const size_t SIMBS[] = {8, 8, 12, 16, 16, 16, 32, 16, 20};
size_t cipher_keylen(int k) { return k == CK_AES192 ? 24 : k == CK_AES256 ? 32 : 16; }
size_t cipher_bs(int k) { return k < CK_SIM_8_1 ? 16 : SIMBS[k - CK_SIM_8_1]; }
Cipher cipher(int kind, const u8* key)
{
    Cipher c;
    c.bs = cipher_bs(kind);
    if (kind == CK_SM4)
    {
        struct K
        {
            u32 rk[32];
        };
        auto k = std::make_shared<K>();
        sm4_keys(k->rk, key);
        c.enc = [k](u8* o, const u8* i) { sm4_crypt(o, i, k->rk, false); };
        c.dec = [k](u8* o, const u8* i) { sm4_crypt(o, i, k->rk, true); };
    }
    else if (kind <= CK_AES256)
    {
        auto k = std::make_shared<AesK>();
        aes_keys(*k, key, (int)cipher_keylen(kind) / 4);
        c.enc = [k](u8* o, const u8* i) { aes_enc(o, i, *k); };
        c.dec = [k](u8* o, const u8* i) { aes_dec(o, i, *k); };
    }
    else
    {
        Bytes  kk(key, key + 16);
        size_t bs = c.bs;
        c.enc = [kk, bs](u8* o, const u8* i) { toy_enc(o, i, kk.data(), bs); };
        c.dec = [kk, bs](u8* o, const u8* i) { toy_dec(o, i, kk.data(), bs); };
    }
    return c;
}
static void inc_be(u8* c, size_t from, size_t n)
{
    for (size_t i = n; i-- > from;)
        if (++c[i]) break;
}
Bytes mode(int mk, bool enc, const Cipher& c, const u8* iv, const Bytes& in)
{
    size_t bs = c.bs;
    Bytes out(in.size());
    u8 v[64], t[64];
    if (mk != MK_ECB) memcpy(v, iv, bs);
    for (size_t p = 0; p < in.size(); p += bs)
    {
        size_t k = in.size() - p < bs ? in.size() - p : bs;
        if (k < bs && (mk == MK_ECB || mk == MK_CBC))
        {
            out.resize(p);
            break;
        }
        switch (mk)
        {
            case MK_ECB:
                if (enc) c.enc(&out[p], &in[p]);
                else c.dec(&out[p], &in[p]);
                break;
            case MK_CBC:
                if (enc)
                {
                    for (size_t i = 0; i < bs; i++) t[i] = v[i] ^ in[p + i];
                    c.enc(&out[p], t);
                    memcpy(v, &out[p], bs);
                }
                else
                {
                    c.dec(t, &in[p]);
                    for (size_t i = 0; i < bs; i++) out[p + i] = t[i] ^ v[i];
                    memcpy(v, &in[p], bs);
                }
                break;
            case MK_CFB:
                c.enc(t, v);
                for (size_t i = 0; i < k; i++) out[p + i] = in[p + i] ^ t[i];
                if (k == bs) memcpy(v, enc ? &out[p] : &in[p], bs);
                break;
            case MK_OFB:
                c.enc(t, v);
                memcpy(v, t, bs);
                for (size_t i = 0; i < k; i++) out[p + i] = in[p + i] ^ t[i];
                break;
            case MK_CTR:
                c.enc(t, v);
                inc_be(v, 0, bs);
                for (size_t i = 0; i < k; i++) out[p + i] = in[p + i] ^ t[i];
                break;
        }
    }
    return out;
}
void gcm_j0(u8 j0[16], const Cipher& c, const u8* iv, size_t ivl)
{
    u8 h[16], z[16] = {0};
    c.enc(h, z);
    if (ivl == 12)
    {
        memcpy(j0, iv, 12);
        j0[12] = j0[13] = j0[14] = 0, j0[15] = 1;
        return;
    }
    Bytes b(iv, iv + ivl);
    b.resize((ivl + 15) / 16 * 16, 0);
    b.resize(b.size() + 8, 0);
    for (int i = 0; i < 8; i++) b.push_back((u8)((u64)ivl * 8 >> (56 - 8 * i)));
    Bytes y = ghash(h, b.data(), b.size());
    memcpy(j0, y.data(), 16);
}
Gcm gcm(bool enc, const Cipher& c, const u8* iv, size_t ivl, const Bytes& aad, const Bytes& in)
{
    Gcm g;
    u8 h[16], z[16] = {0}, j0[16], ctr[16], t[16];
    c.enc(h, z);
    gcm_j0(j0, c, iv, ivl);
    memcpy(ctr, j0, 16);
    g.out.resize(in.size());
    for (size_t p = 0; p < in.size(); p += 16)
    {
        inc_be(ctr, 12, 16);
        c.enc(t, ctr);
        for (size_t i = 0; i < 16 && p + i < in.size(); i++) g.out[p + i] = in[p + i] ^ t[i];
    }
    const Bytes& ct = enc ? g.out : in;
    Bytes b = aad;
    b.resize((aad.size() + 15) / 16 * 16, 0);
    b.insert(b.end(), ct.begin(), ct.end());
    b.resize((b.size() + 15) / 16 * 16, 0);
    for (int i = 0; i < 8; i++) b.push_back((u8)((u64)aad.size() * 8 >> (56 - 8 * i)));
    for (int i = 0; i < 8; i++) b.push_back((u8)((u64)ct.size() * 8 >> (56 - 8 * i)));
    Bytes y = ghash(h, b.data(), b.size());
    c.enc(t, j0);
    for (int i = 0; i < 16; i++) g.tag[i] = y[i] ^ t[i];
    return g;
}

// ----------------------------------------------------------- 256-bit modular
typedef unsigned __int128 u128;
U256 u256_be(const u8* b)
{
    U256 r;
    for (int i = 0; i < 4; i++)
        for (int k = 0; k < 8; k++) r.v[3 - i] = r.v[3 - i] << 8 | b[8 * i + k];
    return r;
}
U256 u256_hex(const char* s)
{
    Bytes b = unhex(s);
    Bytes f(32 - b.size(), 0);
    f.insert(f.end(), b.begin(), b.end());
    return u256_be(f.data());
}
void u256_out(const U256& a, u8* b)
{
    for (int i = 0; i < 4; i++)
        for (int k = 0; k < 8; k++) b[8 * i + k] = (u8)(a.v[3 - i] >> (56 - 8 * k));
}
int u256_cmp(const U256& a, const U256& b)
{
    for (int i = 3; i >= 0; i--)
        if (a.v[i] != b.v[i]) return a.v[i] < b.v[i] ? -1 : 1;
    return 0;
}
bool u256_zero(const U256& a) { return !(a.v[0] | a.v[1] | a.v[2] | a.v[3]); }
static u64 addc(U256& r, const U256& a, const U256& b)
{
    u128 c = 0;
    for (int i = 0; i < 4; i++)
    {
        c += (u128)a.v[i] + b.v[i];
        r.v[i] = (u64)c;
        c >>= 64;
    }
    return (u64)c;
}
static u64 subb(U256& r, const U256& a, const U256& b)
{
    u64 br = 0;
    for (int i = 0; i < 4; i++)
    {
        u128 d = (u128)a.v[i] - b.v[i] - br;
        r.v[i] = (u64)d;
        br = (u64)(d >> 64) & 1;
    }
    return br;
}
U256 u256_sub(const U256& a, const U256& b)
{
    U256 r;
    subb(r, a, b);
    return r;
}
U256 u256_addw(const U256& a, u64 w)
{
    U256 b, r;
    b.v[0] = w;
    addc(r, a, b);
    return r;
}
U256 u256_subw(const U256& a, u64 w)
{
    U256 b, r;
    b.v[0] = w;
    subb(r, a, b);
    return r;
}
Mod::Mod(const U256& m_) : m(m_)
{
    u64 x = 1;
    for (int i = 0; i < 6; i++) x *= 2 - m.v[0] * x;
    n0 = 0 - x;
    // r1 = 2^256 mod m, r2 = 2^512 mod m by doubling
    U256 t;
    t.v[0] = 1;
    for (int i = 0; i < 512; i++)
    {
        t = add(t, t);
        if (i == 255) r1 = t;
    }
    r2 = t;
}
U256 Mod::red(const U256& a) const
{
    U256 r = a;
    while (u256_cmp(r, m) >= 0) subb(r, r, m);
    return r;
}
U256 Mod::red_bytes(const u8* p, size_t n) const
{
    U256 r;
    for (size_t i = 0; i < n; i++)
    {
        for (int k = 0; k < 8; k++) r = add(r, r);
        U256 b;
        b.v[0] = p[i];
        r = add(r, b);
    }
    return r;
}
U256 Mod::add(const U256& a, const U256& b) const
{
    U256 r;
    u64 c = addc(r, a, b);
    if (c || u256_cmp(r, m) >= 0) subb(r, r, m);
    return r;
}
U256 Mod::sub(const U256& a, const U256& b) const
{
    U256 r;
    if (subb(r, a, b)) addc(r, r, m);
    return r;
}
U256 Mod::neg(const U256& a) const { return u256_zero(a) ? a : u256_sub(m, a); }
U256 Mod::mm(const U256& a, const U256& b) const
{
    u64 t[6] = {0};
    for (int i = 0; i < 4; i++)
    {
        u128 c = 0;
        for (int j = 0; j < 4; j++)
        {
            c += (u128)a.v[j] * b.v[i] + t[j];
            t[j] = (u64)c;
            c >>= 64;
        }
        c += t[4];
        t[4] = (u64)c;
        t[5] = (u64)(c >> 64);
        u64 q = t[0] * n0;
        c = (u128)q * m.v[0] + t[0];
        c >>= 64;
        for (int j = 1; j < 4; j++)
        {
            c += (u128)q * m.v[j] + t[j];
            t[j - 1] = (u64)c;
            c >>= 64;
        }
        c += t[4];
        t[3] = (u64)c;
        t[4] = t[5] + (u64)(c >> 64);
    }
    U256 r;
    memcpy(r.v, t, 32);
    if (t[4] || u256_cmp(r, m) >= 0) subb(r, r, m);
    return r;
}
U256 Mod::fromM(const U256& a) const
{
    U256 o;
    o.v[0] = 1;
    return mm(a, o);
}

static void mul512(u64 t[8], const U256& a, const U256& b)
{
    memset(t, 0, 64);
    for (int i = 0; i < 4; i++)
    {
        u64 c = 0;
        for (int j = 0; j < 4; j++)
        {
            unsigned __int128 x = (unsigned __int128)a.v[i] * b.v[j] + t[i + j] + c;
            t[i + j] = (u64)x, c = (u64)(x >> 64);
        }
        t[i + 4] = c;
    }
}
U256 u256_tricky(const Mod& M, u64 seed)
{
    Prng r(seed * 0x51ed27 + 77);
    U256 w;
    int  style = (int)r.below(3);
    auto word = [&]() -> u32 {
        static const u32 t[8] = {0, 0xffffffffu, 0xffffffffu, 1, 0xfffffffeu, 0x80000000u, 0x7fffffffu, 0};
        u64 k = r.below(style == 0 ? 8 : 12);
        return k < 8 ? t[k] : (u32)r.next();
    };
    for (int i = 0; i < 4; i++) w.v[i] = (u64)word() | (u64)word() << 32;
    if (style == 2)
    { // a long run of equal bits between random ends
        int lo = (int)r.below(200), hi = lo + 33 + (int)r.below(160);
        bool one = r.chance(2, 3);
        for (int i = 0; i < 4; i++) w.v[i] = r.next();
        for (int i = lo; i < hi && i < 256; i++)
            if (one) w.v[i / 64] |= 1ull << (i % 64);
            else w.v[i / 64] &= ~(1ull << (i % 64));
    }
    int kind = (int)r.below(4);
    if (kind == 0) return M.red(w);
    if (kind == 1) return M.fromM(M.red(w));
    // the first product the library forms - value times R^2, or the square of
    // the Montgomery form - has w in its upper half
    u64 top[8];
    U256 m1 = u256_subw(M.m, 1), x;
    mul512(top, m1, kind == 2 ? M.r2 : m1);
    int bits = 255;
    while (bits > 0 && !(top[4 + bits / 64] >> (bits % 64) & 1)) bits--;
    for (int i = bits; i < 256; i++) w.v[i / 64] &= ~(1ull << (i % 64)); // below the top bit: reachable
    for (int b = 255; b >= 0; b--)
    {
        U256 y = x;
        y.v[b / 64] |= 1ull << (b % 64);
        if (u256_cmp(y, M.m) >= 0) continue;
        u64 t[8];
        mul512(t, y, kind == 2 ? M.r2 : y);
        U256 h;
        for (int i = 0; i < 4; i++) h.v[i] = t[4 + i];
        if (u256_cmp(h, w) <= 0) x = y;
    }
    if (r.chance(1, 4)) x = u256_zero(x) ? x : u256_subw(x, r.below(3) < 2 && x.v[0] > 9 ? r.below(9) : 0);
    return kind == 2 ? x : M.fromM(x);
}
U256 Mod::pow(const U256& a, const U256& e) const
{
    U256 x = toM(a), r = r1;
    for (int i = 255; i >= 0; i--)
    {
        r = mm(r, r);
        if (e.v[i / 64] >> (i % 64) & 1) r = mm(r, x);
    }
    return fromM(r);
}
U256 Mod::inv(const U256& a) const { return pow(a, u256_subw(m, 2)); }
static U256 shr(const U256& a, int n)
{
    U256 r;
    for (int i = 0; i < 4; i++) r.v[i] = a.v[i] >> n | (i < 3 ? a.v[i + 1] << (64 - n) : 0);
    return r;
}
bool Mod::sqrt(U256& r, const U256& a) const
{
    U256 x;
    if ((m.v[0] & 3) == 3) x = pow(a, shr(u256_addw(m, 1), 2));
    else
    { // 5 mod 8
        x = pow(a, shr(u256_addw(m, 3), 3));
        if (!(mul(x, x) == a))
        {
            U256 two;
            two.v[0] = 2;
            x = mul(x, pow(two, shr(u256_subw(m, 1), 2)));
        }
    }
    if (!(mul(x, x) == a)) return false;
    r = x;
    return true;
}

// ------------------------------------------------------------------ curves
Curve::Curve(const char* p, const char* n, const char* a_, const char* b_, const char* gx, const char* gy)
    : P(u256_hex(p)), N(u256_hex(n)), a(u256_hex(a_)), b(u256_hex(b_))
{
    G.x = u256_hex(gx), G.y = u256_hex(gy);
}
bool Curve::on(const Pt& p) const
{
    if (p.inf) return true;
    if (u256_cmp(p.x, P.m) >= 0 || u256_cmp(p.y, P.m) >= 0) return false;
    U256 l = P.mul(p.y, p.y), r = P.add(P.mul(P.add(P.mul(p.x, p.x), a), p.x), b);
    return l == r;
}
Pt Curve::neg(const Pt& q) const
{
    Pt r = q;
    if (!q.inf) r.y = P.neg(q.y);
    return r;
}
Pt Curve::add(const Pt& s, const Pt& t) const
{
    if (s.inf) return t;
    if (t.inf) return s;
    U256 lam;
    if (s.x == t.x)
    {
        if (!(s.y == t.y) || u256_zero(s.y))
        {
            Pt r;
            r.inf = true;
            return r;
        }
        U256 x2 = P.mul(s.x, s.x);
        lam = P.mul(P.add(P.add(P.add(x2, x2), x2), a), P.inv(P.add(s.y, s.y)));
    }
    else lam = P.mul(P.sub(t.y, s.y), P.inv(P.sub(t.x, s.x)));
    Pt r;
    r.x = P.sub(P.sub(P.mul(lam, lam), s.x), t.x);
    r.y = P.sub(P.mul(lam, P.sub(s.x, r.x)), s.y);
    return r;
}
struct J
{
    U256 X, Y, Z;
};
Pt Curve::mul(const U256& k, const Pt& p) const
{ // Jacobian double-and-add in Montgomery form; complete by case analysis
    Pt inf;
    inf.inf = true;
    if (p.inf || u256_zero(k)) return inf;
    U256 am = P.toM(a), px = P.toM(p.x), py = P.toM(p.y);
    J q;
    bool qi = true;
    auto dbl = [&] {
        if (qi) return;
        if (u256_zero(q.Y))
        {
            qi = true;
            return;
        }
        U256 yy = P.mm(q.Y, q.Y), s = P.mm(q.X, yy), zz = P.mm(q.Z, q.Z);
        s = P.add(s, s), s = P.add(s, s);
        U256 xx = P.mm(q.X, q.X), m = P.add(P.add(P.add(xx, xx), xx), P.mm(am, P.mm(zz, zz)));
        U256 x3 = P.sub(P.mm(m, m), P.add(s, s));
        U256 y4 = P.mm(yy, yy);
        y4 = P.add(y4, y4), y4 = P.add(y4, y4), y4 = P.add(y4, y4);
        U256 z3 = P.mm(q.Y, q.Z);
        q.Z = P.add(z3, z3);
        q.Y = P.sub(P.mm(m, P.sub(s, x3)), y4);
        q.X = x3;
    };
    for (int i = 255; i >= 0; i--)
    {
        dbl();
        if (!(k.v[i / 64] >> (i % 64) & 1)) continue;
        if (qi)
        {
            q.X = px, q.Y = py, q.Z = P.r1, qi = false;
            continue;
        }
        U256 zz = P.mm(q.Z, q.Z), u2 = P.mm(px, zz), s2 = P.mm(py, P.mm(zz, q.Z));
        U256 h = P.sub(u2, q.X), r = P.sub(s2, q.Y);
        if (u256_zero(h))
        {
            if (u256_zero(r)) dbl();
            else qi = true;
            continue;
        }
        U256 hh = P.mm(h, h), hhh = P.mm(hh, h), v = P.mm(q.X, hh);
        U256 x3 = P.sub(P.sub(P.mm(r, r), hhh), P.add(v, v));
        q.Y = P.sub(P.mm(r, P.sub(v, x3)), P.mm(q.Y, hhh));
        q.X = x3;
        q.Z = P.mm(q.Z, h);
    }
    if (qi) return inf;
    U256 zi = P.toM(P.inv(P.fromM(q.Z))), zi2 = P.mm(zi, zi);
    Pt r;
    r.x = P.fromM(P.mm(q.X, zi2));
    r.y = P.fromM(P.mm(q.Y, P.mm(zi2, zi)));
    return r;
}
bool Curve::lift(Pt& r, const U256& x, int parity) const
{
    if (u256_cmp(x, P.m) >= 0) return false;
    U256 rhs = P.add(P.mul(P.add(P.mul(x, x), a), x), b), y;
    if (!P.sqrt(y, rhs)) return false;
    if ((int)(y.v[0] & 1) != parity)
    {
        if (u256_zero(y)) return false;
        y = P.neg(y);
    }
    r.x = x, r.y = y, r.inf = false;
    return true;
}
int Curve::decode(Pt& r, size_t& used, const u8* in, size_t n) const
{
    if (n == 0) return -1;
    if (in[0] == 2 || in[0] == 3)
    {
        if (n < 33) return -1;
        used = 33;
        return lift(r, u256_be(in + 1), in[0] & 1) ? 0 : -1;
    }
    if (in[0] == 4 || in[0] == 6 || in[0] == 7)
    {
        if (n < 65) return -1;
        used = 65;
        r.x = u256_be(in + 1), r.y = u256_be(in + 33), r.inf = false;
        if (!on(r)) return -1;
        if (in[0] != 4 && (r.y.v[0] & 1) != (in[0] & 1)) return -1;
        return 0;
    }
    return -1;
}
Bytes Curve::encode(const Pt& p, int pc) const
{
    Bytes o(pc == 1 ? 33 : 65);
    u8 par = (u8)(p.y.v[0] & 1);
    o[0] = pc == 0 ? 4 : pc == 1 ? 2 + par : 6 + par;
    u256_out(p.x, &o[1]);
    if (pc != 1) u256_out(p.y, &o[33]);
    return o;
}
const Curve& sm2()
{
    static const Curve c("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFF", "FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFF7203DF6B21C6052B53BBF40939D54123",
                         "FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFC", "28E9FA9E9D9F5E344D5A9E4BCF6509A7F39789F515AB8F92DDBCBD414D940E93",
                         "32C4AE2C1F1981195F9904466A39C9948FE30BBFF2660BE1715A4589334C74C7", "BC3736A2F4F6779C59BDCEE36B692153D0A9877CC62A474002DF32E52139F0A0");
    return c;
}
const Curve& sm9g1()
{
    static const Curve c("B640000002A3A6F1D603AB4FF58EC74521F2934B1A7AEEDBE56F9B27E351457D", "B640000002A3A6F1D603AB4FF58EC74449F2934B18EA8BEEE56EE19CD69ECF25", "00", "05",
                         "93DE051D62BF718FF5ED0704487D01D6E1E4086909DC3280E8C4E4817C66DDDD", "21FE8DDA4F21E607631065125C395BBC1C1C00CBFA6024350C464CD70A3EA616");
    return c;
}

// --------------------------------------------------------------------- SM2
const char SM2_DEFAULT_ID[] = "1234567812345678";
Bytes sm2_z(const HashFn& h, const Bytes& id, const Pt& pub)
{
    const Curve& C = sm2();
    Bytes b;
    b.push_back((u8)(id.size() * 8 >> 8)), b.push_back((u8)(id.size() * 8));
    b.insert(b.end(), id.begin(), id.end());
    U256 f[6] = {C.a, C.b, C.G.x, C.G.y, pub.x, pub.y};
    for (auto& x : f)
    {
        u8 t[32];
        u256_out(x, t);
        b.insert(b.end(), t, t + 32);
    }
    return h(b.data(), b.size());
}
Bytes sm2_kdf(const HashFn& h, size_t ds, const Bytes& z, size_t n)
{
    Bytes o;
    u32 ct = 1;
    while (o.size() < n)
    {
        Bytes b = z;
        for (int i = 0; i < 4; i++) b.push_back((u8)(ct >> (24 - 8 * i)));
        Bytes d = h(b.data(), b.size());
        o.insert(o.end(), d.begin(), d.begin() + ds);
        ct++;
    }
    o.resize(n);
    return o;
}
bool sm2_verify(const HashFn& h, size_t ds, const Pt& pub, const u8* sig, const Bytes& msg, const Bytes& id)
{
    const Curve& C = sm2();
    if (id.size() * 8 > 65535) return false;
    U256 r = u256_be(sig), s = u256_be(sig + 32);
    if (u256_zero(r) || u256_zero(s) || u256_cmp(r, C.N.m) >= 0 || u256_cmp(s, C.N.m) >= 0) return false;
    Bytes b = sm2_z(h, id, pub);
    b.insert(b.end(), msg.begin(), msg.end());
    Bytes e = h(b.data(), b.size());
    U256 t = C.N.add(r, s);
    if (u256_zero(t)) return false;
    Pt q = C.add(C.mul(s, C.G), C.mul(t, pub));
    if (q.inf) return false;
    U256 R = C.N.add(C.N.red_bytes(e.data(), ds), C.N.red(q.x));
    return R == r;
}
U256 sm2_map_k(const u8* b)
{
    U256 k = u256_be(b), n1 = u256_subw(sm2().N.m, 1);
    while (u256_cmp(k, n1) >= 0) k = u256_sub(k, n1);
    return u256_addw(k, 1);
}
bool sm2_sign_k(u8* sig, const HashFn&, const U256& d, const U256& k, const Bytes& e)
{
    const Curve& C = sm2();
    Pt q = C.mul(k, C.G);
    U256 r = C.N.add(C.N.red_bytes(e.data(), e.size()), C.N.red(q.x));
    if (u256_zero(r) || u256_zero(C.N.add(r, k))) return false;
    U256 s = C.N.mul(C.N.inv(C.N.add(d, u256_addw(U256(), 1))), C.N.sub(k, C.N.mul(r, d)));
    if (u256_zero(s)) return false;
    u256_out(r, sig), u256_out(s, sig + 32);
    return true;
}

// --------------------------------------------------------------------- SM9
static const Mod& F9() { return sm9g1().P; }
static Fp2 f2add(const Fp2& a, const Fp2& b) { return {F9().add(a.c0, b.c0), F9().add(a.c1, b.c1)}; }
static Fp2 f2sub(const Fp2& a, const Fp2& b) { return {F9().sub(a.c0, b.c0), F9().sub(a.c1, b.c1)}; }
static Fp2 f2mul(const Fp2& a, const Fp2& b)
{
    const Mod& M = F9();
    U256 x = M.mul(a.c0, b.c0), y = M.mul(a.c1, b.c1), z = M.add(M.mul(a.c0, b.c1), M.mul(a.c1, b.c0));
    return {M.sub(x, M.add(y, y)), z};
}
static Fp2 f2inv(const Fp2& a)
{
    const Mod& M = F9();
    U256 y = M.mul(a.c1, a.c1), d = M.inv(M.add(M.mul(a.c0, a.c0), M.add(y, y)));
    return {M.mul(a.c0, d), M.neg(M.mul(a.c1, d))};
}
static bool f2eq(const Fp2& a, const Fp2& b) { return a.c0 == b.c0 && a.c1 == b.c1; }
static bool f2zero(const Fp2& a) { return u256_zero(a.c0) && u256_zero(a.c1); }
const Pt2& sm9_P2()
{
    static const Pt2 p = {{u256_hex("3722755292130B08D2AAB97FD34EC120EE265948D19C17ABF9B7213BAF82D65B"), u256_hex("85AEF3D078640C98597B6027B441A01FF1DD2C190F5E93C454806C11D8806141")},
                          {u256_hex("A7CF28D519BE3DA65F3170153D278FF247EFBA98A71A08116215BBA5C999A7C7"), u256_hex("17509B092E845C1266BA0D262CBEE6ED0736A96FA347C8BD856DC76B84EBEB96")},
                          false};
    return p;
}
bool sm9_on2(const Pt2& p)
{
    if (p.inf) return true;
    U256 five;
    five.v[0] = 5;
    Fp2 b = {U256(), five};
    return f2eq(f2mul(p.y, p.y), f2add(f2mul(f2mul(p.x, p.x), p.x), b));
}
Pt2 sm9_add2(const Pt2& s, const Pt2& t)
{
    if (s.inf) return t;
    if (t.inf) return s;
    Fp2 lam;
    if (f2eq(s.x, t.x))
    {
        if (!f2eq(s.y, t.y) || f2zero(s.y))
        {
            Pt2 r;
            r.inf = true;
            return r;
        }
        Fp2 x2 = f2mul(s.x, s.x);
        lam = f2mul(f2add(f2add(x2, x2), x2), f2inv(f2add(s.y, s.y)));
    }
    else lam = f2mul(f2sub(t.y, s.y), f2inv(f2sub(t.x, s.x)));
    Pt2 r;
    r.x = f2sub(f2sub(f2mul(lam, lam), s.x), t.x);
    r.y = f2sub(f2mul(lam, f2sub(s.x, r.x)), s.y);
    r.inf = false;
    return r;
}
Pt2 sm9_mul2(const U256& k, const Pt2& p)
{
    // Jacobian over Fp2
    Pt2 inf;
    inf.inf = true;
    if (p.inf || u256_zero(k)) return inf;
    Fp2 X, Y, Z;
    bool qi = true;
    auto dbl = [&] {
        if (qi) return;
        Fp2 yy = f2mul(Y, Y), s = f2mul(X, yy);
        s = f2add(s, s), s = f2add(s, s);
        Fp2 xx = f2mul(X, X), m = f2add(f2add(xx, xx), xx);
        Fp2 x3 = f2sub(f2mul(m, m), f2add(s, s)), y4 = f2mul(yy, yy);
        y4 = f2add(y4, y4), y4 = f2add(y4, y4), y4 = f2add(y4, y4);
        Fp2 z3 = f2mul(Y, Z);
        Z = f2add(z3, z3);
        Y = f2sub(f2mul(m, f2sub(s, x3)), y4);
        X = x3;
    };
    U256 one;
    one.v[0] = 1;
    for (int i = 255; i >= 0; i--)
    {
        dbl();
        if (!(k.v[i / 64] >> (i % 64) & 1)) continue;
        if (qi)
        {
            X = p.x, Y = p.y, Z = {one, U256()}, qi = false;
            continue;
        }
        Fp2 zz = f2mul(Z, Z), h = f2sub(f2mul(p.x, zz), X), r = f2sub(f2mul(p.y, f2mul(zz, Z)), Y);
        if (f2zero(h))
        {
            if (f2zero(r)) dbl();
            else qi = true;
            continue;
        }
        Fp2 hh = f2mul(h, h), hhh = f2mul(hh, h), v = f2mul(X, hh);
        Fp2 x3 = f2sub(f2sub(f2mul(r, r), hhh), f2add(v, v));
        Y = f2sub(f2mul(r, f2sub(v, x3)), f2mul(Y, hhh));
        X = x3;
        Z = f2mul(Z, h);
    }
    if (qi) return inf;
    Fp2 zi = f2inv(Z), zi2 = f2mul(zi, zi);
    Pt2 r;
    r.x = f2mul(X, zi2), r.y = f2mul(Y, f2mul(zi2, zi)), r.inf = false;
    return r;
}
Bytes sm9_ser2(const Fp2& a)
{
    Bytes o(64);
    u256_out(a.c1, &o[0]), u256_out(a.c0, &o[32]);
    return o;
}
static const char* G12[12] = {
    "36a699de7c136f78eee2dbac4ca9727bff0cee02ee920f5822e65ea170aa9669", "6fa6b6fa6dd6b6d3b19a959a110e748154eef796dc0fc2dd766ea414de786968",
    "79d0c8337072c93fef482bb055f44d6247ccac8e8e12525854b3566236337ebe", "1664a1366beb3196f0443e15f5f9042a947354a5678430d45ba031cff06db927",
    "3fa7ed741eaed99a58f53e3df82df7ccd3407bcc7b1d44a9441920ced5fb824f", "0167b0280051495c6af1ec23ba2cd2ff1cdcdeca461a5ab0b5449e9091308310",
    "7f7c6d52b475e6aaa827fdc5b4175ac6929320f782d998f86b6b57cda42a0426", "7fc6eb2aa771d99c9234fddd31752edfd60723e05a4ebfdeb5c33fbd47e0cf06",
    "5e7addaddf7fbfe16291b4e89af50b8217ddc47ba3cba833c6e77c3fb027685e", "8ffe1c0e9de45fd0fed790ac26be91f6b3f0a49c084fe29a3fb6ed288ad7994d",
    "082cde173022da8cd09b28a2d80a8cee53894436a52007f978dc37f36116d39b", "256943fbdb2bf87ab91ae7fbeaff14e146cf7e2279b9d155d13461e09b22f523"};
static Fp12 f12mul(const Fp12& a, const Fp12& b)
{
    const Mod& M = F9();
    U256 t[23];
    for (int i = 0; i < 12; i++)
        for (int j = 0; j < 12; j++) t[i + j] = M.add(t[i + j], M.mm(a.c[i], b.c[j]));
    Fp12 r;
    for (int i = 0; i < 12; i++)
    {
        r.c[i] = t[i];
        if (i < 11) r.c[i] = M.sub(r.c[i], M.add(t[i + 12], t[i + 12]));
    }
    return r;
}
Fp12 sm9_gpow(const U256& e)
{
    // fixed-base: table of g^(2^i), built once
    static std::vector<Fp12> tab;
    if (tab.empty())
    {
        Fp12 g;
        for (int i = 0; i < 12; i++) g.c[i] = F9().toM(u256_hex(G12[i]));
        for (int i = 0; i < 256; i++)
        {
            tab.push_back(g);
            g = f12mul(g, g);
        }
    }
    Fp12 r;
    r.c[0] = F9().r1;
    for (int i = 0; i < 256; i++)
        if (e.v[i / 64] >> (i % 64) & 1) r = f12mul(r, tab[i]);
    return r;
}
Bytes sm9_ser12(const Fp12& a)
{
    Bytes o(384);
    size_t p = 0;
    for (int i = 2; i >= 0; i--)
        for (int j = 1; j >= 0; j--)
            for (int k = 1; k >= 0; k--, p += 32) u256_out(F9().fromM(a.c[i + 3 * j + 6 * k]), &o[p]);
    return o;
}
U256 sm9_h(const HashFn& h, size_t ds, int tag, const Bytes& z)
{
    Bytes ha;
    for (u32 ct = 1; ha.size() < 40; ct++)
    {
        Bytes b;
        b.push_back((u8)tag);
        b.insert(b.end(), z.begin(), z.end());
        for (int i = 0; i < 4; i++) b.push_back((u8)(ct >> (24 - 8 * i)));
        Bytes d = h(b.data(), b.size());
        ha.insert(ha.end(), d.begin(), d.begin() + ds);
    }
    // (Ha mod (N-1)) + 1 with plain shift-subtract (N-1 is even)
    U256 n1 = u256_subw(sm9g1().N.m, 1), r;
    for (size_t i = 0; i < 40; i++)
        for (int b = 7; b >= 0; b--)
        {
            u64 top = r.v[3] >> 63;
            for (int k = 3; k > 0; k--) r.v[k] = r.v[k] << 1 | r.v[k - 1] >> 63;
            r.v[0] = r.v[0] << 1 | (ha[i] >> b & 1);
            if (top || u256_cmp(r, n1) >= 0) r = u256_sub(r, n1);
        }
    return u256_addw(r, 1);
}
} // namespace ref
