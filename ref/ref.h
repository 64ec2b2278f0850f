// Executable reference models, written from the standards and independent of
// gmlib: SM3, HMAC, GHASH, SM4, AES, modes, GCM, SM2, SM9, DER.
#pragma once
#include "../sim/core.h"
#include <functional>

namespace ref {

// ---- hashes
typedef std::function<Bytes(const u8*, size_t)> HashFn;
struct Sm3
{
    u32 v[8];
    u64 n;
    u8  b[64];
    Sm3();
    void  update(const u8* p, size_t l);
    Bytes digest() const;
};
Bytes sm3(const u8* p, size_t n);
Bytes hmac(const HashFn& h, size_t bs, size_t ds, const Bytes& key, const Bytes& msg);
void  ghash_zeros(u8 y[16], const u8 h[16], u64 blocks); // y = y*h^blocks: that many blocks of zeros
void  ghash_mul(u8 x[16], const u8 h[16]); // x = x*h
Bytes ghash(const u8 h[16], const u8* p, size_t n); // zero-padded last block, no length block

// ---- block ciphers: fn(out, in)
struct Cipher
{
    size_t bs;
    std::function<void(u8*, const u8*)> enc, dec;
};
Cipher cipher(int kind /*CipherKind*/, const u8* key);
size_t cipher_keylen(int kind);
size_t cipher_bs(int kind);
void   sm4_selftest_block(u8* out, const u8* in, const u8* key);

// one-shot mode of operation over whole message; for ECB/CBC only whole blocks
Bytes mode(int mk, bool enc, const Cipher& c, const u8* iv, const Bytes& in);
struct Gcm
{
    Bytes out;
    u8    tag[16];
};
Gcm gcm(bool enc, const Cipher& c, const u8* iv, size_t ivl, const Bytes& aad, const Bytes& in);
void gcm_j0(u8 j0[16], const Cipher& c, const u8* iv, size_t ivl);

// ---- 256-bit modular arithmetic
struct U256
{
    u64 v[4] = {0, 0, 0, 0}; // little endian limbs
};
U256 u256_be(const u8* b);
U256 u256_hex(const char* s);
void u256_out(const U256& a, u8* b);
int  u256_cmp(const U256& a, const U256& b);
bool u256_zero(const U256& a);
U256 u256_addw(const U256& a, u64 w); // mod 2^256
U256 u256_subw(const U256& a, u64 w);
U256 u256_sub(const U256& a, const U256& b);
static inline bool operator==(const U256& a, const U256& b) { return u256_cmp(a, b) == 0; }

struct Mod
{
    U256 m, r1, r2;
    u64  n0;
    explicit Mod(const U256& m_);
    U256 red(const U256& a) const;             // a mod m (any a)
    U256 red_bytes(const u8* p, size_t n) const; // big-endian bytes mod m
    U256 add(const U256& a, const U256& b) const;
    U256 sub(const U256& a, const U256& b) const;
    U256 neg(const U256& a) const;
    U256 mm(const U256& a, const U256& b) const; // montgomery product
    U256 mul(const U256& a, const U256& b) const { return mm(mm(a, b), r2); }
    U256 pow(const U256& a, const U256& e) const;
    U256 inv(const U256& a) const;
    bool sqrt(U256& r, const U256& a) const; // m = 3 mod 4 or 5 mod 8
    U256 toM(const U256& a) const { return mm(a, r2); }
    U256 fromM(const U256& a) const;
};

// a value in [0, m) whose words, Montgomery form or first products are full of
// 0, 1, 2^31 and all-one words, so that carries ripple through many words
U256 u256_tricky(const Mod& M, u64 seed);

struct Pt
{
    U256 x, y;
    bool inf = false;
};
struct Curve
{
    Mod  P, N;
    U256 a, b;
    Pt   G;
    Curve(const char* p, const char* n, const char* a, const char* b, const char* gx, const char* gy);
    bool on(const Pt& p) const;
    Pt   add(const Pt& a, const Pt& b) const;
    Pt   neg(const Pt& a) const;
    Pt   mul(const U256& k, const Pt& p) const;
    bool lift(Pt& r, const U256& x, int parity) const; // point with this x
    // decode 02/03/04/06/07: 0 ok; used = consumed bytes
    int decode(Pt& r, size_t& used, const u8* in, size_t n) const;
    Bytes encode(const Pt& p, int pc) const; // 0 uncompressed 1 compressed 2 mix
};
const Curve& sm2();
const Curve& sm9g1();

Bytes sm2_z(const HashFn& h, const Bytes& id, const Pt& pub);
extern const char SM2_DEFAULT_ID[];
Bytes sm2_kdf(const HashFn& h, size_t ds, const Bytes& z, size_t n);
// standard verification, r and s as 32-byte big endian
bool sm2_verify(const HashFn& h, size_t ds, const Pt& pub, const u8* sig, const Bytes& msg, const Bytes& id);
// one signing attempt with nonce k: false when the standard requires a retry
bool sm2_sign_k(u8* sig, const HashFn& h, const U256& d, const U256& k, const Bytes& e);
// k in [1,n-1] from 32 random bytes is implementation-chosen; these are helpers
U256 sm2_map_k(const u8* b); // b mod (n-1) + 1

// ---- SM9
struct Fp2
{
    U256 c0, c1;
};
struct Pt2
{
    Fp2  x, y;
    bool inf = false;
};
struct Fp12
{
    U256 c[12]; // montgomery form coefficients of w^i
};
const Pt2& sm9_P2();
Pt2  sm9_mul2(const U256& k, const Pt2& p);
Pt2  sm9_add2(const Pt2& a, const Pt2& b);
bool sm9_on2(const Pt2& p);
Bytes sm9_ser2(const Fp2& a); // 64 bytes, u part first
Fp12  sm9_gpow(const U256& e); // e(P1,P2)^e
Bytes sm9_ser12(const Fp12& a);
U256  sm9_h(const HashFn& h, size_t ds, int tag, const Bytes& z); // H1/H2 -> [1,N-1]

} // namespace ref
