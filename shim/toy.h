// Simulated primitives shared by the shims (plugged into the library's
// templates) and by the reference models.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>

static inline uint64_t toy_mix(uint64_t x)
{
    x ^= x >> 31;
    x *= 0x7fb5d329728ea185ull;
    x ^= x >> 27;
    x *= 0x81dadef4bc2dd44dull;
    x ^= x >> 33;
    return x;
}
struct ToyState
{
    uint64_t v[8];
    uint64_t n;
    void init()
    {
        for (int i = 0; i < 8; i++) v[i] = 0x0123456789abcdefull * (2 * i + 1);
        n = 0;
    }
    void block(const uint8_t* p, size_t bs)
    {
        if (n >= 1u << 20)
        { // very long streams: the rest is only counted
            n++;
            return;
        }
        uint64_t a = 0x51ed270b0ull + n;
        for (size_t i = 0; i < bs; i++) a = (a ^ p[i]) * 0x100000001b3ull + (a >> 47);
        v[n % 8] ^= toy_mix(a);
        for (int i = 0; i < 8; i++) v[i] = toy_mix(v[i] + v[(i + 1) & 7] * 3 + a);
        n++;
    }
    void fin(uint8_t* out, size_t ds, const uint8_t* p, size_t n_)
    {
        ToyState t = *this;
        uint64_t a = 0xfeed + n_ * 7919 + n * 104729;
        for (size_t i = 0; i < n_; i++) a = (a ^ p[i]) * 0x100000001b3ull + (a >> 47);
        for (int r = 0; r < 2; r++)
            for (int i = 0; i < 8; i++) t.v[i] = toy_mix(t.v[i] + t.v[(i + 3) & 7] * 5 + a + r);
        for (size_t i = 0; i < ds; i++) out[i] = (uint8_t)(toy_mix(t.v[(i / 8) & 7] + i / 64) >> (8 * (i % 8)));
    }
};
static inline void toy_hash(uint8_t* out, size_t bs, size_t ds, const uint8_t* p, size_t n)
{
    ToyState s;
    s.init();
    while (n >= bs) s.block(p, bs), p += bs, n -= bs;
    s.fin(out, ds, p, n);
}

// hash that counts whole blocks and reads only the first one
struct TallyState
{
    uint64_t first, blocks;
    void init() { first = 0x1f2e3d4c5b6a7988ull, blocks = 0; }
    void add(const uint8_t* p, uint64_t n)
    {
        if (blocks == 0 && n)
            for (int i = 0; i < 64; i++) first = (first ^ p[i]) * 0x100000001b3ull + (first >> 47);
        blocks += n;
    }
    void fin(uint8_t* out, const uint8_t* p, size_t n) const
    {
        uint64_t a = toy_mix(blocks + 0x1234567) + n * 7919 + toy_mix(first);
        for (size_t i = 0; i < n; i++) a = (a ^ p[i]) * 0x100000001b3ull + (a >> 47);
        for (size_t i = 0; i < 32; i++) out[i] = (uint8_t)(toy_mix(a + i / 8) >> (8 * (i % 8)));
    }
};

// toy invertible block cipher, key 16 bytes
static inline void toy_enc(uint8_t* o, const uint8_t* in, const uint8_t* k, size_t bs)
{
    uint8_t x[64];
    memcpy(x, in, bs);
    for (int r = 0; r < 3; r++)
        for (size_t i = 0; i < bs; i++)
        {
            uint8_t t = (uint8_t)(k[(i + r) & 15] + x[(i + bs - 1) % bs] * 5 + 0x3b * (r + 1) + x[(i + 1) % bs]);
            uint8_t y = x[i] ^ t;
            x[i] = (uint8_t)((y << 3 | y >> 5) + k[(i * 7 + r) & 15]);
        }
    memcpy(o, x, bs);
}
static inline void toy_dec(uint8_t* o, const uint8_t* in, const uint8_t* k, size_t bs)
{
    uint8_t x[64];
    memcpy(x, in, bs);
    for (int r = 2; r >= 0; r--)
        for (size_t i = bs; i-- > 0;)
        {
            uint8_t y = (uint8_t)(x[i] - k[(i * 7 + r) & 15]);
            y = (uint8_t)(y >> 3 | y << 5);
            uint8_t t = (uint8_t)(k[(i + r) & 15] + x[(i + bs - 1) % bs] * 5 + 0x3b * (r + 1) + x[(i + 1) % bs]);
            x[i] = y ^ t;
        }
    memcpy(o, x, bs);
}
