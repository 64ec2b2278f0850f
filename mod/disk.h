#pragma once
#include "util.h"
// Simulated storage faults on a stored byte string.
enum { DF_TRUNC = 0, DF_FLIP, DF_BYTE, DF_ZERO, DF_STALE, DF_DROP, DF_DUP, DF_SWAP, DF_EXTEND, DF_SETLEN, DF_KINDS };
static inline const char* disk_fault_name(int k)
{
    static const char* n[] = {"torn-write", "bit-flip", "byte-corruption", "lost-sector", "stale-sector", "lost-bytes", "duplicated-bytes", "swapped-sectors", "trailing-garbage", "length-byte-corruption"};
    return n[k % DF_KINDS];
}
static inline void disk_fault(Bytes& d, int kind, u64 a, u64 b)
{
    size_t n = d.size();
    if (!n && kind != DF_EXTEND) return;
    size_t p = n ? a % n : 0;
    switch (kind % DF_KINDS)
    {
        case DF_TRUNC: d.resize(a % (n + 1)); break;
        case DF_FLIP: d[p] ^= (u8)(1u << (b % 8)); break;
        case DF_BYTE: d[p] = (u8)b; break;
        case DF_ZERO:
            for (size_t i = p; i < n && i < p + 1 + b % 32; i++) d[i] = 0;
            break;
        case DF_STALE:
        {
            Bytes s = sim_data(b, 64);
            for (size_t i = p; i < n && i < p + 1 + b % 24; i++) d[i] = s[i - p];
            break;
        }
        case DF_DROP: d.erase(d.begin() + p, d.begin() + std::min(n, p + 1 + (size_t)(b % 4))); break;
        case DF_DUP:
        {
            Bytes t(d.begin() + p, d.begin() + std::min(n, p + 1 + (size_t)(b % 5)));
            d.insert(d.begin() + p, t.begin(), t.end());
            break;
        }
        case DF_SWAP:
        {
            size_t w = 1 + b % 16, q = (b / 16) % n;
            for (size_t i = 0; i < w && p + i < n && q + i < n; i++) std::swap(d[p + i], d[q + i]);
            break;
        }
        case DF_EXTEND:
        {
            Bytes t = sim_data(b, 1 + a % 40);
            d.insert(d.end(), t.begin(), t.end());
            break;
        }
        case DF_SETLEN:
        { // aim at bytes that look like length octets: replace them by hostile ones
            static const u8 bad[] = {0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x87, 0x88, 0x89, 0xff, 0xfe, 0x00, 0x01, 0x7f, 0x20, 0x21};
            d[std::min(n - 1, (size_t)(a % 4) + (a % 7 == 0 ? p : 0))] = bad[b % sizeof bad];
            break;
        }
    }
}
