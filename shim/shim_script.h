#pragma once
#include "shim_common.h"
#include <gmlib/hash_lib/hash.h>
// Scripted hash: a toy hash whose digests the simulator may replace, keyed by
// the digest itself (i.e. by the exact message), never by call order.
extern void (*g_digest_hook)(void*, size_t, uint8_t*);
extern void* g_digest_hctx;
template <size_t DS>
class ScriptHash : public hash_lib::Hash<64>
{
public:
    static constexpr std::size_t BLOCK_SIZE  = 64;
    static constexpr std::size_t DIGEST_SIZE = DS;
    ToyState st;
    ScriptHash() { st.init(); }
    void reset()
    {
        this->hash_lib::Hash<64>::reset();
        st.init();
    }
    const char* name() const noexcept override { return "Script"; }

private:
    void update_blocks(const std::uint8_t* in, std::size_t n) override
    {
        for (size_t i = 0; i < n; i++) st.block(in + i * 64, 64);
    }
    void final_block(std::uint8_t* d, const std::uint8_t* in, std::size_t n) override
    {
        st.fin(d, DS, in, n);
        if (g_digest_hook) g_digest_hook(g_digest_hctx, DS, d);
    }
};
