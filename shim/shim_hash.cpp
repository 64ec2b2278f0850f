#include "shim_common.h"
#include <gmlib/ghash/ghash.h>
#include <gmlib/hash_lib/hash.h>
#include <gmlib/hash_lib/hmac.h>
#include <gmlib/sm3/sm3.h>

namespace {
int (*g_hook)(void*, int) = nullptr;
void* g_hctx = nullptr;
inline void fault(int site)
{
    if (g_hook && g_hook(g_hctx, site)) throw SimFault{site};
}

template <size_t BS, size_t DS>
class ToyHash : public hash_lib::Hash<BS>
{
public:
    static constexpr std::size_t BLOCK_SIZE  = BS;
    static constexpr std::size_t DIGEST_SIZE = DS;
    ToyState st;
    ToyHash() { st.init(); }
    void reset()
    {
        this->hash_lib::Hash<BS>::reset();
        st.init();
    }
    const char* name() const noexcept override { return "Toy"; }

private:
    void update_blocks(const std::uint8_t* in, std::size_t n) override
    {
        fault(1);
        for (size_t i = 0; i < n; i++) st.block(in + i * BS, BS);
    }
    void final_block(std::uint8_t* d, const std::uint8_t* in, std::size_t n) override
    {
        fault(2);
        st.fin(d, DS, in, n);
    }
};

class Tally : public hash_lib::Hash<64>
{
public:
    static constexpr std::size_t BLOCK_SIZE  = 64;
    static constexpr std::size_t DIGEST_SIZE = 32;
    TallyState st;
    Tally() { st.init(); }
    void reset()
    {
        this->hash_lib::Hash<64>::reset();
        st.init();
    }
    const char* name() const noexcept override { return "Tally"; }

private:
    void update_blocks(const std::uint8_t* in, std::size_t n) override { st.add(in, n); }
    void final_block(std::uint8_t* d, const std::uint8_t* in, std::size_t n) override { st.fin(d, in, n); }
};

template <class H, bool HASRESET, bool HASKEY>
struct W : IHash
{
    Box<H> b;
    size_t digest_size() const override { return H::DIGEST_SIZE; }
    size_t block_size() const override
    {
        if constexpr (HASRESET) return H::BLOCK_SIZE;
        else return 0;
    }
    int reset() override
    {
        if constexpr (HASRESET) return guarded([&] { b.p->reset(); });
        else return RC_OTHER;
    }
    int set_key(const uint8_t* k, size_t n) override
    {
        if constexpr (std::is_same<H, ghash::GHash>::value) return guarded([&] { b.p->set_key(k); });
        else if constexpr (HASKEY) return guarded([&] { b.p->set_key(k, n); });
        else return RC_OTHER;
    }
    int update(const uint8_t* in, size_t n) override
    {
        return guarded([&] { b.p->update(in, n); });
    }
    int final(uint8_t* d, const uint8_t* in, size_t n, int wa) override
    {
        if (wa) return guarded([&] { b.p->do_final(d, in, n); });
        return guarded([&] { b.p->do_final(d); });
    }
    IHash* clone() const override
    {
        W* w = new W;
        w->b.copy(b);
        return w;
    }
    void assign(const IHash* o) override { b.assign(((const W*)o)->b); }
};
template <class H, bool R, bool K>
IHash* mk(int with_key, const uint8_t* key, size_t kl, uint32_t fill)
{
    auto* w = new W<H, R, K>;
    int rc = RC_OK;
    if constexpr (std::is_same<H, ghash::GHash>::value)
    {
        if (with_key) rc = guarded([&] { w->b.make(fill, key); });
        else w->b.make_default(fill);
    }
    else if constexpr (K)
    {
        if (with_key) rc = guarded([&] { w->b.make(fill, key, kl); });
        else w->b.make_default(fill);
    }
    else w->b.make_default(fill);
    if (rc)
    {
        delete w;
        return nullptr;
    }
    return w;
}
IHash* make(int kind, int wk, const uint8_t* key, size_t kl, uint32_t fill)
{
    using namespace hash_lib;
    switch (kind)
    {
        case HK_SM3: return mk<sm3::SM3, true, false>(wk, key, kl, fill);
        case HK_GHASH: return mk<ghash::GHash, true, true>(wk, key, kl, fill);
        case HK_HMAC_SM3: return mk<HMac<sm3::SM3>, false, true>(wk, key, kl, fill);
        case HK_TOY_8_8: return mk<ToyHash<8, 8>, true, false>(wk, key, kl, fill);
        case HK_TOY_16_32: return mk<ToyHash<16, 32>, true, false>(wk, key, kl, fill);
        case HK_TOY_48_20: return mk<ToyHash<48, 20>, true, false>(wk, key, kl, fill);
        case HK_TOY_64_32: return mk<ToyHash<64, 32>, true, false>(wk, key, kl, fill);
        case HK_TOY_128_64: return mk<ToyHash<128, 64>, true, false>(wk, key, kl, fill);
        case HK_TOY_136_33: return mk<ToyHash<136, 33>, true, false>(wk, key, kl, fill);
        case HK_HMAC_TOY_16_32: return mk<HMac<ToyHash<16, 32>>, false, true>(wk, key, kl, fill);
        case HK_HMAC_TOY_48_20: return mk<HMac<ToyHash<48, 20>>, false, true>(wk, key, kl, fill);
        case HK_HMAC_TOY_64_32: return mk<HMac<ToyHash<64, 32>>, false, true>(wk, key, kl, fill);
        case HK_HMAC_TOY_128_64: return mk<HMac<ToyHash<128, 64>>, false, true>(wk, key, kl, fill);
        case HK_TALLY: return mk<Tally, true, false>(wk, key, kl, fill);
        case HK_HMAC_TALLY: return mk<HMac<Tally>, false, true>(wk, key, kl, fill);
    }
    return nullptr;
}
void set_hook(int (*fn)(void*, int), void* c) { g_hook = fn, g_hctx = c; }
const HashApi api = {make, set_hook};
} // namespace
GM_EXPORT const HashApi* gm_api_hash() { return &api; }
