#pragma once
#include "shim_common.h"
#include <gmlib/aes/aes_mode.h>
#include <gmlib/sm4/sm4_mode.h>

extern int (*g_mode_hook)(void*, int);
extern void* g_mode_hctx;
namespace {
inline void fault(int site)
{
    if (g_mode_hook && g_mode_hook(g_mode_hctx, site)) throw SimFault{site};
}

template <size_t BS, size_t PN>
class SimCipher : public block_cipher_mode::BlockCipher
{
    uint8_t k_[16];

public:
    static constexpr std::size_t BLOCK_SIZE   = BS;
    static constexpr std::size_t USER_KEY_LEN = 16;
    static constexpr std::size_t PARALLEL_NUM = PN;
    SimCipher() = default;
    void set_key(const std::uint8_t* k, int) override
    {
        fault(10);
        memcpy(k_, k, 16);
    }
    void encrypt_block(std::uint8_t* o, const std::uint8_t* i) const override
    {
        fault(11);
        toy_enc(o, i, k_, BS);
    }
    void decrypt_block(std::uint8_t* o, const std::uint8_t* i) const override
    {
        fault(12);
        toy_dec(o, i, k_, BS);
    }
    void encrypt_blocks(std::uint8_t* o, const std::uint8_t* i, std::size_t n) const override
    {
        fault(13);
        for (size_t b = 0; b < n; b++) toy_enc(o + b * BS, i + b * BS, k_, BS);
    }
    void decrypt_blocks(std::uint8_t* o, const std::uint8_t* i, std::size_t n) const override
    {
        fault(14);
        for (size_t b = 0; b < n; b++) toy_dec(o + b * BS, i + b * BS, k_, BS);
    }
};

template <class M, bool ECB>
struct W : IMode
{
    Box<M> b;
    size_t block_size() const override { return M::BLOCK_SIZE; }
    size_t key_len() const override { return M::USER_KEY_LEN; }
    int init(const uint8_t* k, const uint8_t* iv) override
    {
        if constexpr (ECB) return guarded([&] { b.p->init(k); });
        else return guarded([&] { b.p->init(k, iv); });
    }
    int reset(const uint8_t* iv) override
    {
        if constexpr (ECB) return guarded([&] { b.p->reset(); });
        else return guarded([&] { b.p->reset(iv); });
    }
    int update(uint8_t* o, size_t* ol, const uint8_t* i, size_t il) override
    {
        return guarded([&] { b.p->update(o, ol, i, il); });
    }
    int final(uint8_t* o, size_t* ol, const uint8_t* i, size_t il, int wa) override
    {
        if (wa) return guarded([&] { b.p->do_final(o, ol, i, il); });
        return guarded([&] { b.p->do_final(o, ol); });
    }
    IMode* clone() const override
    {
        W* w = new W;
        w->b.copy(b);
        return w;
    }
    void assign(const IMode* o) override { b.assign(((const W*)o)->b); }
};
template <class M, bool ECB>
IMode* mk(int wk, const uint8_t* key, const uint8_t* iv, uint32_t fill)
{
    auto* w = new W<M, ECB>;
    int rc = RC_OK;
    if (wk)
    {
        if constexpr (ECB) rc = guarded([&] { w->b.make(fill, key); });
        else rc = guarded([&] { w->b.make(fill, key, iv); });
    }
    else w->b.make_default(fill);
    if (rc)
    {
        delete w;
        return nullptr;
    }
    return w;
}
template <class C>
struct BC : ICipher
{
    Box<C> b;
    size_t block_size() const override { return C::BLOCK_SIZE; }
    size_t key_len() const override { return C::USER_KEY_LEN; }
    int set_key(const uint8_t* k, int enc) override
    {
        return guarded([&] { b.p->set_key(k, enc ? C::ENCRYPTION : C::DECRYPTION); });
    }
    int crypt(int enc, uint8_t* o, const uint8_t* i, size_t n, int single) const override
    {
        const C& c = *b.p;
        return guarded([&] {
            if (single)
                for (size_t k = 0; k < n; k++)
                {
                    if (enc) c.encrypt_block(o + k * C::BLOCK_SIZE, i + k * C::BLOCK_SIZE);
                    else c.decrypt_block(o + k * C::BLOCK_SIZE, i + k * C::BLOCK_SIZE);
                }
            else
            { // through the abstract interface
                const block_cipher_mode::BlockCipher& a = c;
                if (enc) a.encrypt_blocks(o, i, n);
                else a.decrypt_blocks(o, i, n);
            }
        });
    }
    ICipher* clone() const override
    {
        BC* w = new BC;
        w->b.copy(b);
        return w;
    }
    void assign(const ICipher* o) override { b.assign(((const BC*)o)->b); }
};
template <class C>
ICipher* mkb(int enc, int wk, const uint8_t* key, uint32_t fill)
{
    auto* w = new BC<C>;
    int   rc = RC_OK;
    if constexpr (std::is_constructible<C, const uint8_t*, int>::value)
    {
        if (wk) rc = guarded([&] { w->b.make(fill, key, (int)(enc ? C::ENCRYPTION : C::DECRYPTION)); });
        else w->b.make_default(fill);
    }
    else
    {
        w->b.make_default(fill);
        if (wk) rc = w->set_key(key, enc);
    }
    if (rc)
    {
        delete w;
        return nullptr;
    }
    return w;
}
using namespace block_cipher_mode;
// the names users write: the library's own aliases where it has them
template <class C>
struct Names
{
    using EcbE = EcbEncryptor<C>;
    using EcbD = EcbDecryptor<C>;
    using CbcE = CbcEncryptor<C>;
    using CbcD = CbcDecryptor<C>;
    using CfbE = CfbEncryptor<C>;
    using CfbD = CfbDecryptor<C>;
    using OfbE = OfbEncryptor<C>;
    using OfbD = OfbDecryptor<C>;
    using CtrE = CtrEncryptor<C>;
    using CtrD = CtrDecryptor<C>;
    using GcmE = GcmEncryptor<C>;
    using GcmD = GcmDecryptor<C>;
};
#define NAMES(NS, P)                      \
    template <>                           \
    struct Names<NS::P>                   \
    {                                     \
        using EcbE = NS::P##EcbEncryptor; \
        using EcbD = NS::P##EcbDecryptor; \
        using CbcE = NS::P##CbcEncryptor; \
        using CbcD = NS::P##CbcDecryptor; \
        using CfbE = NS::P##CfbEncryptor; \
        using CfbD = NS::P##CfbDecryptor; \
        using OfbE = NS::P##OfbEncryptor; \
        using OfbD = NS::P##OfbDecryptor; \
        using CtrE = NS::P##CtrEncryptor; \
        using CtrD = NS::P##CtrDecryptor; \
        using GcmE = NS::P##GcmEncryptor; \
        using GcmD = NS::P##GcmDecryptor; \
    };
NAMES(sm4, SM4)
NAMES(aes, AES128)
NAMES(aes, AES192)
NAMES(aes, AES256)
template <class C>
IMode* mkc(int mode, int enc, int wk, const uint8_t* k, const uint8_t* iv, uint32_t f)
{
    using T = Names<C>;
    switch (mode)
    {
        case MK_ECB: return enc ? mk<typename T::EcbE, true>(wk, k, iv, f) : mk<typename T::EcbD, true>(wk, k, iv, f);
        case MK_CBC: return enc ? mk<typename T::CbcE, false>(wk, k, iv, f) : mk<typename T::CbcD, false>(wk, k, iv, f);
        case MK_CFB: return enc ? mk<typename T::CfbE, false>(wk, k, iv, f) : mk<typename T::CfbD, false>(wk, k, iv, f);
        case MK_OFB: return enc ? mk<typename T::OfbE, false>(wk, k, iv, f) : mk<typename T::OfbD, false>(wk, k, iv, f);
        case MK_CTR: return enc ? mk<typename T::CtrE, false>(wk, k, iv, f) : mk<typename T::CtrD, false>(wk, k, iv, f);
    }
    return nullptr;
}
// ------------------------------------------------------------------- GCM
template <class M, bool ENC>
struct G : IGcm
{
    Box<M> b;
    size_t key_len() const override { return M::USER_KEY_LEN; }
    int init(const uint8_t* k, const uint8_t* iv, size_t ivl, const uint8_t* aad, size_t al) override
    {
        return guarded([&] { b.p->init(k, iv, ivl, aad, al); });
    }
    int update(uint8_t* o, size_t* ol, const uint8_t* i, size_t il) override
    {
        return guarded([&] { b.p->update(o, ol, i, il); });
    }
    int final(uint8_t* o, size_t* ol, const uint8_t* i, size_t il, int wa) override
    {
        if (wa) return guarded([&] { b.p->do_final(o, ol, i, il); });
        return guarded([&] { b.p->do_final(o, ol); });
    }
    int tag(uint8_t t[16]) override
    {
        if constexpr (ENC) return guarded([&] { b.p->get_tag(t); });
        else return guarded([&] { b.p->set_tag(t); });
    }
    IGcm* clone() const override
    {
        G* w = new G;
        w->b.copy(b);
        return w;
    }
    void assign(const IGcm* o) override { b.assign(((const G*)o)->b); }
};
template <class M, bool ENC>
IGcm* mkg(int wk, const uint8_t* k, const uint8_t* iv, size_t ivl, const uint8_t* aad, size_t al, uint32_t f)
{
    auto* w = new G<M, ENC>;
    int rc = RC_OK;
    if (wk) rc = guarded([&] { w->b.make(f, k, iv, ivl, aad, al); });
    else w->b.make_default(f);
    if (rc)
    {
        delete w;
        return nullptr;
    }
    return w;
}
template <class C>
IGcm* mkgc(int enc, int wk, const uint8_t* k, const uint8_t* iv, size_t ivl, const uint8_t* aad, size_t al, uint32_t f)
{
    return enc ? mkg<typename Names<C>::GcmE, true>(wk, k, iv, ivl, aad, al, f) : mkg<typename Names<C>::GcmD, false>(wk, k, iv, ivl, aad, al, f);
}
} // namespace
