#pragma once
#include "shim_rngcb.h"
#include "shim_script.h"
#include <gmlib/sm2/sm2.h>
#include <gmlib/sm3/sm3.h>
namespace {
inline sm2::SM2EcPC PCof(int pc)
{
    return pc == 0 ? sm2::SM2EcPC::UNCOMPRESSED : pc == 1 ? sm2::SM2EcPC::COMPRESSED : sm2::SM2EcPC::MIX;
}
template <class H>
struct PubW : ISm2
{
    typedef sm2::SM2PublicKey<H> K;
    Box<K> b;
    int gen_priv(GenFn, void*) override { return -1; }
    int set_priv(const uint8_t*) override { return -1; }
    int get_priv(uint8_t*) override { return -1; }
    int set_pub(const uint8_t* x, const uint8_t* y) override
    {
        return guarded([&] { b.p->set_pub(x, y); });
    }
    int get_pub(uint8_t* x, uint8_t* y) override
    {
        return guarded([&] { b.p->get_pub(x, y); });
    }
    int sign(uint8_t*, const uint8_t*, size_t, GenFn, void*, const uint8_t*, size_t, int) override { return -1; }
    int verify(bool* ok, const uint8_t* sig, const uint8_t* m, size_t ml, const uint8_t* id, size_t idl, int def) override
    {
        return guarded([&] { *ok = def ? b.p->verify(sig, m, ml) : b.p->verify(sig, m, ml, id, idl); });
    }
    int ct_len(size_t* n, const uint8_t* m, size_t ml, int pc) override
    {
        return guarded([&] { *n = pc < 0 ? K::ciphertext_len(m, ml) : K::ciphertext_len(m, ml, PCof(pc)); });
    }
    int encrypt(uint8_t* ct, size_t* ctl, const uint8_t* m, size_t ml, GenFn f, void* c, int pc) override
    {
        CbRng r(f, c);
        return guarded([&] {
            if (pc < 0) b.p->encrypt(ct, ctl, m, ml, r);
            else b.p->encrypt(ct, ctl, m, ml, r, PCof(pc));
        });
    }
    int pt_len(size_t*, const uint8_t*, size_t) override { return -1; }
    int decrypt(uint8_t*, size_t*, const uint8_t*, size_t) override { return -1; }
    ISm2* clone() const override
    {
        PubW* w = new PubW;
        w->b.copy(b);
        return w;
    }
    void assign(const ISm2* o) override { b.assign(((const PubW*)o)->b); }
    ISm2* pub_copy() const override { return clone(); }
};
template <class H>
struct PrivW : ISm2
{
    typedef sm2::SM2PrivateKey<H> K;
    Box<K> b;
    int gen_priv(GenFn f, void* c) override
    {
        CbRng r(f, c);
        return guarded([&] { b.p->gen_priv(r); });
    }
    int set_priv(const uint8_t* d) override
    {
        return guarded([&] { b.p->set_priv(d); });
    }
    int get_priv(uint8_t* d) override
    {
        return guarded([&] { b.p->get_priv(d); });
    }
    int set_pub(const uint8_t*, const uint8_t*) override { return -1; }
    int get_pub(uint8_t* x, uint8_t* y) override
    {
        return guarded([&] { b.p->fetch_pub().get_pub(x, y); });
    }
    int sign(uint8_t* sig, const uint8_t* m, size_t ml, GenFn f, void* c, const uint8_t* id, size_t idl, int def) override
    {
        CbRng r(f, c);
        return guarded([&] {
            if (def) b.p->sign(sig, m, ml, r);
            else b.p->sign(sig, m, ml, r, id, idl);
        });
    }
    int verify(bool* ok, const uint8_t* sig, const uint8_t* m, size_t ml, const uint8_t* id, size_t idl, int def) override
    {
        return guarded([&] { *ok = def ? b.p->verify(sig, m, ml) : b.p->verify(sig, m, ml, id, idl); });
    }
    int ct_len(size_t* n, const uint8_t* m, size_t ml, int pc) override
    {
        return guarded([&] { *n = pc < 0 ? K::ciphertext_len(m, ml) : K::ciphertext_len(m, ml, PCof(pc)); });
    }
    int encrypt(uint8_t* ct, size_t* ctl, const uint8_t* m, size_t ml, GenFn f, void* c, int pc) override
    {
        CbRng r(f, c);
        return guarded([&] {
            if (pc < 0) b.p->encrypt(ct, ctl, m, ml, r);
            else b.p->encrypt(ct, ctl, m, ml, r, PCof(pc));
        });
    }
    int pt_len(size_t* n, const uint8_t* ct, size_t ctl) override
    {
        return guarded([&] { *n = b.p->plaintext_len(ct, ctl); });
    }
    int decrypt(uint8_t* m, size_t* ml, const uint8_t* ct, size_t ctl) override
    {
        return guarded([&] { b.p->decrypt(m, ml, ct, ctl); });
    }
    ISm2* clone() const override
    {
        PrivW* w = new PrivW;
        w->b.copy(b);
        return w;
    }
    void assign(const ISm2* o) override { b.assign(((const PrivW*)o)->b); }
    ISm2* pub_copy() const override
    {
        PubW<H>* w = new PubW<H>;
        w->b.make(0x77, b.p->fetch_pub());
        return w;
    }
};
template <class H>
ISm2* mk_sm2(int priv, int how, const uint8_t* k, GenFn f, void* c, uint32_t fill, int* rc)
{
    CbRng r(f, c);
    *rc = RC_OK;
    if (priv)
    {
        auto* w = new PrivW<H>;
        if (how == 0) w->b.make_default(fill);
        else if (how == 1) *rc = guarded([&] { w->b.make(fill, k); });
        else *rc = guarded([&] { w->b.make(fill, (rng::Rng&)r); });
        if (*rc)
        {
            delete w;
            return nullptr;
        }
        return w;
    }
    auto* w = new PubW<H>;
    if (how == 0) w->b.make_default(fill);
    else *rc = guarded([&] { w->b.make(fill, k, k + 32); });
    if (*rc)
    {
        delete w;
        return nullptr;
    }
    return w;
}
} // namespace
