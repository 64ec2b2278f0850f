#pragma once
#include "shim_rngcb.h"
#include "shim_script.h"
#include <gmlib/sm3/sm3.h>
#include <gmlib/sm9/sm9.h>
namespace {
inline sm9::SM9EcPC PCof(int pc)
{
    return pc == 0 ? sm9::SM9EcPC::UNCOMPRESSED : pc == 1 ? sm9::SM9EcPC::COMPRESSED : sm9::SM9EcPC::MIX;
}
template <class H>
struct Pub9 : ISm9Pub
{
    typedef sm9::SM9SignMasterPublicKey<H> K;
    Box<K> b;
    int set_pub(const uint8_t* x, const uint8_t* y) override
    {
        return guarded([&] { b.p->set_pub(x, y); });
    }
    int get_pub(uint8_t* x, uint8_t* y) override
    {
        return guarded([&] { b.p->get_pub(x, y); });
    }
    int verify(bool* ok, const uint8_t* sig, size_t sl, const uint8_t* m, size_t ml, const uint8_t* id, size_t idl, int hid) override
    {
        return guarded([&] { *ok = hid < 0 ? b.p->verify(sig, sl, m, ml, id, idl) : b.p->verify(sig, sl, m, ml, id, idl, (uint8_t)hid); });
    }
    ISm9Pub* clone() const override
    {
        Pub9* w = new Pub9;
        w->b.copy(b);
        return w;
    }
    void assign(const ISm9Pub* o) override { b.assign(((const Pub9*)o)->b); }
};
template <class H>
ISm9Pub* wrap_pub(const sm9::SM9SignMasterPublicKey<H>& k)
{
    auto* w = new Pub9<H>;
    w->b.make(0x77, k);
    return w;
}
template <class H>
struct User9 : ISm9User
{
    typedef sm9::SM9SignPrivateKey<H> K;
    Box<K> b;
    int set_priv(const uint8_t* x, const uint8_t* y, const uint8_t* px, const uint8_t* py) override
    {
        return guarded([&] { b.p->set_priv(x, y, px, py); });
    }
    int get_priv(uint8_t* x, uint8_t* y, uint8_t* px, uint8_t* py) override
    {
        return guarded([&] { b.p->get_priv(x, y, px, py); });
    }
    int sign(uint8_t* sig, size_t* sl, const uint8_t* m, size_t ml, GenFn f, void* c, int pc) override
    {
        CbRng r(f, c);
        return guarded([&] {
            if (pc < 0) b.p->sign(sig, sl, m, ml, r);
            else b.p->sign(sig, sl, m, ml, r, PCof(pc));
        });
    }
    int verify(bool* ok, const uint8_t* sig, size_t sl, const uint8_t* m, size_t ml, const uint8_t* id, size_t idl, int hid) override
    {
        return guarded([&] { *ok = hid < 0 ? b.p->verify(sig, sl, m, ml, id, idl) : b.p->verify(sig, sl, m, ml, id, idl, (uint8_t)hid); });
    }
    ISm9Pub* fetch_pub() const override { return wrap_pub<H>(b.p->fetch_pub()); }
    ISm9User* clone() const override
    {
        User9* w = new User9;
        w->b.copy(b);
        return w;
    }
    void assign(const ISm9User* o) override { b.assign(((const User9*)o)->b); }
};
template <class H>
struct Master9 : ISm9Master
{
    typedef sm9::SM9SignMasterPrivateKey<H> K;
    Box<K> b;
    int gen_priv(GenFn f, void* c) override
    {
        CbRng r(f, c);
        return guarded([&] { b.p->gen_priv(r); });
    }
    int set_priv(const uint8_t* ks) override
    {
        return guarded([&] { b.p->set_priv(ks); });
    }
    int get_priv(uint8_t* ks) override
    {
        return guarded([&] { b.p->get_priv(ks); });
    }
    int verify(bool* ok, const uint8_t* sig, size_t sl, const uint8_t* m, size_t ml, const uint8_t* id, size_t idl, int hid) override
    {
        return guarded([&] { auto& q = b.p->fetch_SignPublicKey(); *ok = hid < 0 ? q.verify(sig, sl, m, ml, id, idl) : q.verify(sig, sl, m, ml, id, idl, (uint8_t)hid); });
    }
    ISm9Pub* fetch_pub() const override { return wrap_pub<H>(b.p->fetch_SignPublicKey()); }
    int gen_user(ISm9User** out, const uint8_t* id, size_t idl, GenFn f, void* c, int hid, uint32_t fill) override
    {
        CbRng r(f, c);
        *out = nullptr;
        auto* w = new User9<H>;
        int rc = guarded([&] {
            if (hid < 0) w->b.make(fill, b.p->gen_SignPrivateKey(id, idl, r));
            else w->b.make(fill, b.p->gen_SignPrivateKey(id, idl, r, (uint8_t)hid));
        });
        if (rc) delete w;
        else *out = w;
        return rc;
    }
    ISm9Master* clone() const override
    {
        Master9* w = new Master9;
        w->b.copy(b);
        return w;
    }
    void assign(const ISm9Master* o) override { b.assign(((const Master9*)o)->b); }
};
template <class H>
ISm9Master* mk_master(int how, const uint8_t* k, GenFn f, void* c, uint32_t fill, int* rc)
{
    CbRng r(f, c);
    *rc = RC_OK;
    auto* w = new Master9<H>;
    if (how == 0) w->b.make_default(fill);
    else if (how == 1) *rc = guarded([&] { w->b.make(fill, k); });
    else *rc = guarded([&] { w->b.make(fill, (rng::Rng&)r); });
    if (*rc)
    {
        delete w;
        return nullptr;
    }
    return w;
}
template <class H>
ISm9Pub* mk_pub(uint32_t fill)
{
    auto* w = new Pub9<H>;
    w->b.make_default(fill);
    return w;
}
template <class H>
ISm9User* mk_user(uint32_t fill)
{
    auto* w = new User9<H>;
    w->b.make_default(fill);
    return w;
}
} // namespace
