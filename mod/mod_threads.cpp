// C08: threads using their own objects, or sharing key objects through
// read-only operations, under a seeded scheduler that can preempt at every
// memory access.  Each run forks: one child per thread executes that thread
// alone from a cold start (the expected results), one child executes them all
// under the scheduler with race detection.
#include "tsan_rt.h"
#include "util.h"
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace ref;

namespace {
std::vector<const HashApi*> AH;
std::vector<const ModeApi*> AM;
std::vector<const GcmApi*>  AG;
std::vector<const Sm2Api*>  A2;
std::vector<const Sm9Api*>  A9;
std::vector<const Asn1Api*> AA;

struct Key9
{
    Bytes ks, id, ux, uy, px, py;
};
std::vector<Key9> K9;

const int    MT = 4;
const size_t TR = 1 << 16;
struct Shm
{
    tsim::Report rep;
    u32          done, setup_rc;
    u32          len[MT], ops[MT], opend[MT][64];
    u8           buf[MT][TR];
};
Shm* g_shm = nullptr;

struct Tr
{ // transcript of one thread
    int t;
    void put(const void* p, size_t n)
    {
        u32& l = g_shm->len[t];
        if (n > TR - l) n = TR - l;
        memcpy(g_shm->buf[t] + l, p, n);
        l += (u32)n;
    }
    void rc(int r)
    {
        u8 b = (u8)r;
        put(&b, 1);
    }
};
// shared objects, prepared before the threads start
struct Shared
{
    ISm2*       k2[2] = {nullptr, nullptr};
    ISm2*       p2[2] = {nullptr, nullptr};
    ISm9Master* m9 = nullptr;
    ISm9User*   u9 = nullptr;
    ISm9Pub*    p9 = nullptr;
    IHash*      h[3] = {nullptr, nullptr, nullptr};
    IMode*      m[2] = {nullptr, nullptr};
    IGcm*       g = nullptr;
    ICipher*    c[8] = {nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr}; // SM4, AES-128/192/256: encrypting, decrypting
};
const SimRng* dummy = nullptr;

void hash_op(Tr& tr, const HashApi* a, IHash* h, u64 seed, size_t len, size_t chunk)
{
    Bytes d = sim_data(seed, len);
    size_t i = 0;
    while (len - i > chunk && chunk) tr.rc(h->update(d.data() + i, chunk)), i += chunk;
    Bytes out(h->digest_size());
    tr.rc(h->final(out.data(), d.data() + i, len - i, 1));
    tr.put(out.data(), out.size());
}
void mode_op(Tr& tr, IMode* m, u64 seed, size_t len, size_t chunk)
{
    Bytes  d = sim_data(seed, len), out(len + 600);
    size_t i = 0, ol = 0;
    while (chunk && len - i > chunk)
    {
        ol = 0;
        tr.rc(m->update(out.data(), &ol, d.data() + i, chunk)), i += chunk;
        if (ol <= out.size()) tr.put(out.data(), ol);
    }
    ol = 0;
    int rc = m->final(out.data(), &ol, d.data() + i, len - i, 1);
    tr.rc(rc);
    if (rc == RC_OK && ol <= out.size()) tr.put(out.data(), ol);
}
void gcm_op(Tr& tr, IGcm* e, IGcm* d, u64 seed, size_t len, size_t chunk)
{
    Bytes  m = sim_data(seed, len), ct(len + 64), pt(len + 64);
    u8     tag[16] = {0};
    size_t i = 0, o = 0, ol = 0;
    while (chunk && len - i > chunk)
    {
        ol = 0;
        tr.rc(e->update(ct.data() + o, &ol, m.data() + i, chunk)), i += chunk;
        if (ol > len - o + 32) return;
        o += ol;
    }
    ol = 0;
    tr.rc(e->final(ct.data() + o, &ol, m.data() + i, len - i, 1));
    if (ol > len - o + 32) return;
    o += ol;
    tr.rc(e->tag(tag));
    tr.put(ct.data(), o), tr.put(tag, 16);
    if (!d) return;
    tr.rc(d->tag(tag));
    i = 0;
    size_t q = 0;
    while (chunk && o - i > chunk)
    {
        ol = 0;
        tr.rc(d->update(pt.data() + q, &ol, ct.data() + i, chunk)), i += chunk;
        if (ol > len - q + 32) return;
        q += ol;
    }
    ol = 0;
    tr.rc(d->final(pt.data() + q, &ol, ct.data() + i, o - i, 1));
    q += ol;
    if (q <= pt.size()) tr.put(pt.data(), q);
}
void sm2_ops(Tr& tr, ISm2* k, ISm2* p, int what, u64 seed, size_t len)
{
    SimRng r;
    r.seed = seed * 11 + 3, r.bound = 400;
    Bytes m = sim_data(seed, len ? len : 1), id = sim_data(seed + 1, 1 + seed % 40);
    u8    sig[64] = {0}, x[32], y[32];
    bool  ok = false;
    if (what & 1)
    {
        int rc = k->sign(sig, m.data(), m.size(), SimRng::gen, &r, id.data(), id.size(), seed % 3 == 0);
        tr.rc(rc), tr.put(sig, rc ? 0 : 64);
        if (what & 2)
        {
            tr.rc(p->verify(&ok, sig, m.data(), m.size(), id.data(), id.size(), seed % 3 == 0)), tr.rc(ok);
            sig[seed % 64] ^= 4;
            tr.rc(k->verify(&ok, sig, m.data(), m.size(), id.data(), id.size(), seed % 3 == 0)), tr.rc(ok);
        }
    }
    if (what & 4)
    {
        size_t cl = 0, ml = 0;
        int    pc = (int)(seed % 3);
        tr.rc(p->ct_len(&cl, m.data(), m.size(), pc));
        if (cl > 8192) return;
        Bytes ct(cl + 8);
        size_t cl2 = cl;
        int    rc = p->encrypt(ct.data(), &cl2, m.data(), m.size(), SimRng::gen, &r, pc);
        tr.rc(rc);
        if (rc || cl2 > ct.size()) return;
        tr.put(ct.data(), cl2);
        if (what & 8)
        {
            tr.rc(k->pt_len(&ml, ct.data(), cl2));
            if (ml > 8192) return;
            Bytes pt(ml + 8);
            rc = k->decrypt(pt.data(), &ml, ct.data(), cl2);
            tr.rc(rc);
            if (!rc && ml <= pt.size()) tr.put(pt.data(), ml);
        }
    }
    if (what & 16) tr.rc(k->get_pub(x, y)), tr.put(x, 32), tr.put(y, 32), tr.rc(k->get_priv(x)), tr.put(x, 32);
}
void put_user(Tr& tr, ISm9User* u)
{
    u8 x[32], y[32], px[64], py[64];
    tr.rc(u->get_priv(x, y, px, py));
    tr.put(x, 32), tr.put(y, 32), tr.put(px, 64), tr.put(py, 64);
}
void sm9_sign(Tr& tr, ISm9User* u, ISm9Pub* p, const Bytes& id, u64 seed, size_t len, int what)
{
    SimRng r;
    r.seed = seed * 13 + 1, r.bound = 400;
    Bytes  m = sim_data(seed, len);
    u8     sig[160] = {0};
    size_t sl = 0;
    int    pc = (int)(seed % 3);
    if (what & 1)
    {
        int rc = u->sign(sig, &sl, m.data(), m.size(), SimRng::gen, &r, pc);
        tr.rc(rc);
        if (rc || sl > sizeof sig) return;
        tr.put(sig, sl);
    }
    else sl = 97, sig[32] = 4, sig[0] = 5;
    if (what & 2)
    {
        bool ok = false;
        tr.rc(p->verify(&ok, sig, sl, m.data(), m.size(), id.data(), id.size(), -1)), tr.rc(ok);
    }
}
const u64 NOPS = 16;
// SM2 calls that are refused or take rare paths
void sm2_more(Tr& tr, int l, u64 a, u64 b, u64 seed)
{
    SimRng r;
    r.seed = seed + 9, r.bound = 400;
    int   rc = 0;
    Bytes d = sim_data(seed + 4, 32), m = sim_data(seed + 6, 1 + seed % 90), id = sim_data(seed + 7, 9);
    d[0] &= 0x7f;
    static const u8 gx[32] = {0x32, 0xC4, 0xAE, 0x2C, 0x1F, 0x19, 0x81, 0x19, 0x5F, 0x99, 0x04, 0x46, 0x6A, 0x39, 0xC9, 0x94,
                              0x8F, 0xE3, 0x0B, 0xBF, 0xF2, 0x66, 0x0B, 0xE1, 0x71, 0x5A, 0x45, 0x89, 0x33, 0x4C, 0x74, 0xC7};
    static const u8 gy[32] = {0xBC, 0x37, 0x36, 0xA2, 0xF4, 0xF6, 0x77, 0x9C, 0x59, 0xBD, 0xCE, 0xE3, 0x6B, 0x69, 0x21, 0x53,
                              0xD0, 0xA9, 0x87, 0x7C, 0xC6, 0x2A, 0x47, 0x40, 0x02, 0xDF, 0x32, 0xE5, 0x21, 0x39, 0xF0, 0xA0};
    std::unique_ptr<ISm2> k(A2[l]->make(SH_SM3, 1, 1, d.data(), nullptr, nullptr, 5, &rc));
    tr.rc(rc);
    if (!k) return;
    switch (a % 8)
    {
        case 0:
        {
            std::unique_ptr<ISm2> p(A2[l]->make(SH_SM3, 0, 0, nullptr, nullptr, nullptr, 5, &rc));
            if (!p) return;
            u8 x[32], y[32], s[64];
            memcpy(x, gx, 32), memcpy(y, gy, 32);
            if (b & 1) y[seed % 32] ^= 1;
            tr.rc(p->set_pub(x, y));
            memset(x, 0, 32), memset(y, 0xff, 32);
            tr.rc(p->set_pub(x, y));
            if (b & 1) return;
            tr.rc(p->get_pub(x, y)), tr.put(x, 32), tr.put(y, 32);
            memcpy(s, sim_data(seed, 64).data(), 64);
            s[0] = s[32] = 1;
            bool ok = false;
            tr.rc(p->verify(&ok, s, m.data(), m.size(), id.data(), id.size(), 0)), tr.rc(ok);
            break;
        }
        case 1:
        {
            size_t n = 0, ol = 0;
            int    pc = (int)(b % 3);
            k->ct_len(&n, m.data(), m.size(), pc);
            if (n > 4096) return;
            Bytes ct(n + 8);
            ol = n;
            tr.rc(k->encrypt(ct.data(), &ol, m.data(), m.size(), SimRng::gen, &r, pc));
            if (ol > ct.size()) return;
            ct.resize(ol);
            tr.put(ct.data(), ol);
            for (int q = 0; q < 4; q++)
            {
                Bytes c = ct;
                if (q == 0) c[(seed * 7) % c.size()] ^= 1;
                if (q == 1) c.back() ^= 0x80;
                if (q == 2) c.resize(c.size() - 1 - seed % 40 % c.size());
                if (q == 3) c[0] ^= 1;
                size_t pn = 0;
                rc = k->pt_len(&pn, c.data(), c.size());
                tr.rc(rc);
                if (rc || pn > 4096) continue;
                Bytes o(pn + 8);
                tr.rc(k->decrypt(o.data(), &pn, c.data(), c.size()));
            }
            break;
        }
        case 2:
        case 3:
        {
            u8   s[64];
            bool ok = false;
            memset(s, b & 1 ? 0 : 0xff, 64);
            if (b & 2) s[63] = 1, s[31] = 1;
            Bytes big = a % 8 == 3 ? Bytes(8192 + seed % 9) : id;
            tr.rc(k->verify(&ok, s, m.data(), m.size(), big.data(), big.size(), 0)), tr.rc(ok);
            rc = k->sign(s, m.data(), m.size(), SimRng::gen, &r, big.data(), big.size(), 0);
            tr.rc(rc);
            if (!rc) tr.put(s, 64);
            break;
        }
        case 4:
        {
            Bytes bad(32, b & 1 ? 0 : 0xff);
            tr.rc(k->set_priv(bad.data()));
            tr.rc(k->set_priv(sim_data(seed, 32).data()));
            u8 x[32], y[32];
            tr.rc(k->get_priv(x)), tr.put(x, 32), tr.rc(k->get_pub(x, y)), tr.put(x, 32), tr.put(y, 32);
            break;
        }
        default:
        {
            r.script.push_back(Bytes(32, b & 1 ? 0 : 0xff));
            r.script.push_back(Bytes(32, b & 2 ? 0 : 0xff));
            u8 s[64], x[32], y[32];
            if (a & 1) tr.rc(k->gen_priv(SimRng::gen, &r)), tr.rc(k->get_pub(x, y)), tr.put(x, 32), tr.put(y, 32);
            else
            {
                rc = k->sign(s, m.data(), m.size(), SimRng::gen, &r, id.data(), id.size(), 1);
                tr.rc(rc);
                if (!rc) tr.put(s, 64);
            }
        }
    }
}
void der_ops(Tr& tr, const Asn1Api* A, u64 a, u64 b, u64 seed)
{
    Bytes z = sim_data(seed + 1, 200);
    if (b & 1) z[0] &= 0x7f;
    else z[0] |= 0x80;
    z[32] |= 1, z[64] |= 1;
    const u8 *x = z.data(), *y = x + 32, *h = x + 64, *p = nullptr, *q = nullptr, *t = nullptr, *w = nullptr;
    size_t n = 0, rd = 0, hl = 0, cl = 0, len = 0;
    int    rc = 0;
    Bytes  o;
    switch (a % 4)
    {
        case 0: len = A->sm2_priv_len(x); break;
        case 1: len = A->sm2_pub_len(x); break;
        case 2: len = A->sm2_sig_len(x, y); break;
        case 3: len = A->sm2_ct_len(x, y, h, 32, x + 96, 1 + seed % 100); break;
    }
    tr.put(&len, sizeof len);
    if (len > 4096) return;
    o.resize(len + 64);
    switch (a % 4)
    {
        case 0: A->sm2_priv_enc(o.data(), &n, x); break;
        case 1: A->sm2_pub_enc(o.data(), &n, x); break;
        case 2: A->sm2_sig_enc(o.data(), &n, x, y); break;
        case 3: A->sm2_ct_enc(o.data(), &n, x, y, h, 32, x + 96, 1 + seed % 100); break;
    }
    if (n > o.size()) return;
    o.resize(n);
    tr.put(o.data(), n);
    for (int k = 0; k < 3; k++)
    {
        Bytes i = o;
        if (k == 1 && !i.empty()) i.pop_back();
        if (k == 2) i[seed % 4 % i.size()] ^= 1 << seed % 8;
        switch (a % 4)
        {
            case 0: rc = A->sm2_priv_dec(&p, &rd, i.data(), i.size()); break;
            case 1: rc = A->sm2_pub_dec(&p, &rd, i.data(), i.size()); break;
            case 2: rc = A->sm2_sig_dec(&p, &q, &rd, i.data(), i.size()); break;
            case 3: rc = A->sm2_ct_dec(&p, &q, &t, &hl, &w, &cl, &rd, i.data(), i.size()); break;
        }
        tr.rc(rc);
        if (rc) continue;
        size_t off = (size_t)(p - i.data());
        tr.put(&off, sizeof off), tr.put(&rd, sizeof rd);
    }
}
void asn1_all(Tr& tr, const Asn1Api* A, u64 a, u64 seed, size_t len)
{
    Bytes  d = sim_data(seed, 1 + len), o(d.size() * 6 + 200);
    size_t n = 0, k = 0, rd = 0, l = 0, bits = 0;
    A->enc_bool(o.data(), &k, (int)(a & 1)), n += k;
    A->enc_int(o.data() + n, &k, d.data(), d.size()), n += k;
    A->enc_bits(o.data() + n, &k, d.data(), d.size(), d.size() * 8 - seed % 8), n += k;
    A->enc_octets(o.data() + n, &k, d.data(), d.size()), n += k;
    o[n] = 5, o[n + 1] = 0, n += 2;
    A->enc_seq_tl(o.data() + n, &k, d.size()), n += k, memcpy(o.data() + n, d.data(), d.size()), n += d.size();
    A->enc_set_tl(o.data() + n, &k, 3), n += k, n += 3;
    o.resize(n);
    if (a & 2) o[seed % n] ^= 1 << seed % 8;
    tr.put(o.data(), std::min<size_t>(n, 2000));
    size_t s[] = {A->len_tlv(d.size()), A->len_bool(), A->len_int(d.data(), d.size()), A->len_bits(d.size() * 8), A->len_octets(d.size()), A->len_seq(d.size()), A->len_set(d.size()),
                  A->max_tlv(d.size()), A->max_int(d.size()), A->max_octets(d.size())};
    tr.put(s, sizeof s);
    size_t i = 0;
    for (int e = 0; e < 9 && i < n; e++)
    {
        Tlv       t{};
        int       v = 0, rc;
        const u8* p = nullptr;
        rc = A->dec_tlv(&t, &rd, o.data() + i, n - i);
        tr.rc(rc);
        if (rc) break;
        tr.rc(t.cls), tr.rc(t.pc), tr.rc(t.num), tr.put(&t.len, sizeof t.len);
        const char* nm[] = {A->name_cls(t.cls), A->name_pc(t.pc), A->name_num(t.num)};
        for (auto c : nm)
            if (c) tr.put(c, strlen(c));
        size_t step = rd;
        tr.rc(A->dec_bool(&v, &rd, o.data() + i, n - i)), tr.rc(v);
        tr.rc(A->dec_int(&p, &l, &rd, o.data() + i, n - i));
        tr.rc(A->dec_bits(&p, &l, &bits, &rd, o.data() + i, n - i));
        tr.rc(A->dec_octets(&p, &l, &rd, o.data() + i, n - i));
        tr.rc(A->dec_null(&rd, o.data() + i, n - i));
        tr.rc(A->dec_seq(&p, &l, &rd, o.data() + i, n - i));
        tr.rc(A->dec_set(&p, &l, &rd, o.data() + i, n - i));
        if (!step) break;
        i += step;
    }
}
void sm9_more(Tr& tr, int l, u64 a, u64 b, u64 seed)
{
    const Key9& K = K9[b % K9.size()];
    int rc = 0;
    SimRng r;
    r.seed = seed, r.bound = 100;
    u8 x[64], y[64];
    switch (a % 5)
    {
        case 0:
        { // a freshly generated master key
            std::unique_ptr<ISm9Master> m(A9[l]->make_master(SH_SM3, 0, nullptr, nullptr, nullptr, 3, &rc));
            if (!m) return;
            tr.rc(m->gen_priv(SimRng::gen, &r));
            u8 k[32];
            tr.rc(m->get_priv(k)), tr.put(k, 32);
            std::unique_ptr<ISm9Pub> p(m->fetch_pub());
            tr.rc(p->get_pub(x, y)), tr.put(x, 64), tr.put(y, 64);
            memset(k, b & 1 ? 0 : 0xff, 32);
            tr.rc(m->set_priv(k));
            break;
        }
        case 1:
        { // an imported public key judges a signature with every point format
            std::unique_ptr<ISm9Pub> p(A9[l]->make_pub(SH_SM3, 0));
            Bytes px = K.px, py = K.py;
            tr.rc(p->set_pub(px.data(), py.data()));
            std::unique_ptr<ISm9User> u(A9[l]->make_user(SH_SM3, 4));
            tr.rc(u->set_priv(K.ux.data(), K.uy.data(), K.px.data(), K.py.data()));
            sm9_sign(tr, u.get(), p.get(), K.id, seed - seed % 3 + b % 3, 20, 3);
            break;
        }
        case 2:
        { // the user verifies
            std::unique_ptr<ISm9User> u(A9[l]->make_user(SH_SM3, 4));
            tr.rc(u->set_priv(K.ux.data(), K.uy.data(), K.px.data(), K.py.data()));
            u8 s[160];
            size_t sl = 0;
            bool ok = false;
            rc = u->sign(s, &sl, K.ks.data(), 30, SimRng::gen, &r, (int)(seed % 3));
            tr.rc(rc);
            if (rc || sl > 97) return;
            tr.put(s, sl);
            tr.rc(u->verify(&ok, s, sl, K.ks.data(), 30, K.id.data(), K.id.size(), -1)), tr.rc(ok);
            std::unique_ptr<ISm9Pub> p(u->fetch_pub());
            s[seed % sl] ^= 2;
            tr.rc(p->verify(&ok, s, sl, K.ks.data(), 30, K.id.data(), K.id.size(), 3)), tr.rc(ok);
            break;
        }
        case 3:
        { // refused imports
            std::unique_ptr<ISm9User> u(A9[l]->make_user(SH_SM3, 4));
            Bytes uy = K.uy, py = K.py;
            (b & 1 ? uy : py)[3] ^= 1;
            tr.rc(u->set_priv(K.ux.data(), uy.data(), K.px.data(), py.data()));
            std::unique_ptr<ISm9Pub> p(A9[l]->make_pub(SH_SM3, 0));
            tr.rc(p->set_pub(K.px.data(), (b & 1 ? K.py : py).data()));
            break;
        }
        case 4:
        { // a scripted hash of another size: other widths inside
            std::unique_ptr<ISm9Master> m(A9[l]->make_master(SH_S48, 1, K.ks.data(), nullptr, nullptr, 3, &rc));
            if (!m) return;
            ISm9User* up = nullptr;
            tr.rc(m->gen_user(&up, K.id.data(), K.id.size(), SimRng::gen, &r, (int)(b % 4), 5));
            std::unique_ptr<ISm9User> u(up);
            if (u) put_user(tr, u.get());
            break;
        }
    }
}
u8* key_tag(const Bytes& k) { return const_cast<u8*>(k.data()) + 40; }
void modes_more(Tr& tr, int l, u64 a, u64 b, const Bytes& key, const Bytes& iv, u64 seed, size_t len, size_t chunk)
{
    int mk = (int)(a % MK_COUNT), ck = (int)(b / 2 % CK_COUNT), enc = (int)(b & 1);
    std::unique_ptr<IMode> m(AM[l]->make(mk, enc, ck, 0, nullptr, nullptr, 9));
    if (m)
    {
        Bytes  d = sim_data(seed, len), o(len + 300);
        size_t ol = 0;
        tr.rc(m->init(key.data(), iv.data()));
        mode_op(tr, m.get(), seed, len, chunk); // ECB and CBC refuse a partial block here
        tr.rc(m->reset(iv.data() + 3));
        std::unique_ptr<IMode> c(m->clone());
        mode_op(tr, c.get(), seed + 1, len / 32 * 32, chunk);
        m->assign(c.get());
        tr.rc(m->init(key.data() + 2, iv.data()));
        tr.rc(m->update(o.data(), &ol, d.data(), len));
        if (ol <= o.size()) tr.put(o.data(), ol);
    }
    std::unique_ptr<IGcm> g(AG[l]->make(0, (int)(b / 2 % 4), 1, key.data(), iv.data(), 12, key.data(), 20, 3));
    if (g)
    {
        Bytes  d = sim_data(seed, len), o(len + 300);
        size_t ol = 0;
        tr.rc(g->tag(key_tag(key)));
        tr.rc(g->final(o.data(), &ol, d.data(), len, 1));
    }
    std::unique_ptr<IHash> h(AH[l]->make(HK_SM3, 0, nullptr, 0, 1)), h2(AH[l]->make(HK_HMAC_SM3, 1, key.data(), 70, 1));
    if (h && h2)
    {
        h->update(key.data(), 30);
        std::unique_ptr<IHash> c(h->clone());
        hash_op(tr, AH[l], c.get(), seed, len, chunk);
        h->assign(c.get());
        tr.rc(h2->set_key(key.data(), 64)), hash_op(tr, AH[l], h2.get(), seed, len, chunk);
    }
}
// n blocks through a block-cipher object, split into calls of at most k blocks
void cipher_op(Tr& tr, const ICipher* c, int enc, u64 seed, size_t n, size_t k)
{
    size_t bs = c->block_size();
    Bytes  d = sim_data(seed, n * bs), o(n * bs);
    for (size_t i = 0; i < n;)
    {
        size_t m = std::min(n - i, k ? k : n);
        tr.rc(c->crypt(enc, o.data() + i * bs, d.data() + i * bs, m, k == 1));
        i += m;
    }
    tr.put(o.data(), o.size());
}
void ciphers(Tr& tr, int l, Shared& sh, u64 a, u64 b, const Bytes& key, u64 seed, size_t n, size_t k)
{
    int      w = (int)(a % 8);
    ICipher* s = sh.c[w];
    if (s) cipher_op(tr, s, w % 2 == 0, seed, n, k);
    if (b % 3 == 0)
    { // an own object, re-keyed between uses
        std::unique_ptr<ICipher> c(AM[l]->make_cipher(w / 2, w % 2 == 0, 1, key.data(), 9));
        if (!c) return tr.rc(99);
        cipher_op(tr, c.get(), w % 2 == 0, seed + 1, n, k);
        tr.rc(c->set_key(key.data() + 8, w % 2)), cipher_op(tr, c.get(), w % 2, seed + 2, n, k);
    }
    else if (b % 3 == 1 && s)
    { // a copy of the shared one, and one assigned from it
        std::unique_ptr<ICipher> c(s->clone()), d(AM[l]->make_cipher(w / 2, w % 2 == 0, 1, key.data(), 9));
        cipher_op(tr, c.get(), w % 2 == 0, seed + 3, n, k);
        if (d) d->assign(s), cipher_op(tr, d.get(), w % 2 == 0, seed + 3, n, k);
        tr.rc(c->set_key(key.data(), w % 2 == 0)), cipher_op(tr, c.get(), w % 2 == 0, seed + 3, n, k);
    }
}
// one operation of one thread
void do_op(Tr& tr, int l, Shared& sh, const Op& o)
{
    u64 what = (u64)o.at(1), a = (u64)o.at(2), b = (u64)o.at(3), seed = (u64)o.at(4);
    size_t len = (size_t)((u64)o.at(5) % 1500), chunk = (size_t)((u64)o.at(6) % 600);
    Bytes key = sim_data(seed * 3 + 5, 80), iv = sim_data(seed * 5 + 7, 80);
    switch (what % NOPS)
    {
        case 0:
        {
            static const int hk[] = {HK_SM3, HK_GHASH, HK_HMAC_SM3, HK_TOY_64_32, HK_HMAC_TOY_64_32};
            int    k = hk[a % 5];
            IHash* h = AH[l]->make(k, 1, key.data(), k == HK_GHASH ? 16 : b % 80, 7);
            if (!h) return tr.rc(99);
            hash_op(tr, AH[l], h, seed, len, chunk);
            delete h;
            break;
        }
        case 1:
        {
            IMode* m = AM[l]->make((int)(a % MK_COUNT), (int)(b & 1), (int)(b / 2 % 4), 1, key.data(), iv.data(), 9);
            if (!m) return tr.rc(99);
            mode_op(tr, m, seed, a % MK_COUNT < 2 ? len / 16 * 16 : len, chunk);
            delete m;
            break;
        }
        case 2:
        {
            size_t ivl = b % 3 ? 12 : 1 + seed % 40;
            IGcm*  e = AG[l]->make(1, (int)(a % 4), 1, key.data(), iv.data(), ivl, key.data(), seed % 50, 3);
            IGcm*  d = AG[l]->make(0, (int)(a % 4), 1, key.data(), iv.data(), ivl, key.data(), seed % 50, 4);
            if (!e || !d) return tr.rc(99);
            gcm_op(tr, e, d, seed, len, chunk);
            delete e;
            delete d;
            break;
        }
        case 3:
        { // own SM2 key
            SimRng r;
            r.seed = seed, r.bound = 400;
            int   rc;
            ISm2* k = A2[l]->make(SH_SM3, 1, 2, nullptr, SimRng::gen, &r, 5, &rc);
            tr.rc(rc);
            if (!k) return;
            ISm2* p = k->pub_copy();
            sm2_ops(tr, k, p, (int)(a % 32), seed, len % 200);
            delete p;
            delete k;
            break;
        }
        case 4:
        { // shared SM2 key, read-only operations
            ISm2 *k = sh.k2[b % 2], *p = sh.p2[b % 2];
            if (!k) return tr.rc(98);
            sm2_ops(tr, k, seed % 4 ? p : k, (int)(a % 32), seed, len % 200);
            if (b / 2 % 4 == 0)
            {
                ISm2* q = k->clone();
                sm2_ops(tr, q, p, 1, seed + 1, len % 50);
                delete q;
            }
            break;
        }
        case 5:
        { // shared SM9 objects
            if (!sh.u9) return tr.rc(98);
            const Key9& K = K9[0];
            if (a % 4 == 3)
            {
                ISm9User* u = nullptr;
                SimRng    r;
                r.seed = seed, r.bound = 100;
                Bytes id = sim_data(seed + 2, 1 + seed % 20);
                int   rc = sh.m9->gen_user(&u, id.data(), id.size(), SimRng::gen, &r, -1, 3);
                tr.rc(rc);
                if (u) put_user(tr, u);
                delete u;
            }
            else sm9_sign(tr, sh.u9, sh.p9, K.id, seed, len % 100, a % 4 == 0 ? 1 : a % 4 == 1 ? 2 : 3);
            put_user(tr, sh.u9);
            break;
        }
        case 6:
        { // own SM9 objects
            const Key9& K = K9[b % K9.size()];
            int         rc;
            ISm9Master* m = A9[l]->make_master(SH_SM3, 1, K.ks.data(), nullptr, nullptr, 3, &rc);
            tr.rc(rc);
            if (!m) return;
            ISm9Pub* p = m->fetch_pub();
            if (a % 4 == 0)
            {
                ISm9User* u = nullptr;
                SimRng    r;
                r.seed = seed;
                tr.rc(m->gen_user(&u, K.id.data(), K.id.size(), SimRng::gen, &r, -1, 5));
                if (u) put_user(tr, u);
                delete u;
            }
            else
            {
                ISm9User* u = A9[l]->make_user(SH_SM3, 4);
                tr.rc(u->set_priv(K.ux.data(), K.uy.data(), K.px.data(), K.py.data()));
                sm9_sign(tr, u, p, K.id, seed, len % 100, (int)(a % 4));
                delete u;
            }
            delete p;
            delete m;
            break;
        }
        case 7:
        { // ASN.1
            const Asn1Api* A = AA[l];
            Bytes d = sim_data(seed, 1 + len % 60), out(A->len_octets(d.size()) + A->len_int(d.data(), d.size()) + 16);
            size_t n = 0, n2 = 0, rd = 0, pl = 0;
            A->enc_octets(out.data(), &n, d.data(), d.size());
            A->enc_int(out.data() + n, &n2, d.data(), d.size());
            tr.put(out.data(), n + n2);
            const u8* p = nullptr;
            tr.rc(A->dec_octets(&p, &pl, &rd, out.data(), n));
            tr.put(&pl, sizeof pl), tr.put(&rd, sizeof rd);
            tr.rc(A->dec_int(&p, &pl, &rd, out.data() + n, n2));
            tr.put(&pl, sizeof pl), tr.put(&rd, sizeof rd);
            u8 dd[32], x[64];
            memcpy(dd, key.data(), 32);
            dd[0] |= 1;
            Bytes sq(A->sm2_sig_len(dd, dd) + 8);
            A->sm2_sig_enc(sq.data(), &n, dd, dd);
            tr.put(sq.data(), n);
            (void)x;
            break;
        }
        case 8:
        { // copies taken from shared, partly used objects
            if (!sh.h[0]) return tr.rc(98);
            if (a % 3 == 0)
            {
                IHash* h = sh.h[b % 3]->clone();
                hash_op(tr, AH[l], h, seed, len, chunk);
                delete h;
            }
            else if (a % 3 == 1)
            {
                IMode* m = sh.m[b % 2]->clone();
                mode_op(tr, m, seed, len / 16 * 16, chunk);
                delete m;
            }
            else
            {
                IGcm* g = sh.g->clone();
                gcm_op(tr, g, nullptr, seed, len, chunk);
                delete g;
            }
            break;
        }
        case 9:
        { // rekey and reuse one object, then copy-assign it over another
            IHash* h = AH[l]->make(HK_SM3, 0, nullptr, 0, 7);
            hash_op(tr, AH[l], h, seed, len, chunk);
            tr.rc(h->reset());
            hash_op(tr, AH[l], h, seed + 1, len / 2, chunk);
            delete h;
            IMode* m = AM[l]->make(MK_CTR, 1, (int)(a % 4), 0, nullptr, nullptr, 9);
            for (int i = 0; i < 2; i++) tr.rc(m->init(key.data() + i, iv.data() + i)), mode_op(tr, m, seed + i, len, chunk);
            delete m;
            break;
        }
        case 10: sm2_more(tr, l, a, b, seed); break;
        case 11: der_ops(tr, AA[l], a, b, seed); break;
        case 12: asn1_all(tr, AA[l], a, seed, len % 4 ? len % 50 : len); break;
        case 13: sm9_more(tr, l, a, b, seed); break;
        case 14: modes_more(tr, l, a, b, key, iv, seed, len, chunk); break;
        case 15: ciphers(tr, l, sh, a, b, key, seed, 1 + len % 40, (size_t)(chunk % 9)); break;
    }
}
void setup(int l, Shared& s, const Plan& p)
{
    for (auto& o : p.ops)
    {
        int rc = 0;
        if (o.n == "sh2")
        {
            for (int i = 0; i < 2; i++)
            {
                Bytes d = sim_data((u64)o.at(0) * 16 + 5 + i, 32);
                d[0] &= 0x7f;
                s.k2[i] = A2[l]->make(SH_SM3, 1, 1, d.data(), nullptr, nullptr, 3, &rc);
                if (s.k2[i]) s.p2[i] = s.k2[i]->pub_copy();
            }
        }
        else if (o.n == "sh9")
        {
            const Key9& K = K9[0];
            s.m9 = A9[l]->make_master(SH_SM3, 1, K.ks.data(), nullptr, nullptr, 3, &rc);
            s.u9 = A9[l]->make_user(SH_SM3, 4);
            if (s.u9->set_priv(K.ux.data(), K.uy.data(), K.px.data(), K.py.data()) || !s.m9)
            {
                s.u9 = nullptr;
                continue;
            }
            s.p9 = s.m9->fetch_pub();
        }
        else if (o.n == "shc")
        {
            Bytes k = sim_data((u64)o.at(0) + 9, 64);
            for (int i = 0; i < 8; i++)
                if ((u64)o.at(1) >> i & 1) s.c[i] = AM[l]->make_cipher(i / 2, i % 2 == 0, 1, k.data() + i, 3);
        }
        else if (o.n == "shp")
        {
            Bytes k = sim_data((u64)o.at(0) + 3, 64), d = sim_data((u64)o.at(0) + 4, 300), out(400);
            size_t ol;
            static const int hk[] = {HK_SM3, HK_GHASH, HK_HMAC_SM3};
            for (int i = 0; i < 3; i++)
            {
                s.h[i] = AH[l]->make(hk[i], 1, k.data(), 16, 3);
                s.h[i]->update(d.data(), (size_t)o.at(1) % 200);
            }
            for (int i = 0; i < 2; i++)
            {
                s.m[i] = AM[l]->make(i ? MK_CTR : MK_CBC, 1, (int)((u64)o.at(2) % 4), 1, k.data(), k.data() + 20, 3);
                s.m[i]->update(out.data(), &ol, d.data(), (size_t)o.at(1) % 200);
            }
            s.g = AG[l]->make(1, (int)((u64)o.at(2) % 4), 1, k.data(), k.data() + 20, 12, d.data(), 20, 3);
            s.g->update(out.data(), &ol, d.data(), (size_t)o.at(1) % 200);
        }
    }
}
// run the threads in mask in a child process
int child(const Plan& p, int l, u32 mask, const tsim::Config& cfg)
{
    memset(&g_shm->rep, 0, sizeof g_shm->rep);
    g_shm->done = 0;
    memset(g_shm->len, 0, sizeof g_shm->len);
    memset(g_shm->ops, 0, sizeof g_shm->ops);
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0)
    {
        struct itimerval it;
        memset(&it, 0, sizeof it);
        it.it_value.tv_sec = 25;
        setitimer(ITIMER_PROF, &it, nullptr);
        Shared sh;
        setup(l, sh, p);
        std::vector<std::function<void()>> fs;
        for (int t = 0; t < MT; t++)
        {
            if (!(mask >> t & 1)) continue;
            fs.push_back([&, t] {
                Tr  tr{t};
                int k = 0;
                for (auto& o : p.ops)
                {
                    if (o.n != "t" || (int)((u64)o.at(0) % MT) != t) continue;
                    tsim::point(k);
                    do_op(tr, l, sh, o);
                    if (k < 64) g_shm->opend[t][k] = g_shm->len[t];
                    k++;
                    g_shm->ops[t] = (u32)k;
                }
            });
        }
        tsim::Report rep;
        tsim::run(cfg, fs, rep);
        g_shm->rep = rep;
        g_shm->done = 1;
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0) {}
    return st;
}
const char* opname(u64 w)
{
    static const char* n[] = {"hash", "mode", "gcm", "sm2", "sm2-shared", "sm9-shared", "sm9", "asn1", "copy-shared", "reuse", "sm2-refusals", "der", "asn1-all", "sm9-more", "modes-more", "ciphers"};
    return n[w % NOPS];
}
void exec(const Plan& p, Ctx& c)
{
    int          l = 0;
    tsim::Config cfg;
    u32          mask = 0;
    for (auto& o : p.ops)
    {
        if (o.n == "cfg")
        {
            l        = (int)((u64)o.at(0) % g_libs.size());
            cfg.seed = (u64)o.at(1), cfg.gap = (u64)o.at(2), cfg.hot = (int)o.at(3);
        }
        else if (o.n == "t") mask |= 1u << ((u64)o.at(0) % MT), c.count(std::string("op.") + opname((u64)o.at(1)));
    }
    if (!mask) return;
    // every thread alone, from a cold start
    std::vector<Bytes>            want(MT);
    std::vector<std::vector<u32>> ends(MT);
    tsim::Config                  quiet = cfg;
    quiet.track = false, quiet.gap = 0, quiet.hot = 0;
    for (int t = 0; t < MT; t++)
    {
        if (!(mask >> t & 1)) continue;
        int st = child(p, l, 1u << t, quiet);
        if (st || !g_shm->done)
        { // the operation fails on its own: not this property's business
            c.count("probe.fails-alone");
            c.log("thread %d fails when alone (status %d)", t, st);
            return;
        }
        want[t].assign(g_shm->buf[t], g_shm->buf[t] + g_shm->len[t]);
        ends[t].assign(g_shm->opend[t], g_shm->opend[t] + std::min<u32>(64, g_shm->ops[t]));
        c.bytes(want[t].data(), want[t].size());
    }
    int           st = child(p, l, mask, cfg);
    tsim::Report& r = g_shm->rep;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 98) c.fail("hang", "threads together exceed the CPU bound, alone they do not");
    if (st || !g_shm->done) c.fail("crash", "threads together end the process (status %d), alone they do not", st);
    c.st->steps += r.events;
    c.count("op.preemptions", r.switches), c.count("op.sync-operations", r.sync_ops), c.count("op.accesses-to-shared-data", r.hot_events);
    c.count("fault.preemption", r.switches);
    if (r.lost) c.count("probe.shadow-full");
    c.state(r.order);
    c.log("schedule %016llx: %llu accesses, %llu preemptions", (unsigned long long)r.order, (unsigned long long)r.events, (unsigned long long)r.switches);
    if (r.deadlock) c.fail("deadlock", "%s", r.msg);
    if (r.runaway) c.fail("hang", "threads make no progress within %llu accesses", (unsigned long long)cfg.maxev);
    for (int t = 0; t < MT; t++)
    {
        if (!(mask >> t & 1)) continue;
        Bytes got(g_shm->buf[t], g_shm->buf[t] + g_shm->len[t]);
        if (got == want[t]) continue;
        size_t i = 0, k = 0;
        while (i < got.size() && i < want[t].size() && got[i] == want[t][i]) i++;
        while (k < ends[t].size() && ends[t][k] <= i) k++;
        if (r.race) c.fail("data-race", "%s; thread %d then gets a wrong result in operation %zu", r.msg, t, k);
        c.fail("interference", "thread %d gets another result in operation %zu (byte %zu of its transcript) than when it runs alone", t, k, i);
    }
    if (r.race) c.fail("data-race", "%s", r.msg);
    if (r.switches) c.nontrivial = 1;
}
void init()
{
    AH = collect_api<const HashApi*>("gm_api_hash");
    AM = collect_api<const ModeApi*>("gm_api_mode");
    AG = collect_api<const GcmApi*>("gm_api_gcm");
    A2 = collect_api<const Sm2Api*>("gm_api_sm2");
    A9 = collect_api<const Sm9Api*>("gm_api_sm9");
    AA = collect_api<const Asn1Api*>("gm_api_asn1");
    tsim::add_lib("tsan_");
    g_shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (int i = 0; i < 3; i++)
    { // keys from the model, not from the library: the parent stays cold
        Key9 K;
        U256 ks = sm9g1().N.red(u256_be(sim_data(100 + i * 16, 32).data()));
        K.ks.resize(32);
        u256_out(ks, K.ks.data());
        K.id = sim_data(7 + i * 16, 5 + i);
        Bytes z = K.id;
        z.push_back(1);
        const Mod& N = sm9g1().N;
        U256 h1 = sm9_h([](const u8* q, size_t n) { return sm3(q, n); }, 32, 1, z);
        U256 t1 = N.add(h1, ks), t2 = N.mul(ks, N.inv(t1));
        Pt   d = sm9g1().mul(t2, sm9g1().G);
        K.ux.resize(32), K.uy.resize(32);
        u256_out(d.x, K.ux.data()), u256_out(d.y, K.uy.data());
        Pt2 q = sm9_mul2(ks, sm9_P2());
        K.px = sm9_ser2(q.x), K.py = sm9_ser2(q.y);
        K9.push_back(K);
    }
}
i64 sd(Prng& r) { return (i64)r.below(1000000); }
void gen(Prng& r, Plan& p)
{
    static const i64 gaps[] = {0, 20, 100, 1000, 10000, 200000};
    p.add("cfg", {(i64)r.below(64), (i64)r.below(1000000000), gaps[r.below(6)], r.pick({0, 1, 2, 4, 16, 100})});
    int prof = (int)r.below(27);
    bool s2 = false, s9 = false, sp = false, sc = false;
    std::vector<i64> pal;
    if (prof == 0) pal = {5, 6, 5, 13}, s9 = r.chance(2, 3);
    else if (prof < 5) pal = {3, 4, 10}, s2 = r.chance(2, 3);
    else if (prof < 9) pal = {0, 1, 2, 9, 8, 14}, sp = true;
    else if (prof < 12) pal = {0, 1, 2, 3, 7, 9};
    else if (prof < 15) pal = {1, 2};
    else if (prof < 17) pal = {0, 9, 8}, sp = r.chance(1, 2);
    else if (prof < 18) pal = {7, 11, 12};
    else if (prof < 20) pal = {2}, sp = r.chance(1, 2);
    else if (prof < 24) pal = {0, 1, 2, 4, 7, 8, 11, 12, 14, 15}, s2 = sp = sc = true;
    else pal = {15, 15, 15, 1, 2}, sc = r.chance(3, 4);
    i64 cm = r.chance(1, 2) ? 255 : (i64)1 << r.below(8);
    if (s2) p.add("sh2", {sd(r)});
    if (s9) p.add("sh9", {sd(r)});
    if (sc) p.add("shc", {sd(r), cm});
    if (sp) p.add("shp", {sd(r), (i64)r.below(200), (i64)r.below(4)});
    i64 nt = r.range(2, prof == 0 ? 2 : 4), no = prof == 0 ? 1 : r.range(1, prof < 5 ? 2 : 4);
    // the same operation everywhere, or a mix
    bool same = r.chance(1, 3);
    i64  w0 = pal[r.below(pal.size())], a0 = sd(r), b0 = sd(r);
    if (sc && cm != 255 && r.chance(3, 4))
        for (a0 = 0; !(cm >> a0 & 1);) a0++;
    for (i64 t = 0; t < nt; t++)
        for (i64 k = 0; k < no; k++)
            p.add("t", {t, same ? w0 : pal[r.below(pal.size())], same ? a0 : sd(r), same ? b0 : sd(r), sd(r), r.chance(1, 3) ? (i64)r.below(1500) : (i64)r.below(200), r.pick({0, 0, 1, 7, 16, 17, 64, 100, 256})});
}
bool dir(size_t i, Plan& p)
{
    // the first use of every operation by two threads at once, both builds,
    // several schedules: nothing shared, nothing warmed up
    struct D
    {
        i64 what, a, b;
    };
    static const D ds[] = {{0, 0, 0}, {0, 1, 0}, {0, 2, 20}, {0, 4, 70}, {1, 0, 0}, {1, 0, 3}, {1, 1, 1}, {1, 1, 2}, {1, 2, 1}, {1, 3, 1}, {1, 4, 1}, {1, 0, 5}, {1, 0, 7}, {1, 4, 3},
                           {1, 2, 0}, {1, 2, 6}, {1, 0, 6}, {1, 1, 4}, {10, 0, 0}, {10, 1, 1}, {10, 1, 2}, {10, 3, 0}, {10, 4, 0}, {10, 5, 1}, {10, 6, 0}, {11, 0, 0}, {11, 1, 0}, {11, 2, 0}, {11, 3, 1},
                           {12, 0, 0}, {12, 3, 0}, {14, 0, 3}, {14, 1, 8}, {14, 2, 12}, {14, 4, 10}, {14, 3, 1}, {14, 4, 13}, {2, 0, 1}, {2, 1, 0}, {2, 2, 0}, {2, 3, 1}, {3, 1, 0}, {3, 3, 0}, {3, 4, 0}, {3, 12, 0}, {3, 16, 0}, {7, 0, 0}, {9, 0, 0}, {9, 2, 0}};
    const size_t nd = sizeof ds / sizeof *ds;
    static const i64 gaps[] = {50, 2000}, hots[] = {1, 3};
    if (i < nd * 4)
    {
        const D& d = ds[i % nd];
        size_t   k = i / nd;
        p.add("cfg", {(i64)k, (i64)i + 17, gaps[k / 2], hots[k / 2]});
        for (i64 t = 0; t < 2; t++)
            for (i64 n = 0; n < 2; n++) p.add("t", {t, d.what, d.a, d.b, (i64)i * 7 + t + n * 3 + 5, 80 + t * 30, n ? 17 : 0});
        return true;
    }
    i -= nd * 4;
    if (i < 32)
    { // one cipher object used by two threads at once; and two own ones
        p.add("cfg", {(i64)i % 4, (i64)i + 5, i % 3 ? 50 : 500, i % 2 ? 1 : 3});
        if (i % 4 != 3) p.add("shc", {(i64)i, (i64)1 << (i / 4)});
        for (i64 t = 0; t < 2; t++)
            for (i64 n = 0; n < 2; n++) p.add("t", {t, 15, (i64)i / 4, i % 4 == 3 ? 0 : n + 1, (i64)i * 13 + t * 2 + n, 8 + (i64)i % 11, n});
        return true;
    }
    i -= 32;
    if (i < 10)
    {
        p.add("cfg", {(i64)i % 4, (i64)i + 3, i % 3 ? 3000 : 300, i % 2 ? 2 : 5});
        for (i64 t = 0; t < 2; t++) p.add("t", {t, 13, (i64)(i % 5), (i64)(i / 5) + t * 2, (i64)i * 11 + t + 5, 20, 0});
        return true;
    }
    i -= 10;
    if (i < 12)
    { // SM9 from cold, and through shared keys
        p.add("cfg", {(i64)i % 2, (i64)i + 3, i % 3 ? 3000 : 300, i % 2 ? 2 : 5});
        bool shd = i >= 8;
        if (shd) p.add("sh9", {1});
        for (i64 t = 0; t < 2; t++) p.add("t", {t, shd ? 5 : 6, (i64)(i / 2), t, (i64)i * 11 + t + 5, 20, 0});
        return true;
    }
    return false;
}
Module m8("C08", gen, exec, dir, init);
} // namespace
