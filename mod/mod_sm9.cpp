// C14-C17: histories of SM9 master, public and user keys under scripted random
// streams, failing random devices, scripted digests and signatures that travel
// over a corrupting transport.  Oracle: GB/T 38635 arithmetic in ref/ (points
// are tracked with their discrete logarithms, so no pairing is needed).
#include "sm2world.h"
using namespace ref;

static std::vector<const Sm9Api*> A;
void sm9_init()
{
    A = collect_api<const Sm9Api*>("gm_api_sm9");
    for (auto a : A) a->set_digest_hook(digest_hook, nullptr);
}
namespace {
size_t dsz(int sh) { return sh == SH_S20 ? 20 : sh == SH_S48 ? 48 : sh == SH_S64 ? 64 : 32; }
Bytes raw_hash(int sh, const u8* p, size_t n)
{
    if (sh == SH_SM3) return sm3(p, n);
    Bytes d(dsz(sh));
    toy_hash(d.data(), 64, d.size(), p, n);
    return d;
}
HashFn hashfn(int sh)
{
    return [sh](const u8* p, size_t n) {
        Bytes d = raw_hash(sh, p, n);
        if (sh != SH_SM3 && g_over)
        {
            auto it = g_over->find(d);
            if (it != g_over->end()) d = it->second;
        }
        return d;
    };
}
const Mod& NN() { return sm9g1().N; }
U256 one() { return u256_addw(U256(), 1); }
U256 nmin(u64 k) { return u256_subw(NN().m, k); }
Bytes ub(const U256& a)
{
    Bytes b(32);
    u256_out(a, b.data());
    return b;
}
U256 addm(U256 a, const U256& m, bool* ovf)
{
    unsigned __int128 c = 0;
    for (int i = 0; i < 4; i++) c += (unsigned __int128)a.v[i] + m.v[i], a.v[i] = (u64)c, c >>= 64;
    *ovf = c != 0;
    return a;
}
U256 rnd_n(u64 seed)
{ // [1, N-1]
    U256 d = mix64(seed * 3 + 1) % 3 == 0 ? u256_tricky(NN(), mix64(seed) >> 8) : NN().red(u256_be(sim_data(seed * 5 + 11, 32).data()));
    return u256_zero(d) ? one() : d;
}
U256 keyval(int kind, u64 seed)
{
    switch (kind)
    {
        case 1: return U256();
        case 2: return one();
        case 3: return u256_addw(U256(), 2);
        case 4: return nmin(2);
        case 5: return nmin(1);
        case 6: return NN().m;
        case 7: return u256_addw(NN().m, 1);
        case 8: return u256_subw(U256(), 1);
        case 9: return nmin(3);
        case 10: return u256_addw(U256(), seed % 100000 + 1);
        case 11:
        {
            Bytes b = sim_data(seed, 32);
            memset(b.data(), 0xff, 8);
            return u256_be(b.data());
        }
        case 12:
        {
            U256 a;
            a.v[seed / 64 % 4] = 1ull << (seed % 64);
            return a;
        }
        case 13: return nmin(seed % 1000 + 1);
        case 14: return u256_addw(NN().m, seed % 1000);
        case 15: return u256_tricky(NN(), seed);
        case 16:
        {
            Bytes b = sim_data(seed, 32);
            memset(b.data(), 0, 1 + seed % 31);
            return u256_be(b.data());
        }
        default: return rnd_n(seed);
    }
}
bool good_priv(const U256& d) { return !u256_zero(d) && u256_cmp(d, NN().m) < 0; }
void arm(SimRng& r, int kind, u64 seed, i64 failat, int fkind)
{
    r.seed = seed * 37 + 6;
    r.fail_at = failat, r.fail_kind = fkind ? 2 : 1;
    r.bound = 300;
    if (kind >= 1 && kind < 17) r.script.push_back(ub(keyval(kind, seed)));
    if (kind >= 17 && kind < 33) r.script.push_back(ub(keyval(kind - 16, seed))), r.script.push_back(ub(keyval((int)(seed % 17), seed + 1)));
    if (kind == 0 && seed % 4 == 1) r.script.push_back(ub(rnd_n(seed)));
    if (kind == 33) r.script.push_back(Bytes(1, (u8)seed));
}
// pure functions of the key: cached
const Pt2& pub_of(const U256& ks)
{
    static std::map<Bytes, Pt2> m;
    Bytes k = ub(ks);
    auto  it = m.find(k);
    if (it != m.end()) return it->second;
    if (m.size() > 4000) m.clear();
    return m[k] = sm9_mul2(ks, sm9_P2());
}
// a key related to the one an object holds: kinds 40..47
static U256 related(int kind, const U256& k)
{
    const Mod& n = NN();
    static U256 lam;
    if (u256_zero(lam))
    { // a cube root of unity: [lam]P has the same y as P
        U256 e = u256_subw(n.m, 1), q;
        u64  rem = 0;
        for (int i = 3; i >= 0; i--)
        {
            unsigned __int128 t = ((unsigned __int128)rem << 64) | e.v[i];
            q.v[i] = (u64)(t / 3), rem = (u64)(t % 3);
        }
        for (u64 g = 2; rem == 0; g++)
        {
            U256 b = u256_addw(U256(), g), x = one();
            for (int i = 255; i >= 0; i--)
            {
                x = n.mul(x, x);
                if (q.v[i / 64] >> (i % 64) & 1) x = n.mul(x, b);
            }
            if (u256_cmp(x, one()) != 0)
            {
                lam = x;
                break;
            }
        }
    }
    switch (kind)
    {
        case 40:
        case 41: return n.neg(k); // same x
        case 42: return k;
        case 43: return n.mul(k, lam); // same y
        case 44: return n.neg(n.mul(k, lam));
        case 45: return n.add(k, k);
        case 46: return n.add(k, one());
        default: return n.mul(n.mul(k, lam), lam);
    }
}
struct Pk
{
    ISm9Pub* o = nullptr;
    bool     keyed = false;
    int      lib = 0;
    U256     ks;
};
struct Mk
{
    ISm9Master* o = nullptr;
    bool        keyed = false;
    int         lib = 0;
    U256        ks;
};
struct Uk
{
    ISm9User* o = nullptr;
    bool      keyed = false;
    int       lib = 0;
    U256      ks, a; // dsa = [a]P1
    Bytes     id;
    int       hid = -1;
};
struct Sig
{
    Bytes s, msg, id;
    int   hid = -1;
    U256  ks, dl; // S = [dl]P1, dl = 0 when unknown
};
const int NS = 4;
struct World
{
    Ctx&                   c;
    Pk                     P[NS];
    Mk                     M[NS];
    Uk                     U[NS];
    std::vector<Sig>       sigs;
    std::map<Bytes, Bytes> over;
    i64                    libbase = 0;
    int                    sh = 0;
    u32                    nforced = 0;
    // an ID whose H1 is about to be scripted has never been hashed before:
    // keys extracted earlier keep their meaning
    void fresh(Bytes& id)
    {
        u8 t[4] = {0xf1, 0x5a, (u8)(nforced >> 8), (u8)nforced};
        nforced++;
        id.insert(id.begin(), t, t + 4);
    }
    int                    lastlib = 0;
    explicit World(Ctx& c_) : c(c_)
    {
        g_over = &over;
        g_nest.clear();
        g_nest.fn = nested, g_nest.ctx = this;
    }
    // the random device or the hash, in the middle of an operation, itself uses SM9 with other objects
    static void nested(void* w, u64 seed) { ((World*)w)->nest(seed); }
    void        nest(u64 seed)
    {
        Mk  m;
        Uk  u;
        int rc;
        m.lib = lastlib, m.ks = rnd_n(seed % 40 + 200), m.keyed = true;
        Buf b(ub(m.ks));
        std::unique_ptr<ISm9Master> mo(A[m.lib]->make_master(sh, 1, b.d(), nullptr, nullptr, 7, &rc));
        if (!mo) c.fail("import-refused", "a master key was refused");
        m.o = mo.get();
        if (seed & 1) return mchk(m, seed);
        u.id = sim_data(seed, seed % 20);
        if (!extractable(m.ks, u.id, -1, u.a)) return;
        Buf    ib(u.id);
        SimRng r;
        ISm9User* nu = nullptr;
        rc = m.o->gen_user(&nu, ib.d(), ib.n, SimRng::gen, &r, -1, 3);
        std::unique_ptr<ISm9User> uo(nu);
        if (rc != RC_OK) c.fail("spurious-failure", "extraction failed (%s)", rcname(rc));
        u.o = nu, u.lib = m.lib, u.ks = m.ks, u.keyed = true;
        uchk(u, seed);
    }
    ~World()
    {
        g_nest.clear();
        for (auto& x : P) delete x.o;
        for (auto& x : M) delete x.o;
        for (auto& x : U) delete x.o;
        g_over = nullptr;
    }
    HashFn h() const { return hashfn(sh); }
    U256 H1(const Bytes& id, int hid) const
    {
        Bytes z = id;
        z.push_back((u8)(hid < 0 ? 1 : hid));
        return sm9_h(h(), dsz(sh), 1, z);
    }
    U256 H2(const Bytes& msg, const Bytes& w) const
    {
        Bytes z = msg;
        z.insert(z.end(), w.begin(), w.end());
        return sm9_h(h(), dsz(sh), 2, z);
    }
    // force Hn(tag, z) to t: t - 1 + j (N - 1) over 40 bytes
    void force(int tag, const Bytes& z, const U256& t, u64 j)
    {
        u8   ha[40] = {0};
        U256 v = u256_subw(t, 1), n1 = nmin(1);
        memcpy(ha + 8, ub(v).data(), 32);
        Bytes nb = ub(n1);
        // ha += j * (N-1)
        for (int y = 0; y < 8; y++)
        {
            u32 jb = (u8)(j >> (8 * y)), carry = 0;
            for (int w = 0; w + y < 40; w++)
            {
                u32 add = w < 32 ? jb * nb[31 - w] : 0;
                u32 s = ha[39 - w - y] + add + carry;
                ha[39 - w - y] = (u8)s;
                carry = s >> 8;
            }
        }
        force_raw(tag, z, ha);
    }
    void force_raw(int tag, const Bytes& z, const u8* ha)
    {
        size_t ds = dsz(sh), nb = (40 + ds - 1) / ds;
        Bytes  all(nb * ds, 0x5c);
        memcpy(all.data(), ha, 40);
        for (u32 ct = 1; ct <= nb; ct++)
        {
            Bytes b;
            b.push_back((u8)tag);
            b.insert(b.end(), z.begin(), z.end());
            for (int i = 0; i < 4; i++) b.push_back((u8)(ct >> (24 - 8 * i)));
            Bytes d = raw_hash(sh, b.data(), b.size());
            over[d] = Bytes(all.begin() + (ct - 1) * ds, all.begin() + ct * ds);
        }
    }
    void fault_rc(const SimRng& r, int rc, const char* what)
    {
        if (r.overrun) c.fail("no-progress", "%s drew more than %llu times from a live random device", what, (unsigned long long)r.bound);
        if (r.fired && rc == RC_OK) c.fail("fault-swallowed", "%s reported success although the random device failed at draw %lld", what, (long long)r.fail_at);
        if (r.fired) c.count("fault.rng-failure");
        if (!r.fired && rc != RC_OK) c.fail("spurious-failure", "%s failed (%s) although the random device worked", what, rcname(rc));
    }
    void expect_pub(ISm9Pub* o, const U256& ks, const char* what)
    {
        Buf x(64), y(64);
        if (o->get_pub(x.d(), y.d()) != RC_OK) c.fail("export-failed", "%s: get_pub raised", what);
        x.check(c, "get_pub x"), y.check(c, "get_pub y");
        const Pt2& q = pub_of(ks);
        expect_bytes(c, "wrong-public-key", what, x.d(), sm9_ser2(q.x).data(), 64);
        expect_bytes(c, "wrong-public-key", what, y.d(), sm9_ser2(q.y).data(), 64);
    }
    bool extractable(const U256& ks, const Bytes& id, int hid, U256& a)
    {
        U256 t = NN().add(NN().red(H1(id, hid)), ks);
        if (u256_zero(t)) return false;
        a = NN().mul(ks, NN().inv(t));
        return true;
    }
    void expect_user(ISm9User* o, const U256& ks, const U256& a, const char* what)
    {
        Buf x(32), y(32), px(64), py(64);
        if (o->get_priv(x.d(), y.d(), px.d(), py.d()) != RC_OK) c.fail("export-failed", "%s: get_priv raised", what);
        x.check(c, "x"), y.check(c, "y"), px.check(c, "px"), py.check(c, "py");
        Pt q = sm9g1().mul(a, sm9g1().G);
        expect_bytes(c, "wrong-user-key", what, x.d(), ub(q.x).data(), 32);
        expect_bytes(c, "wrong-user-key", what, y.d(), ub(q.y).data(), 32);
        const Pt2& s = pub_of(ks);
        expect_bytes(c, "wrong-public-key", what, px.d(), sm9_ser2(s.x).data(), 64);
        expect_bytes(c, "wrong-public-key", what, py.d(), sm9_ser2(s.y).data(), 64);
    }
    // GB/T 38635 verdict for a signature whose S is +-[dl]P1 when it decodes to
    // the tracked point; any other S is rejected (up to 2^-250)
    int oracle(const U256& ks, const Bytes& s, const Bytes& msg, const Bytes& id, int hid, const U256& dl)
    {
        if (s.size() < 32) return 0;
        U256 hh = u256_be(s.data());
        if (!good_priv(hh)) return 0;
        Pt     q;
        size_t used;
        if (sm9g1().decode(q, used, s.data() + 32, s.size() - 32) != 0 || used + 32 != s.size()) return 0;
        if (u256_zero(dl)) return 0;
        Pt   k = sm9g1().mul(dl, sm9g1().G);
        U256 a = dl;
        if (!(q.x == k.x)) return 0;
        if (!(q.y == k.y)) a = NN().neg(dl);
        U256 h1 = NN().red(H1(id, hid)), t = NN().add(h1, ks);
        if (u256_zero(t)) return -1; // not specified
        // w' = e(S, [h1+ks]P2) g^(ks h)
        U256 e = NN().add(NN().mul(a, t), NN().mul(ks, hh));
        Bytes w = sm9_ser12(sm9_gpow(e));
        return H2(msg, w) == hh;
    }
    template <class O>
    void lib_verify(O* o, const Bytes& sig, const Bytes& msg, const Bytes& id, int hid, int want, const char* what)
    {
        Buf  s(sig), m(msg), i(id);
        bool ok = false;
        int  rc = o->verify(&ok, s.d(), s.n, m.d(), m.n, i.d(), i.n, hid);
        if (rc != RC_OK) c.fail("verify-threw", "%s: verify raised %s", what, rcname(rc));
        if (!s.intact() || !m.intact() || !i.intact()) c.fail("wild-write", "verify wrote outside");
        if (want >= 0 && ok != (want != 0))
            c.fail(want ? "valid-refused" : "invalid-accepted", "%s: verify returned %s, GB/T 38635 says %s (sig %s)", what, ok ? "true" : "false", want ? "valid" : "invalid", hexs(sig).c_str());
    }
    bool do_sign(Uk& u, Sig& g, SimRng& r, int pc, const char* what);
    void op_mnew(const Op& p);
    void op_ext(const Op& p);
    void op_upo(const Op& p);
    void op_uset(const Op& p);
    void op_sign(const Op& p);
    void op_dep(const Op& p);
    void op_huge(const Op& p);
    void op_ver(const Op& p);
    void adopt(Mk& m);
    void mchk(Mk& m, u64 seed);
    void uchk(Uk& u, u64 seed);
    void pchk(Pk& k, u64 seed);
    Sig  ref_sign(const U256& ks, u64 seed, int pc);
};
Sig World::ref_sign(const U256& ks, u64 seed, int pc)
{
    Sig g;
    g.msg = sim_data(seed, seed % 60), g.id = sim_data(seed + 1, seed % 20), g.hid = seed % 3 ? -1 : (int)(seed % 256);
    if (seed % 4 < 3) g.id = {'A', (u8)('0' + seed % 4 / 2)}, g.hid = -1; // users met again and again by every key object
    g.ks = ks;
    U256 a;
    if (!extractable(ks, g.id, g.hid, a)) return g;
    U256 r = rnd_n(seed + 2), hh, l;
    for (;; r = NN().add(r, one()))
    {
        if (u256_zero(r)) continue;
        hh = H2(g.msg, sm9_ser12(sm9_gpow(NN().mul(ks, r))));
        l = NN().sub(r, NN().red(hh));
        if (!u256_zero(l)) break;
    }
    g.dl = NN().mul(l, a);
    g.s = ub(hh);
    Bytes e = sm9g1().encode(sm9g1().mul(g.dl, sm9g1().G), pc);
    g.s.insert(g.s.end(), e.begin(), e.end());
    return g;
}
void World::adopt(Mk& m)
{
    Buf k(32);
    m.o->get_priv(k.d());
    k.check(c, "get_priv");
    m.ks = u256_be(k.d());
    if (!good_priv(m.ks)) c.fail("key-range", "generated master key %s is outside [1, N-1]", hexs(k.d(), 32).c_str());
    m.keyed = true;
    std::unique_ptr<ISm9Pub> p(m.o->fetch_pub());
    expect_pub(p.get(), m.ks, "public key of a generated master key");
    c.bytes(k.d(), 32);
}
void World::op_mnew(const Op& p)
{ // s lib how kind seed fill failat fk
    Mk& m = M[(u64)p.at(0) % NS];
    delete m.o;
    m = Mk();
    m.lib = (int)nlib(libbase + p.at(1));
    int how = (int)p.at(2), rc;
    c.log("mnew lib=%s how=%d kind=%d", g_libs[m.lib].name.c_str(), how, (int)p.at(3));
    c.count("op.mnew");
    SimRng r;
    if (how == 1)
    {
        U256 ks = keyval((int)p.at(3), (u64)p.at(4));
        Buf  b(ub(ks));
        m.o = A[m.lib]->make_master(sh, 1, b.d(), nullptr, nullptr, (u32)p.at(5), &rc);
        if ((m.o != nullptr) != good_priv(ks)) c.fail("import-range", "constructing from master key %s: %s", hexs(ub(ks)).c_str(), m.o ? "accepted" : "refused");
        m.ks = ks, m.keyed = m.o != nullptr;
        return;
    }
    arm(r, (int)p.at(3), (u64)p.at(4), p.at(6, -1), (int)p.at(7));
    scribble((u64)p.at(4));
    m.o = A[m.lib]->make_master(sh, how, nullptr, SimRng::gen, &r, (u32)p.at(5), &rc);
    if (how == 0) return;
    fault_rc(r, rc, "constructing a master key from a random device");
    if (m.o) adopt(m);
}
void World::op_ext(const Op& p)
{ // m u idseed idlen hid spec seed fill
    Mk& m = M[(u64)p.at(0) % NS];
    Uk& u = U[(u64)p.at(1) % NS];
    if (!m.o || !m.keyed) return;
    Bytes id = sim_data((u64)p.at(2), (size_t)p.at(3));
    int   hid = (int)p.at(4), spec = sh ? (int)p.at(5) : 0;
    u64   seed = (u64)p.at(6);
    if (spec) fresh(id);
    Bytes z = id;
    z.push_back((u8)(hid < 0 ? 1 : hid));
    if (spec == 1) force(1, z, NN().neg(m.ks), seed);
    if (spec == 2)
    {
        u8 ha[40];
        Bytes rb = sim_data(seed, 40);
        memcpy(ha, rb.data(), 40);
        if (seed % 4 == 0) memset(ha, 0xff, 40);
        if (seed % 4 == 1) memset(ha, 0, 40);
        if (seed % 4 == 2) memset(ha, 0xff, 8 + seed % 32);
        force_raw(1, z, ha);
    }
    if (spec == 3) force(1, z, keyval(1 + (int)(seed % 16), seed / 16).v[0] ? NN().red(keyval(1 + (int)(seed % 16), seed / 16)) : one(), seed);
    if (spec == 4) force(1, z, m.ks, seed % 3 ? seed : 0); // [h1]P2 = Ppub
    U256 a;
    bool ok = extractable(m.ks, id, hid, a);
    SimRng r;
    r.seed = seed;
    Buf  ib(id);
    ISm9User* nu = nullptr;
    int  rc = m.o->gen_user(&nu, ib.d(), ib.n, SimRng::gen, &r, hid, (u32)p.at(7));
    ib.check(c, "id");
    c.log("ext lib=%s idlen=%zu hid=%d spec=%d rc=%d", g_libs[m.lib].name.c_str(), id.size(), hid, spec, rc);
    c.count("op.extract");
    if (spec) c.count("digest.h1-forced");
    if (!ok)
    {
        c.count("reach.h1-plus-ks-zero");
        if (rc == RC_OK)
        {
            delete nu;
            c.fail("impossible-extraction", "a user key was extracted although H1(ID||hid) + ks = 0");
        }
        mchk(m, seed);
        // re-generating the master key makes the ID extractable again
        SimRng g;
        arm(g, 0, seed, -1, 0);
        if (m.o->gen_priv(SimRng::gen, &g) != RC_OK) c.fail("spurious-failure", "gen_priv failed");
        adopt(m);
        if (!extractable(m.ks, id, hid, a)) return;
        rc = m.o->gen_user(&nu, ib.d(), ib.n, SimRng::gen, &r, hid, (u32)p.at(7));
    }
    if (rc != RC_OK) c.fail("spurious-failure", "extraction failed (%s)", rcname(rc));
    delete u.o;
    u = Uk();
    u.o = nu, u.lib = m.lib, u.ks = m.ks, u.a = a, u.keyed = true, u.id = id, u.hid = hid;
    expect_user(u.o, u.ks, u.a, "extracted user key");
    c.nontrivial++;
    c.state(hcomb(hcomb(m.lib * 8 + sh, spec), hcomb(size_class(id.size()), (u64)hid)));
}
bool World::do_sign(Uk& u, Sig& g, SimRng& r, int pc, const char* what)
{
    Buf    sig(97), m(g.msg);
    size_t sl = 0xabcdef;
    scribble(r.seed);
    int rc = u.o->sign(sig.d(), &sl, m.d(), m.n, SimRng::gen, &r, pc);
    sig.check(c, "signature"), m.check(c, "message");
    fault_rc(r, rc, what);
    if (rc != RC_OK) return false;
    if (r.calls == 0) c.fail("rng-unused", "sign did not draw from the random device");
    size_t want = pc == 1 ? 65 : 97;
    if (sl != want) c.fail("wrong-length", "%s: reported %zu bytes, the format has %zu", what, sl, want);
    if (pc == 1)
        for (size_t i = 65; i < 97; i++)
            if (sig.d()[i] != 0xEE) c.fail("wild-write", "%s: wrote beyond the compressed signature", what);
    g.s = Bytes(sig.d(), sig.d() + sl);
    g.ks = u.ks, g.id = u.id, g.hid = u.hid, g.dl = U256();
    const Curve& C = sm9g1();
    Pt     q;
    size_t used = 0;
    U256   hh = u256_be(g.s.data());
    if (!good_priv(hh)) c.fail("signature-range", "%s: h outside [1, N-1]", what);
    if (C.decode(q, used, &g.s[32], sl - 32) || used != sl - 32 || C.encode(q, pc < 0 ? 0 : pc) != Bytes(g.s.begin() + 32, g.s.end()))
        c.fail("signature-invalid", "%s: S is not the announced point format: %s", what, hexs(&g.s[32], sl - 32).c_str());
    // find the nonce among the ways 32 served bytes are usually mapped; then among what others were served
    size_t own = r.served.size(), all = own + (g_nest.in ? 0 : g_nest.served.size());
    for (size_t k = 0; k < all && u256_zero(g.dl); k++)
    {
        const Bytes& sv = k < own ? r.served[own - 1 - k] : g_nest.served[k - own];
        if (sv.size() != 32) continue;
        U256 b = u256_be(sv.data()), n1 = nmin(1);
        U256 cand[2] = {u256_cmp(b, n1) >= 0 ? u256_sub(b, n1) : b, b};
        if (u256_cmp(cand[0], n1) >= 0) cand[0] = u256_sub(cand[0], n1);
        cand[0] = u256_addw(cand[0], 1);
        for (auto& rr : cand)
        {
            if (!good_priv(rr)) continue;
            U256 h2 = H2(g.msg, sm9_ser12(sm9_gpow(NN().mul(u.ks, rr))));
            if (!(h2 == hh)) continue;
            U256 l = NN().sub(rr, NN().red(h2));
            if (k >= own) c.fail("nonce-reuse", "%s: the nonce comes from what the random device delivered to another signature", what);
            if (u256_zero(l)) c.fail("signature-invalid", "%s: l = 0", what);
            g.dl = NN().mul(l, u.a);
            Pt S = C.mul(g.dl, C.G);
            if (!(S.x == q.x && S.y == q.y)) c.fail("signature-invalid", "%s: S is not [r - h]dsa for the nonce used", what);
            c.count("oracle.nonce-known");
            break;
        }
    }
    if (u256_zero(g.dl))
    { // another mapping from random bytes to nonces: fall back on verification
        c.count("oracle.verify-only");
        for (size_t l = 0; l < A.size(); l++)
        {
            std::unique_ptr<ISm9Pub> pk(A[l]->make_pub(sh, 5));
            Buf x(sm9_ser2(pub_of(u.ks).x)), y(sm9_ser2(pub_of(u.ks).y));
            pk->set_pub(x.d(), y.d());
            lib_verify(pk.get(), g.s, g.msg, g.id, g.hid, 1, what);
        }
    }
    c.bytes(g.s.data(), g.s.size());
    return true;
}
void World::op_sign(const Op& p)
{ // u mseed mlen pc stream seed failat fk spec
    Uk& u = U[(u64)p.at(0) % NS];
    if (!u.o || !u.keyed) return;
    Sig g;
    g.msg = sim_data((u64)p.at(1), (size_t)p.at(2));
    int pc = (int)(p.at(3) % 4) - 1, spec = sh ? (int)p.at(8) : 0;
    SimRng r;
    arm(r, (int)p.at(4), (u64)p.at(5), p.at(6, -1), (int)p.at(7));
    c.log("sign lib=%s sh=%d mlen=%zu pc=%d stream=%d fail=%lld spec=%d", g_libs[u.lib].name.c_str(), sh, g.msg.size(), pc, (int)p.at(4), (long long)p.at(6, -1), spec);
    c.count("op.sign");
    c.count(std::string("stream.kind") + std::to_string(p.at(4)));
    if (spec == 1)
    { // force l = 0 for the first nonce
        SimRng r0;
        arm(r0, (int)p.at(4), (u64)p.at(5), -1, 0);
        if (!do_sign(u, g, r0, pc, "sign")) return;
        if (u256_zero(g.dl)) return; // nonce not known to the model
        U256 l = NN().mul(g.dl, NN().inv(u.a)), h0 = u256_be(g.s.data()), rr = NN().add(l, NN().red(h0));
        Bytes z = g.msg, w = sm9_ser12(sm9_gpow(NN().mul(u.ks, rr)));
        z.insert(z.end(), w.begin(), w.end());
        force(2, z, rr, (u64)p.at(5) % 3);
        bool ok = do_sign(u, g, r, pc, "sign with l = 0 at the first nonce");
        c.count("retry.l0");
        if (ok && r.calls <= r0.calls) c.fail("bad-nonce-kept", "no new draw after l = 0");
        if (!ok)
        {
            uchk(u, 5);
            return;
        }
    }
    else
    {
        if (spec == 2)
        { // boundary values of h
            SimRng r0;
            arm(r0, (int)p.at(4), (u64)p.at(5), -1, 0);
            if (!do_sign(u, g, r0, pc, "sign")) return;
            if (u256_zero(g.dl)) return;
            U256 l = NN().mul(g.dl, NN().inv(u.a)), rr = NN().add(l, NN().red(u256_be(g.s.data())));
            Bytes z = g.msg, w = sm9_ser12(sm9_gpow(NN().mul(u.ks, rr)));
            z.insert(z.end(), w.begin(), w.end());
            u64 sd = (u64)p.at(5);
            U256 t = NN().red(keyval((int)(sd % 17), sd));
            if (u256_zero(t)) t = one();
            if (sd % 5 == 0)
            {
                u8 ha[40];
                memset(ha, sd % 2 ? 0xff : 0, 40);
                force_raw(2, z, ha);
            }
            else force(2, z, t, sd % 2 ? ~0ull >> (sd % 9) : 0);
            c.count("digest.h2-forced");
        }
        if (!do_sign(u, g, r, pc, "sign"))
        {
            uchk(u, (u64)p.at(5));
            return;
        }
    }
    c.nontrivial++;
    c.state(hcomb(hcomb(u.lib * 8 + sh, (u64)p.at(4)), hcomb(pc + 1, size_class(g.msg.size()))));
    lib_verify(u.o, g.s, g.msg, g.id, g.hid, 1, "own signature");
    if (sigs.size() > 8) sigs.erase(sigs.begin());
    sigs.push_back(g);
    if (p.at(6, -1) >= 0)
    {
        SimRng r2;
        arm(r2, (int)p.at(4), (u64)p.at(5), -1, 0);
        Sig g2 = g;
        do_sign(u, g2, r2, pc, "sign");
        if (g2.s != g.s) c.fail("sign-not-repeatable", "the same key, message and random stream gave two signatures");
    }
}
// identities and messages whose lengths a narrower integer would mistake for another one
void World::op_huge(const Op& p)
{ // kslot idlen msglen seed
    const u64 il = (u64)p.at(1), ml = (u64)p.at(2), sd = (u64)p.at(3);
    if (sh == SH_SM3) sh = SH_S32;
    size_t L = 0;
    for (size_t k = 0; k < A.size(); k++)
        if (g_libs[k].name.find("asan") == std::string::npos && (!L || k % 2 == sd % 2)) L = k;
    U256 ks = rnd_n(sd + 70);
    Bytes kb = ub(ks);
    int rc = 0;
    std::unique_ptr<ISm9Master> m(A[L]->make_master(sh, 1, kb.data(), nullptr, nullptr, 0, &rc));
    Huge id(il + 64, false), msg(ml + 64, false);
    if (!m || !id.p || !msg.p) return;
    SimRng r;
    ISm9User* up = nullptr;
    rc = m->gen_user(&up, id.p, (size_t)il, SimRng::gen, &r, -1, 3);
    std::unique_ptr<ISm9User> u(up);
    c.log("extract for an ID of %llu bytes: rc=%d", (unsigned long long)il, rc);
    if (rc != RC_OK || !u) c.fail("spurious-failure", "extraction for an ID of %llu bytes failed (%s)", (unsigned long long)il, rcname(rc));
    Buf    sig(97);
    size_t sl = 0;
    rc = u->sign(sig.d(), &sl, msg.p, (size_t)ml, SimRng::gen, &r, 0);
    if (rc != RC_OK || sl > 97) c.fail("spurious-failure", "signing %llu bytes failed (%s)", (unsigned long long)ml, rcname(rc));
    c.bytes(sig.d(), sl);
    std::unique_ptr<ISm9Pub> own(m->fetch_pub());
    auto ver = [&](ISm9Pub* q, u64 i, u64 n, const char* who) {
        bool ok = false;
        Huge i2(i + 64, false), m2(n + 64, false);
        if (!i2.p || !m2.p) return;
        int v = q->verify(&ok, sig.d(), sl, m2.p, (size_t)n, i2.p, (size_t)i, -1);
        bool want = i == il && n == ml;
        if (v != RC_OK || ok != want)
            c.fail(want ? "valid-refused" : "invalid-accepted", "%s: a signature over %llu bytes for an ID of %llu bytes was %s for %llu bytes and an ID of %llu", who,
                   (unsigned long long)ml, (unsigned long long)il, ok ? "accepted" : "refused", (unsigned long long)n, (unsigned long long)i);
    };
    ver(own.get(), il, ml, "own key");
    for (u64 mask : {0xffffffffull, 0x7fffffffull, 0x1fffffffull, 0xffffull, 0xffull})
    {
        ver(own.get(), il & mask, ml, "own key");
        ver(own.get(), il, ml & mask, "own key");
    }
    ver(own.get(), il + (1ull << 32), ml, "own key");
    ver(own.get(), il, ml + (1ull << 32), "own key");
    if (il < ml) ver(own.get(), il + 65536, ml, "own key");
    Buf x(64), y(64);
    own->get_pub(x.d(), y.d());
    for (size_t k = 0; k < A.size(); k++)
    {
        if (g_libs[k].name.find("asan") != std::string::npos) continue;
        std::unique_ptr<ISm9Pub> q(A[k]->make_pub(sh, 0));
        if (q->set_pub(x.d(), y.d()) == RC_OK) ver(q.get(), il, ml, g_libs[k].name.c_str());
    }
    c.count("length.beyond-2^32");
    c.nontrivial++;
}
void World::op_dep(const Op& p)
{ // u mseed sseed bit
    Uk& u = U[(u64)p.at(0) % NS];
    if (!u.o || !u.keyed) return;
    Sig a, b;
    a.msg = b.msg = sim_data((u64)p.at(1), (size_t)(p.at(1) % 100));
    SimRng ra, rb;
    ra.seed = rb.seed = (u64)p.at(2);
    Bytes f = sim_data((u64)p.at(2) + 9, 32);
    f[0] &= 0x7f;
    ra.script.push_back(f);
    size_t bit = (size_t)((u64)p.at(3) % 255) + 1;
    f[bit / 8] ^= 0x80 >> (bit % 8);
    rb.script.push_back(f);
    c.count("op.dep");
    c.log("dep bit=%zu", bit);
    i64 na = g_nest.at;
    if (!do_sign(u, a, ra, 0, "sign")) return;
    if (na >= 0) g_nest.at = na; // the same use of the library by the device, both times
    g_nest.served.clear();
    if (!do_sign(u, b, rb, 0, "sign")) return;
    if (a.s == b.s) c.fail("nonce-reuse", "random streams that differ in bit %zu of the first draw gave the same nonce", bit);
    c.nontrivial++;
}
void World::op_ver(const Op& p)
{ // who(pub 0..3 | user 4..7) sigidx kind a b
    int who = (int)((u64)p.at(0) % (2 * NS)), kind = (int)p.at(2);
    u64 a = (u64)p.at(3), b = (u64)p.at(4);
    Pk* pk = who < NS ? &P[who] : nullptr;
    Uk* uk = who >= NS ? &U[who - NS] : nullptr;
    if (pk ? !pk->o || !pk->keyed : !uk->o || !uk->keyed) return;
    U256 ks = pk ? pk->ks : uk->ks;
    const Curve& C = sm9g1();
    Sig  g;
    if (!sigs.empty()) g = sigs[(u64)p.at(1) % sigs.size()];
    if (g.s.empty() || (kind < 30 && kind != 23 && !(g.ks == ks))) g = ref_sign(ks, a % 100000 + 7, (int)(b % 3));
    if (g.s.empty()) return;
    bool ovf;
    static const char* names[] = {"genuine",   "bit flip",   "truncated",   "extended", "message flip", "other id",   "other hid",      "format byte",       "re-formatted",    "non-canonical x",
                                  "non-canonical y", "S negated", "h=0",         "h=N",      "h+N",          "garbage",    "short",          "S zero",            "off-curve",       "chosen h and S",
                                  "h off by one",    "h1=ks",     "wrong parity", "other key", "h boundary",   "S replaced", "cut at a boundary", "byte removed"};
    auto reenc = [&](int pc) {
        Pt q;
        size_t u;
        if (C.decode(q, u, &g.s[32], g.s.size() - 32)) return;
        Bytes e = C.encode(q, pc);
        g.s.resize(32);
        g.s.insert(g.s.end(), e.begin(), e.end());
    };
    switch (kind)
    {
        case 1: g.s[a % g.s.size()] ^= 1 << (b % 8); break;
        case 2: g.s.resize(a % g.s.size()); break;
        case 3:
        {
            Bytes e = sim_data(b, a % 40 + 1);
            g.s.insert(g.s.end(), e.begin(), e.end());
            break;
        }
        case 4:
            if (g.msg.empty()) g.msg.push_back((u8)a);
            else if (b & 8) sim_vary(g.msg, a);
            else g.msg[a % g.msg.size()] ^= 1 << (b % 8);
            break;
        case 5:
            if (b & 8 && !g.id.empty()) sim_vary(g.id, a);
            else if (b & 1 || g.id.empty()) g.id.push_back((u8)a);
            else if (b & 2) g.id.pop_back();
            else g.id[a % g.id.size()] ^= 1 << (b % 8);
            break;
        case 6: g.hid = ((g.hid < 0 ? 1 : g.hid) + 1 + (int)(a % 255)) % 256; break;
        case 7: g.s[32] = (u8)(b % 3 ? a % 9 : a); break;
        case 8: reenc((int)(a % 3)); break;
        case 9:
        {
            reenc((int)(a % 3));
            U256 x = addm(u256_be(&g.s[33]), C.P.m, &ovf);
            if (ovf) return;
            u256_out(x, &g.s[33]);
            break;
        }
        case 10:
        {
            reenc(a % 2 ? 0 : 2);
            U256 y = addm(u256_be(&g.s[65]), C.P.m, &ovf);
            if (ovf) return;
            u256_out(y, &g.s[65]);
            if (a % 2 == 0) g.s[32] = 6 + (y.v[0] & 1); // parity of the shifted value
            break;
        }
        case 11:
            if (g.s.size() == 65) g.s[32] ^= 1;
            else
            {
                u256_out(C.P.neg(u256_be(&g.s[65])), &g.s[65]);
                if (g.s[32] != 4) g.s[32] ^= 1;
            }
            break;
        case 12: memset(&g.s[0], 0, 32); break;
        case 13: memcpy(&g.s[0], ub(NN().m).data(), 32); break;
        case 14:
        {
            U256 v = addm(u256_be(&g.s[0]), NN().m, &ovf);
            if (ovf) return;
            u256_out(v, &g.s[0]);
            break;
        }
        case 15:
            g.s = sim_data(b, a % 130);
            if (g.s.size() > 32 && b % 4) g.s[32] = (u8)(2 + b % 6);
            break;
        case 16: g.s.resize(a % 34); break;
        case 17: memset(&g.s[32 + a % 2], 0, g.s.size() - 32 - a % 2); break;
        case 18: g.s[33 + a % 32] ^= 1 << (b % 8); break;
        case 19:
        case 20:
        case 24:
        {
            if (!sh) return;
            U256 hh = kind == 24 ? NN().red(keyval((int)(a % 17), b)) : rnd_n(a + 1), al = NN().red(keyval((int)(b % 17), a));
            if (u256_zero(hh)) hh = one();
            if (u256_zero(al)) al = one();
            g.dl = al;
            U256 t = NN().add(NN().red(H1(g.id, g.hid)), ks);
            if (u256_zero(t)) return;
            Bytes w = sm9_ser12(sm9_gpow(NN().add(NN().mul(al, t), NN().mul(ks, hh)))), z = g.msg;
            z.insert(z.end(), w.begin(), w.end());
            force(2, z, hh, b % 7 ? 0 : b);
            if (kind == 20) hh = u256_cmp(hh, one()) > 0 ? u256_subw(hh, 1) : u256_addw(hh, 1);
            g.s = ub(hh);
            Bytes e = C.encode(C.mul(al, C.G), (int)(a % 3));
            g.s.insert(g.s.end(), e.begin(), e.end());
            break;
        }
        case 21:
        { // [h1]P2 = Ppub, or = -Ppub
            if (!sh) return;
            g.id = sim_data(a, 5 + a % 9);
            fresh(g.id);
            g.hid = -1;
            Bytes z = g.id;
            z.push_back(1);
            force(1, z, b % 5 ? ks : NN().neg(ks), b % 3 ? 0 : b);
            U256 t = NN().add(NN().red(H1(g.id, g.hid)), ks), hh = rnd_n(b), al = rnd_n(a);
            g.dl = al;
            g.ks = ks;
            Bytes w = sm9_ser12(sm9_gpow(NN().add(NN().mul(al, t), NN().mul(ks, hh)))), zz = g.msg;
            zz.insert(zz.end(), w.begin(), w.end());
            force(2, zz, hh, 0);
            g.s = ub(hh);
            Bytes e = C.encode(C.mul(al, C.G), (int)(a % 3));
            g.s.insert(g.s.end(), e.begin(), e.end());
            break;
        }
        case 22: reenc(2), g.s[32] ^= 1; break;
        case 25:
        {
            reenc((int)(a % 3));
            Pt q = C.mul(rnd_n(b), C.G);
            Bytes e = C.encode(q, g.s.size() == 65 ? 1 : 0);
            g.s.resize(32);
            g.s.insert(g.s.end(), e.begin(), e.end());
            break;
        }
        case 26:
        {
            static const size_t cut[] = {0, 31, 32, 33, 34, 64, 65, 66, 96};
            size_t n = cut[a % 9];
            if (n < g.s.size()) g.s.resize(n);
            break;
        }
        case 27: g.s.erase(g.s.begin() + a % g.s.size()); break;
        default: break;
    }
    int want = oracle(ks, g.s, g.msg, g.id, g.hid, g.dl);
    // a genuine signature of another key: the tracked point still decides
    c.log("ver kind=%d who=%d want=%d", kind, who, want);
    c.count("op.ver");
    c.count(std::string("sigfault.") + (kind < 28 ? names[kind] : "?"));
    c.count(want == 1 ? "oracle.valid" : want ? "oracle.unspecified" : "oracle.invalid");
    if (pk) lib_verify(pk->o, g.s, g.msg, g.id, g.hid, want, kind < 28 ? names[kind] : "?");
    else lib_verify(uk->o, g.s, g.msg, g.id, g.hid, want, kind < 28 ? names[kind] : "?");
    c.nontrivial++;
    c.state(hcomb(hcomb((pk ? pk->lib : uk->lib) * 8 + sh, kind), hcomb((u64)want, g.s.size())));
}
void World::op_upo(const Op& p)
{ // u v lib: export user u, import into a fresh object v of another build
    Uk& u = U[(u64)p.at(0) % NS];
    Uk& v = U[(u64)p.at(1) % NS];
    if (!u.o || !u.keyed) return;
    int lib = (int)nlib(libbase + p.at(2));
    Buf x(32), y(32), px(64), py(64);
    u.o->get_priv(x.d(), y.d(), px.d(), py.d());
    std::unique_ptr<ISm9User> o(A[lib]->make_user(sh, (u32)p.at(3)));
    int rc = o->set_priv(x.d(), y.d(), px.d(), py.d());
    c.count("op.export-import");
    if (rc != RC_OK) c.fail("import-refused", "an exported user key was refused on import (%s)", rcname(rc));
    if (&u != &v) delete v.o;
    else delete u.o;
    Uk t = u;
    t.o = o.release(), t.lib = lib;
    v = t;
    uchk(v, (u64)p.at(3));
}
void World::op_uset(const Op& p)
{ // u kind seed: replace the key by bytes of this kind
    Uk& u = U[(u64)p.at(0) % NS];
    if (!u.o) return;
    int kind = (int)p.at(1);
    u64 seed = (u64)p.at(2);
    U256  ks = rnd_n(seed % 50 + 900), a;
    Bytes id = sim_data(seed, 6);
    int   hid = -1;
    if (kind >= 40 && u.keyed)
    { // another system with a related master key, or another user of the same system
        c.count("key.related");
        ks = related(kind, u.ks);
        if (kind != 42 || seed % 2) id = u.id, hid = u.hid;
    }
    if (!good_priv(ks) || !extractable(ks, id, hid, a)) return;
    Pt  d = sm9g1().mul(a, sm9g1().G);
    Pt2 q = pub_of(ks);
    bool good = true;
    if (kind == 1 || kind == 3) d.y.v[seed % 4] ^= 1ull << (seed / 4 % 56), good = false;
    if (kind == 2 || kind == 3) (seed % 2 ? q.x.c0 : q.y.c1).v[seed / 2 % 4] ^= 1ull << (seed / 8 % 56), good = false;
    if (kind == 4) d.x = U256(), d.y = U256(), good = false;
    if (kind == 5) q.x = Fp2(), q.y = Fp2(), good = false;
    if (kind == 6) std::swap(d.x, d.y), good = false;
    if (kind == 7) std::swap(q.x, q.y), good = false;
    if (kind == 8) std::swap(q.x.c0, q.x.c1), good = false;
    if (kind == 9) d.x.v[seed % 4] ^= 1ull << (seed / 4 % 56), good = false;
    if (!good && sm9g1().on(d) && sm9_on2(q)) return; // still keys by accident: not meaningful
    Buf x(ub(d.x)), y(ub(d.y)), px(sm9_ser2(q.x)), py(sm9_ser2(q.y));
    int rc = u.o->set_priv(x.d(), y.d(), px.d(), py.d());
    c.log("uset kind=%d rc=%d", kind, rc);
    c.count("op.uset");
    if ((rc == RC_OK) != good) c.fail("import-range", "user set_priv kind %d: %s", kind, rc == RC_OK ? "accepted" : "refused");
    if (good) u.keyed = true, u.ks = ks, u.a = a, u.id = id, u.hid = hid;
    else c.count("fault.rejected-import");
    c.nontrivial++;
    if (u.keyed) uchk(u, seed);
}
void World::mchk(Mk& m, u64 seed)
{
    if (!m.o || !m.keyed) return;
    c.count("op.chk");
    Buf k(32);
    m.o->get_priv(k.d());
    expect_bytes(c, "wrong-private-key", "exported master key", k.d(), ub(m.ks).data(), 32);
    std::unique_ptr<ISm9Pub> p(m.o->fetch_pub());
    expect_pub(p.get(), m.ks, "public key of the master key");
    Sig g = ref_sign(m.ks, seed, (int)(seed % 3));
    if (!g.s.empty()) lib_verify(p.get(), g.s, g.msg, g.id, g.hid, 1, "reference signature checked by a copy of the master's public key");
    if (!g.s.empty()) lib_verify(m.o, g.s, g.msg, g.id, g.hid, 1, "reference signature checked by the master's own public key");
    if (!g.s.empty() && seed % 5 == 0)
    {
        Bytes bad = g.s;
        bad[seed % 32] ^= (u8)(1 << seed / 32 % 8);
        lib_verify(m.o, bad, g.msg, g.id, g.hid, oracle(m.ks, bad, g.msg, g.id, g.hid, g.dl), "damaged signature checked by the master's own public key");
    }
    Bytes id = sim_data(seed + 3, seed % 30);
    U256  a;
    SimRng r;
    if (seed & 1 && extractable(m.ks, id, -1, a))
    {
        ISm9User* u = nullptr;
        Buf ib(id);
        int rc = m.o->gen_user(&u, ib.d(), ib.n, SimRng::gen, &r, -1, 3);
        std::unique_ptr<ISm9User> own(u);
        if (rc != RC_OK) c.fail("spurious-failure", "extraction failed (%s)", rcname(rc));
        expect_user(u, m.ks, a, "extracted user key");
    }
    c.nontrivial++;
}
void World::uchk(Uk& u, u64 seed)
{
    if (!u.o || !u.keyed) return;
    c.count("op.chk");
    expect_user(u.o, u.ks, u.a, "user key");
    Sig g;
    g.msg = sim_data(seed, seed % 50);
    SimRng r;
    arm(r, 0, seed, -1, 0);
    do_sign(u, g, r, (int)(seed % 4) - 1, "sign");
    std::unique_ptr<ISm9Pub> p(u.o->fetch_pub());
    expect_pub(p.get(), u.ks, "public key held by the user key");
    if (seed & 1) lib_verify(p.get(), g.s, g.msg, g.id, g.hid, 1, "own signature checked by the fetched public key");
    else lib_verify(u.o, g.s, g.msg, g.id, g.hid, 1, "own signature");
    c.nontrivial++;
}
void World::pchk(Pk& k, u64 seed)
{
    if (!k.o || !k.keyed) return;
    c.count("op.chk");
    expect_pub(k.o, k.ks, "public key");
    Sig g = ref_sign(k.ks, seed, (int)(seed % 3));
    if (!g.s.empty()) lib_verify(k.o, g.s, g.msg, g.id, g.hid, 1, "reference signature");
    c.nontrivial++;
}
} // namespace
void sm9_exec(const Plan& p, Ctx& c)
{
    World w(c);
    for (auto& op : p.ops)
    {
        c.st->steps++;
        u64 s = (u64)op.at(0) % NS, t = (u64)op.at(1) % NS;
        const std::string& n = op.n;
        g_nest.raise(c);
        w.lastlib = n == "mnew" ? (int)nlib(w.libbase + op.at(1)) : n == "pset" && !w.P[s].o ? (int)nlib(w.libbase + op.at(3)) : n[0] == 's' || n[0] == 'd' || n[0] == 'u' ? w.U[s].lib : n[0] == 'p' ? w.P[s].lib : w.M[s].lib;
        if (n == "nst9")
        {
            g_nest.at = op.at(0), g_nest.seed = (u64)op.at(1);
            continue;
        }
        if (n == "lib9") w.libbase = op.at(0), w.sh = (int)((u64)op.at(1) % SH_COUNT);
        else if (n == "mnew") w.op_mnew(op);
        else if (n == "hugesm9") w.op_huge(op);
        else if (n == "mgen" && w.M[s].o)
        {
            Mk&    m = w.M[s];
            SimRng r;
            arm(r, (int)op.at(1), (u64)op.at(2), op.at(3, -1), (int)op.at(4));
            scribble((u64)op.at(2));
            int rc = m.o->gen_priv(SimRng::gen, &r);
            c.log("mgen rc=%d", rc);
            c.count("op.mgen");
            w.fault_rc(r, rc, "master gen_priv");
            if (rc == RC_OK)
            {
                w.adopt(m);
                if (r.calls == 0) c.fail("rng-unused", "gen_priv did not draw from the random device");
            }
            w.mchk(m, (u64)op.at(2));
        }
        else if (n == "mset" && w.M[s].o)
        {
            Mk&  m = w.M[s];
            U256 ks = op.at(1) >= 40 && m.keyed ? related((int)op.at(1), m.ks) : keyval((int)op.at(1), (u64)op.at(2));
            if (op.at(1) >= 40) c.count("key.related");
            Buf  b(ub(ks));
            int  rc = m.o->set_priv(b.d());
            c.log("mset kind=%d rc=%d", (int)op.at(1), rc);
            c.count("op.mset");
            if ((rc == RC_OK) != good_priv(ks)) c.fail("import-range", "master set_priv(%s): %s", hexs(ub(ks)).c_str(), rc == RC_OK ? "accepted" : "refused");
            if (rc == RC_OK) m.ks = ks, m.keyed = true;
            else c.count("fault.rejected-import");
            w.mchk(m, (u64)op.at(2));
        }
        else if (n == "mcpy" && s != t && w.M[s].o && w.M[s].keyed)
        {
            delete w.M[t].o;
            w.M[t] = w.M[s];
            w.M[t].o = w.M[s].o->clone();
            c.count("op.copy");
        }
        else if (n == "masg" && w.M[s].o && w.M[t].o && w.M[s].keyed && w.M[s].lib == w.M[t].lib)
        {
            ISm9Master* k = w.M[t].o;
            k->assign(w.M[s].o);
            Mk x = w.M[s];
            x.o = k;
            w.M[t] = x;
            c.count("op.assign");
        }
        else if (n == "ext") w.op_ext(op);
        else if (n == "upo") w.op_upo(op);
        else if (n == "uset") w.op_uset(op);
        else if (n == "unew")
        {
            delete w.U[s].o;
            w.U[s] = Uk();
            w.U[s].lib = (int)nlib(w.libbase + op.at(1));
            w.U[s].o = A[w.U[s].lib]->make_user(w.sh, (u32)op.at(2));
        }
        else if (n == "ucpy" && s != t && w.U[s].o && w.U[s].keyed)
        {
            delete w.U[t].o;
            w.U[t] = w.U[s];
            w.U[t].o = w.U[s].o->clone();
            c.count("op.copy");
        }
        else if (n == "uasg" && w.U[s].o && w.U[t].o && w.U[s].keyed && w.U[s].lib == w.U[t].lib)
        {
            ISm9User* k = w.U[t].o;
            k->assign(w.U[s].o);
            Uk x = w.U[s];
            x.o = k;
            w.U[t] = x;
            c.count("op.assign");
        }
        else if (n == "pfe" && w.M[s].o && w.M[s].keyed)
        {
            delete w.P[t].o;
            w.P[t] = Pk();
            w.P[t].o = w.M[s].o->fetch_pub(), w.P[t].keyed = true, w.P[t].ks = w.M[s].ks, w.P[t].lib = w.M[s].lib;
        }
        else if (n == "pfu" && w.U[s].o && w.U[s].keyed)
        {
            delete w.P[t].o;
            w.P[t] = Pk();
            w.P[t].o = w.U[s].o->fetch_pub(), w.P[t].keyed = true, w.P[t].ks = w.U[s].ks, w.P[t].lib = w.U[s].lib;
        }
        else if (n == "pimp" && w.P[s].o && w.P[s].keyed)
        { // export from s, import into a fresh object of another build
            Buf x(64), y(64);
            w.P[s].o->get_pub(x.d(), y.d());
            int lib = (int)nlib(w.libbase + op.at(2));
            std::unique_ptr<ISm9Pub> o(A[lib]->make_pub(w.sh, (u32)op.at(3)));
            int rc = o->set_pub(x.d(), y.d());
            if (rc != RC_OK) c.fail("import-refused", "an exported public key was refused on import (%s)", rcname(rc));
            U256 ks = w.P[s].ks;
            delete w.P[t].o;
            w.P[t] = Pk();
            w.P[t].o = o.release(), w.P[t].keyed = true, w.P[t].ks = ks, w.P[t].lib = lib;
            c.count("op.export-import");
            w.pchk(w.P[t], (u64)op.at(3));
        }
        else if (n == "pset")
        { // s kind seed lib
            Pk& k = w.P[s];
            if (!k.o) k.lib = (int)nlib(w.libbase + op.at(3)), k.o = A[k.lib]->make_pub(w.sh, (u32)op.at(2));
            u64  seed = (u64)op.at(2);
            U256 ks = rnd_n(seed % 50 + 300);
            bool good = op.at(1) == 0;
            if (op.at(1) >= 40 && k.keyed) ks = related((int)op.at(1), k.ks), good = true, c.count("key.related");
            if (!good_priv(ks)) continue;
            Pt2  q = pub_of(ks);
            switch (op.at(1))
            {
                case 1: q.x.c0.v[seed % 4] ^= 1ull << (seed / 4 % 56); break;
                case 2: q.y.c1.v[seed % 4] ^= 1ull << (seed / 4 % 56); break;
                case 3: q.x = Fp2(), q.y = Fp2(); break;
                case 4: std::swap(q.x, q.y); break;
                case 5: std::swap(q.x.c0, q.x.c1); break;
                case 6: q.y.c0 = U256(); break;
                case 7: ks = NN().neg(ks), q.y.c0 = sm9g1().P.neg(q.y.c0), q.y.c1 = sm9g1().P.neg(q.y.c1), good = true; break;
                default: break;
            }
            if (!good && sm9_on2(q)) continue;
            Buf x(sm9_ser2(q.x)), y(sm9_ser2(q.y));
            int rc = k.o->set_pub(x.d(), y.d());
            c.log("pset kind=%d rc=%d", (int)op.at(1), rc);
            c.count("op.pset");
            if ((rc == RC_OK) != good) c.fail("import-range", "master public set_pub kind %d: %s", (int)op.at(1), rc == RC_OK ? "accepted" : "refused");
            if (good) k.keyed = true, k.ks = ks;
            else c.count("fault.rejected-import");
            w.pchk(k, seed);
        }
        else if (n == "pcpy" && s != t && w.P[s].o && w.P[s].keyed)
        {
            delete w.P[t].o;
            w.P[t] = w.P[s];
            w.P[t].o = w.P[s].o->clone();
            c.count("op.copy");
        }
        else if (n == "pasg" && w.P[s].o && w.P[t].o && w.P[s].keyed && w.P[s].lib == w.P[t].lib)
        {
            ISm9Pub* k = w.P[t].o;
            k->assign(w.P[s].o);
            Pk x = w.P[s];
            x.o = k;
            w.P[t] = x;
            c.count("op.assign");
        }
        else if (n == "sign9") w.op_sign(op);
        else if (n == "dep9") w.op_dep(op);
        else if (n == "ver9") w.op_ver(op);
        else if (n == "mchk") w.mchk(w.M[s], (u64)op.at(1));
        else if (n == "uchk") w.uchk(w.U[s], (u64)op.at(1));
        else if (n == "pchk") w.pchk(w.P[s], (u64)op.at(1));
    }
    g_nest.raise(c);
}
// callbacks that themselves use the library, in some of the plans
static void nests(Prng& r, Plan& p)
{
    if (!r.chance(1, 6)) return;
    std::vector<Op> v;
    for (auto& o : p.ops)
    {
        if (o.n != "lib9" && o.n[1] != 'c' && (o.n == "dep9" || r.chance(1, 3)))
        {
            Op n;
            n.n = "nst9", n.a = {o.n == "dep9" ? 0 : r.chance(1, 2) ? (i64)r.below(2) : (i64)r.below(9), (i64)r.below(1000000)};
            v.push_back(n);
        }
        v.push_back(o);
    }
    p.ops = v;
}
template <void (*G)(Prng&, Plan&)>
static void with_nests(Prng& r, Plan& p)
{
    G(r, p);
    nests(r, p);
}
// ------------------------------------------------------------------ generation
// a third of all seeds come from a small pool, so that IDs, messages and keys recur within one history
static i64 g_sd(Prng& r) { return r.chance(1, 3) ? (i64)r.below(6) : (i64)r.below(1000000); }
static i64 g_mlen(Prng& r)
{
    if (r.chance(1, 16)) return gen_long(r, 64);
    switch (r.below(8))
    {
        case 0: return 0;
        case 1: return r.pick({1, 31, 32, 33, 55, 56, 63, 64, 65});
        case 2: return r.range(100, 1500);
        default: return r.range(1, 130);
    }
}
static i64 g_idlen(Prng& r) { return r.chance(1, 300) ? (1ll << r.range(17, 21)) + r.range(-1, 100) : r.chance(1, 24) ? gen_long(r, 64) : r.chance(1, 6) ? 0 : r.chance(1, 6) ? r.range(100, 3000) : r.chance(1, 3) ? 24 : r.range(1, 64); }
static i64 g_hid(Prng& r) { return r.chance(1, 2) ? -1 : r.chance(1, 2) ? (i64)r.below(256) : r.pick({0, 1, 2, 3, 255}); }
static i64 g_stream(Prng& r) { return r.chance(1, 2) ? 0 : r.range(1, 33); }
static void g_master(Prng& r, Plan& p, i64 s)
{
    i64 how = r.chance(1, 5) ? 0 : r.chance(1, 2) ? 1 : 2;
    i64 kind = how == 1 ? (r.chance(1, 3) ? r.pick({2, 3, 4, 5, 9, 10, 12, 13}) : 20) : g_stream(r);
    p.add("mnew", {s, r.range(0, 1), how, kind, g_sd(r), (i64)r.below(100), -1, 0});
    if (how == 0)
    {
        if (r.chance(1, 2)) p.add("mset", {s, 20, g_sd(r)});
        else p.add("mgen", {s, g_stream(r), g_sd(r), -1, 0});
    }
}
static void g_ext(Prng& r, Plan& p, i64 m, i64 u)
{
    p.add("ext", {m, u, g_sd(r), g_idlen(r), g_hid(r), r.chance(1, 2) ? 0 : r.range(1, 4), g_sd(r), (i64)r.below(100)});
}
static void g_sign(Prng& r, Plan& p, i64 u, bool fault)
{
    p.add("sign9", {u, g_sd(r), g_mlen(r), (i64)r.below(4), g_stream(r), g_sd(r), fault ? r.range(0, 2) : -1, (i64)r.below(2), r.chance(1, 3) ? r.range(1, 2) : 0});
}
static void head(Prng& r, Plan& p) { p.add("lib9", {(i64)r.below(64), r.chance(1, 2) ? 0 : r.range(1, 4)}); }
static void gen15(Prng& r, Plan& p)
{
    head(r, p);
    g_master(r, p, 0);
    g_ext(r, p, 0, 0);
    i64 n = r.range(1, 3);
    for (i64 i = 0; i < n; i++)
    {
        if (r.chance(1, 5)) p.add("dep9", {0, g_sd(r), g_sd(r), (i64)r.below(255)});
        else g_sign(r, p, 0, false);
    }
}
static void gen16(Prng& r, Plan& p)
{
    head(r, p);
    g_master(r, p, 0);
    g_ext(r, p, 0, 0);
    p.add("pfe", {0, 0});
    if (r.chance(1, 2)) p.add("pimp", {0, 0, r.range(0, 3), g_sd(r)});
    g_sign(r, p, 0, false);
    i64 n = r.range(3, 8);
    for (i64 i = 0; i < n; i++) p.add("ver9", {r.chance(3, 4) ? 0 : 4, (i64)r.below(3), r.range(0, 27), g_sd(r), g_sd(r)});
}
static void g_life(Prng& r, Plan& p, bool faults)
{
    head(r, p);
    for (i64 s = 0; s < 2; s++) g_master(r, p, s);
    g_ext(r, p, 0, 0);
    g_ext(r, p, 1, 1);
    i64 n = r.range(3, 8);
    for (i64 i = 0; i < n; i++)
    {
        i64  s = (i64)r.below(2), t = (i64)r.below(3);
        bool f = faults && r.chance(2, 3);
        switch (r.below(faults ? 12 : 16))
        {
            case 0: p.add("mgen", {s, g_stream(r), g_sd(r), f ? r.range(0, 1) : -1, (i64)r.below(2)}); break;
            case 1: p.add("mset", {s, r.chance(1, 4) ? r.range(40, 47) : r.chance(2, 3) ? r.range(1, 16) : 20, g_sd(r)}); break;
            case 2: p.add("mcpy", {s, t}); break;
            case 3: p.add("masg", {s, t}); break;
            case 4: g_ext(r, p, s, t); break;
            case 5: p.add("uset", {t, r.chance(1, 4) ? r.range(40, 47) : r.range(0, 9), g_sd(r)}); break;
            case 6: p.add("pset", {t, r.chance(1, 4) ? r.range(40, 47) : r.range(0, 7), g_sd(r), s}); break;
            case 7: g_sign(r, p, t, f); break;
            case 8: p.add("ucpy", {s, t}); break;
            case 9: p.add("uasg", {s, t}); break;
            case 10: p.add("mnew", {2, 0, 2, g_stream(r), g_sd(r), (i64)r.below(100), f ? r.range(0, 1) : -1, (i64)r.below(2)}); break;
            case 11: p.add(r.chance(1, 2) ? "uchk" : "mchk", {s, g_sd(r)}); break;
            case 12: p.add("upo", {s, t, r.range(0, 3), g_sd(r)}); break;
            case 13: p.add(r.chance(1, 2) ? "pfe" : "pfu", {s, t}); p.add("pimp", {t, r.range(0, 2), r.range(0, 3), g_sd(r)}); break;
            case 14: p.add(r.chance(1, 2) ? "pcpy" : "pasg", {s, t}); break;
            default: p.add("unew", {2, 0, (i64)r.below(100)}); p.add("uset", {2, r.range(0, 9), g_sd(r)}); break;
        }
    }
    for (i64 s = 0; s < 3; s++) p.add("mchk", {s, g_sd(r)}), p.add("uchk", {s, g_sd(r)}), p.add("pchk", {s, g_sd(r)});
}
static void gen17(Prng& r, Plan& p) { g_life(r, p, false); }
void sm9_gen14(Prng& r, Plan& p) { g_life(r, p, true), nests(r, p); }
static bool dir_huge(size_t i, Plan& p)
{
    if (i >= 3) return false;
    p.add("lib9", {0, 1 + (i64)i % 4});
    p.add("hugesm9", {0, i % 3 == 0 ? (1ll << 32) + 16 : i % 3 == 1 ? 65536 * 4 + 5 + (i64)i : 20 + (i64)i, i % 3 == 2 ? (1ll << 32) + 33 : 40, (i64)i});
    return true;
}
// the same objects through more operations than fit into a byte
static bool dir_worn9(size_t i, Plan& p, int prop)
{
    if (i >= 1) return false;
    p.add("lib9", {3, 0});
    p.add("mnew", {0, 0, 1, 20, 5, 1, -1, 0});
    p.add("ext", {0, 0, 4, 10, -1, 0, 0, 0});
    if (prop == 16) p.add("pfe", {0, 0}), p.add("sign9", {0, 3, 20, 1, 0, 9, -1, 0, 0});
    for (i64 k = 0; k < 270; k++)
    {
        if (prop == 15) p.add("sign9", {0, k, k % 40, k % 4, 0, k, -1, 0, 0});
        else if (prop == 16) p.add("ver9", {0, 0, k % 6 ? 0 : k % 28, k, k});
        else p.add("ext", {0, 0, k, k % 30, -1, 0, k, 0});
    }
    return true;
}
static bool dir15(size_t i, Plan& p)
{
    if (i < 3) return dir_huge(i, p);
    i -= 3;
    if (i < 255)
    {
        p.add("lib9", {(i64)i, 0});
        p.add("mnew", {0, 0, 1, 20, (i64)(i % 3), 1, -1, 0});
        p.add("ext", {0, 0, (i64)i, 10, -1, 0, 0, 0});
        p.add("dep9", {0, (i64)i, (i64)(i * 3), (i64)i});
        return true;
    }
    i -= 255;
    if (i < 34 * 2)
    {
        p.add("lib9", {(i64)i, (i64)(i % 5)});
        p.add("mnew", {0, 0, 2, (i64)(i / 2), (i64)i, 1, -1, 0});
        p.add("ext", {0, 0, (i64)i, (i64)(i % 30), (i64)i % 9 - 1, (i64)(i % 5), (i64)i, 0});
        p.add("sign9", {0, (i64)i, (i64)(i % 70), (i64)(i % 4), (i64)(i / 2), (i64)i, -1, 0, (i64)(i % 3)});
        return true;
    }
    return dir_worn9(i - (34 * 2), p, 15);
}
static bool dir16(size_t i, Plan& p)
{
    if (i < 3) return dir_huge(i, p);
    i -= 3;
    if (i < 28 * 6)
    {
        i64 kind = (i64)(i % 28), k = (i64)(i / 28);
        bool scr = kind >= 19 && kind <= 24;
        p.add("lib9", {(i64)i, scr ? 1 + k % 4 : k % 5});
        p.add("mnew", {0, 0, 1, 20, 7 + k, 1, -1, 0});
        p.add("ext", {0, 0, k, 10, -1, 0, 0, 0});
        p.add("pfe", {0, 0});
        p.add("sign9", {0, k, 20, k % 4, 0, k, -1, 0, 0});
        for (i64 q = 0; q < 3; q++) p.add("ver9", {k % 2 ? 4 : 0, 0, kind, k * 29 + q * 11, k * 17 + q + 1});
        return true;
    }
    i -= 28 * 6;
    if (i < 33)
    { // truncation at every length, a few per plan
        p.add("lib9", {(i64)i, 0});
        p.add("mnew", {0, 0, 1, 20, 7, 1, -1, 0});
        p.add("ext", {0, 0, 1, 10, -1, 0, 0, 0});
        p.add("pfe", {0, 0});
        p.add("sign9", {0, 3, 20, (i64)(i % 3) + 1, 0, (i64)i, -1, 0, 0});
        for (i64 q = 0; q < 9; q++) p.add("ver9", {0, 0, 2, (i64)(i / 3) * 9 + q, 0});
        return true;
    }
    return dir_worn9(i - (33), p, 16);
}
static bool dir17(size_t i, Plan& p)
{
    if (i < 17 * 2)
    {
        i64 k = (i64)(i / 2);
        p.add("lib9", {(i64)i, (i64)(i % 5)});
        p.add("mnew", {0, 0, 2, k, (i64)i * 5, (i64)i, -1, 0});
        p.add("mnew", {1, 0, 0, 0, 0, (i64)i});
        p.add("mset", {1, 20, (i64)i});
        p.add("mset", {1, k, (i64)i * 3});
        p.add("mnew", {3, 0, 1, k, (i64)i * 3, 9});
        p.add("mgen", {1, k, (i64)i * 5, -1, 0});
        p.add("mcpy", {1, 2});
        p.add("masg", {0, 1});
        p.add("masg", {0, 0});
        p.add("ext", {2, 0, (i64)i, 9, -1, (i64)(i % 5), (i64)i, 1});
        p.add("upo", {0, 1, 1 + (i64)i % 3, (i64)i});
        for (i64 s = 0; s < 3; s++) p.add("mchk", {s, (i64)i + s});
        return true;
    }
    i -= 34;
    if (i < 20)
    {
        p.add("lib9", {(i64)i, (i64)(i % 5)});
        p.add("unew", {0, 0, 5});
        p.add("uset", {0, 0, (i64)i});
        p.add("uset", {0, (i64)(i % 10), (i64)i * 11});
        p.add("pset", {0, 0, (i64)i, 0});
        p.add("pset", {0, (i64)(i % 8), (i64)i * 7, 0});
        return true;
    }
    i -= 20;
    if (i < 16)
    { // keys related to the one already held
        p.add("lib9", {(i64)i, (i64)(i % 5)});
        p.add("mnew", {0, 0, 1, 20, (i64)i, 3, -1, 0});
        p.add("mchk", {0, (i64)i});
        p.add("mset", {0, 40 + (i64)i % 8, (i64)i});
        p.add("ext", {0, 0, (i64)i, 9, -1, 0, (i64)i, 1});
        p.add("uchk", {0, (i64)i});
        p.add("uset", {0, 40 + (i64)i % 8, (i64)i});
        p.add("uset", {0, 40 + (i64)(i / 2) % 8, (i64)i});
        p.add("pset", {0, 0, (i64)i, 0});
        p.add("pset", {0, 40 + (i64)i % 8, (i64)i + 1, 0});
        p.add("pset", {0, 40 + (i64)(i / 2) % 8, (i64)i + 2, 0});
        p.add("mset", {0, 40 + (i64)(i / 2) % 8, (i64)i + 1});
        return true;
    }
    return dir_worn9(i - (16), p, 17);
}
static Module m15("C15", with_nests<gen15>, sm9_exec, dir15, sm9_init), m16("C16", with_nests<gen16>, sm9_exec, dir16, sm9_init), m17("C17", with_nests<gen17>, sm9_exec, dir17, sm9_init);
