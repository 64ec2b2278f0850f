// C09-C14: histories of SM2 key objects under scripted random streams, failing
// random devices, scripted digests, and signatures / ciphertexts that travel
// over a corrupting transport.  Oracle: the GB/T 32918 reference model in ref/.
#include "sm2world.h"
using namespace ref;

static std::vector<const Sm2Api*> A;
void sm2_init()
{
    A = collect_api<const Sm2Api*>("gm_api_sm2");
    for (auto a : A) a->set_digest_hook(digest_hook, nullptr);
}
static size_t dsz(int sh) { return sh == SH_S20 ? 20 : sh == SH_S48 ? 48 : sh == SH_S64 ? 64 : 32; }
static Bytes raw_hash(int sh, const u8* p, size_t n)
{
    if (sh == SH_SM3) return sm3(p, n);
    Bytes d(dsz(sh));
    toy_hash(d.data(), 64, d.size(), p, n);
    return d;
}
static HashFn hashfn(int sh)
{
    return [sh](const u8* p, size_t n) {
        Bytes d = raw_hash(sh, p, n);
        if (sh != SH_SM3 && g_over)
        {
            auto it = g_over->find(d);
            if (it != g_over->end()) d = it->second;
        }
        return d;
    };
}
static U256 one() { return u256_addw(U256(), 1); }
static U256 nmin(u64 k) { return u256_subw(sm2().N.m, k); }
static Bytes ub(const U256& a)
{
    Bytes b(32);
    u256_out(a, b.data());
    return b;
}
static U256 rnd_n(u64 seed)
{ // [1, n-2]
    U256 d;
    if (mix64(seed * 3 + 1) % 3 == 0) d = u256_tricky(sm2().N, mix64(seed) >> 8);
    else d = sm2().N.red(u256_be(sim_data(seed * 7 + 3, 32).data()));
    if (u256_zero(d) || u256_cmp(d, nmin(1)) >= 0) d = u256_addw(U256(), 12345);
    return d;
}
// boundary-heavy 256-bit values; kinds >= 20 are always valid private keys
static U256 keyval(int kind, u64 seed)
{
    switch (kind)
    {
        case 1: return U256();
        case 2: return one();
        case 3: return u256_addw(U256(), 2);
        case 4: return nmin(2);
        case 5: return nmin(1);
        case 6: return sm2().N.m;
        case 7: return u256_addw(sm2().N.m, 1);
        case 8: return u256_subw(U256(), 1);
        case 9: return nmin(3);
        case 10: return u256_addw(U256(), seed % 100000 + 1);
        case 11:
        {
            Bytes b = sim_data(seed, 32);
            memset(b.data(), 0xff, 8);
            return u256_be(b.data());
        }
        case 12:
        {
            U256 a;
            a.v[seed / 64 % 4] = 1ull << (seed % 64);
            return a;
        }
        case 13: return nmin(seed % 1000 + 2);
        case 14: return u256_addw(sm2().N.m, seed % 1000);
        case 15:
        {
            U256 a = u256_subw(U256(), 1);
            a.v[seed % 4] ^= 1ull << (seed / 4 % 64);
            return a;
        }
        case 16:
        {
            Bytes b = sim_data(seed, 32);
            memset(b.data(), 0, 1 + seed % 31);
            return u256_be(b.data());
        }
        case 17: return sm2().P.m;
        case 18: return u256_tricky(sm2().N, seed);
        case 19:
        { // n plus something not small
            Bytes rb = sim_data(seed, 32);
            memset(rb.data(), 0, 4); // < 2^224 < 2^256 - n
            U256 x = u256_be(rb.data());
            U256 r = sm2().N.m;
            unsigned __int128 c = 0;
            for (int i = 0; i < 4; i++) c += (unsigned __int128)r.v[i] + x.v[i], r.v[i] = (u64)c, c >>= 64;
            return r;
        }
        default: return rnd_n(seed);
    }
}
// a key related to the one an object holds: kinds 40..47
static U256 related(int kind, const U256& d, const U256& other)
{
    const Mod& n = sm2().N;
    switch (kind)
    {
        case 40:
        case 41: return n.neg(d);               // the negated public key: same x
        case 42: return d;                      // the same key again
        case 43: return n.add(d, d);
        case 44: return n.add(d, one());
        case 45: return n.sub(n.neg(d), u256_addw(U256(), 2)); // n-2-d: 1+d and 1+d' are opposite
        case 46: return n.inv(u256_zero(d) ? one() : d);
        default: return other;                  // the key of another object of this history
    }
}
static bool good_priv(const U256& d) { return !u256_zero(d) && u256_cmp(d, nmin(2)) <= 0; }
// public key byte pairs
static Bytes pubval(int kind, u64 seed, bool* known, U256* d)
{
    const Curve& C = sm2();
    *known = false;
    auto xy = [](const U256& x, const U256& y) {
        Bytes b = ub(x), e = ub(y);
        b.insert(b.end(), e.begin(), e.end());
        return b;
    };
    auto addp = [&](U256 a) {
        unsigned __int128 c = 0;
        for (int i = 0; i < 4; i++) c += (unsigned __int128)a.v[i] + C.P.m.v[i], a.v[i] = (u64)c, c >>= 64;
        return a;
    };
    static const char* smally[3] = {"9c17043effe1a805a74a9a5e70b9d659705d3242094a566dc016f49311178d1f", "3b404f94e46027d11401987cd5acb2953e4bff91a7d856b40986700015b4f8a6",
                                    "1800ffcb38194ce0905766dfd6b9ce196095203d481ba8e4e614749d615cd506"};
    Pt q;
    switch (kind)
    {
        case 1: q = C.mul(rnd_n(seed), C.G); q.y.v[seed % 4] ^= 1ull << (seed / 4 % 64); return xy(q.x, q.y);
        case 2: q = C.mul(rnd_n(seed), C.G); q.x.v[seed % 4] ^= 1ull << (seed / 4 % 64); return xy(q.x, q.y);
        case 3:
        { // small x, on the curve
            U256 x = u256_addw(U256(), seed % 50);
            while (!C.lift(q, x, (int)(seed & 1))) x = u256_addw(x, 1);
            return xy(q.x, q.y);
        }
        case 4:
        { // the same with x + p
            U256 x = u256_addw(U256(), seed % 50);
            while (!C.lift(q, x, (int)(seed & 1))) x = u256_addw(x, 1);
            return xy(addp(q.x), q.y);
        }
        case 5: return xy(u256_hex(smally[seed % 3]), u256_addw(U256(), seed % 3 + 1)); // small y
        case 6: return xy(u256_hex(smally[seed % 3]), addp(u256_addw(U256(), seed % 3 + 1)));
        case 7: return Bytes(64, 0);
        case 8: return Bytes(64, 0xff);
        case 9:
        {
            U256 x = mix64(seed) % 4 ? u256_tricky(C.P, seed) : C.P.red(u256_be(sim_data(seed, 32).data()));
            while (!C.lift(q, x, (int)(seed & 1))) x = u256_addw(x, 1);
            return xy(q.x, q.y);
        }
        case 10: *known = true, *d = one(); return xy(C.G.x, C.G.y);
        case 11: *known = true, *d = nmin(1); return xy(C.G.x, C.P.neg(C.G.y));
        case 12: return sim_data(seed, 64);
        case 13: q = C.mul(rnd_n(seed), C.G); return xy(q.y, q.x);
        case 14:
        {
            q = C.mul(rnd_n(seed), C.G);
            Bytes b = xy(q.x, q.y);
            std::reverse(b.begin(), b.begin() + 32), std::reverse(b.begin() + 32, b.end());
            return b;
        }
        case 15: return xy(C.P.m, C.P.m);
        case 16: q = C.mul(rnd_n(seed), C.G); return xy(q.x, U256());
        case 17: q = C.mul(rnd_n(seed), C.G); return xy(q.x, C.P.sub(U256(), q.x));
        case 18: // x = p - small
        {
            U256 x = u256_subw(C.P.m, seed % 50 + 1);
            while (!C.lift(q, x, (int)(seed & 1))) x = u256_subw(x, 1);
            return xy(q.x, q.y);
        }
        default: *known = true, *d = rnd_n(seed), q = C.mul(*d, C.G); return xy(q.x, q.y);
    }
}
static bool good_pub(const Bytes& b, Pt& q)
{
    q.inf = false, q.x = u256_be(b.data()), q.y = u256_be(b.data() + 32);
    return u256_cmp(q.x, sm2().P.m) < 0 && u256_cmp(q.y, sm2().P.m) < 0 && sm2().on(q);
}
static Bytes idbytes(int kind, u64 len)
{
    if (kind == 0) return Bytes((const u8*)SM2_DEFAULT_ID, (const u8*)SM2_DEFAULT_ID + 16);
    if (kind == 3)
    { // related to what kind 2 gives
        Bytes b = idbytes(2, len);
        sim_vary(b, len / 2);
        return b;
    }
    return sim_data(kind * 1000 + len, len);
}
// kind: first draws of the device; failat < 0 never
static void arm(SimRng& r, int kind, u64 seed, i64 failat, int fkind)
{
    r.seed = seed * 31 + 5;
    r.fail_at = failat, r.fail_kind = fkind ? 2 : 1;
    r.bound = 300;
    auto v = [&](const U256& a) { r.script.push_back(ub(a)); };
    if (kind >= 1 && kind < 20) v(keyval(kind, seed));
    if (kind >= 20 && kind < 40) v(keyval(kind - 19, seed)), v(keyval((int)(seed % 20), seed + 1)), v(keyval((int)(seed / 20 % 20), seed + 2));
    if (kind == 0 && seed % 4 == 1) v(rnd_n(seed));
    if (kind == 40) r.script.push_back(Bytes(1, (u8)seed)); // constant byte, first draw
}

struct Obj
{
    ISm2* o = nullptr;
    bool  priv = false, keyed = false, known = false; // known: d is known to the model
    int   sh = 0, lib = 0;
    U256  d;
    Pt    P;
};
struct Sig
{
    Bytes s, msg, id;
    bool  def = false;
    int   sh = 0;
    U256  k;
};
static const int NS = 6;
struct World
{
    Ctx&                   c;
    Obj                    o[NS];
    std::vector<Sig>       sigs;
    std::map<Bytes, Bytes> over;
    i64                    libbase = 0;
    int                    lastsh = 0, lastlib = 0;
    Obj                    tmp; // an object made and used inside a callback
    explicit World(Ctx& c_) : c(c_)
    {
        g_over = &over;
        g_nest.clear();
        g_nest.fn = nested, g_nest.ctx = this;
    }
    ~World()
    {
        for (auto& x : o) delete x.o;
        delete tmp.o;
        g_over = nullptr;
        g_nest.clear();
    }
    // the random device or the hash, in the middle of an operation, itself uses SM2 with another object
    static void nested(void* w, u64 seed) { ((World*)w)->nest(seed); }
    void        nest(u64 seed);
    ISm2* fresh(int lib, int sh, const U256& d)
    {
        int rc;
        Buf k(ub(d));
        ISm2* p = A[lib]->make(sh, 1, 1, k.d(), nullptr, nullptr, 0x9191, &rc);
        if (!p) c.fail("import-refused", "a private key in [1, n-2] was refused (%s)", rcname(rc));
        return p;
    }
    void fault_rc(const SimRng& r, int rc, const char* what)
    {
        if (r.overrun) c.fail("no-progress", "%s drew more than %llu times from a live random device", what, (unsigned long long)r.bound);
        if (r.fired && rc == RC_OK) c.fail("fault-swallowed", "%s reported success although the random device failed at draw %lld", what, (long long)r.fail_at);
        if (r.fired) c.count("fault.rng-failure");
        if (!r.fired && rc != RC_OK) c.fail("spurious-failure", "%s failed (%s) although the random device worked", what, rcname(rc));
    }
    void check_pub(Obj& x, const char* what)
    {
        Buf px(32), py(32);
        x.o->get_pub(px.d(), py.d());
        px.check(c, "get_pub x"), py.check(c, "get_pub y");
        expect_bytes(c, "wrong-public-key", what, px.d(), ub(x.P.x).data(), 32);
        expect_bytes(c, "wrong-public-key", what, py.d(), ub(x.P.y).data(), 32);
    }
    // key material right after generation: read back d, must be in range
    void adopt_generated(Obj& x)
    {
        Buf d(32);
        x.o->get_priv(d.d());
        d.check(c, "get_priv");
        x.d = u256_be(d.d());
        if (!good_priv(x.d)) c.fail("key-range", "generated private key %s is outside [1, n-2]", hexs(d.d(), 32).c_str());
        x.keyed = x.known = true;
        x.P = sm2().mul(x.d, sm2().G);
        check_pub(x, "public key of a generated private key");
        c.bytes(d.d(), 32);
    }
    // keys related to the one slot x holds
    U256 rel(int kind, const Obj& x)
    {
        c.count("key.related");
        const Obj* q = &o[0];
        for (auto& t : o)
            if (&t != &x && t.o && t.known) q = &t;
        return related(kind, x.d, q->known ? q->d : x.d);
    }
    Bytes relpub(int kind, const Obj& x, bool* known, U256* d)
    {
        c.count("key.related");
        const Curve& C = sm2();
        Pt q = x.P;
        *known = x.known;
        if (x.known && kind >= 42 && kind != 42) *d = rel(kind, x), q = C.mul(*d, C.G);
        else if (kind <= 41) q.y = C.P.neg(q.y), *d = C.N.neg(x.d);
        else if (kind == 43) q = C.mul(u256_addw(U256(), 2), q);
        else *d = x.d;
        Bytes b = ub(q.x), e = ub(q.y);
        b.insert(b.end(), e.begin(), e.end());
        return b;
    }
    void op_new(const Op& p);
    void op_genp(const Op& p);
    void op_setp(const Op& p);
    void op_setpub(const Op& p);
    bool do_sign(Obj& x, Sig& g, SimRng& r, const char* what, bool force_id = false);
    void op_sign(const Op& p);
    void op_dep(const Op& p);
    void op_hugeid(const Op& p);
    void op_hugemsg(const Op& p);
    void op_ver(const Op& p);
    void op_enc(const Op& p);
    void op_cor(const Op& p);
    void op_chk(const Op& p) { chk(o[p.at(0) % NS], (u64)p.at(1)); }
    void chk(Obj& x, u64 seed);
    Bytes lib_encrypt(Obj& x, const Bytes& m, int pc, SimRng& r, int* rcout, const char* what);
    Bytes ref_encrypt(int sh, const Pt& P, const Bytes& m, int pc, const U256& k, U256* used = nullptr);
    // reference decryption: 1 = valid
    int ref_decrypt(int sh, const U256& d, const Bytes& ct, Bytes& m);
    void lib_verify_expect(ISm2* o, const u8* sig, const Bytes& msg, const Bytes& id, bool def, int want, const char* what);
};
void World::op_new(const Op& p)
{
    Obj& x = o[p.at(0) % NS];
    delete x.o;
    Obj old = x;
    x = Obj();
    x.priv = p.at(1) != 0;
    x.sh = (int)(p.at(2) % SH_COUNT);
    x.lib = (int)nlib(libbase + p.at(3));
    int how = (int)p.at(4), kind = (int)p.at(5), rc;
    u64 seed = (u64)p.at(6);
    u32 fill = (u32)p.at(7);
    if (!x.priv && how == 2) how = 1;
    c.log("new priv=%d sh=%d lib=%s how=%d kind=%d", x.priv, x.sh, g_libs[x.lib].name.c_str(), how, kind);
    c.count("op.new");
    const Sm2Api* a = A[x.lib];
    if (how == 0)
    {
        x.o = a->make(x.sh, x.priv, 0, nullptr, nullptr, nullptr, fill, &rc);
        return;
    }
    if (how == 1 && x.priv)
    {
        U256 d = kind >= 40 && old.known ? rel(kind, old) : keyval(kind, seed);
        Buf  b(ub(d));
        x.o = a->make(x.sh, 1, 1, b.d(), nullptr, nullptr, fill, &rc);
        b.check(c, "private key bytes");
        if ((x.o != nullptr) != good_priv(d)) c.fail("import-range", "constructing from private key %s: %s", hexs(ub(d)).c_str(), x.o ? "accepted" : "refused");
        if (!x.o) return;
        x.d = d, x.P = sm2().mul(d, sm2().G), x.keyed = x.known = true;
        check_pub(x, "public key of an imported private key");
        return;
    }
    if (how == 1)
    {
        Bytes kb = kind >= 40 && old.keyed ? relpub(kind, old, &x.known, &x.d) : pubval(kind, seed, &x.known, &x.d);
        Buf   b(kb);
        bool  ok = good_pub(kb, x.P);
        x.o = a->make(x.sh, 0, 1, b.d(), nullptr, nullptr, fill, &rc);
        if ((x.o != nullptr) != ok) c.fail("import-range", "constructing from public key kind %d %s: %s", kind, hexs(kb).c_str(), x.o ? "accepted" : "refused");
        x.keyed = ok;
        if (x.o) check_pub(x, "imported public key");
        return;
    }
    SimRng r;
    arm(r, kind, seed, p.at(8, -1), (int)p.at(9));
    scribble(seed);
    x.o = a->make(x.sh, 1, 2, nullptr, SimRng::gen, &r, fill, &rc);
    fault_rc(r, rc, "constructing a private key from a random device");
    if (!x.o) return;
    c.count(std::string("stream.kind") + std::to_string(kind));
    adopt_generated(x);
}
void World::op_genp(const Op& p)
{
    Obj& x = o[p.at(0) % NS];
    if (!x.o || !x.priv) return;
    SimRng r;
    arm(r, (int)p.at(1), (u64)p.at(2), p.at(3, -1), (int)p.at(4));
    scribble((u64)p.at(2));
    int rc = x.o->gen_priv(SimRng::gen, &r);
    c.log("genp rc=%d calls=%llu", rc, (unsigned long long)r.calls);
    c.count("op.genp");
    fault_rc(r, rc, "gen_priv");
    c.count(std::string("stream.kind") + std::to_string(p.at(1)));
    if (rc == RC_OK)
    {
        adopt_generated(x);
        if (r.calls == 0) c.fail("rng-unused", "gen_priv did not draw from the random device");
        c.nontrivial++;
    }
    else op_chk(Op{"chk", {p.at(0), 77}});
}
void World::op_setp(const Op& p)
{
    Obj& x = o[p.at(0) % NS];
    if (!x.o || !x.priv) return;
    U256 d = p.at(1) >= 40 && x.known ? rel((int)p.at(1), x) : keyval((int)p.at(1), (u64)p.at(2));
    Buf  b(ub(d));
    int  rc = x.o->set_priv(b.d());
    b.check(c, "set_priv input");
    c.log("setp kind=%d rc=%d", (int)p.at(1), rc);
    c.count("op.setp");
    if ((rc == RC_OK) != good_priv(d)) c.fail("import-range", "set_priv(%s): %s", hexs(ub(d)).c_str(), rc == RC_OK ? "accepted" : "refused");
    if (rc == RC_OK) x.d = d, x.P = sm2().mul(d, sm2().G), x.keyed = x.known = true;
    else c.count("fault.rejected-import");
    c.nontrivial++;
    op_chk(Op{"chk", {p.at(0), 78}});
}
void World::op_setpub(const Op& p)
{
    Obj& x = o[p.at(0) % NS];
    if (!x.o || x.priv) return;
    bool  known;
    U256  d;
    Bytes kb = pubval((int)p.at(1), (u64)p.at(2), &known, &d);
    if (p.at(1) >= 40 && x.keyed) kb = relpub((int)p.at(1), x, &known, &d);
    Pt    q;
    bool  ok = good_pub(kb, q);
    Buf   bx(kb.data(), 32), by(kb.data() + 32, 32);
    int   rc = x.o->set_pub(bx.d(), by.d());
    c.log("setpub kind=%d rc=%d", (int)p.at(1), rc);
    c.count("op.setpub");
    if ((rc == RC_OK) != ok) c.fail("import-range", "set_pub kind %d (%s): %s", (int)p.at(1), hexs(kb).c_str(), rc == RC_OK ? "accepted" : "refused");
    if (rc == RC_OK) x.P = q, x.keyed = true, x.known = known, x.d = d;
    else c.count("fault.rejected-import");
    c.nontrivial++;
    op_chk(Op{"chk", {p.at(0), 79}});
}
void World::lib_verify_expect(ISm2* ob, const u8* sig, const Bytes& msg, const Bytes& id, bool def, int want, const char* what)
{
    Buf  s(sig, 64), m(msg), i(id);
    bool ok = false;
    int  rc = ob->verify(&ok, s.d(), m.d(), m.n, i.d(), i.n, def);
    if (rc != RC_OK) c.fail("verify-threw", "%s: verify raised %s", what, rcname(rc));
    if (!s.intact() || !m.intact() || !i.intact()) c.fail("wild-write", "verify wrote outside");
    if (ok != (want != 0)) c.fail(want ? "valid-refused" : "invalid-accepted", "%s: verify returned %s, GB/T 32918.2 says %s (sig %s)", what, ok ? "true" : "false", want ? "valid" : "invalid", hexs(sig, 64).c_str());
}
// signs; checks everything that holds for every nonce; false when the fault fired
bool World::do_sign(Obj& x, Sig& g, SimRng& r, const char* what, bool)
{
    Buf sig(64), m(g.msg), id(g.id);
    scribble(r.seed);
    int rc = x.o->sign(sig.d(), m.d(), m.n, SimRng::gen, &r, id.d(), id.n, g.def);
    sig.check(c, "signature"), m.check(c, "message"), id.check(c, "id");
    fault_rc(r, rc, what);
    if (rc != RC_OK) return false;
    if (r.calls == 0) c.fail("rng-unused", "sign did not draw from the random device");
    const Curve& C = sm2();
    U256 rr = u256_be(sig.d()), ss = u256_be(sig.d() + 32);
    if (u256_zero(rr) || u256_zero(ss) || u256_cmp(rr, C.N.m) >= 0 || u256_cmp(ss, C.N.m) >= 0)
        c.fail("signature-range", "%s: r or s outside [1, n-1]: %s", what, hexs(sig.d(), 64).c_str());
    if (u256_zero(C.N.add(rr, ss))) c.fail("signature-range", "%s: r + s = n", what);
    // nonce recovered from the signature: k = s (1 + d) + r d
    g.k = C.N.add(C.N.mul(ss, C.N.add(x.d, one())), C.N.mul(rr, x.d));
    HashFn h = hashfn(x.sh);
    Bytes  z = sm2_z(h, g.id, x.P);
    z.insert(z.end(), g.msg.begin(), g.msg.end());
    Bytes e = h(z.data(), z.size());
    if (u256_zero(g.k)) c.fail("signature-invalid", "%s: nonce 0", what);
    Pt   q = C.mul(g.k, C.G);
    U256 want = C.N.add(C.N.red_bytes(e.data(), e.size()), C.N.red(q.x));
    if (!(want == rr)) c.fail("signature-invalid", "%s: the signature does not verify under GB/T 32918.2 (%s)", what, hexs(sig.d(), 64).c_str());
    if (u256_zero(C.N.add(rr, g.k))) c.fail("signature-invalid", "%s: r + k = n", what);
    if (!g_nest.in && !g_nest.served.empty())
    {
        auto explains = [&](const std::vector<Bytes>& draws) {
            for (auto& b : draws)
            {
                if (b.size() != 32) continue;
                U256 v = u256_be(b.data()), n1 = nmin(1);
                if (u256_cmp(v, n1) >= 0) v = u256_sub(v, n1);
                if (u256_addw(v, 1) == g.k || v == g.k) return true;
            }
            return false;
        };
        if (!explains(r.served) && explains(g_nest.served)) c.fail("nonce-reuse", "%s: the nonce comes from what the random device delivered to another signature", what);
    }
    g.s = sig.b();
    g.sh = x.sh;
    c.bytes(sig.d(), 64);
    return true;
}
void World::op_sign(const Op& p)
{ // slot mseed mlen idkind idlen stream sseed failat fkind special
    Obj& x = o[p.at(0) % NS];
    if (!x.o || !x.priv || !x.keyed) return;
    Sig g;
    g.msg = sim_data((u64)p.at(1), (size_t)p.at(2));
    g.id = idbytes((int)p.at(3), (u64)p.at(4));
    g.def = p.at(3) == 0;
    int special = x.sh == SH_S32 || x.sh == SH_S64 || x.sh == SH_S48 ? (int)p.at(9) : 0;
    SimRng r;
    arm(r, (int)p.at(5), (u64)p.at(6), p.at(7, -1), (int)p.at(8));
    c.count("op.sign");
    c.count(std::string("stream.kind") + std::to_string(p.at(5)));
    c.log("sign lib=%s sh=%d mlen=%zu idlen=%zu stream=%d fail=%lld special=%d", g_libs[x.lib].name.c_str(), x.sh, g.msg.size(), g.id.size(), (int)p.at(5), (long long)p.at(7, -1), special);
    if (g.id.size() > 8191)
    { // cannot be hashed into Z: only a bounded, reported failure is specified
        Buf sig(64), m(g.msg), id(g.id);
        int rc = x.o->sign(sig.d(), m.d(), m.n, SimRng::gen, &r, id.d(), id.n, 0);
        if (rc == RC_OK) c.fail("overlong-id-signed", "signing with an ID of %zu bytes succeeded", g.id.size());
        sig.check(c, "signature");
        return;
    }
    if (special)
    {
        // learn the nonce this stream leads to, then force a retry condition for it
        SimRng r0;
        arm(r0, (int)p.at(5), (u64)p.at(6), -1, 0);
        if (!do_sign(x, g, r0, "sign")) return;
        const Curve& C = sm2();
        U256   k0 = g.k;
        HashFn h = [&](const u8* q, size_t n) { return raw_hash(x.sh, q, n); };
        Bytes  z = sm2_z(h, g.id, x.P);
        z.insert(z.end(), g.msg.begin(), g.msg.end());
        Bytes  e0 = h(z.data(), z.size());
        U256   x1 = C.N.red(C.mul(k0, C.G).x), e;
        if (special == 1) e = C.N.neg(x1);                                           // r = 0
        else if (special == 2) e = C.N.neg(C.N.add(x1, k0));                         // r + k = n
        else e = C.N.sub(C.N.mul(k0, C.N.inv(x.d)), x1);                             // s = 0
        Bytes ev = ub(e);
        if (x.sh == SH_S64) ev.insert(ev.begin(), 32, 0);
        if (x.sh == SH_S48) ev.insert(ev.begin(), 16, 0);
        over[e0] = ev;
        u64 calls0 = r0.calls;
        bool ok = do_sign(x, g, r, special == 1 ? "sign with r = 0 at the first nonce" : special == 2 ? "sign with r + k = n at the first nonce" : "sign with s = 0 at the first nonce");
        c.count(special == 1 ? "retry.r0" : special == 2 ? "retry.rk" : "retry.s0");
        if (ok)
        {
            if (g.k == k0) c.fail("bad-nonce-kept", "a nonce that calls for a new draw was used");
            if (r.calls <= calls0) c.fail("bad-nonce-kept", "no new draw after a bad nonce");
            Bytes id = g.id;
            lib_verify_expect(x.o, g.s.data(), g.msg, g.id, g.def, 1, "signature after a redraw");
            c.nontrivial++;
        }
        over.erase(e0);
        if (!ok) op_chk(Op{"chk", {p.at(0), 80}});
        return;
    }
    if (!do_sign(x, g, r, "sign"))
    {
        op_chk(Op{"chk", {p.at(0), 80}});
        return;
    }
    c.nontrivial++;
    c.state(hcomb(hcomb(x.lib, x.sh), hcomb((u64)p.at(5) * 64 + size_class(g.msg.size()), size_class(g.id.size()))));
    lib_verify_expect(x.o, g.s.data(), g.msg, g.id, g.def, 1, "own signature");
    if (sigs.size() > 12) sigs.erase(sigs.begin());
    sigs.push_back(g);
    // an earlier failure must not leave a trace: same stream without the fault
    if (p.at(7, -1) >= 0)
    {
        SimRng r2;
        arm(r2, (int)p.at(5), (u64)p.at(6), -1, 0);
        Sig g2 = g;
        do_sign(x, g2, r2, "sign");
        if (g2.s != g.s) c.fail("sign-not-repeatable", "the same key, message and random stream gave two signatures");
    }
}
// lengths that a narrower integer somewhere would mistake for another one
void World::op_hugeid(const Op& p)
{ // slot idlen seed
    Obj& x = o[p.at(0) % NS];
    if (!x.o || !x.priv || !x.keyed) return;
    u64  l0 = (u64)p.at(1) % 17;
    Huge id((1ull << 33) + 64, false);
    if (!id.p) return;
    Bytes msg = sim_data((u64)p.at(2), 20), i0(id.p, id.p + l0);
    Sig   g;
    SimRng r;
    g.msg = msg, g.id = i0, g.def = false;
    arm(r, 0, (u64)p.at(2), -1, 0);
    c.count("op.hugeid");
    if (!do_sign(x, g, r, "sign")) return;
    lib_verify_expect(x.o, g.s.data(), msg, i0, false, 1, "own signature");
    for (u64 add : {8192ull, 16384ull, 65536ull, 1ull << 16 << 3, 1ull << 29, 1ull << 31, 1ull << 32, (1ull << 32) + 8192, 1ull << 33})
    {
        Buf  s(g.s), m(msg), s2(64);
        bool ok = false;
        int  rc = x.o->verify(&ok, s.d(), m.d(), m.n, id.p, l0 + add, 0);
        c.log("id of %llu + %llu bytes: rc=%d ok=%d", (unsigned long long)l0, (unsigned long long)add, rc, (int)ok);
        if (rc != RC_OK) c.fail("verify-threw", "verify with an ID of %llu bytes raised %s", (unsigned long long)(l0 + add), rcname(rc));
        if (ok) c.fail("invalid-accepted", "a signature for an ID of %llu bytes was accepted for one of %llu bytes, whose length GB/T 32918 cannot express", (unsigned long long)l0, (unsigned long long)(l0 + add));
        SimRng r2;
        arm(r2, 0, (u64)p.at(2), -1, 0);
        if (x.o->sign(s2.d(), m.d(), m.n, SimRng::gen, &r2, id.p, l0 + add, 0) == RC_OK)
            c.fail("overlong-id-signed", "signing with an ID of %llu bytes succeeded", (unsigned long long)(l0 + add));
        s2.check(c, "signature");
    }
    c.count("id.longer-than-65535-bits");
    c.nontrivial++;
}
void World::op_hugemsg(const Op& p)
{ // slot len seed: a message of more than 2^32 bytes
    Obj& x = o[p.at(0) % NS];
    if (!x.o || !x.priv || !x.keyed || x.sh == SH_SM3) return;
    u64  len = (u64)p.at(1);
    Huge m(len + 64, false);
    if (!m.p) return;
    Bytes  id = idbytes(0, 0);
    SimRng r;
    arm(r, 0, (u64)p.at(2), -1, 0);
    Buf sig(64), ib(id);
    int rc = x.o->sign(sig.d(), m.p, (size_t)len, SimRng::gen, &r, ib.d(), ib.n, 1);
    c.log("sign of %llu bytes: rc=%d", (unsigned long long)len, rc);
    if (rc != RC_OK) c.fail("spurious-failure", "signing %llu bytes failed (%s)", (unsigned long long)len, rcname(rc));
    c.bytes(sig.d(), 64);
    for (u64 l : std::initializer_list<u64>{len, len + 1, len & 0xffffffff, len & 0x7fffffff, len & 0x1fffffff, len & 0xffff, len + (1ull << 32)})
    {
        Huge big(l + 64, false);
        if (!big.p) continue;
        bool ok = false;
        rc = x.o->verify(&ok, sig.d(), big.p, (size_t)l, ib.d(), ib.n, 1);
        if (rc != RC_OK || ok != (l == len))
            c.fail(l == len ? "valid-refused" : "invalid-accepted", "a signature for %llu bytes was %s for the first %llu of them", (unsigned long long)len, ok ? "accepted" : "refused", (unsigned long long)l);
    }
    // and the verdict does not depend on the build: another one checks it
    const Bytes pk = [&] { Bytes b = ub(x.P.x), y = ub(x.P.y); b.insert(b.end(), y.begin(), y.end()); return b; }();
    for (size_t k = 0; k < A.size(); k++)
    {
        if (g_libs[k].name.find("asan") != std::string::npos) continue;
        std::unique_ptr<ISm2> q(A[k]->make(x.sh, 0, 1, pk.data(), nullptr, nullptr, 0, &rc));
        bool ok = false;
        if (!q) continue;
        rc = q->verify(&ok, sig.d(), m.p, (size_t)len, ib.d(), ib.n, 1);
        if (rc != RC_OK || !ok) c.fail("valid-refused", "build %s refuses a signature for %llu bytes", g_libs[k].name.c_str(), (unsigned long long)len);
    }
    c.count("msg.longer-than-2^32");
    c.nontrivial++;
}
void World::op_dep(const Op& p)
{ // slot mseed sseed bit
    Obj& x = o[p.at(0) % NS];
    if (!x.o || !x.priv || !x.keyed) return;
    Sig a, b;
    a.msg = b.msg = sim_data((u64)p.at(1), (size_t)(p.at(1) % 100));
    a.id = b.id = idbytes(0, 0), a.def = b.def = true;
    SimRng ra, rb;
    ra.seed = rb.seed = (u64)p.at(2);
    Bytes first = sim_data((u64)p.at(2) + 99, 32);
    first[0] &= 0x7f;
    ra.script.push_back(first);
    size_t bit = (size_t)(p.at(3) % 255) + 1;
    first[bit / 8] ^= 0x80 >> (bit % 8);
    rb.script.push_back(first);
    c.count("op.dep");
    i64 na = g_nest.at;
    if (!do_sign(x, a, ra, "sign")) return;
    if (na >= 0) g_nest.at = na; // the same use of the library by the device, both times
    g_nest.served.clear();
    if (!do_sign(x, b, rb, "sign")) return;
    c.log("dep bit=%zu", bit);
    if (a.k == b.k) c.fail("nonce-reuse", "random streams that differ in bit %zu of the first draw gave the same nonce", bit);
    c.nontrivial++;
}
void World::op_ver(const Op& p)
{ // slot sigidx kind a b
    Obj& x = o[p.at(0) % NS];
    if (!x.o || !x.keyed) return;
    const Curve& C = sm2();
    int kind = (int)p.at(2);
    u64 a = (u64)p.at(3), b = (u64)p.at(4);
    Sig g;
    if (!sigs.empty()) g = sigs[(size_t)p.at(1) % sigs.size()];
    if (g.sh != x.sh || g.s.empty())
    {
        g.s = sim_data(a, 64), g.msg = sim_data(b, a % 60), g.id = idbytes((int)(a % 3), b % 40), g.def = a % 3 == 0;
        if (x.known && kind < 30)
        { // a genuine signature made by the reference signer
            HashFn h = hashfn(x.sh);
            Bytes  z = sm2_z(h, g.id, x.P);
            z.insert(z.end(), g.msg.begin(), g.msg.end());
            if (!sm2_sign_k(g.s.data(), h, x.d, rnd_n(a + 5), h(z.data(), z.size()))) return;
        }
    }
    u8*  s = g.s.data();
    U256 r0 = u256_be(s), s0 = u256_be(s + 32);
    auto put = [&](int w, const U256& v) { u256_out(v, s + 32 * w); };
    auto addn = [&](U256 v) {
        unsigned __int128 cc = 0;
        for (int i = 0; i < 4; i++) cc += (unsigned __int128)v.v[i] + C.N.m.v[i], v.v[i] = (u64)cc, cc >>= 64;
        return v;
    };
    Bytes ekey;
    static const char* names[] = {"genuine",     "sig bit flip", "message bit flip", "id change", "r=0",     "s=0",      "r=n",      "s=n",         "r+n",        "s+n",          "n-s",
                                  "r,s swapped", "s=n-r",        "random bytes",     "all ff",    "infinity", "sG=tP",    "chosen r,s", "noncanonical r", "noncanonical s", "x1 in [n,p)", "message cut",
                                  "message extended", "overlong id", "boundary r,s", "chosen r,s, e off by one", "other key"};
    switch (kind)
    {
        case 0: break;
        case 1: s[a % 64] ^= 1 << (b % 8); break;
        case 2:
            if (b & 8) sim_vary(g.msg, a);
            else if (!g.msg.empty()) g.msg[a % g.msg.size()] ^= 1 << (b % 8);
            break;
        case 3:
            g.def = false;
            if (b & 8) sim_vary(g.id, a);
            else if (b & 1 && !g.id.empty()) g.id[a % g.id.size()] ^= 1 << (b % 8);
            else if (b & 2) g.id.push_back((u8)a);
            else if (!g.id.empty()) g.id.pop_back();
            break;
        case 4: put(0, U256()); break;
        case 5: put(1, U256()); break;
        case 6: put(0, C.N.m); break;
        case 7: put(1, C.N.m); break;
        case 8: put(0, addn(r0)); break;
        case 9: put(1, addn(s0)); break;
        case 10: put(1, C.N.neg(s0)); break;
        case 11: put(0, s0), put(1, r0); break;
        case 12: put(1, C.N.neg(r0)); break;
        case 13: g.s = sim_data(a, 64), s = g.s.data(); break;
        case 14: memset(s, 0xff, 64); break;
        case 21:
            if (!g.msg.empty()) g.msg.resize(a % g.msg.size());
            break;
        case 22: g.msg.push_back((u8)b); break;
        case 23: g.def = false, g.id = idbytes(7, 8192 + (a % 4 ? a % 300 : 65536 - 8192 + b % 64)); break;
        case 24: put(0, keyval((int)(a % 20), b)), put(1, keyval((int)(a / 20 % 20), b + 1)); break;
        case 15:
        case 16:
        case 17:
        case 18:
        case 19:
        case 20:
        case 25:
        {
            // adversarial constructions need e under control
            if (x.sh != SH_S32 && x.sh != SH_S48 && x.sh != SH_S64) return;
            U256 r, ss;
            bool acc = true;
            auto small = [&](u64 q) {
                U256 v = u256_addw(U256(), q % 1000 + 1);
                v.v[2] = q & 4 ? q * 77 : 0; // < 2^256 - n
                return v;
            };
            U256 e;
            Bytes rnd = sim_data(a * 3 + 1, 32);
            r = C.N.red(u256_be(rnd.data()));
            ss = rnd_n(b + 17);
            if (kind == 15)
            { // [s]G + [t]P = O with r = e
                if (!x.known) return;
                e = r;
                ss = C.N.mul(C.N.neg(C.N.mul(x.d, e)), C.N.inv(C.N.add(x.d, one())));
            }
            else
            {
                if (kind == 16)
                {
                    if (!x.known || x.d == one()) return;
                    ss = C.N.mul(C.N.mul(r, x.d), C.N.inv(C.N.sub(one(), x.d)));
                }
                if (kind == 18) r = small(a);
                if (kind == 19) ss = small(a);
                if (kind == 17 || kind == 25)
                {
                    U256 v = keyval((int)(a % 20), b), w = keyval((int)(a / 20 % 20), b + 1);
                    r = C.N.red(v), ss = C.N.red(w);
                }
                if (u256_zero(r) || u256_zero(ss) || u256_zero(C.N.add(r, ss))) return;
                if (kind == 20)
                { // public key crafted so that x1 lies in [n, p)
                    Pt q;
                    U256 xx = u256_addw(C.N.m, a % 1000);
                    while (!C.lift(q, xx, (int)(b & 1))) xx = u256_addw(xx, 1);
                    if (x.priv) return;
                    U256 t = C.N.add(r, ss);
                    Pt   K = C.mul(C.N.inv(t), C.add(q, C.neg(C.mul(ss, C.G))));
                    if (K.inf) return;
                    Buf kx(ub(K.x)), ky(ub(K.y));
                    if (x.o->set_pub(kx.d(), ky.d()) != RC_OK) c.fail("import-range", "a public key on the curve was refused");
                    x.P = K, x.known = false;
                }
                Pt q = C.add(C.mul(ss, C.G), C.mul(C.N.add(r, ss), x.P));
                if (q.inf) return;
                e = C.N.sub(r, C.N.red(q.x));
                if (kind == 25) e = C.N.add(e, one()), acc = false;
            }
            // digest := e + j n where it fits
            HashFn h = [&](const u8* q, size_t n) { return raw_hash(x.sh, q, n); };
            Bytes  z = sm2_z(h, g.id, x.P);
            z.insert(z.end(), g.msg.begin(), g.msg.end());
            ekey = h(z.data(), z.size());
            Bytes ev = ub(e);
            if (x.sh == SH_S64 || x.sh == SH_S48)
            { // e + j*n as a long integer
                size_t ds = dsz(x.sh), extra = ds - 32;
                Bytes  j = sim_data(b + 9, extra);
                if (b % 3 == 0) std::fill(j.begin(), j.end(), 0);
                j[0] = 0;
                Bytes nb = ub(C.N.m), acc2(ds, 0);
                memcpy(&acc2[extra], ev.data(), 32);
                for (size_t y = 0; y < extra; y++) // acc2 += j[y]*n << 8*(extra-1-y)
                {
                    u32 carry = 0;
                    size_t sh8 = extra - 1 - y;
                    for (size_t w = 0; w < ds; w++)
                    {
                        size_t pos = ds - 1 - w;
                        u32    add = 0;
                        if (w >= sh8 && w - sh8 < 32) add = (u32)j[y] * nb[31 - (w - sh8)];
                        u32 v = acc2[pos] + add + carry;
                        acc2[pos] = (u8)v;
                        carry = v >> 8;
                    }
                }
                ev = acc2;
            }
            else if (b & 1)
            { // e + n when it fits in 32 bytes
                U256 en = addn(e);
                if (u256_cmp(en, C.N.m) >= 0) ev = ub(en);
            }
            over[ekey] = ev;
            put(0, r), put(1, ss);
            (void)acc;
            break;
        }
        default: break;
    }
    HashFn h = hashfn(x.sh);
    int    want = sm2_verify(h, dsz(x.sh), x.P, s, g.msg, g.id);
    c.log("ver kind=%d lib=%s sh=%d want=%d", kind, g_libs[x.lib].name.c_str(), x.sh, want);
    c.count("op.ver");
    c.count(std::string("sigfault.") + (kind < 27 ? names[kind] : "?"));
    c.count(want ? "oracle.valid" : "oracle.invalid");
    lib_verify_expect(x.o, s, g.msg, g.id, g.def, want, kind < 27 ? names[kind] : "?");
    if ((kind == 18 || kind == 19 || kind == 17) && want)
    { // the same value plus n must be refused
        int  w = kind == 19 ? 1 : 0;
        U256 v = addn(u256_be(s + 32 * w));
        if (u256_cmp(v, C.N.m) >= 0)
        {
            put(w, v);
            lib_verify_expect(x.o, s, g.msg, g.id, g.def, 0, "non-canonical r or s");
            c.count("sigfault.noncanonical");
        }
    }
    if (kind == 20 && want) c.count("reach.x1-above-n");
    if (!ekey.empty()) over.erase(ekey);
    c.nontrivial++;
    c.state(hcomb(hcomb(x.lib * 8 + x.sh, kind), want * 2 + x.priv));
}
// ------------------------------------------------------------- encryption
Bytes World::lib_encrypt(Obj& x, const Bytes& m, int pc, SimRng& r, int* rcout, const char* what)
{
    Buf    in(m);
    size_t len = 0xdead;
    if (x.o->ct_len(&len, in.d(), in.n, pc) != RC_OK) c.fail("encrypt-failed", "ciphertext_len raised");
    size_t c1 = pc == 1 ? 33 : 65;
    if (len != c1 + dsz(x.sh) + m.size()) c.fail("wrong-length", "ciphertext_len is %zu for %zu plaintext bytes", len, m.size());
    Buf    ct(len);
    size_t ol = 0xabcdef;
    scribble(r.seed);
    int rc = x.o->encrypt(ct.d(), &ol, in.d(), in.n, SimRng::gen, &r, pc);
    *rcout = rc;
    ct.check(c, "ciphertext"), in.check(c, "plaintext");
    fault_rc(r, rc, what);
    if (rc != RC_OK) return Bytes();
    if (r.calls == 0) c.fail("rng-unused", "encrypt did not draw from the random device");
    if (ol != len) c.fail("wrong-length", "encrypt reported %zu bytes, announced %zu", ol, len);
    c.bytes(ct.d(), ct.n);
    return ct.b();
}
// kout: use the first nonce >= k whose key stream is not all zero, and return it
Bytes World::ref_encrypt(int sh, const Pt& P, const Bytes& m, int pc, const U256& k0, U256* kout)
{
    const Curve& C = sm2();
    HashFn h = hashfn(sh);
    for (U256 k = k0;; k = u256_addw(k, 1))
    {
        Bytes ct = C.encode(C.mul(k, C.G), pc);
        Pt    q = C.mul(k, P);
        Bytes x2 = ub(q.x), y2 = ub(q.y), z = x2;
        z.insert(z.end(), y2.begin(), y2.end());
        Bytes t = sm2_kdf(h, dsz(sh), z, m.size()), u = x2;
        if (kout)
        {
            bool zero = true;
            for (u8 v : t) zero &= v == 0;
            if (zero) continue;
            *kout = k;
        }
        u.insert(u.end(), m.begin(), m.end());
        u.insert(u.end(), y2.begin(), y2.end());
        Bytes c3 = h(u.data(), u.size());
        ct.insert(ct.end(), c3.begin(), c3.end());
        for (size_t i = 0; i < m.size(); i++) ct.push_back(m[i] ^ t[i]);
        return ct;
    }
}
int World::ref_decrypt(int sh, const U256& d, const Bytes& ct, Bytes& m)
{
    const Curve& C = sm2();
    HashFn h = hashfn(sh);
    size_t ds = dsz(sh), used;
    Pt     p;
    if (C.decode(p, used, ct.data(), ct.size()) != 0) return 0;
    if (ct.size() < used + ds) return 0;
    Pt    q = C.mul(d, p);
    if (q.inf) return 0;
    Bytes x2 = ub(q.x), y2 = ub(q.y), z = x2;
    z.insert(z.end(), y2.begin(), y2.end());
    size_t n = ct.size() - used - ds;
    Bytes  t = sm2_kdf(h, ds, z, n), u = x2;
    bool zero = n != 0;
    m.resize(n);
    for (size_t i = 0; i < n; i++) zero &= t[i] == 0, m[i] = t[i] ^ ct[used + ds + i];
    if (zero) return 0;
    u.insert(u.end(), m.begin(), m.end());
    u.insert(u.end(), y2.begin(), y2.end());
    Bytes c3 = h(u.data(), u.size());
    return memcmp(c3.data(), &ct[used], ds) == 0;
}
static int lib_decrypt(World& w, ISm2* o, const Bytes& ctb, Bytes& m, bool* threw, size_t cap)
{
    Ctx&   c = w.c;
    Buf    ct(ctb);
    size_t n = 0xdddd;
    int    rc = o->pt_len(&n, ct.d(), ct.n);
    *threw = false;
    if (rc != RC_OK)
    {
        // no announced length: decrypt itself must refuse without writing
        Buf    out(0);
        size_t ol = 0;
        rc = o->decrypt(out.d(), &ol, ct.d(), ct.n);
        if (rc == RC_OK) c.fail("decrypt-accepted", "decrypt accepted a string whose plaintext_len was refused");
        out.check(c, "plaintext");
        *threw = true;
        return -1;
    }
    if (n > cap) c.fail("wrong-length", "plaintext_len announces %zu bytes for a %zu-byte ciphertext", n, ctb.size());
    Buf    out(n);
    size_t ol = 0xabcdef;
    rc = o->decrypt(out.d(), &ol, ct.d(), ct.n);
    out.check(c, "plaintext"), ct.check(c, "ciphertext");
    if (rc != RC_OK)
    {
        *threw = true;
        return rc;
    }
    if (ol != n) c.fail("wrong-length", "decrypt reported %zu bytes, announced %zu", ol, n);
    m = out.b();
    return 0;
}
void World::op_enc(const Op& p)
{ // slot mseed mlen pc stream sseed failat fkind special
    Obj& x = o[p.at(0) % NS];
    if (!x.o || !x.keyed) return;
    Bytes m = sim_data((u64)p.at(1), (size_t)std::max<i64>(1, p.at(2)));
    int   pc = (int)(p.at(3) % 4) - 1, rc;
    int   special = x.sh != SH_SM3 && x.known ? (int)p.at(8) : 0;
    const Curve& C = sm2();
    size_t ds = dsz(x.sh);
    SimRng r;
    arm(r, (int)p.at(4), (u64)p.at(5), p.at(6, -1), (int)p.at(7));
    c.log("enc lib=%s sh=%d mlen=%zu pc=%d stream=%d fail=%lld special=%d", g_libs[x.lib].name.c_str(), x.sh, m.size(), pc, (int)p.at(4), (long long)p.at(6, -1), special);
    c.count("op.enc");
    c.count(std::string("stream.kind") + std::to_string(p.at(4)));
    std::vector<Bytes> keys;
    Bytes c1old;
    size_t c1n = pc == 1 ? 33 : 65;
    u64 calls0 = 0;
    if (special && m.size() <= 6 * ds)
    {
        SimRng r0;
        arm(r0, (int)p.at(4), (u64)p.at(5), -1, 0);
        Bytes ct0 = lib_encrypt(x, m, pc, r0, &rc, "encrypt");
        Pt    q;
        size_t used;
        if (ct0.empty() || C.decode(q, used, ct0.data(), ct0.size())) c.fail("ciphertext-invalid", "C1 is not a point");
        Pt    k = C.mul(x.d, q);
        Bytes z = ub(k.x), y2 = ub(k.y);
        z.insert(z.end(), y2.begin(), y2.end());
        u32 nb = (u32)((m.size() + ds - 1) / ds);
        for (u32 i = 1; i <= nb; i++)
        {
            if (special == 2 && i == nb && nb > 1) break; // last block stays non-zero
            if (special == 4 && (i == 1 + (u64)p.at(5) % nb || hcomb((u64)p.at(5), i) % 3 == 0)) continue; // some blocks stay non-zero
            Bytes b = z;
            for (int t = 0; t < 4; t++) b.push_back((u8)(i >> (24 - 8 * t)));
            Bytes kd = raw_hash(x.sh, b.data(), b.size()), v = kd;
            // exactly the bits that are used become zero
            size_t use = std::min(ds, m.size() - (size_t)(i - 1) * ds);
            std::fill(v.begin(), v.begin() + use, 0);
            if (special == 3 && i == nb) v[use - 1] = 1; // one non-zero bit at the very end
            over[kd] = v;
            keys.push_back(kd);
        }
        c1old = Bytes(ct0.begin(), ct0.begin() + c1n);
        // the same nonce as used by another implementation: the key stream is
        // not all zero as long as one block is not, and the message comes back
        Bytes ks = sm2_kdf(hashfn(x.sh), ds, z, m.size());
        if (std::any_of(ks.begin(), ks.end(), [](u8 v) { return v != 0; }) && good_priv(x.d))
        {
            Bytes fct = c1old, u(z.begin(), z.begin() + 32), y(z.begin() + 32, z.begin() + 64), out;
            u.insert(u.end(), m.begin(), m.end());
            u.insert(u.end(), y.begin(), y.end());
            HashFn h = hashfn(x.sh);
            Bytes c3 = h(u.data(), u.size());
            fct.insert(fct.end(), c3.begin(), c3.end());
            for (size_t i = 0; i < m.size(); i++) fct.push_back(m[i] ^ ks[i]);
            for (size_t l = 0; l < A.size(); l++)
            {
                std::unique_ptr<ISm2> f(fresh((int)l, x.sh, x.d));
                bool threw;
                lib_decrypt(*this, f.get(), fct, out, &threw, fct.size());
                if (threw) c.fail("round-trip", "decryption in %s refused a ciphertext of another implementation whose key stream is zero in part (%zu bytes)", g_libs[l].name.c_str(), m.size());
                if (out != m) c.fail("round-trip", "decryption in %s returned a different message", g_libs[l].name.c_str());
            }
            c.count("foreign-ciphertext.part-zero-key-stream");
        }
        calls0 = r0.calls;
        c.count(special == 1 ? "retry.kdf0" : "retry.kdf-almost0");
    }
    else special = 0;
    Bytes ct = lib_encrypt(x, m, pc, r, &rc, "encrypt");
    if (ct.empty())
    {
        for (auto& k : keys) over.erase(k);
        op_chk(Op{"chk", {p.at(0), 81}});
        return;
    }
    if (special == 1 || (special == 2 && m.size() <= ds))
    {
        if (Bytes(ct.begin(), ct.begin() + c1n) == c1old) c.fail("zero-keystream-used", "an all-zero key stream of %zu bytes was used", m.size());
        if (r.calls <= calls0) c.fail("zero-keystream-used", "no new draw after an all-zero key stream");
    }
    // C1: requested format, on the curve, canonical
    Pt     q;
    size_t used = 0;
    if (C.decode(q, used, ct.data(), ct.size()) || used != c1n || C.encode(q, pc < 0 ? 0 : pc) != Bytes(ct.begin(), ct.begin() + c1n))
        c.fail("ciphertext-invalid", "C1 is not the announced point format: %s", hexs(ct.data(), c1n).c_str());
    if (x.known)
    {
        Bytes m2;
        if (!ref_decrypt(x.sh, x.d, ct, m2) || m2 != m) c.fail("ciphertext-invalid", "not a GB/T 32918.4 ciphertext of the message (%zu bytes)", m.size());
        // every build configuration recovers it
        for (size_t l = 0; l < A.size(); l++)
        {
            if (m.size() > 20000 && l > 1) break;
            std::unique_ptr<ISm2> f;
            ISm2* dec;
            if (x.priv && (int)l == x.lib) dec = x.o;
            else
            {
                if (!good_priv(x.d)) continue;
                f.reset(fresh((int)l, x.sh, x.d));
                dec = f.get();
            }
            Bytes out;
            bool  threw;
            lib_decrypt(*this, dec, ct, out, &threw, ct.size());
            if (threw) c.fail("round-trip", "decryption in %s refused a genuine ciphertext (%zu bytes)", g_libs[l].name.c_str(), m.size());
            if (out != m) c.fail("round-trip", "decryption in %s returned a different message", g_libs[l].name.c_str());
        }
        c.nontrivial++;
    }
    for (auto& k : keys) over.erase(k);
    c.state(hcomb(hcomb(x.lib * 8 + x.sh, pc + 1), hcomb(size_class(m.size()) * 64 + m.size() % ds, (u64)p.at(4))));
}
void World::op_cor(const Op& p)
{ // slot mseed mlen pc kseed kind a b
    Obj& x = o[p.at(0) % NS];
    if (!x.o || !x.priv || !x.keyed) return;
    const Curve& C = sm2();
    size_t ds = dsz(x.sh);
    Bytes  m = sim_data((u64)p.at(1), (size_t)std::max<i64>(1, p.at(2)));
    int    pc = (int)(p.at(3) % 3), kind = (int)p.at(5);
    u64    a = (u64)p.at(6), b = (u64)p.at(7);
    U256   kk;
    Bytes  ct = ref_encrypt(x.sh, x.P, m, pc, rnd_n((u64)p.at(4) + 1000), &kk), good = ct;
    size_t c1n = pc == 1 ? 33 : 65;
    static const char* names[] = {"truncated", "bit flip",  "format byte", "re-formatted", "off-curve", "non-canonical x", "non-canonical y", "wrong parity", "pieces exchanged", "extended",
                                  "empty",     "garbage",   "C3 replaced", "C1 negated",   "C1 zero",   "byte removed",    "byte inserted",   "cut at a piece boundary", "C1 of other key", "zero key stream", "small-x point"};
    std::vector<Bytes> keys;
    auto small_ct = [&](bool noncanon, bool y) { // C1 is a chosen point; d gives the shared point
        Pt   q;
        bool known;
        U256 d;
        Bytes can = pubval(y ? 5 : 3, a, &known, &d), non = pubval(y ? 6 : 4, a, &known, &d);
        q.x = u256_be(can.data()), q.y = u256_be(can.data() + 32), q.inf = false;
        Pt     s = C.mul(x.d, q);
        HashFn h = hashfn(x.sh);
        Bytes  z = ub(s.x), y2 = ub(s.y), x2 = z;
        z.insert(z.end(), y2.begin(), y2.end());
        Bytes t = sm2_kdf(h, ds, z, m.size()), u = x2;
        u.insert(u.end(), m.begin(), m.end()), u.insert(u.end(), y2.begin(), y2.end());
        Bytes c3 = h(u.data(), u.size());
        Bytes r = C.encode(q, pc);
        Bytes& src = noncanon ? non : can;
        memcpy(&r[1], src.data(), 32);
        if (pc != 1) memcpy(&r[33], src.data() + 32, 32);
        r.insert(r.end(), c3.begin(), c3.end());
        for (size_t i = 0; i < m.size(); i++) r.push_back(m[i] ^ t[i]);
        return r;
    };
    switch (kind)
    {
        case 0: ct.resize(a % ct.size()); break;
        case 1: ct[a % ct.size()] ^= 1 << (b % 8); break;
        case 2: ct[0] = (u8)(b % 3 ? a % 9 : a); break;
        case 3:
        {
            Pt q;
            size_t u;
            C.decode(q, u, ct.data(), ct.size());
            Bytes n = C.encode(q, (pc + 1 + (int)(a % 2)) % 3);
            n.insert(n.end(), ct.begin() + c1n, ct.end());
            ct = n;
            break;
        }
        case 4:
        {
            bool k;
            U256 d;
            Bytes v = pubval(1 + (int)(a % 2), b, &k, &d);
            memcpy(&ct[1], v.data(), 32);
            if (pc != 1) memcpy(&ct[33], v.data() + 32, 32);
            break;
        }
        case 5: ct = small_ct(true, false); break;
        case 6:
            if (pc == 1) pc = 0, c1n = 65;
            ct = small_ct(true, true);
            break;
        case 7: ct[0] ^= 1; break;
        case 8:
        {
            Bytes c1(ct.begin(), ct.begin() + c1n), c3(ct.begin() + c1n, ct.begin() + c1n + ds), c2(ct.begin() + c1n + ds, ct.end());
            Bytes* o3[3] = {&c1, &c2, &c3};
            if (a % 3 == 1) std::swap(o3[0], o3[1]);
            if (a % 3 == 2) std::swap(o3[0], o3[2]);
            ct.clear();
            for (auto q : o3) ct.insert(ct.end(), q->begin(), q->end());
            break;
        }
        case 9:
        {
            Bytes e = sim_data(b, a % 40 + 1);
            ct.insert(ct.end(), e.begin(), e.end());
            break;
        }
        case 10: ct.clear(); break;
        case 11: ct = sim_data(b, a % 200); if (!ct.empty() && b % 4) ct[0] = (u8)(2 + b % 6); break;
        case 12:
        {
            Bytes e = sim_data(b, ds);
            if (a % 3 == 0) std::fill(e.begin(), e.end(), 0);
            memcpy(&ct[c1n], e.data(), ds);
            break;
        }
        case 13:
            if (pc != 1)
            {
                U256 y = C.P.neg(u256_be(&ct[33]));
                u256_out(y, &ct[33]);
                if (pc == 2) ct[0] ^= 1;
            }
            else ct[0] ^= 1;
            break;
        case 14: std::fill(ct.begin() + (a % 2), ct.begin() + c1n, 0); break;
        case 15: ct.erase(ct.begin() + a % ct.size()); break;
        case 16: ct.insert(ct.begin() + a % (ct.size() + 1), (u8)b); break;
        case 17: ct.resize(std::min(ct.size(), (size_t)std::max<i64>(0, (i64)(a % 2 ? c1n : c1n + ds) + (i64)(b % 5) - 2))); break;
        case 18: ct = ref_encrypt(x.sh, C.mul(rnd_n(b + 4), C.G), m, pc, rnd_n(a)); break;
        case 19:
        { // the whole key stream is zero: the standard refuses
            if (x.sh == SH_SM3) return;
            Pt q;
            size_t u;
            C.decode(q, u, ct.data(), ct.size());
            Pt s = C.mul(x.d, q);
            Bytes z = ub(s.x), y2 = ub(s.y);
            z.insert(z.end(), y2.begin(), y2.end());
            u32 nb = (u32)((m.size() + ds - 1) / ds);
            for (u32 i = 1; i <= nb; i++)
            {
                Bytes bb = z;
                for (int t = 0; t < 4; t++) bb.push_back((u8)(i >> (24 - 8 * t)));
                Bytes kd = raw_hash(x.sh, bb.data(), bb.size());
                over[kd] = Bytes(ds, 0);
                if (a % 2 && i == nb && nb > 1) over[kd][0] = 1; // almost zero: valid
                keys.push_back(kd);
            }
            ct = ref_encrypt(x.sh, x.P, m, pc, kk);
            break;
        }
        case 20: ct = small_ct(false, b & 1); break;
    }
    Bytes want;
    int   valid = ref_decrypt(x.sh, x.d, ct, want);
    c.log("cor lib=%s sh=%d kind=%d valid=%d n=%zu", g_libs[x.lib].name.c_str(), x.sh, kind, valid, ct.size());
    c.count("op.cor");
    c.count(std::string("ctfault.") + (kind < 21 ? names[kind] : "none"));
    c.count(valid ? "oracle.valid" : "oracle.invalid");
    Bytes got;
    bool  threw;
    lib_decrypt(*this, x.o, ct, got, &threw, ct.size());
    if (!threw)
    {
        if (!valid) c.fail("decrypt-accepted", "a %s ciphertext that is not valid under GB/T 32918.4 was decrypted", kind < 21 ? names[kind] : "?");
        if (got != want) c.fail("decrypt-wrong", "a valid ciphertext decrypted to a different message");
    }
    else if (valid && !want.empty()) c.fail("round-trip", "a valid ciphertext (%s) was refused", kind < 21 ? names[kind] : "intact");
    for (auto& k : keys) over.erase(k);
    // the key stays usable
    lib_decrypt(*this, x.o, good, got, &threw, good.size());
    if (threw || got != m) c.fail("key-unusable", "an intact ciphertext is no longer decrypted after a corrupted one");
    c.nontrivial++;
    c.state(hcomb(hcomb(x.lib * 8 + x.sh, kind), hcomb(valid * 4 + pc, size_class(ct.size()))));
}
// the object behaves exactly like a fresh object holding the model's key
void World::nest(u64 seed)
{
    delete tmp.o;
    tmp = Obj();
    tmp.lib = lastlib, tmp.sh = lastsh, tmp.d = rnd_n(seed), tmp.P = sm2().mul(tmp.d, sm2().G);
    tmp.priv = seed % 3 != 0, tmp.keyed = tmp.known = true;
    int rc = RC_OK;
    if (tmp.priv) tmp.o = fresh(tmp.lib, tmp.sh, tmp.d);
    else
    {
        Bytes k = ub(tmp.P.x), y = ub(tmp.P.y);
        k.insert(k.end(), y.begin(), y.end());
        Buf b(k);
        tmp.o = A[tmp.lib]->make(tmp.sh, 0, 1, b.d(), nullptr, nullptr, 0x4444, &rc);
        if (!tmp.o) c.fail("import-refused", "a public key was refused on import");
    }
    chk(tmp, seed / 3);
}
void World::chk(Obj& x, u64 seed)
{
    if (!x.o || !x.keyed) return;
    c.count("op.chk");
    check_pub(x, "public key");
    if (x.priv)
    {
        Buf d(32);
        x.o->get_priv(d.d());
        expect_bytes(c, "wrong-private-key", "exported private key", d.d(), ub(x.d).data(), 32);
        std::unique_ptr<ISm2> f(fresh(x.lib, x.sh, x.d));
        Obj y = x;
        y.o = f.get();
        Sig g, g2;
        g.msg = sim_data(seed, seed % 70), g.id = idbytes(0, 0), g.def = true;
        g2 = g;
        SimRng r1, r2;
        arm(r1, 0, seed, -1, 0), arm(r2, 0, seed, -1, 0);
        do_sign(x, g, r1, "sign"), do_sign(y, g2, r2, "sign");
        y.o = nullptr;
        if (g.s != g2.s) c.fail("object-differs", "the object signs differently from a fresh object with the exported key");
        if (seed & 1)
        {
            Bytes m = sim_data(seed + 1, 1 + seed % 40), got, got2;
            U256  kk;
            Bytes ct = ref_encrypt(x.sh, x.P, m, (int)(seed / 2 % 3), rnd_n(seed), &kk);
            bool  threw;
            lib_decrypt(*this, x.o, ct, got, &threw, ct.size());
            if (threw || got != m) c.fail("object-differs", "the object does not decrypt for its exported key");
        }
        else lib_verify_expect(x.o, g.s.data(), g.msg, g.id, true, 1, "own signature");
        std::unique_ptr<ISm2> pub(x.o->pub_copy());
        Obj z;
        z.P = x.P, z.o = pub.get();
        check_pub(z, "fetch_pub copy");
        lib_verify_expect(pub.get(), g.s.data(), g.msg, g.id, true, 1, "signature checked by the copied public key");
        z.o = nullptr;
    }
    else
    {
        // verify and encrypt with the public key
        if (x.known && good_priv(x.d))
        {
            HashFn h = hashfn(x.sh);
            Bytes  msg = sim_data(seed, seed % 50), id = idbytes(0, 0), z = sm2_z(h, id, x.P);
            z.insert(z.end(), msg.begin(), msg.end());
            Bytes s(64);
            if (sm2_sign_k(s.data(), h, x.d, rnd_n(seed + 3), h(z.data(), z.size()))) lib_verify_expect(x.o, s.data(), msg, id, true, 1, "reference signature");
        }
        SimRng r1, r2;
        arm(r1, 0, seed, -1, 0), arm(r2, 0, seed, -1, 0);
        Bytes m = sim_data(seed + 1, 1 + seed % 40);
        int   rc;
        Bytes k = ub(x.P.x), ky = ub(x.P.y);
        k.insert(k.end(), ky.begin(), ky.end());
        Buf kb(k);
        std::unique_ptr<ISm2> f(A[x.lib]->make(x.sh, 0, 1, kb.d(), nullptr, nullptr, 0x4444, &rc));
        if (!f) c.fail("import-refused", "an exported public key was refused on import");
        Bytes c1 = lib_encrypt(x, m, 0, r1, &rc, "encrypt");
        Obj   y = x;
        y.o = f.get();
        Bytes c2 = lib_encrypt(y, m, 0, r2, &rc, "encrypt");
        y.o = nullptr;
        if (c1 != c2) c.fail("object-differs", "the object encrypts differently from a fresh object with the exported key");
    }
    c.nontrivial++;
}
void sm2_exec(const Plan& p, Ctx& c)
{
    World w(c);
    for (auto& op : p.ops)
    {
        c.st->steps++;
        Obj* x = &w.o[(u64)op.at(0) % NS];
        Obj* y = &w.o[(u64)op.at(1) % NS];
        g_nest.raise(c);
        w.lastsh = op.n == "new" ? (int)(op.at(2) % SH_COUNT) : x->sh;
        w.lastlib = op.n == "new" ? (int)nlib(w.libbase + op.at(3)) : x->lib;
        if (op.n == "lib") w.libbase = op.at(0);
        else if (op.n == "nst") g_nest.at = op.at(0), g_nest.seed = (u64)op.at(1);
        else if (op.n == "new") w.op_new(op);
        else if (op.n == "genp") w.op_genp(op);
        else if (op.n == "setp") w.op_setp(op);
        else if (op.n == "setpub") w.op_setpub(op);
        else if (op.n == "sign") w.op_sign(op);
        else if (op.n == "dep") w.op_dep(op);
        else if (op.n == "hugeid") w.op_hugeid(op);
        else if (op.n == "hugemsg") w.op_hugemsg(op);
        else if (op.n == "ver") w.op_ver(op);
        else if (op.n == "enc") w.op_enc(op);
        else if (op.n == "cor") w.op_cor(op);
        else if (op.n == "chk") w.op_chk(op);
        else if (op.n == "cpy" && x->o && x != y && x->keyed)
        { // copy slot 0 -> slot 1
            delete y->o;
            *y = *x;
            y->o = x->o->clone();
            c.count("op.copy");
        }
        else if (op.n == "asg" && x->o && y->o && x->keyed && x->priv == y->priv && x->sh == y->sh && x->lib == y->lib)
        { // assign slot 0 -> slot 1 (self assignment included)
            ISm2* keep = y->o;
            keep->assign(x->o);
            Obj t = *x;
            t.o = keep;
            *y = t;
            c.count("op.assign");
        }
        else if (op.n == "pub" && x->o && x != y && x->keyed)
        {
            ISm2* n = x->o->pub_copy();
            delete y->o;
            *y = *x;
            y->o = n, y->priv = false;
            c.count("op.pubcopy");
        }
    }
    g_nest.raise(c);
}
// callbacks that themselves use the library, in some of the plans
static void nests(Prng& r, Plan& p)
{
    if (!r.chance(1, 6)) return;
    std::vector<Op> v;
    for (auto& o : p.ops)
    {
        if (o.n != "lib" && o.n != "cpy" && r.chance(1, 2))
        {
            Op n;
            n.n = "nst", n.a = {o.n == "dep" ? 0 : r.chance(1, 2) ? (i64)r.below(2) : (i64)r.below(9), (i64)r.below(1000000)};
            v.push_back(n);
        }
        v.push_back(o);
    }
    p.ops = v;
}
// ------------------------------------------------------------------ generation
static void nests(Prng&, Plan&);
template <void (*G)(Prng&, Plan&)>
static void with_nests(Prng& r, Plan& p)
{
    G(r, p);
    nests(r, p);
}
static i64 g_mlen(Prng& r)
{
    if (r.chance(1, 16)) return gen_long(r, 64);
    switch (r.below(10))
    {
        case 0: return 0;
        case 1: return r.range(1, 4);
        case 2: return r.pick({31, 32, 33, 63, 64, 65, 55, 56, 119, 120});
        case 3: return r.range(100, 1200);
        default: return r.range(1, 130);
    }
}
static i64 g_enclen(Prng& r)
{
    if (r.chance(1, 60)) return gen_long(r, 32);
    switch (r.below(14))
    {
        case 0: return 1;
        case 1: return r.range(1, 4);
        case 2: return 32 * r.range(1, 8) + r.range(-1, 1);
        case 3: return r.range(100, 1200);
        case 4: return r.chance(1, 4) ? 32 * 256 + r.range(-33, 33) : r.range(1, 40);
        default: return r.range(1, 130);
    }
}
static i64 g_id(Prng& r, bool over)
{
    switch (r.below(12))
    {
        case 0: return 0;
        case 1: return 1;
        case 2: return r.pick({8191, 8190, 8191, 4096, 255, 256, 31, 32});
        case 3: return over ? r.range(8192, 8500) : 8191;
        case 4: return r.range(1, 2000);
        case 5:
        case 6:
        case 7: return 24;
        default: return r.range(0, 64);
    }
}
static i64 g_stream(Prng& r)
{
    if (r.chance(1, 2)) return 0;
    return r.range(1, 40);
}
static i64 g_sh(Prng& r, int scripted) { return r.chance((u32)scripted, 4) ? r.range(1, 4) : 0; }
// a third of all seeds come from a small pool, so that messages and keys recur within one history
static i64 g_sd(Prng& r) { return r.chance(1, 3) ? (i64)r.below(6) : (i64)r.below(1000000); }
static void g_new(Prng& r, Plan& p, i64 slot, bool priv, i64 sh, i64 lib)
{
    if (priv)
    {
        i64 how = r.chance(1, 6) ? 0 : r.chance(1, 2) ? 1 : 2;
        i64 kind = how == 1 ? (r.chance(1, 3) ? r.pick({2, 3, 4, 9, 10, 12, 13, 16}) : 20) : g_stream(r);
        p.add("new", {slot, 1, sh, lib, how, kind, g_sd(r), (i64)r.below(1000), -1, 0});
        if (how == 0) p.add(r.chance(1, 2) ? "setp" : "genp", {slot, r.chance(1, 2) ? 20 : 0, g_sd(r), -1, 0});
    }
    else
    {
        i64 how = r.chance(1, 4) ? 0 : 1;
        p.add("new", {slot, 0, sh, lib, how, r.pick({0, 0, 0, 3, 5, 9, 10, 11, 18}), g_sd(r), (i64)r.below(1000)});
        if (how == 0) p.add("setpub", {slot, 0, g_sd(r)});
    }
}
static void g_signop(Prng& r, Plan& p, i64 s, bool fault)
{
    p.add("sign", {s, g_sd(r), g_mlen(r), (i64)r.below(4), g_id(r, true), g_stream(r), g_sd(r), fault ? r.range(0, 2) : -1, (i64)r.below(2), r.chance(1, 3) ? r.range(1, 3) : 0});
}
static void g_encop(Prng& r, Plan& p, i64 s, bool fault)
{
    p.add("enc", {s, g_sd(r), g_enclen(r), (i64)r.below(4), g_stream(r), g_sd(r), fault ? r.range(0, 2) : -1, (i64)r.below(2), r.chance(1, 3) ? r.range(1, 4) : 0});
}
static void gen9(Prng& r, Plan& p)
{
    p.add("lib", {(i64)r.below(64)});
    i64 sh = g_sh(r, 2);
    g_new(r, p, 0, true, sh, 0);
    i64 n = r.range(1, 5);
    for (i64 i = 0; i < n; i++)
    {
        if (r.chance(1, 4)) p.add("dep", {0, g_sd(r), g_sd(r), (i64)r.below(255)});
        else g_signop(r, p, 0, false);
    }
}
static void gen10(Prng& r, Plan& p)
{
    p.add("lib", {(i64)r.below(64)});
    i64 sh = g_sh(r, 2);
    g_new(r, p, 0, true, sh, 0);
    if (r.chance(1, 2)) g_new(r, p, 1, false, sh, r.below(3));
    else p.add("pub", {0, 1});
    p.add("sign", {0, g_sd(r), g_mlen(r), (i64)r.below(4), g_id(r, false), 0, g_sd(r), -1, 0, 0});
    i64 n = r.range(3, 9);
    for (i64 i = 0; i < n; i++) p.add("ver", {(i64)r.below(2), (i64)r.below(3), r.chance(1, 2) ? r.range(15, 25) : r.range(0, 24), g_sd(r), g_sd(r)});
}
static void gen11(Prng& r, Plan& p)
{
    p.add("lib", {(i64)r.below(64)});
    i64 sh = g_sh(r, 2);
    g_new(r, p, 0, true, sh, 0);
    p.add("pub", {0, 1});
    i64 n = r.range(1, 4);
    for (i64 i = 0; i < n; i++) g_encop(r, p, (i64)r.below(2), false);
    if (r.chance(1, 300)) p.add("enc", {0, g_sd(r), 65536 * 32 + r.range(-40, 40), (i64)r.below(4), 0, g_sd(r), -1, 0, 0});
}
static void gen12(Prng& r, Plan& p)
{
    p.add("lib", {(i64)r.below(64)});
    g_new(r, p, 0, true, g_sh(r, 2), 0);
    i64 n = r.range(2, 6);
    for (i64 i = 0; i < n; i++) p.add("cor", {0, g_sd(r), g_enclen(r), (i64)r.below(3), g_sd(r), r.chance(1, 3) ? r.pick({0, 0, 1, 17, 5, 6, 7}) : r.range(0, 20), g_sd(r), g_sd(r)});
}
static void g_life(Prng& r, Plan& p, bool faults)
{
    p.add("lib", {(i64)r.below(64)});
    i64 sh = g_sh(r, 1);
    for (i64 s = 0; s < 2; s++) g_new(r, p, s, true, sh, 0);
    g_new(r, p, 2, false, sh, 0);
    i64 n = r.range(3, 9);
    for (i64 i = 0; i < n; i++)
    {
        i64 s = (i64)r.below(3), t = (i64)r.below(4);
        bool f = faults && r.chance(1, 2);
        switch (r.below(11))
        {
            case 0: p.add("genp", {s, g_stream(r), g_sd(r), f ? r.range(0, 1) : -1, (i64)r.below(2)}); break;
            case 1:
            case 2: p.add("setp", {s, r.chance(1, 4) ? r.range(40, 47) : r.chance(2, 3) ? r.range(1, 19) : 20, g_sd(r)}); break;
            case 3:
            case 4: p.add("setpub", {2, r.chance(1, 4) ? r.range(40, 47) : r.range(0, 18), g_sd(r)}); break;
            case 5: p.add("cpy", {s, t}); break;
            case 6: p.add("asg", {s, t}); break;
            case 7: p.add("pub", {s, t}); break;
            case 8: g_signop(r, p, s, f); break;
            case 9: g_encop(r, p, s, f); break;
            default: p.add("chk", {s, g_sd(r)}); break;
        }
    }
    for (i64 s = 0; s < 4; s++) p.add("chk", {s, g_sd(r)});
}
static void gen13(Prng& r, Plan& p) { g_life(r, p, false); }
void sm2_gen14(Prng& r, Plan& p) { g_life(r, p, true), nests(r, p); }

// directed plans
// the same object through more operations than fit into a byte
bool dir_worn(size_t i, Plan& p, int prop)
{
    if (i >= 2) return false;
    p.add("lib", {2 + (i64)(i & 1)});
    p.add("new", {0, 1, i ? 2 : 0, 0, 1, 20, (i64)i, 1});
    if (prop == 10) p.add("pub", {0, 1}), p.add("sign", {0, 5, 20, 0, 16, 0, 6, -1, 0, 0});
    if (prop == 13 || prop == 14) p.add("new", {1, 1, i ? 2 : 0, 0, 1, 20, 3 + (i64)i, 1});
    for (i64 k = 0; k < 300; k++)
    {
        if (prop == 9) p.add("sign", {0, k, k % 40, k % 4, k % 30, 0, k, -1, 0, 0});
        else if (prop == 10) p.add("ver", {k % 2, k % 3, k % 5 ? 0 : k % 25, k, k});
        else if (prop == 11) p.add("enc", {0, k, 1 + k % 40, k % 4, 0, k, -1, 0, 0});
        else if (prop == 12) p.add("cor", {0, k, 1 + k % 40, k % 3, k, k % 3 ? 0 : k % 21, k, k});
        else if (prop == 13)
        {
            if (k % 3 == 0) p.add("genp", {0, 0, k, -1, 0});
            else p.add(k % 3 == 1 ? "asg" : "setp", {k % 3 == 1 ? 1 : 0, k % 3 == 1 ? 0 : 20, k});
            if (k % 60 == 59) p.add("chk", {0, k});
        }
        else p.add(k % 2 ? "setp" : "genp", {0, k % 2 ? 1 + k % 19 : 0, k, k % 4 / 2 ? k % 3 - 1 : -1, 0});
    }
    p.add("chk", {0, 1});
    return true;
}
static bool dir_huge(size_t i, Plan& p)
{ // lengths beyond 16, 29, 31 and 32 bits
    if (i >= 6) return false;
    p.add("lib", {2 + (i64)(i & 1)});
    p.add("new", {0, 1, i < 4 ? (i64)i % 2 : 1 + (i64)i % 4, 0, 1, 20, (i64)i, 1});
    if (i < 4) p.add("hugeid", {0, i % 2 ? 16 : (i64)i, (i64)i});
    else p.add("hugemsg", {0, (1ll << 32) + (i & 1 ? 20 : 70), (i64)i});
    return true;
}
static bool dir9(size_t i, Plan& p)
{
    if (i < 6) return dir_huge(i, p);
    i -= 6;
    if (i < 255)
    { // every bit of the random stream matters
        p.add("lib", {(i64)i});
        p.add("new", {0, 1, 0, 0, 1, 20, (i64)i, 1});
        p.add("dep", {0, (i64)i, (i64)(i * 3), (i64)i});
        return true;
    }
    i -= 255;
    if (i < 40 * 3)
    { // every stream kind x special retry
        p.add("lib", {(i64)i});
        p.add("new", {0, 1, (i64)(i % 2 ? SH_S32 : SH_S64), 0, 2, (i64)(i / 3), (i64)i, 1, -1, 0});
        p.add("sign", {0, (i64)i, (i64)(i % 70), (i64)(i % 2), (i64)(i % 40), (i64)(i / 3), (i64)i, -1, 0, (i64)(i % 3) + 1});
        p.add("sign", {0, (i64)i, (i64)(i % 70), 1, 8191, (i64)(i / 3), (i64)i, -1, 0, 0});
        return true;
    }
    return dir_worn(i - (40 * 3), p, 9);
}
static bool dir10(size_t i, Plan& p)
{
    if (i < 6) return dir_huge(i, p);
    i -= 6;
    if (i >= 26 * 12) return dir_worn(i - 26 * 12, p, 10);
    i64 kind = (i64)(i % 26), k = (i64)(i / 26);
    p.add("lib", {(i64)i});
    i64 sh = kind >= 15 && kind != 21 && kind != 22 && kind != 23 && kind != 24 ? (k % 3 == 0 ? SH_S32 : k % 3 == 1 ? SH_S64 : SH_S48) : k % 5;
    p.add("new", {0, 1, sh, 0, 1, k % 4 == 0 ? 4 : 20, 5 + k, 1});
    p.add("pub", {0, 1});
    p.add("sign", {0, k, 10 + k, k % 2, k, 0, k, -1, 0, 0});
    p.add("ver", {k % 2 || kind == 20 ? 1 : 0, 0, kind, k * 13 + 1, k * 7 + 3});
    return true;
}
static bool dir11(size_t i, Plan& p)
{
    if (i < 140)
    { // every length up to 4 digest blocks, all formats
        p.add("lib", {(i64)i});
        p.add("new", {0, 1, (i64)(i % 5), 0, 1, 20, (i64)i, 1});
        p.add("pub", {0, 1});
        p.add("enc", {(i64)(i & 1), (i64)i, (i64)i + 1, (i64)(i % 4), 0, (i64)i, -1, 0, 0});
        return true;
    }
    i -= 140;
    if (i < 60)
    { // forced zero key streams
        p.add("lib", {(i64)i});
        p.add("new", {0, 1, 1 + (i64)(i % 4), 0, 1, 20, (i64)i, 1});
        p.add("enc", {0, (i64)i, (i64)(i * 2 + 1), (i64)(i % 4), (i64)(i % 40), (i64)i, -1, 0, 1 + (i64)(i % 4)});
        return true;
    }
    i -= 60;
    if (i < 2)
    {
        p.add("lib", {(i64)i});
        p.add("new", {0, 1, 0, 0, 1, 20, (i64)i, 1});
        p.add("enc", {0, (i64)i, i ? 65536 * 32 + 5 : 256 * 32 + 1, 0, 0, (i64)i, -1, 0, 0});
        return true;
    }
    return dir_worn(i - (2), p, 11);
}
static bool dir12(size_t i, Plan& p)
{
    if (i < 3 * 135)
    { // truncation at every byte, every format
        p.add("lib", {(i64)i});
        p.add("new", {0, 1, (i64)(i % 2 ? 0 : i % 5), 0, 1, 20, (i64)i, 1});
        p.add("cor", {0, (i64)i, 20, (i64)(i % 3), (i64)i, 0, (i64)(i / 3), 0});
        return true;
    }
    i -= 3 * 135;
    if (i < 21 * 9)
    {
        p.add("lib", {(i64)i});
        p.add("new", {0, 1, (i64)(i % 21 == 19 ? 1 + i % 4 : i % 5), 0, 1, 20, (i64)i, 1});
        p.add("cor", {0, (i64)i, 1 + (i64)(i * 3 % 70), (i64)(i / 21 % 3), (i64)i, (i64)(i % 21), (i64)(i * 7), (i64)(i * 5)});
        return true;
    }
    return dir_worn(i - (21 * 9), p, 12);
}
static bool dir13(size_t i, Plan& p)
{
    if (i < 20 * 4)
    {
        i64 k = (i64)(i / 4);
        p.add("lib", {(i64)i});
        p.add("new", {0, 1, 0, 0, 2, k, (i64)i * 5, (i64)i, -1, 0});
        p.add("new", {1, 1, 0, 0, 0, 0, 0, (i64)i});
        p.add("setp", {1, 20, (i64)i});
        p.add("setp", {1, k, (i64)i * 3});
        p.add("new", {3, 1, 0, 0, 1, k, (i64)i * 3, 9});
        p.add("genp", {1, k, (i64)i * 5, -1, 0});
        p.add("cpy", {1, 2});
        p.add("asg", {0, 1});
        p.add("asg", {0, 0});
        for (i64 s = 0; s < 3; s++) p.add("chk", {s, (i64)i + s});
        return true;
    }
    i -= 80;
    if (i < 19 * 4)
    {
        p.add("lib", {(i64)i});
        p.add("new", {0, 0, (i64)(i % 5), 0, 1, 0, (i64)i, 3});
        p.add("setpub", {0, (i64)(i / 4), (i64)i * 11});
        p.add("new", {1, 0, (i64)(i % 5), 0, 1, (i64)(i / 4), (i64)i * 17, 3});
        p.add("chk", {0, (i64)i});
        return true;
    }
    i -= 76;
    if (i < 16)
    { // keys related to the one already held
        p.add("lib", {(i64)i});
        p.add("new", {0, 1, (i64)(i % 5), 0, 1, 20, (i64)i, 3});
        p.add("new", {1, 0, (i64)(i % 5), 0, 1, 0, (i64)i + 50, 3});
        p.add("chk", {0, (i64)i});
        p.add("chk", {1, (i64)i});
        p.add("setp", {0, 40 + (i64)i % 8, (i64)i});
        p.add("setpub", {1, 40 + (i64)i % 8, (i64)i});
        p.add("setp", {0, 40 + (i64)(i / 2) % 8, (i64)i});
        p.add("setpub", {1, 40 + (i64)(i / 2) % 8, (i64)i + 1});
        p.add("pub", {0, 2});
        p.add("setpub", {2, 40, (i64)i});
        p.add("new", {0, 1, (i64)(i % 5), 0, 1, 40 + (i64)i % 8, (i64)i, 3});
        p.add("new", {1, 0, (i64)(i % 5), 0, 1, 40 + (i64)i % 8, (i64)i, 3});
        for (i64 q = 0; q < 3; q++) p.add("chk", {q, (i64)i + 1});
        return true;
    }
    return dir_worn(i - (16), p, 13);
}
static Module m9("C09", with_nests<gen9>, sm2_exec, dir9, sm2_init), m10("C10", with_nests<gen10>, sm2_exec, dir10, sm2_init), m11("C11", with_nests<gen11>, sm2_exec, dir11, sm2_init), m12("C12", with_nests<gen12>, sm2_exec, dir12, sm2_init),
    m13("C13", with_nests<gen13>, sm2_exec, dir13, sm2_init);
