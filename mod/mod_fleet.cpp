#include <tuple>
// C18: a fleet of nodes, each running its own build of gmlib, over a simulated
// network and simulated disks.  The protocol below is the harness's; every
// cryptographic and encoding step runs the library of the node that takes it.
//
//   CERT   an SM2 public key (DER) signed with the node's SM9 identity key
//   HELLO  a fresh session key, SM2-encrypted to the peer, SM2-signed
//   DATA   a record under one of the suites (GCM, CBC/CFB/OFB/CTR/ECB + HMAC,
//          SM2-signed, SM2-encrypted + HMAC)
//   acks carry an HMAC under the session key
#include "disk.h"
#include <map>
#include <set>
using namespace ref;

namespace {
std::vector<const HashApi*> AH;
std::vector<const ModeApi*> AM;
std::vector<const GcmApi*>  AG;
std::vector<const Sm2Api*>  A2;
std::vector<const Sm9Api*>  A9;
std::vector<const Asn1Api*> AA;
const int                   NN = 4;
const double                RTO = 0.2;

void app(Bytes& b, const Bytes& x) { b.insert(b.end(), x.begin(), x.end()); }
void app64(Bytes& b, u64 v)
{
    for (int i = 7; i >= 0; i--) b.push_back((u8)(v >> (8 * i)));
}
void app16(Bytes& b, size_t v) { b.push_back((u8)(v >> 8)), b.push_back((u8)v); }
struct Rd
{
    const Bytes& b;
    size_t       i = 0;
    bool         ok = true;
    explicit Rd(const Bytes& x) : b(x) {}
    u64 num(int n)
    {
        u64 v = 0;
        while (n--)
        {
            if (i >= b.size())
            {
                ok = false;
                return 0;
            }
            v = v << 8 | b[i++];
        }
        return v;
    }
    Bytes take(size_t n)
    {
        if (b.size() - i < n)
        {
            ok = false;
            return Bytes();
        }
        Bytes r(b.begin() + i, b.begin() + i + n);
        i += n;
        return r;
    }
    Bytes take16() { return take((size_t)num(2)); }
    Bytes rest() { return take(b.size() - i); }
    size_t at() const { return i; }
};
enum { M_CERTREQ = 1, M_CERT, M_HELLO, M_HACK, M_DATA, M_DACK, M_RST };
const char* MN[] = {"?", "CERTREQ", "CERT", "HELLO", "HACK", "DATA", "DACK", "RST"};
enum { NSUITE = 13 };

// SM9 identities come from the model (a pure function of the node id)
struct Ident
{
    Bytes id, ux, uy, px, py;
};
const Ident& ident(int i)
{
    static Ident t[NN];
    Ident&       K = t[i];
    if (!K.id.empty()) return K;
    const Mod& N = sm9g1().N;
    U256       ks = N.red(u256_be(sim_data(7777 * 16 + 5, 32).data()));
    Bytes      id = {'n', 'o', 'd', 'e', (u8)('0' + i)}, z = id;
    z.push_back(1);
    U256 h1 = sm9_h([](const u8* q, size_t n) { return sm3(q, n); }, 32, 1, z);
    Pt   d = sm9g1().mul(N.mul(ks, N.inv(N.add(h1, ks))), sm9g1().G);
    K.ux.resize(32), K.uy.resize(32);
    u256_out(d.x, K.ux.data()), u256_out(d.y, K.uy.data());
    static Pt2 q;
    static bool have = false;
    if (!have) q = sm9_mul2(ks, sm9_P2()), have = true;
    K.px = sm9_ser2(q.x), K.py = sm9_ser2(q.y);
    K.id = id;
    return K;
}

struct Cert
{
    u64   epoch = 0;
    ISm2* pub = nullptr;
};
struct Rx
{
    Bytes         key;
    std::set<u64> seen;
};
struct Out
{
    Bytes wire;
    int   pay = -1, tries = 0;
    bool  acked = false;
};
struct Tx
{
    u64                sid = 0;
    Bytes              key, hello;
    bool               up = false;
    int                tries = 0;
    u64                next = 1;
    std::map<u64, Out> out;
};
struct Pay
{
    int   from, to, suite;
    Bytes data;
    bool  acked = false, delivered = false;
};
struct Node
{
    int         id = 0, lib = 0;
    bool        up = false;
    u64         inc = 0, epoch = 0, draws = 0;
    i64         rng_fail = 0;
    int         rng_kind = 1;
    double      slow_until = 0;
    ISm2*       key = nullptr;
    ISm9User*   idk = nullptr;
    ISm9Pub*    mpub = nullptr;
    Bytes       px, py, cert;
    std::map<int, Cert>               certs;
    std::map<std::pair<int, u64>, Rx> rx;
    std::map<int, Tx>                 tx;
    // long-lived cipher and hash objects, used for one message after another
    std::map<std::tuple<int, int, int, int>, IMode*> ms; // build, mode, direction, cipher
    std::map<std::tuple<int, int, int>, IGcm*>       gs; // build, direction, cipher
    IHash*                                           hs[2] = {nullptr, nullptr};
    // disk
    Bytes slot[2], idfile;
    int   cur = 0;
};
struct Msg
{
    int   from, to;
    Bytes b, orig;
};
struct Ev
{
    int    kind; // 0 deliver 1 pump 2 plan op 3 restart
    int    node, peer;
    u64    inc;
    Msg    m;
    size_t op;
};
struct Win
{
    double t0, t1;
    int    a, b;             // -1: any
    i64    drop, dup, corrupt, trunc, mis, delay; // per mille, delay in ms
};
struct World
{
    Ctx&                c;
    u64                 seed = 1;
    int                 n = 2;
    bool                sm9 = true;
    Node                N[NN];
    double              now = 0, quiet = 0;
    std::multimap<std::pair<double, u64>, Ev> q;
    u64                 tie = 0, nmsg = 0, nev = 0;
    std::vector<Pay>    pays;
    std::vector<Win>    wins;
    const Plan*         plan = nullptr;
    // history of what was really said
    std::map<std::pair<int, u64>, std::pair<Bytes, Bytes>>  h_cert;  // (node, epoch) -> x, y
    std::map<std::tuple<int, int, u64>, Bytes>              h_hello; // (from, to, sid) -> key
    std::map<std::tuple<int, int, u64, u64>, int>           h_data;  // (from, to, sid, seq) -> payload
    std::set<std::tuple<int, int, u64, u64>>                h_ack;   // (from, to, sid, seq), seq 0: HACK
    std::set<Bytes>                                         h_keys[NN];
    std::vector<Bytes>                                      recent;
    explicit World(Ctx& c_) : c(c_) {}
    ~World()
    {
        for (auto& x : N) wipe(x);
    }
    void at(double t, Ev e) { q.insert({{t, tie++}, e}); }

    // ------------------------------------------------------------- primitives
    static int gen(void* p, void* out, size_t len)
    {
        auto* a = (std::pair<World*, Node*>*)p;
        Node& x = *a->second;
        if (x.rng_fail > 0)
        {
            x.rng_fail--;
            a->first->c.count("fault.rng-failure");
            return x.rng_kind;
        }
        Prng r(hcomb(a->first->seed, hcomb(x.id + 100, x.draws++)));
        for (size_t i = 0; i < len; i++) ((u8*)out)[i] = (u8)(r.next() >> 11);
        return 0;
    }
    // one message of many through a long-lived object?
    u64  nprim = 0;
    u64  dice(u64 salt) { return hcomb(hcomb(seed, nprim), hcomb(nev, salt)); }
    bool keep() { return nprim++, dice(31) % 2; }
    Bytes hmacx(Node& x, const Bytes& k, const Bytes& m)
    {
        bool    kp = keep();
        IHash*  own = nullptr;
        IHash*& h = kp ? x.hs[0] : own;
        if (h)
        {
            c.count("op.object-reused");
            if (dice(32) % 3 == 0 && !m.empty()) h->update(m.data(), dice(33) % m.size()), c.count("fault.stream-abandoned");
            h->set_key(k.data(), k.size());
            h->reset();
        }
        else h = AH[x.lib]->make(HK_HMAC_SM3, 1, k.data(), k.size(), (u32)nev);
        Bytes  d(32);
        size_t cut = m.size() ? hcomb(seed, nev) % m.size() : 0;
        int    rc = h->update(m.data(), cut);
        if (!rc) rc = h->final(d.data(), m.data() + cut, m.size() - cut, 1);
        delete own;
        if (rc) c.fail("refused", "HMAC failed");
        return d;
    }
    Bytes sm3x(Node& x, const Bytes& m)
    {
        bool    kp = keep();
        IHash*  own = nullptr;
        IHash*& h = kp ? x.hs[1] : own;
        if (h)
        {
            if (dice(32) % 3 == 0 && !m.empty()) h->update(m.data(), dice(33) % m.size()), c.count("fault.stream-abandoned");
            h->reset();
        }
        else h = AH[x.lib]->make(HK_SM3, 0, nullptr, 0, (u32)nev);
        Bytes  d(32);
        int    rc = h->final(d.data(), m.data(), m.size(), 1);
        delete own;
        if (rc) c.fail("refused", "SM3 failed");
        return d;
    }
    Bytes derive(Node& x, const Bytes& k, const char* label, u64 sid, u64 seq)
    {
        Bytes m(label, label + strlen(label));
        app64(m, sid), app64(m, seq);
        return hmacx(x, k, m);
    }
    // a symmetric mode over the whole message, in plan-determined chunks
    bool crypt(Node& x, int lib, int mode, bool enc, int ck, const Bytes& key, const Bytes& iv, const Bytes& in, Bytes& out)
    {
        bool    kp = keep();
        IMode*  own = nullptr;
        IMode*& m = kp ? x.ms[std::make_tuple(lib, mode, (int)enc, ck)] : own;
        int     rc = 0;
        if (m)
        { // the previous message may have been given up half way
            c.count("op.object-reused");
            if (dice(34) % 3 == 0 && !in.empty())
            {
                Buf    g(in.size() + 64);
                size_t gl = 0;
                m->update(g.d(), &gl, in.data(), dice(35) % in.size());
                c.count("fault.stream-abandoned");
            }
            if (dice(36) % 5 == 0)
            {
                IMode* cl = m->clone();
                delete m;
                m = cl;
            }
            rc = m->init(key.data(), iv.data());
        }
        else m = AM[lib]->make(mode, enc, ck, 1, key.data(), iv.data(), (u32)nev * 3 + 1);
        Buf    o(in.size() + 64);
        size_t i = 0, w = 0, ol = 0;
        Prng   r(hcomb(seed, hcomb(nev, 5)));
        while (!rc && i < in.size() && r.chance(3, 4))
        {
            size_t k = std::min(in.size() - i, (size_t)r.below(200));
            ol = 0;
            rc = m->update(o.d() + w, &ol, in.data() + i, k);
            i += k, w += ol;
            if (w > in.size() + 32) c.fail("bad-length", "cipher output longer than its input");
        }
        ol = 0;
        if (!rc) rc = m->final(o.d() + w, &ol, in.data() + i, in.size() - i, 1);
        w += ol;
        delete own;
        o.check(c, "cipher output");
        if (rc) return false;
        if (w != in.size()) c.fail("bad-length", "%zu bytes in, %zu bytes out of mode %d", in.size(), w, mode);
        out.assign(o.d(), o.d() + w);
        (void)x;
        return true;
    }
    bool gcm(Node& x, int lib, bool enc, int ck, const Bytes& key, const Bytes& iv, const Bytes& aad, const Bytes& in, Bytes& out, u8 tag[16])
    {
        bool   kp = keep();
        IGcm*  own = nullptr;
        IGcm*& g = kp ? x.gs[std::make_tuple(lib, (int)enc, ck)] : own;
        int    rc = 0;
        if (g)
        {
            c.count("op.object-reused");
            if (dice(34) % 3 == 0 && !in.empty())
            {
                Buf    t(in.size() + 64);
                size_t tl = 0;
                g->update(t.d(), &tl, in.data(), dice(35) % in.size());
                c.count("fault.stream-abandoned");
            }
            if (dice(36) % 5 == 0)
            {
                IGcm* cl = g->clone();
                delete g;
                g = cl;
            }
            rc = g->init(key.data(), iv.data(), iv.size(), aad.data(), aad.size());
        }
        else g = AG[lib]->make(enc, ck, 1, key.data(), iv.data(), iv.size(), aad.data(), aad.size(), (u32)nev + 7);
        Buf    o(in.size() + 64);
        size_t i = 0, w = 0, ol = 0;
        if (!rc && !enc) rc = g->tag(tag);
        Prng   r(hcomb(seed, hcomb(nev, 6)));
        while (!rc && i < in.size() && r.chance(3, 4))
        {
            size_t k = std::min(in.size() - i, (size_t)r.below(200));
            ol = 0;
            rc = g->update(o.d() + w, &ol, in.data() + i, k);
            i += k, w += ol;
            if (w > in.size() + 32) c.fail("bad-length", "GCM output longer than its input");
        }
        ol = 0;
        if (!rc) rc = g->final(o.d() + w, &ol, in.data() + i, in.size() - i, 1);
        w += ol;
        if (!rc && enc) rc = g->tag(tag);
        delete own;
        o.check(c, "GCM output");
        if (rc) return false;
        if (w != in.size()) c.fail("bad-length", "GCM: %zu bytes in, %zu bytes out", in.size(), w);
        out.assign(o.d(), o.d() + w);
        (void)x;
        return true;
    }
    // ------------------------------------------------------------- keys, disk
    void wipe(Node& x)
    {
        delete x.key;
        delete x.idk;
        delete x.mpub;
        x.key = nullptr, x.idk = nullptr, x.mpub = nullptr;
        for (auto& k : x.ms) delete k.second;
        for (auto& k : x.gs) delete k.second;
        for (auto& k : x.hs) delete k, k = nullptr;
        x.ms.clear(), x.gs.clear();
        for (auto& k : x.certs) delete k.second.pub;
        x.certs.clear(), x.rx.clear(), x.tx.clear(), x.cert.clear();
    }
    Bytes file_of(Node& x, const Bytes& d)
    {
        Bytes  f(AA[x.lib]->sm2_priv_len(d.data()) + 8);
        size_t l = f.size();
        AA[x.lib]->sm2_priv_enc(f.data(), &l, d.data());
        f.resize(l);
        app(f, sm3x(x, f));
        return f;
    }
    bool load(Node& x, const Bytes& f, Bytes& d)
    {
        if (f.size() < 33) return false;
        Bytes der(f.begin(), f.end() - 32), dg(f.end() - 32, f.end());
        const u8* p = nullptr;
        size_t    rd = 0;
        Buf       b(der);
        int       rc = AA[x.lib]->sm2_priv_dec(&p, &rd, b.d(), b.n);
        if (rc == 0 && (rd > b.n || p < b.d() || p + 32 > b.d() + b.n)) c.fail("out-of-bounds", "a private key decoded from disk points outside the file");
        bool good = sm3x(x, der) == dg;
        if (good && rc) c.fail("intact-refused", "a stored private key whose checksum holds does not decode");
        if (rc || !good) return false;
        d.assign(p, p + 32);
        return true;
    }
    // false: the random device failed, try again later
    bool new_key(Node& x)
    {
        std::pair<World*, Node*> a(this, &x);
        for (int tries = 0; tries < 40; tries++)
        {
            int   rc;
            bool  again = x.key && dice(37) % 2; // a new key in the object that holds the old one
            ISm2* k = again ? x.key->clone() : A2[x.lib]->make(SH_SM3, 1, 2, nullptr, gen, &a, (u32)nev + 9, &rc);
            if (again && (rc = k->gen_priv(gen, &a)) != RC_OK)
            {
                delete k;
                k = nullptr;
            }
            if (!k)
            {
                if (rc != RC_FAULT) c.fail("refused", "key generation failed with %s", rcname(rc));
                return false;
            }
            Bytes d(32), px(32), py(32);
            k->get_priv(d.data()), k->get_pub(px.data(), py.data());
            if (!d[0] || !px[0] || !py[0])
            { // known finding C22 leading-zero-integer: such keys do not survive DER
                delete k;
                continue;
            }
            if (again)
            {
                x.key->assign(k);
                delete k;
            }
            else
            {
                delete x.key;
                x.key = k;
            }
            x.px = px, x.py = py;
            h_keys[x.id].insert(d);
            x.cur ^= 1;
            x.slot[x.cur] = file_of(x, d);
            issue(x);
            return true;
        }
        c.fail("stuck", "key generation");
    }
    void issue(Node& x)
    {
        x.epoch = (u64)(now * 1000) + 1 + tie++;
        x.cert.clear();
        h_cert[{x.id, x.epoch}] = {x.px, x.py};
        x.tx.clear();
    }
    bool boot(Node& x)
    {
        const Ident& I = ident(x.id);
        Bytes        raw = I.ux;
        app(raw, I.uy), app(raw, I.px), app(raw, I.py);
        if (sm9)
        {
            if (x.idfile.size() != 224 || sm3x(x, Bytes(x.idfile.begin(), x.idfile.begin() + 192)) != Bytes(x.idfile.begin() + 192, x.idfile.end()))
            { // the operator provisions the identity again
                if (!x.idfile.empty()) c.count("op.identity-reprovisioned");
                x.idfile = raw;
                app(x.idfile, sm3x(x, raw));
            }
            x.idk  = A9[x.lib]->make_user(SH_SM3, (u32)nev);
            x.mpub = A9[x.lib]->make_pub(SH_SM3, (u32)nev);
            const u8* f = x.idfile.data();
            if (x.idk->set_priv(f, f + 32, f + 64, f + 128) || x.mpub->set_pub(f + 64, f + 128)) c.fail("intact-refused", "an intact SM9 identity key is refused");
        }
        Bytes d;
        bool  got = load(x, x.slot[x.cur], d);
        if (!got)
        {
            c.count("op.fell-back-to-older-key");
            if (load(x, x.slot[x.cur ^ 1], d)) got = true, x.cur ^= 1;
        }
        if (got)
        {
            if (!h_keys[x.id].count(d)) c.fail("made-up-key", "node %d loads a private key it never stored", x.id);
            int rc;
            x.key = A2[x.lib]->make(SH_SM3, 1, 1, d.data(), nullptr, nullptr, (u32)nev, &rc);
            if (!x.key) c.fail("intact-refused", "an intact private key is refused after a restart");
            x.px.resize(32), x.py.resize(32);
            x.key->get_pub(x.px.data(), x.py.data());
            issue(x);
            return true;
        }
        return new_key(x);
    }
    // ---------------------------------------------------------------- network
    bool hit(u64 k, i64 permille, u64 salt) { return (i64)(hcomb(hcomb(seed, k), salt) % 1000) < permille; }
    void send(Node& x, int to, const Bytes& b)
    {
        u64    k = nmsg++;
        double d = 0.005 + (double)(hcomb(seed, k) % 20) / 1000;
        Msg    m{x.id, to, b, b};
        i64    copies = 1;
        int    dest = to;
        c.count(std::string("sent.") + MN[b[0]]);
        for (auto& w : wins)
        {
            if (now < w.t0 || now >= w.t1) continue;
            if (w.a >= 0 && !((w.a == x.id && (w.b < 0 || w.b == to)) || (w.a == to && (w.b < 0 || w.b == x.id)))) continue;
            if (hit(k, w.drop, 1))
            {
                c.count(w.drop >= 1000 ? "fault.partition" : "fault.message-lost");
                return;
            }
            if (hit(k, w.dup, 2)) copies++, c.count("fault.message-duplicated");
            if (w.delay) d += (double)(hcomb(hcomb(seed, k), 3) % (u64)(w.delay + 1)) / 1000, c.count("fault.message-delayed");
            if (hit(k, w.corrupt, 4))
            {
                u64 z = hcomb(hcomb(seed, k), 5);
                disk_fault(m.b, (int)(z % 3 ? DF_FLIP : z / 3 % DF_KINDS), z >> 8, z >> 33);
                c.count("fault.message-corrupted");
            }
            if (hit(k, w.trunc, 6))
            {
                m.b.resize(hcomb(hcomb(seed, k), 7) % (m.b.size() + 1));
                c.count("fault.message-truncated");
            }
            if (hit(k, w.mis, 8))
            { // misrouted, or its body replaced by that of another message
                u64 z = hcomb(hcomb(seed, k), 9);
                if (z % 2 || recent.empty()) dest = (int)(z / 2 % n), c.count("fault.message-misrouted");
                else
                {
                    const Bytes& o = recent[z / 2 % recent.size()];
                    size_t       cut = z / 1000 % (m.b.size() + 1);
                    m.b.resize(cut);
                    if (o.size() > cut) m.b.insert(m.b.end(), o.begin() + cut, o.end());
                    c.count("fault.message-spliced");
                }
            }
        }
        if (recent.size() < 40) recent.push_back(b);
        else recent[k % 40] = b;
        for (i64 i = 0; i < copies; i++)
        {
            Ev e{0, dest, 0, 0, m, 0};
            at(now + d + (double)(hcomb(hcomb(seed, k), 20 + i) % (i ? 900 : 1)) / 1000, e);
        }
    }
    Bytes head(int type, Node& x, int to, u64 sid)
    {
        Bytes b = {(u8)type, (u8)x.id, (u8)to};
        app64(b, sid);
        return b;
    }
    // ------------------------------------------------------------ certificates
    void send_cert(Node& x, int to)
    {
        if (x.cert.empty())
        {
            Bytes b = {M_CERT, (u8)x.id, 0xff};
            app64(b, x.epoch);
            Bytes xy = {4};
            app(xy, x.px), app(xy, x.py);
            Bytes  der(AA[x.lib]->sm2_pub_len(xy.data() + 1) + 8);
            size_t l = der.size();
            AA[x.lib]->sm2_pub_enc(der.data(), &l, xy.data() + 1);
            der.resize(l);
            app16(b, l), app(b, der);
            if (sm9)
            {
                std::pair<World*, Node*> a(this, &x);
                Buf    sg(97);
                size_t sl = 0;
                int    pc = (int)(hcomb(seed, x.epoch) % 3);
                int    rc = x.idk->sign(sg.d(), &sl, b.data(), b.size(), gen, &a, pc);
                sg.check(c, "SM9 signature");
                if (rc == RC_FAULT) return; // asked again later
                if (rc) c.fail("refused", "SM9 signing failed with %s", rcname(rc));
                b.insert(b.end(), sg.d(), sg.d() + sl);
            }
            x.cert = b;
        }
        send(x, to, x.cert);
    }
    void on_cert(Node& x, const Msg& m, bool intact)
    {
        Rd  r(m.b);
        r.num(1);
        int   from = (int)r.num(1);
        r.num(1);
        u64   ep = r.num(8);
        Bytes der = r.take16();
        size_t body = r.at();
        Bytes sig = r.rest();
        if (!r.ok || from >= n || from == x.id) return;
        auto& cc = x.certs[from];
        if (cc.pub && ep <= cc.epoch) return;
        bool ok = false;
        if (sm9)
        {
            const Ident& I = ident(from);
            Buf s(sig);
            int rc = x.mpub->verify(&ok, s.d(), s.n, m.b.data(), body, I.id.data(), I.id.size(), -1);
            c.count(ok ? "op.sm9-verify-accept" : "op.sm9-verify-refuse");
            if (rc) c.fail("refused", "SM9 verification failed with %s", rcname(rc));
        }
        else ok = intact; // certificates come over an authentic channel in this run
        const u8* p = nullptr;
        size_t    rd = 0;
        int       rc = -1;
        Buf       b(der);
        if (ok) rc = AA[x.lib]->sm2_pub_dec(&p, &rd, b.d(), b.n);
        int   mk = -1;
        ISm2* k = nullptr;
        if (ok && rc == 0) k = A2[x.lib]->make(SH_SM3, 0, 1, p, nullptr, nullptr, (u32)nev, &mk);
        if (!ok || rc || !k)
        {
            if (intact) c.fail("intact-refused", "node %d (%s) refuses an intact certificate of node %d (%s): signature %d, DER %d, key %d", x.id, g_libs[x.lib].name.c_str(), from, g_libs[N[from].lib].name.c_str(), (int)ok, rc, mk);
            if (ok) c.fail("signed-garbage", "a certificate with a valid signature does not decode");
            delete k;
            return;
        }
        auto it = h_cert.find({from, ep});
        if (it == h_cert.end() || memcmp(p, it->second.first.data(), 32) || memcmp(p + 32, it->second.second.data(), 32))
        {
            delete k;
            c.fail("forged-accepted", "node %d accepts a certificate node %d never issued", x.id, from);
        }
        if (cc.pub && dice(38) % 2)
        { // the new key goes into the object that held the old one
            delete k;
            k = nullptr;
            if (cc.pub->set_pub(p, p + 32)) c.fail("intact-refused", "a certified public key is refused by set_pub");
        }
        if (k)
        {
            delete cc.pub;
            cc.pub = k;
        }
        cc.epoch = ep;
        c.log("%.3f node %d accepts certificate %llu of node %d", now, x.id, (unsigned long long)ep, from);
        pump_soon(x, from);
    }
    // ----------------------------------------------------------------- HELLO
    bool hello(Node& x, int to, Tx& t)
    {
        std::pair<World*, Node*> a(this, &x);
        Cert& pc = x.certs[to];
        t = Tx();
        t.key.resize(32);
        if (gen(&a, t.key.data(), 32)) return false;
        t.sid = hcomb(seed, hcomb(x.id * 8 + to, tie++)) | 1;
        Bytes  b = head(M_HELLO, x, to, t.sid);
        int    form = (int)(t.sid / 2 % 4); // 0..2 raw in a point format, 3 DER
        size_t cl = 0;
        int    rc;
        Bytes  ct;
        for (int tries = 0;; tries++)
        {
            if (tries > 30) c.fail("stuck", "encryption");
            rc = pc.pub->ct_len(&cl, t.key.data(), 32, form % 3);
            if (rc || cl > 400) c.fail("refused", "ciphertext length");
            Buf    o(cl);
            size_t l = cl;
            rc = pc.pub->encrypt(o.d(), &l, t.key.data(), 32, gen, &a, form % 3);
            o.check(c, "SM2 ciphertext");
            if (rc == RC_FAULT) return false;
            if (rc || l != cl) c.fail("refused", "SM2 encryption of a session key failed with %s", rcname(rc));
            ct = o.b();
            if (form < 3) break;
            if (!ct[1] || !ct[33] || !ct[65]) continue; // known finding C22 leading-zero-integer
            Bytes der(AA[x.lib]->sm2_ct_len(&ct[1], &ct[33], &ct[65], 32, &ct[97], 32) + 8);
            size_t dl = der.size();
            AA[x.lib]->sm2_ct_enc(der.data(), &dl, &ct[1], &ct[33], &ct[65], 32, &ct[97], 32);
            der.resize(dl);
            ct = der;
            break;
        }
        b.push_back((u8)form);
        app64(b, x.epoch), app64(b, pc.epoch);
        app16(b, ct.size()), app(b, ct);
        Bytes sig;
        if (!signm(x, b, sig)) return false;
        app(b, sig);
        t.hello = b;
        h_hello[std::make_tuple(x.id, to, t.sid)] = t.key;
        return true;
    }
    // SM2 signature as DER; false: random device failed
    bool signm(Node& x, const Bytes& m, Bytes& out)
    {
        std::pair<World*, Node*> a(this, &x);
        for (int tries = 0; tries < 40; tries++)
        {
            Buf   s(64);
            Bytes id = ident_id(x.id);
            int   rc = x.key->sign(s.d(), m.data(), m.size(), gen, &a, id.data(), id.size(), 0);
            s.check(c, "SM2 signature");
            if (rc == RC_FAULT) return false;
            if (rc) c.fail("refused", "SM2 signing failed with %s", rcname(rc));
            if (!s.d()[0] || !s.d()[32]) continue; // known finding C22 leading-zero-integer
            out.resize(AA[x.lib]->sm2_sig_len(s.d(), s.d() + 32) + 8);
            size_t l = out.size();
            AA[x.lib]->sm2_sig_enc(out.data(), &l, s.d(), s.d() + 32);
            out.resize(l);
            return true;
        }
        c.fail("stuck", "signing");
    }
    Bytes ident_id(int i) { return Bytes{'n', 'o', 'd', 'e', (u8)('0' + i)}; }
    // 0 valid, 1 does not decode, 2 signature refused
    int checksig(Node& x, int from, const Bytes& m, const Bytes& sig)
    {
        const u8 *r = nullptr, *s = nullptr;
        size_t    rd = 0;
        Buf       b(sig);
        if (AA[x.lib]->sm2_sig_dec(&r, &s, &rd, b.d(), b.n)) return 1;
        u8 rs[64];
        memcpy(rs, r, 32), memcpy(rs + 32, s, 32);
        bool  ok = false;
        Bytes id = ident_id(from);
        int   rc = x.certs[from].pub->verify(&ok, rs, m.data(), m.size(), id.data(), id.size(), 0);
        if (rc) c.fail("refused", "SM2 verification failed with %s", rcname(rc));
        return ok ? 0 : 2;
    }
    void rst(Node& x, int to, u64 sid) { send(x, to, head(M_RST, x, to, sid)); }
    void on_hello(Node& x, const Msg& m, bool intact)
    {
        Rd  r(m.b);
        r.num(1);
        int    from = (int)r.num(1);
        r.num(1);
        u64    sid = r.num(8);
        int    form = (int)r.num(1);
        u64    se = r.num(8), re = r.num(8);
        Bytes  ct = r.take16();
        size_t body = r.at();
        Bytes  sig = r.rest();
        if (!r.ok || from >= n || from == x.id) return;
        auto ci = x.certs.find(from);
        if (ci == x.certs.end() || !ci->second.pub || ci->second.epoch != se)
        {
            send(x, from, head(M_CERTREQ, x, from, 0));
            return;
        }
        int v = checksig(x, from, Bytes(m.b.begin(), m.b.begin() + body), sig);
        c.count(v ? "op.hello-refused" : "op.hello-verified");
        if (v)
        {
            if (intact) c.fail("intact-refused", "node %d (%s) refuses an intact HELLO of node %d (%s): %s", x.id, g_libs[x.lib].name.c_str(), from, g_libs[N[from].lib].name.c_str(), v == 1 ? "signature does not decode" : "signature refused");
            return;
        }
        if (re != x.epoch)
        {
            rst(x, from, sid);
            return;
        }
        // signed and for this key: it must decrypt
        Bytes raw = ct;
        if (form == 3)
        {
            const u8 *cx, *cy, *h, *d;
            size_t    hl = 0, dl = 0, rd = 0;
            Buf       b(ct);
            if (AA[x.lib]->sm2_ct_dec(&cx, &cy, &h, &hl, &d, &dl, &rd, b.d(), b.n)) c.fail("intact-refused", "a signed DER ciphertext does not decode");
            raw.assign(1, 4);
            raw.insert(raw.end(), cx, cx + 32), raw.insert(raw.end(), cy, cy + 32), raw.insert(raw.end(), h, h + hl), raw.insert(raw.end(), d, d + dl);
        }
        size_t pl = 0;
        Buf    b(raw);
        int    rc = x.key->pt_len(&pl, b.d(), b.n);
        if (rc || pl != 32) c.fail("intact-refused", "a signed key transport has plaintext length %zu (%s)", pl, rcname(rc));
        Buf    o(pl);
        size_t ol = pl;
        rc = x.key->decrypt(o.d(), &ol, b.d(), b.n);
        o.check(c, "SM2 plaintext");
        if (rc || ol != 32) c.fail("intact-refused", "node %d (%s) cannot decrypt a signed key transport from node %d (%s): %s", x.id, g_libs[x.lib].name.c_str(), from, g_libs[N[from].lib].name.c_str(), rcname(rc));
        auto it = h_hello.find(std::make_tuple(from, x.id, sid));
        if (it == h_hello.end()) c.fail("forged-accepted", "node %d accepts a session node %d never opened", x.id, from);
        if (it->second != o.b()) c.fail("wrong-key", "node %d decrypts another session key than node %d sent", x.id, from);
        Rx& s = x.rx[{from, sid}];
        if (s.key.empty()) c.log("%.3f node %d (%s) opens session with node %d (%s), form %d", now, x.id, g_libs[x.lib].name.c_str(), from, g_libs[N[from].lib].name.c_str(), form);
        s.key = o.b();
        Bytes a = head(M_HACK, x, from, sid);
        app(a, hmacx(x, s.key, a));
        h_ack.insert(std::make_tuple(x.id, from, sid, 0));
        send(x, from, a);
        c.nontrivial = 1;
        c.state(hcomb(hcomb(1, x.lib * 8 + N[from].lib), form));
    }
    // ------------------------------------------------------------------ DATA
    bool record(Node& x, int to, Tx& t, u64 seq, Pay& p, Bytes& b)
    {
        b = head(M_DATA, x, to, t.sid);
        app64(b, seq);
        b.push_back((u8)p.suite);
        app64(b, x.epoch), app64(b, x.certs[to].epoch);
        Bytes ek = derive(x, t.key, "enc", t.sid, 0), mk = derive(x, t.key, "mac", t.sid, 0), iv = derive(x, t.key, "iv", t.sid, seq);
        Bytes ct, in = p.data;
        u8    tag[16] = {0};
        int   su = p.suite;
        static const int ck[] = {CK_SM4, CK_AES128, CK_AES192, CK_AES256};
        if (su < 4)
        {
            iv.resize(seq % 3 ? 12 : 1 + seq % 32);
            if (!gcm(x, x.lib, true, ck[su], ek, iv, b, in, ct, tag)) c.fail("refused", "GCM encryption failed");
            if (hcomb(seed, t.sid + seq) % 4 == 0)
            { // every build must produce the same bytes
                int   l = (int)(hcomb(seed, t.sid + seq + 1) % g_libs.size());
                Bytes c2;
                u8    t2[16];
                if (!gcm(x, l, true, ck[su], ek, iv, b, in, c2, t2) || c2 != ct || memcmp(tag, t2, 16)) c.fail("backend-divergence", "GCM suite %d: %s and %s encrypt differently", su, g_libs[x.lib].name.c_str(), g_libs[l].name.c_str());
                c.count("op.backends-compared");
            }
            app(b, ct);
            b.insert(b.end(), tag, tag + 16);
            return true;
        }
        if (su <= 10)
        {
            static const int mo[] = {MK_CBC, MK_CBC, MK_CTR, MK_CFB, MK_OFB, MK_ECB, MK_CTR};
            static const int cc[] = {CK_SM4, CK_AES256, CK_SM4, CK_AES128, CK_SM4, CK_SM4, CK_AES192};
            int mode = mo[su - 4], k = cc[su - 4];
            if (mode == MK_CBC || mode == MK_ECB)
            {
                size_t pad = 16 - in.size() % 16;
                in.insert(in.end(), pad, (u8)pad);
            }
            iv.resize(16);
            if (!crypt(x, x.lib, mode, true, k, ek, iv, in, ct)) c.fail("refused", "encryption in mode %d failed", mode);
            if (hcomb(seed, t.sid + seq) % 4 == 0)
            {
                int   l = (int)(hcomb(seed, t.sid + seq + 1) % g_libs.size());
                Bytes c2;
                if (!crypt(x, l, mode, true, k, ek, iv, in, c2) || c2 != ct) c.fail("backend-divergence", "suite %d: %s and %s encrypt differently", su, g_libs[x.lib].name.c_str(), g_libs[l].name.c_str());
                c.count("op.backends-compared");
            }
            app(b, ct);
            app(b, hmacx(x, mk, b));
            return true;
        }
        if (su == 11)
        {
            app(b, in);
            Bytes sig;
            if (!signm(x, b, sig)) return false;
            app16(b, in.size()); // length trailer keeps the body/signature split
            app(b, sig);
            return true;
        }
        // SM2 encryption of the payload itself, authenticated by HMAC
        std::pair<World*, Node*> a(this, &x);
        if (in.empty()) in.push_back(0x55);
        size_t cl = 0;
        if (x.certs[to].pub->ct_len(&cl, in.data(), in.size(), (int)(seq % 3))) c.fail("refused", "ciphertext length");
        Buf o(cl);
        int rc = x.certs[to].pub->encrypt(o.d(), &cl, in.data(), in.size(), gen, &a, (int)(seq % 3));
        o.check(c, "SM2 ciphertext");
        if (rc == RC_FAULT) return false;
        if (rc) c.fail("refused", "SM2 encryption failed with %s", rcname(rc));
        app(b, o.b());
        app(b, hmacx(x, mk, b));
        return true;
    }
    void on_data(Node& x, const Msg& m, bool intact)
    {
        Rd  r(m.b);
        r.num(1);
        int    from = (int)r.num(1);
        r.num(1);
        u64    sid = r.num(8), seq = r.num(8);
        int    su = (int)r.num(1);
        u64    se = r.num(8), re = r.num(8);
        size_t hd = r.at();
        Bytes  rest = r.rest();
        if (!r.ok || from >= n || from == x.id || su >= NSUITE) return;
        auto si = x.rx.find({from, sid});
        if (si == x.rx.end())
        {
            rst(x, from, sid);
            return;
        }
        Rx&   s = si->second;
        Bytes ek = derive(x, s.key, "enc", sid, 0), mk = derive(x, s.key, "mac", sid, 0), iv = derive(x, s.key, "iv", sid, seq);
        Bytes hdr(m.b.begin(), m.b.begin() + hd), pt;
        bool  ok = false;
        static const int ck[] = {CK_SM4, CK_AES128, CK_AES192, CK_AES256};
        if (su < 4)
        {
            if (rest.size() >= 16)
            {
                u8 tag[16];
                memcpy(tag, &rest[rest.size() - 16], 16);
                rest.resize(rest.size() - 16);
                iv.resize(seq % 3 ? 12 : 1 + seq % 32);
                ok = gcm(x, x.lib, false, ck[su], ek, iv, hdr, rest, pt, tag);
            }
        }
        else if (su == 11)
        {
            auto ci = x.certs.find(from);
            if (ci == x.certs.end() || !ci->second.pub || ci->second.epoch != se)
            {
                send(x, from, head(M_CERTREQ, x, from, 0));
                return;
            }
            // body | length | signature: find the split by its own length field
            for (size_t l = 0; l + 2 <= rest.size() && !ok; l++)
            {
                if ((size_t)rest[l] * 256 + rest[l + 1] != l) continue;
                Bytes body = hdr;
                body.insert(body.end(), rest.begin(), rest.begin() + l);
                if (checksig(x, from, body, Bytes(rest.begin() + l + 2, rest.end())) == 0) ok = true, pt.assign(rest.begin(), rest.begin() + l);
            }
        }
        else
        {
            if (rest.size() >= 32)
            {
                Bytes mac(rest.end() - 32, rest.end()), all(m.b.begin(), m.b.end() - 32);
                rest.resize(rest.size() - 32);
                ok = hmacx(x, mk, all) == mac;
            }
            if (ok && su == 12 && re != x.epoch)
            {
                rst(x, from, sid);
                return;
            }
            if (ok && su == 12)
            {
                size_t pl = 0;
                Buf    b(rest);
                int    rc = x.key->pt_len(&pl, b.d(), b.n);
                if (rc || pl > rest.size()) c.fail("intact-refused", "authentic SM2 ciphertext: plaintext length refused (%s)", rcname(rc));
                Buf o(pl);
                rc = x.key->decrypt(o.d(), &pl, b.d(), b.n);
                o.check(c, "SM2 plaintext");
                if (rc) c.fail("intact-refused", "authentic SM2 ciphertext does not decrypt: %s", rcname(rc));
                pt.assign(o.d(), o.d() + pl);
            }
            else if (ok)
            {
                static const int mo[] = {MK_CBC, MK_CBC, MK_CTR, MK_CFB, MK_OFB, MK_ECB, MK_CTR};
                static const int cc[] = {CK_SM4, CK_AES256, CK_SM4, CK_AES128, CK_SM4, CK_SM4, CK_AES192};
                iv.resize(16);
                if (!crypt(x, x.lib, mo[su - 4], false, cc[su - 4], ek, iv, rest, pt)) c.fail("intact-refused", "authentic record does not decrypt in mode %d", mo[su - 4]);
                if (mo[su - 4] == MK_CBC || mo[su - 4] == MK_ECB)
                {
                    if (pt.empty() || pt.back() < 1 || pt.back() > 16 || pt.back() > pt.size()) c.fail("wrong-payload", "authentic record decrypts to bad padding");
                    pt.resize(pt.size() - pt.back());
                }
            }
        }
        c.count(ok ? "op.record-accepted" : "op.record-refused");
        if (!ok)
        {
            if (intact) c.fail("intact-refused", "node %d (%s) refuses an intact record (suite %d) of node %d (%s)", x.id, g_libs[x.lib].name.c_str(), su, from, g_libs[N[from].lib].name.c_str());
            return;
        }
        auto it = h_data.find(std::make_tuple(from, x.id, sid, seq));
        if (it == h_data.end()) c.fail("forged-accepted", "node %d accepts record %llu that node %d never sent in this session", x.id, (unsigned long long)seq, from);
        Pay&  p = pays[it->second];
        Bytes want = p.data;
        if (su == 12 && want.empty()) want.push_back(0x55);
        if (p.suite != su || pt != want) c.fail("wrong-payload", "node %d (%s) delivers %zu bytes that are not the %zu bytes node %d (%s) sent (suite %d)", x.id, g_libs[x.lib].name.c_str(), pt.size(), want.size(), from, g_libs[N[from].lib].name.c_str(), su);
        if (s.seen.insert(seq).second)
        {
            p.delivered = true;
            c.log("%.3f node %d delivers payload %d (%zu bytes, suite %d)", now, x.id, it->second, pt.size(), su);
            c.count("op.delivered");
            c.state(hcomb(hcomb(2, x.lib * 8 + N[from].lib), su * 16 + size_class(pt.size())));
        }
        Bytes a = head(M_DACK, x, from, sid);
        app64(a, seq);
        app(a, hmacx(x, mk, a));
        h_ack.insert(std::make_tuple(x.id, from, sid, seq));
        send(x, from, a);
    }
    void on_ack(Node& x, const Msg& m, bool intact, bool data)
    {
        Rd  r(m.b);
        r.num(1);
        int    from = (int)r.num(1);
        r.num(1);
        u64    sid = r.num(8), seq = data ? r.num(8) : 0;
        size_t body = r.at();
        Bytes  mac = r.rest();
        if (!r.ok || from >= n || from == x.id) return;
        auto ti = x.tx.find(from);
        if (ti == x.tx.end() || ti->second.sid != sid) return;
        Tx&   t = ti->second;
        Bytes k = data ? derive(x, t.key, "mac", sid, 0) : t.key;
        bool  ok = hmacx(x, k, Bytes(m.b.begin(), m.b.begin() + body)) == mac;
        if (!ok)
        {
            if (intact) c.fail("intact-refused", "node %d (%s) refuses an intact acknowledgement of node %d (%s)", x.id, g_libs[x.lib].name.c_str(), from, g_libs[N[from].lib].name.c_str());
            return;
        }
        if (!h_ack.count(std::make_tuple(from, x.id, sid, seq))) c.fail("forged-accepted", "node %d accepts an acknowledgement node %d never sent", x.id, from);
        t.tries = 0;
        if (!data)
        {
            t.up = true;
            pump_soon(x, from);
            return;
        }
        auto o = t.out.find(seq);
        if (o != t.out.end() && !o->second.acked)
        {
            o->second.acked = true;
            pays[o->second.pay].acked = true;
            pump_soon(x, from);
        }
    }
    // ---------------------------------------------------------------- sending
    void pump_soon(Node& x, int peer)
    {
        Ev e{1, x.id, peer, x.inc, Msg(), 1};
        at(now + 0.001, e);
    }
    bool pending(int from, int to)
    {
        for (auto& p : pays)
            if (p.from == from && p.to == to && !p.acked) return true;
        return false;
    }
    void pump(Node& x, int to, bool timer)
    {
        if (!pending(x.id, to)) return;
        if (timer) at(now + RTO + (double)(hcomb(seed, nev) % 40) / 1000, Ev{1, x.id, to, x.inc, Msg(), 0});
        auto ci = x.certs.find(to);
        if (ci == x.certs.end() || !ci->second.pub)
        {
            if (timer) send(x, to, head(M_CERTREQ, x, to, 0));
            return;
        }
        auto ti = x.tx.find(to);
        if (ti == x.tx.end())
        {
            Tx t;
            if (!hello(x, to, t)) return;
            x.tx[to] = t;
            send(x, to, x.tx[to].hello);
            return;
        }
        Tx& t = ti->second;
        if (timer && ++t.tries > 12)
        { // no progress: forget the session and the peer's key
            x.tx.erase(ti);
            delete ci->second.pub;
            x.certs.erase(ci);
            c.count("op.session-abandoned");
            return;
        }
        if (!t.up)
        {
            if (timer) send(x, to, t.hello);
            return;
        }
        int open = 0;
        for (auto& o : t.out)
            if (!o.second.acked)
            {
                open++;
                if (timer) send(x, to, o.second.wire);
            }
        std::set<int> inflight;
        for (auto& o : t.out) inflight.insert(o.second.pay);
        for (size_t i = 0; i < pays.size() && open < 4; i++)
        {
            Pay& p = pays[i];
            if (p.from != x.id || p.to != to || p.acked || inflight.count((int)i)) continue;
            Bytes b;
            u64   seq = t.next;
            h_data[std::make_tuple(x.id, to, t.sid, seq)] = (int)i;
            if (!record(x, to, t, seq, p, b)) return;
            t.next++;
            Out& o = t.out[seq];
            o.wire = b, o.pay = (int)i;
            send(x, to, b);
            open++;
        }
    }
    void deliver(Node& x, const Msg& m)
    {
        if (!x.up)
        {
            c.count("op.message-to-dead-node");
            return;
        }
        if (m.b.size() < 3) return;
        int type = m.b[0];
        bool intact = m.b == m.orig && (m.to == x.id);
        scribble(hcomb(seed, nev));
        if (m.b[2] != x.id && !(type == M_CERT && m.b[2] == 0xff)) return;
        switch (type)
        {
            case M_CERTREQ:
                if (m.b[1] < n && m.b[1] != x.id) send_cert(x, m.b[1]);
                break;
            case M_CERT: on_cert(x, m, intact); break;
            case M_HELLO: on_hello(x, m, intact); break;
            case M_HACK: on_ack(x, m, intact, false); break;
            case M_DATA: on_data(x, m, intact); break;
            case M_DACK: on_ack(x, m, intact, true); break;
            case M_RST:
            {
                Rd r(m.b);
                r.num(1);
                int from = (int)r.num(1);
                r.num(1);
                u64  sid = r.num(8);
                auto ti = x.tx.find(from);
                if (!r.ok || ti == x.tx.end() || ti->second.sid != sid) break;
                x.tx.erase(ti);
                auto ci = x.certs.find(from);
                if (ci != x.certs.end())
                {
                    delete ci->second.pub;
                    x.certs.erase(ci);
                }
                send(x, from, head(M_CERTREQ, x, from, 0));
                break;
            }
        }
    }
    void do_boot(Node& x)
    {
        x.inc++;
        wipe(x);
        if (!boot(x))
        { // random device down: try again
            at(now + 0.3, Ev{3, x.id, 0, x.inc, Msg(), 0});
            return;
        }
        x.up = true;
        for (int to = 0; to < n; to++)
            if (to != x.id) at(now + 0.01 * (1 + to), Ev{1, x.id, to, x.inc, Msg(), 0});
    }
    void plan_op(const Op& o)
    {
        Node& x = N[(u64)o.at(0) % n];
        if (o.n == "send")
        {
            Pay p;
            p.from = x.id, p.to = (int)((u64)o.at(1) % n);
            if (p.to == p.from) p.to = (p.from + 1) % n;
            p.suite = (int)((u64)o.at(3) % NSUITE);
            p.data = sim_data((u64)o.at(5), (size_t)((u64)o.at(2) % 4000));
            pays.push_back(p);
            c.log("%.3f payload %d: node %d -> node %d, %zu bytes, suite %d", now, (int)pays.size() - 1, p.from, p.to, p.data.size(), p.suite);
            if (x.up) at(now, Ev{1, x.id, p.to, x.inc, Msg(), 0});
        }
        else if (o.n == "crash")
        {
            c.log("%.3f node %d crashes", now, x.id);
            c.count("fault.crash");
            x.up = false, x.inc++;
            wipe(x);
            if (o.at(2) >= 0)
            {
                u64    a = (u64)o.at(3), b = (u64)o.at(4);
                Bytes& f = b % 5 == 0 ? x.idfile : b % 5 == 1 ? x.slot[x.cur ^ 1] : x.slot[x.cur];
                disk_fault(f, (int)o.at(2), a, b);
                if (b % 7 == 0) disk_fault(x.slot[x.cur ^ 1], (int)o.at(2) + 1, a + 3, b + 1);
                c.count(std::string("fault.disk-") + disk_fault_name((int)((u64)o.at(2) % DF_KINDS)));
            }
            at(now + (double)(o.at(1) % 5000) / 1000, Ev{3, x.id, 0, x.inc, Msg(), 0});
        }
        else if (o.n == "rot")
        {
            if (x.up && new_key(x)) c.log("%.3f node %d rotates its key", now, x.id), c.count("op.key-rotation");
        }
        else if (o.n == "rngf")
        {
            x.rng_fail = o.at(1) % 30, x.rng_kind = o.at(3) % 2 ? 2 : 1;
            c.log("%.3f random device of node %d fails for %lld draws", now, x.id, (long long)x.rng_fail);
        }
        else if (o.n == "slow")
        {
            x.slow_until = now + (double)(o.at(1) % 5000) / 1000;
            c.count("fault.slow-node");
        }
    }
    void run(const Plan& p)
    {
        plan = &p;
        std::vector<i64> libs;
        for (auto& o : p.ops)
        {
            if (o.n == "cfg") seed = (u64)o.at(0), n = 2 + (int)((u64)o.at(1) % 3), sm9 = o.at(2) != 0;
            if (o.n == "n") libs.push_back(o.at(0));
        }
        for (auto& o : p.ops)
        {
            if (o.n == "net") wins.push_back({(double)o.at(0) / 1000, (double)(o.at(0) + o.at(1)) / 1000, -1, -1, o.at(2), o.at(3), o.at(4), o.at(5), o.at(6), o.at(7)});
            if (o.n == "part") wins.push_back({(double)o.at(0) / 1000, (double)(o.at(0) + o.at(1)) / 1000, (int)((u64)o.at(2) % n), o.at(3) < 0 ? -1 : (int)((u64)o.at(3) % n), 1000, 0, 0, 0, 0, 0});
        }
        for (auto& w : wins) quiet = std::max(quiet, w.t1 + (double)w.delay / 1000);
        for (int i = 0; i < n; i++)
        {
            N[i].id = i, N[i].lib = (int)nlib(i < (int)libs.size() ? libs[i] : i);
            do_boot(N[i]);
        }
        double t = 0.05;
        for (size_t i = 0; i < p.ops.size(); i++)
        {
            const Op& o = p.ops[i];
            int       ti = o.n == "send" ? 4 : o.n == "crash" ? 5 : o.n == "rot" ? 1 : o.n == "rngf" ? 2 : o.n == "slow" ? 2 : -1;
            if (ti < 0) continue;
            double w = 0.05 + (double)((u64)o.at(ti) % 20000) / 1000;
            Ev     e{2, 0, 0, 0, Msg(), i};
            at(w, e);
            t = std::max(t, w + 5);
        }
        quiet = std::max(quiet, t);
        double limit = quiet + 60;
        while (!q.empty())
        {
            auto   it = q.begin();
            double et = it->first.first;
            Ev     e = it->second;
            if (et > limit || nev > 60000) break;
            q.erase(it);
            now = et;
            nev++;
            c.st->steps++;
            if (e.kind == 0 && N[e.node].slow_until > now)
            {
                at(N[e.node].slow_until, e);
                continue;
            }
            if (e.kind == 0) deliver(N[e.node], e.m);
            else if (e.kind == 1)
            {
                if (N[e.node].up && N[e.node].inc == e.inc) pump(N[e.node], e.peer, e.op == 0);
            }
            else if (e.kind == 2) plan_op(p.ops[e.op]);
            else if (e.kind == 3 && !N[e.node].up && N[e.node].inc == e.inc) do_boot(N[e.node]);
        }
        c.st->simtime += now;
        for (size_t i = 0; i < pays.size(); i++)
        {
            if (!pays[i].delivered) c.fail("no-progress", "payload %zu (node %d -> node %d, suite %d) is not delivered %.0f simulated seconds after the last fault", i, pays[i].from, pays[i].to, pays[i].suite, now - quiet);
            if (!pays[i].acked) c.fail("no-progress", "payload %zu is delivered but never acknowledged", i);
        }
        c.log("end at %.3f: %zu payloads, %llu messages", now, pays.size(), (unsigned long long)nmsg);
        c.ev(nmsg);
    }
};
void exec(const Plan& p, Ctx& c)
{
    World w(c);
    w.run(p);
}
void init()
{
    AH = collect_api<const HashApi*>("gm_api_hash");
    AM = collect_api<const ModeApi*>("gm_api_mode");
    AG = collect_api<const GcmApi*>("gm_api_gcm");
    A2 = collect_api<const Sm2Api*>("gm_api_sm2");
    A9 = collect_api<const Sm9Api*>("gm_api_sm9");
    AA = collect_api<const Asn1Api*>("gm_api_asn1");
    for (auto a : A2) a->set_digest_hook(nullptr, nullptr);
    for (auto a : A9) a->set_digest_hook(nullptr, nullptr);
}
i64 sd(Prng& r) { return (i64)r.below(100000000); }
void gen(Prng& r, Plan& p)
{
    i64 n = r.range(0, 2);
    p.add("cfg", {sd(r), n, r.chance(1, 6) ? 1 : 0});
    for (i64 i = 0; i < n + 2; i++) p.add("n", {(i64)r.below(60)});
    i64 horizon = r.pick({300, 1500, 5000});
    for (i64 k = r.range(0, 3); k > 0; k--)
    {
        auto pm = [&] { return r.chance(1, 2) ? 0 : r.pick({20, 100, 300, 600}); };
        p.add("net", {r.range(0, horizon), r.range(100, horizon), pm(), pm(), pm(), pm(), pm(), r.pick({0, 0, 30, 300, 1500})});
    }
    for (i64 k = r.below(3); k > 0; k--) p.add("part", {r.range(0, horizon), r.range(50, 3000), (i64)r.below(4), r.chance(1, 2) ? -1 : (i64)r.below(4)});
    i64 ns = r.range(1, 12), fav = (i64)r.below(NSUITE);
    for (i64 k = 0; k < ns; k++)
    {
        i64 len = r.chance(1, 5) ? r.range(0, 3000) : r.chance(1, 3) ? r.pick({0, 1, 15, 16, 17, 32, 64, 128, 255}) : r.range(0, 300);
        i64 su = r.chance(1, 2) ? fav : (i64)r.below(NSUITE);
        if (su == 12) len %= 300;
        p.add("send", {(i64)r.below(4), (i64)r.below(4), len, su, r.range(0, horizon), sd(r)});
    }
    for (i64 k = r.below(4); k > 0; k--) p.add("crash", {(i64)r.below(4), r.range(10, 2000), r.chance(1, 3) ? -1 : (i64)r.below(DF_KINDS), sd(r), sd(r), r.range(0, horizon)});
    for (i64 k = r.below(2); k > 0; k--) p.add("rot", {(i64)r.below(4), r.range(0, horizon)});
    if (r.chance(1, 3)) p.add("rngf", {(i64)r.below(4), r.range(1, 20), r.range(0, horizon), (i64)r.below(2)});
    if (r.chance(1, 4)) p.add("slow", {(i64)r.below(4), r.range(50, 2000), r.range(0, horizon)});
}
bool dir(size_t i, Plan& p)
{
    size_t L = g_libs.empty() ? 5 : g_libs.size();
    if (i < L * L)
    { // every pair of builds, every suite, no faults, then with loss and corruption
        p.add("cfg", {(i64)i + 1, 0, i % 3 == 0 ? 1 : 0});
        p.add("n", {(i64)(i / L)}), p.add("n", {(i64)(i % L)});
        if (i % 2) p.add("net", {0, 1500, 100, 100, 150, 50, 50, 300});
        for (i64 s = 0; s < NSUITE; s++) p.add("send", {s % 2, (s + 1) % 2, 1 + (i64)i * 7 % 300 + s, s, s * 60, (i64)i * 16 + 4});
        return true;
    }
    i -= L * L;
    if (i < 40)
    { // crash and restart around a key rotation, with each disk fault
        p.add("cfg", {(i64)i + 11, 1, i % 4 == 0 ? 1 : 0});
        p.add("n", {(i64)i}), p.add("n", {(i64)i / 2}), p.add("n", {(i64)i / 3 + 1});
        p.add("rot", {0, 400});
        p.add("crash", {0, 300, (i64)(i % DF_KINDS), (i64)i * 37, (i64)i, 500});
        p.add("crash", {1, 500, (i64)(i / 4 % DF_KINDS), (i64)i * 3, (i64)i + 2, 700});
        for (i64 s = 0; s < 5; s++) p.add("send", {s % 3, (s + 1) % 3, 40 * s, (i64)i + s, 200 * s, (i64)i + s + 20});
        return true;
    }
    return false;
}
Module m18("C18", gen, exec, dir, init);
} // namespace
