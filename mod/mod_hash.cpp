// C01 SM3 / streaming hash base, C02 GHASH, C03 HMAC: schedules of chunks and
// object histories against one-shot references.
#include "util.h"
#include "../shim/toy.h"
using namespace ref;

static std::vector<const HashApi*> A;
static void init() { A = collect_api<const HashApi*>("gm_api_hash"); }

struct KInfo
{
    size_t bs, ds;
    int    hmac_of; // -1, or the underlying kind
};
static KInfo kinfo(int k)
{
    switch (k)
    {
        case HK_SM3: return {64, 32, -1};
        case HK_GHASH: return {16, 16, -1};
        case HK_HMAC_SM3: return {64, 32, HK_SM3};
        case HK_TOY_8_8: return {8, 8, -1};
        case HK_TOY_16_32: return {16, 32, -1};
        case HK_TOY_48_20: return {48, 20, -1};
        case HK_TOY_64_32: return {64, 32, -1};
        case HK_TOY_128_64: return {128, 64, -1};
        case HK_TOY_136_33: return {136, 33, -1};
        case HK_HMAC_TOY_16_32: return {16, 32, HK_TOY_16_32};
        case HK_HMAC_TOY_48_20: return {48, 20, HK_TOY_48_20};
        case HK_HMAC_TOY_64_32: return {64, 32, HK_TOY_64_32};
        case HK_HMAC_TOY_128_64: return {128, 64, HK_TOY_128_64};
    }
    return {64, 32, -1};
}
static Bytes plain_hash(int k, const u8* p, size_t n)
{
    if (k == HK_SM3) return sm3(p, n);
    KInfo i = kinfo(k);
    Bytes d(i.ds);
    toy_hash(d.data(), i.bs, i.ds, p, n);
    return d;
}
enum St
{
    EMPTY,
    UNKEYED,
    LIVE,
    DONE,
    BROKEN
};
struct Slot
{
    IHash* o = nullptr;
    int    kind = 0;
    St     st = EMPTY;
    Bytes  key, msg;
    void clear()
    {
        delete o;
        o = nullptr;
        st = EMPTY;
    }
    ~Slot() { delete o; }
};
static Bytes expected(const Slot& s)
{
    KInfo i = kinfo(s.kind);
    if (s.kind == HK_GHASH) return ghash(s.key.data(), s.msg.data(), s.msg.size());
    if (i.hmac_of >= 0)
    {
        int u = i.hmac_of;
        return hmac([u](const u8* p, size_t n) { return plain_hash(u, p, n); }, i.bs, i.ds, s.key, s.msg);
    }
    return plain_hash(s.kind, s.msg.data(), s.msg.size());
}
static i64 g_countdown = -1;
static u64 g_faults = 0;
// a user-written hash whose compression function itself uses the library
struct HNest
{
    Ctx*   c;
    size_t L;
    int    kind;
};
static void nested(void* p, u64 seed)
{
    HNest& h = *(HNest*)p;
    Slot   s;
    s.kind = h.kind;
    KInfo ki = kinfo(s.kind);
    bool  keyed = s.kind == HK_GHASH || ki.hmac_of >= 0;
    if (keyed) s.key = sim_data(seed + 1, seed % 7 * ki.bs / 3);
    s.msg = sim_data(seed, seed / 7 % 200);
    Buf kb(s.key), m(s.msg), d(ki.ds);
    s.o = A[h.L]->make(s.kind, keyed, kb.d(), kb.n, 3);
    if (!s.o) h.c->fail("construct-failed", "construction threw");
    size_t a = std::min<size_t>(m.n, seed / 1400 % 140);
    if (s.o->update(m.d(), a)) h.c->fail("update-failed", "update threw");
    if (seed & 1 && s.o->reset() == RC_OK && s.o->update(m.d(), a)) h.c->fail("update-failed", "update threw");
    if (s.o->final(d.d(), m.d() + a, m.n - a, 1)) h.c->fail("final-failed", "do_final threw");
    d.check(*h.c, "digest");
    Bytes e = expected(s);
    expect_bytes(*h.c, "wrong-digest", "digest", d.d(), e.data(), ki.ds);
}
static int hook(void*, int)
{
    if (g_nest.in) return 0;
    if (g_nest.at >= 0) g_nest.step();
    if (g_countdown < 0) return 0;
    if (g_countdown-- == 0)
    {
        g_faults++;
        return 1;
    }
    return 0;
}
static const char* stn[] = {"empty", "unkeyed", "live", "done", "broken"};

// digests of the two long streams of the directed plans, computed with OpenSSL
// (sixteen bytes of data then zeros in every chunk, then sim_data(99, 37))
static const struct
{
    u64         len, chunk;
    const char* digest;
} HUGE_SM3[] = {
    {536870912ull, 536870912ull, "5e8ea9bbad44e404121dda4ecc427dd3a6d004d7dd449d5e120d5c4fdcc939a5"},
    {536870976ull, 67108864ull, "a3e2c3aa26eac105fe47ed89b1800fa8c0beda726df2e3042b4d314fdfe0da24"},
};
static void exec(const Plan& p, Ctx& c)
{
    size_t L = 0;
    Slot   s[4];
    g_countdown = -1;
    HNest hn{&c, 0, HK_TOY_64_32};
    g_nest.clear();
    g_nest.fn = nested, g_nest.ctx = &hn;
    for (auto* a : A) a->set_hook(hook, nullptr);
    int n = 0, fins = 0, moves = 0;
    for (auto& o : p.ops)
    {
        c.st->steps++;
        n++;
        scribble(n);
        g_nest.raise(c);
        Slot& t = s[(u64)o.at(0) % 4];
        hn.L = L;
        if (t.o && t.kind < HK_TALLY && o.n != "new") hn.kind = t.kind;
        if (o.n == "lib")
        {
            L = nlib(o.at(0));
            continue;
        }
        if (o.n == "new")
        {
            t.clear();
            int kind = (int)((u64)o.at(1) % HK_COUNT);
            if (kind < HK_TALLY) hn.kind = kind;
            KInfo ki = kinfo(kind);
            bool keyed = kind == HK_GHASH || ki.hmac_of >= 0;
            Bytes key = keyed ? sim_data((u64)o.at(3), kind == HK_GHASH ? 16 : (size_t)(u64)o.at(4) % 2000) : Bytes();
            Buf  kb(key);
            t.kind = kind;
            t.o = A[L]->make(kind, keyed && o.at(2), kb.d(), key.size(), (u32)o.at(5));
            if (!t.o)
            {
                if (g_countdown != -1 || ki.hmac_of < 0) c.fail("construct-failed", "construction threw");
                c.count("fault.compression-threw-in-constructor");
                c.log("construction failed");
                continue;
            }
            t.key = key;
            t.msg.clear();
            t.st = !keyed ? LIVE : o.at(2) ? LIVE : UNKEYED;
            c.log("new %lld kind %d %s key %zu", (long long)o.at(0), kind, stn[t.st], key.size());
            kb.check(c, "key");
            c.count("op.new");
        }
        else if (o.n == "key")
        {
            if (t.st == EMPTY) continue;
            KInfo ki = kinfo(t.kind);
            bool keyed = t.kind == HK_GHASH || ki.hmac_of >= 0;
            if (!keyed) continue;
            Bytes key = sim_data((u64)o.at(1), t.kind == HK_GHASH ? 16 : (size_t)(u64)o.at(2) % 2000);
            Buf  kb(key);
            c.state(hcomb(t.st * 64 + t.kind, 1000 + (t.msg.size() % ki.bs ? 1 : 0) + 2 * std::min<size_t>(4, key.size() / ki.bs)));
            int rc = t.o->set_key(kb.d(), key.size());
            c.log("key %lld len %zu -> %s", (long long)o.at(0), key.size(), rcname(rc));
            if (rc == RC_FAULT && g_countdown == -1 && ki.hmac_of >= 0)
            {
                t.st = BROKEN;
                continue;
            }
            if (rc) c.fail("set-key-failed", "set_key returned %s", rcname(rc));
            if (t.st == LIVE && t.msg.size()) c.count("history.rekey-mid-message");
            if (t.st == DONE) c.count("history.rekey-after-finish");
            if (t.st == BROKEN) c.count("history.rekey-after-fault");
            t.key = key;
            t.msg.clear();
            t.st = LIVE;
            kb.check(c, "key");
        }
        else if (o.n == "upd" || o.n == "pad")
        {
            if (t.st != LIVE) continue;
            Bytes d = sim_data((u64)o.at(1), oplen((u64)o.at(2)));
            if (o.n == "pad")
            { // complete the block, plus whole blocks
                size_t bs = kinfo(t.kind).bs;
                d = sim_data((u64)o.at(1), (bs - t.msg.size() % bs) % bs + bs * ((u64)o.at(2) % 64));
            }
            Buf   b(d);
            KInfo ki = kinfo(t.kind);
            c.state(hcomb(hcomb(t.kind, t.msg.size() % ki.bs), d.size() < 3 * ki.bs ? d.size() : 10000 + d.size() % ki.bs));
            int rc = t.o->update(d.empty() && o.at(3) ? nullptr : b.d(), d.size());
            c.log("upd %lld +%zu -> %s", (long long)o.at(0), d.size(), rcname(rc));
            if (rc == RC_FAULT)
            {
                t.st = BROKEN;
                c.count("fault.compression-threw-in-update");
                continue;
            }
            if (rc) c.fail("update-failed", "update returned %s", rcname(rc));
            b.check(c, "input chunk");
            if (memcmp(b.d(), d.data(), d.size())) c.fail("input-modified", "update changed its input");
            t.msg.insert(t.msg.end(), d.begin(), d.end());
            if (d.empty()) c.count("chunk.empty");
            moves++;
        }
        else if (o.n == "drip")
        { // drip slot seed k: k updates of 0..5 bytes
            if (t.st != LIVE) continue;
            size_t k = (size_t)((u64)o.at(2) % 80000), at = 0;
            Bytes  d = sim_data((u64)o.at(1) | 4, 5 * k);
            Buf    b(d);
            size_t j = 0;
            for (; j < k && t.st == LIVE; j++)
            {
                size_t l  = mix64((u64)o.at(1) + j) % 6;
                int    rc = t.o->update(b.d() + at, l);
                if (rc == RC_FAULT) t.st = BROKEN, c.count("fault.compression-threw-in-update");
                else if (rc) c.fail("update-failed", "update %zu of a drip returned %s", j, rcname(rc));
                else at += l;
            }
            c.log("drip %lld %zu updates, +%zu", (long long)o.at(0), j, at);
            t.msg.insert(t.msg.end(), d.begin(), d.begin() + at);
            c.count("chunk.drip", j);
            moves++;
        }
        else if (o.n == "rsts")
        { // rsts slot k: k resets or re-keyings in a row
            KInfo ki = kinfo(t.kind);
            bool  hm = ki.hmac_of >= 0;
            if (t.st != LIVE && t.st != DONE) continue;
            Buf    kb(t.key);
            size_t k = (size_t)((u64)o.at(1) % 80000);
            if (hm) k %= 2000;
            if (k && t.st == LIVE && t.msg.size() % ki.bs) c.count("history.reset-with-buffered-bytes");
            for (size_t j = 0; j < k; j++)
            {
                int rc = hm ? t.o->set_key(kb.d(), t.key.size()) : t.o->reset();
                if (rc == RC_FAULT && hm)
                {
                    t.st = BROKEN;
                    break;
                }
                if (rc) c.fail("reset-failed", "reset %zu in a row returned %s", j, rcname(rc));
                t.st = LIVE, t.msg.clear();
            }
            c.log("rsts %lld %zu", (long long)o.at(0), k);
            c.count("history.resets-in-a-row", k);
            moves++;
        }
        else if (o.n == "wear")
        { // wear slot seed k: k short computations one after the other on the same object
            if (t.st != LIVE && t.st != DONE) continue;
            KInfo  ki = kinfo(t.kind);
            bool   hm = ki.hmac_of >= 0;
            size_t k  = (size_t)((u64)o.at(2) % 80000), j = 0;
            if (hm && t.key.size() > 3 * ki.bs) t.key.resize(ki.bs);
            Buf kb(t.key), dg(ki.ds);
            for (; j < k; j++)
            {
                t.msg  = sim_data((u64)o.at(1) + j, t.kind == HK_GHASH ? 16 : mix64(j) % 9);
                t.st   = LIVE;
                int rc = hm ? t.o->set_key(kb.d(), t.key.size()) : t.o->reset();
                Buf b(t.msg);
                if (!rc) rc = t.o->final(dg.d(), b.d(), t.msg.size(), 1);
                if (rc == RC_FAULT)
                {
                    t.st = BROKEN;
                    c.count("fault.compression-threw-in-final");
                    break;
                }
                t.st = DONE;
                if (rc) c.fail("final-failed", "computation %zu on one object returned %s", j, rcname(rc));
                Bytes e = expected(t);
                if (memcmp(e.data(), dg.d(), ki.ds)) expect_bytes(c, "wrong-digest", ("digest of computation " + std::to_string(j)).c_str(), dg.d(), e.data(), ki.ds);
            }
            dg.check(c, "digest");
            c.log("wear %lld %zu computations", (long long)o.at(0), j);
            c.count("history.computations-on-a-worn-object", j);
            moves++, fins++;
        }
        else if (o.n == "fin")
        {
            if (t.st != LIVE) continue;
            KInfo ki = kinfo(t.kind);
            int   wa = o.at(3) != 0;
            Bytes d = wa ? sim_data((u64)o.at(1), oplen((u64)o.at(2))) : Bytes();
            Buf   b(d), dg(ki.ds);
            c.state(hcomb(hcomb(t.kind, 77 + t.msg.size() % ki.bs), d.size() < 3 * ki.bs ? d.size() : 10000 + d.size() % ki.bs));
            int rc = t.o->final(dg.d(), d.empty() && o.at(4) ? nullptr : b.d(), d.size(), wa);
            if (rc == RC_FAULT)
            {
                t.st = BROKEN;
                c.count("fault.compression-threw-in-final");
                continue;
            }
            t.msg.insert(t.msg.end(), d.begin(), d.end());
            t.st = DONE;
            if (t.kind == HK_GHASH && t.msg.size() % 16)
            { // GHASH is defined on whole blocks only: must be refused
                c.log("fin %lld after %zu bytes -> %s", (long long)o.at(0), t.msg.size(), rcname(rc));
                if (rc == RC_OK) c.fail("partial-block-accepted", "GHASH finished after %zu bytes without an error", t.msg.size());
                dg.check(c, "digest");
                c.count("history.finish-refused-partial-block");
                fins++;
                continue;
            }
            if (rc) c.fail("final-failed", "do_final returned %s", rcname(rc));
            Bytes e = expected(t);
            c.log("fin %lld after %zu bytes -> %s", (long long)o.at(0), t.msg.size(), hexs(dg.d(), std::min<size_t>(8, ki.ds)).c_str());
            c.bytes(dg.d(), ki.ds);
            b.check(c, "input chunk");
            dg.check(c, "digest");
            if (t.o->digest_size() != ki.ds) c.fail("digest-size", "announced digest size %zu", t.o->digest_size());
            expect_bytes(c, "wrong-digest", "digest", dg.d(), e.data(), ki.ds);
            fins++;
            c.count("op.finish");
        }
        else if (o.n == "rst")
        {
            if (t.st == EMPTY || kinfo(t.kind).hmac_of >= 0) continue;
            int rc = t.o->reset();
            c.log("rst %lld (%s)", (long long)o.at(0), stn[t.st]);
            if (rc) c.fail("reset-failed", "reset returned %s", rcname(rc));
            c.state(hcomb(t.st * 64 + t.kind, 2000 + t.msg.size() % kinfo(t.kind).bs));
            if (t.st == LIVE && t.msg.size() % kinfo(t.kind).bs) c.count("history.reset-with-buffered-bytes");
            if (t.st == BROKEN) c.count("history.reset-after-fault");
            t.msg.clear();
            if (t.st != UNKEYED) t.st = LIVE;
            moves++;
        }
        else if (o.n == "cpy")
        {
            Slot& d = s[(u64)o.at(1) % 4];
            if (&d == &t || t.st == EMPTY) continue;
            d.clear();
            d.o = t.o->clone();
            d.kind = t.kind, d.key = t.key, d.msg = t.msg, d.st = t.st;
            c.log("cpy %lld -> %lld", (long long)o.at(0), (long long)o.at(1));
            c.count("history.copy");
            moves++;
        }
        else if (o.n == "asg")
        {
            Slot& d = s[(u64)o.at(1) % 4];
            if (t.st == EMPTY || d.st == EMPTY || d.kind != t.kind) continue;
            d.o->assign(t.o);
            if (&d != &t) d.key = t.key, d.msg = t.msg, d.st = t.st;
            c.log("asg %lld -> %lld", (long long)o.at(0), (long long)o.at(1));
            c.count("history.assign");
            moves++;
        }
        else if (o.n == "del")
        {
            t.clear();
        }
        else if (o.n == "nst")
        { // nst at seed: the compression function uses the library at its call number "at"
            g_nest.at = o.at(0), g_nest.seed = (u64)o.at(1);
        }
        else if (o.n == "flt")
        { // the compression call number k from now on throws
            g_countdown = o.at(0);
            c.log("arm fault after %lld", (long long)o.at(0));
        }
        else if (o.n == "huge")
        { // a stream too long for 32-bit counters: len bytes of zeros in chunks
            u64    len = (u64)o.at(1), chunk = (u64)o.at(2);
            size_t map = std::min<u64>(len, chunk);
            Huge   in(map, false);
            const u8* z = in.p;
            if (!z) continue;
            IHash* h = A[L]->make(HK_SM3, 0, nullptr, 0, 1);
            Sm3    m;
            const char* known = nullptr;
            for (auto& k : HUGE_SM3)
                if (k.len == len && k.chunk == chunk && o.at(3) == 37) known = k.digest;
            Bytes  tail = sim_data(99, (size_t)o.at(3) % 200);
            for (u64 k = 0; k < len;)
            {
                u64 q = std::min<u64>(map, len - k);
                h->update(z, q);
                if (!known) m.update(z, q);
                k += q;
            }
            h->update(tail.data(), tail.size());
            m.update(tail.data(), tail.size());
            u8 d[32] = {0x5c};
            h->final(d, nullptr, 0, 0);
            Bytes e = known ? unhex(known) : m.digest();
            delete h;
            c.log("huge %llu", (unsigned long long)len);
            c.bytes(d, 32);
            expect_bytes(c, "wrong-digest", "digest of a very long stream", d, e.data(), 32);
            c.count("stream.longer-than-2^32-bits");
            fins++, moves++;
        }
        else if (o.n == "hugeh")
        { // hugeh kind pre len post how keylen: one call of more than 2^32 bytes
            int    kind = (int)((u64)o.at(1) % HK_COUNT);
            size_t F = L;
            for (size_t k = 0; k < g_libs.size(); k++)
                if (g_libs[k].name == "simd") F = k;
            Bytes pre = sim_data(7, (u64)o.at(2) % 1000), post = sim_data(8, (u64)o.at(4) % 1000);
            u64   len = (u64)o.at(3), klen = (u64)o.at(6);
            Huge  in(std::max(len, klen), false);
            if (!in.p || (kind != HK_TALLY && kind != HK_HMAC_TALLY && kind != HK_GHASH)) continue;
            Bytes key = sim_data(9, 16);
            IHash* h = kind == HK_TALLY ? A[F]->make(kind, 0, nullptr, 0, 1) : kind == HK_GHASH ? A[F]->make(kind, 1, key.data(), 16, 1) : A[F]->make(kind, 1, in.p, klen, 1);
            u8     d[32] = {0x5c};
            int    rc = h->update(pre.data(), pre.size());
            if (o.at(5)) rc |= h->final(d, in.p, len, 1);
            else
            {
                rc |= h->update(in.p, len);
                rc |= h->update(post.data(), post.size());
                rc |= h->final(d, nullptr, 0, 0);
            }
            delete h;
            if (rc) c.fail("update-failed", "one long call was refused");
            if (o.at(5)) post.clear();
            // the model: only the sixteen leading bytes of the mapping are not zero
            u64 n = kind == HK_GHASH ? 16 : 32;
            u8  e[32] = {0};
            if (kind == HK_GHASH)
            { // pre and len are whole blocks here
                Bytes a = pre;
                a.insert(a.end(), in.p, in.p + 16);
                Bytes y = ghash(key.data(), a.data(), a.size());
                memcpy(e, y.data(), 16);
                ghash_zeros(e, key.data(), len / 16 - 1);
                for (size_t k = 0; k < post.size(); k++)
                {
                    e[k % 16] ^= post[k];
                    if (k % 16 == 15) ghash_mul(e, key.data());
                }
            }
            else
            {
                typedef std::pair<const u8*, u64> Part;
                auto model = [](const std::vector<Part>& parts) {
                    u64 total = 0;
                    for (auto& q : parts) total += q.second;
                    auto at = [&](u64 k) {
                        size_t j = 0;
                        while (k >= parts[j].second) k -= parts[j++].second;
                        return parts[j].first[k];
                    };
                    TallyState t;
                    t.init();
                    Bytes f, r, dg(32);
                    for (u64 k = 0; k < 64 && k < total / 64 * 64; k++) f.push_back(at(k));
                    for (u64 k = total / 64 * 64; k < total; k++) r.push_back(at(k));
                    t.add(f.data(), total / 64);
                    t.fin(dg.data(), r.data(), r.size());
                    return dg;
                };
                std::vector<Part> msg = {{pre.data(), pre.size()}, {in.p, len}, {post.data(), post.size()}};
                Bytes dg;
                if (kind == HK_TALLY) dg = model(msg);
                else
                {
                    Bytes k(in.p, in.p + std::min<u64>(klen, 64)), o;
                    if (klen > 64) k = model({{in.p, klen}});
                    k.resize(64, 0);
                    o = k;
                    for (int i = 0; i < 64; i++) k[i] ^= 0x36, o[i] ^= 0x5c;
                    msg.insert(msg.begin(), {k.data(), 64});
                    dg = model(msg);
                    dg = model({{o.data(), 64}, {dg.data(), 32}});
                }
                memcpy(e, dg.data(), 32);
            }
            c.log("hugeh kind %d %zu+%llu+%zu key %llu", kind, pre.size(), (unsigned long long)len, post.size(), (unsigned long long)klen);
            c.bytes(d, n);
            expect_bytes(c, "wrong-digest", "digest after one very long call", d, e, n);
            c.count("stream.one-call-longer-than-2^32");
            fins++, moves++;
        }
    }
    g_nest.raise(c);
    g_nest.clear();
    c.nontrivial = fins && moves ? 1 : 0;
}

static void gen_common(Prng& r, Plan& p, const std::vector<int>& kinds, bool faults)
{
    p.add("lib", {(i64)r.below(64)});
    int prof = (int)r.below(8), kind0 = r.pick(kinds);
    bool flt = faults && r.chance(1, 6), nst = faults && kind0 != HK_SM3 && kind0 != HK_HMAC_SM3 && r.chance(1, 5);
    i64  nops = r.chance(1, 4) ? r.range(20, 60) : r.range(3, 20);
    auto klen = [&](i64 bs) { return r.chance(1, 2) ? r.pick({0, 1, bs - 1, bs, bs + 1, 2 * bs, 3 * bs + 1}) : r.range(0, 300); };
    auto mk = [&](i64 slot) {
        int k = r.chance(3, 4) ? kind0 : r.pick(kinds);
        p.add("new", {slot, k, (i64)r.chance(3, 4), (i64)r.below(1000), klen((i64)kinfo(k).bs), (i64)r.below(1000)});
    };
    mk(0);
    if (r.chance(1, 2)) mk(1);
    i64 bs = (i64)kinfo(kind0).bs;
    bool keyed = kind0 == HK_GHASH || kinfo(kind0).hmac_of >= 0;
    for (i64 i = 0; i < nops; i++)
    {
        i64 sl = r.chance(2, 3) ? 0 : r.range(0, 3);
        if (nst && r.chance(1, 3)) p.add("nst", {(i64)r.below(4), (i64)r.below(100000)});
        switch (r.below(keyed ? 16 : 14))
        {
            case 13: if (kind0 == HK_GHASH) { p.add("pad", {sl, (i64)r.below(5000), (i64)r.below(4), (i64)r.chance(1, 2)}); break; }
                     p.add("upd", {sl, (i64)r.below(5000), gen_chunk(r, bs, prof), (i64)r.below(2)}); break;
            case 0: p.add("fin", {sl, (i64)r.below(5000), gen_chunk(r, bs, prof), (i64)r.chance(1, 2), (i64)r.below(2)}); break;
            case 1: p.add("rst", {sl}); break;
            case 2: p.add("cpy", {sl, r.range(0, 3)}); break;
            case 3: p.add("asg", {sl, r.range(0, 3)}); break;
            case 4:
                if (r.chance(1, 3)) mk(sl);
                else p.add("fin", {sl, (i64)r.below(5000), gen_chunk(r, bs, prof), (i64)r.chance(1, 2), (i64)r.below(2)});
                break;
            case 5:
                if (flt) p.add("flt", {(i64)r.below(4)});
                else p.add("upd", {sl, (i64)r.below(5000), gen_chunk(r, bs, (int)r.below(8)), (i64)r.below(2)});
                break;
            case 14:
            case 15: p.add("key", {sl, (i64)r.below(1000), klen(bs)}); break;
            default: p.add("upd", {sl, (i64)r.below(5000), gen_chunk(r, bs, prof), (i64)r.below(2)}); break;
        }
    }
    while (r.chance(1, 14))
    { // a long life
        Op o;
        int w = (int)r.below(3);
        o.n = w == 0 ? "drip" : w == 1 ? "wear" : "rsts";
        if (w == 2) o.a = {(i64)r.below(2), r.chance(1, 20) ? r.pick({65535, 65536, 65537}) : r.pick({127, 128, 255, 256, 256, 257, 512})};
        else o.a = {(i64)r.below(2), (i64)r.below(5000), r.chance(1, 100) ? r.range(65500, 66100) : r.range(250, 600)};
        p.ops.insert(p.ops.begin() + r.range(2, (i64)p.ops.size()), o);
    }
    grow_one(r, p, bs, {{"upd", 2}, {"upd", 2}, {"fin", 2}});
    if (kind0 == HK_GHASH)
        for (i64 k = 0; k < 4; k++) p.add("pad", {k, (i64)r.below(5000), (i64)r.below(12), 1}), p.add("fin", {k, (i64)r.below(5000), 16 * (i64)r.below(9), (i64)r.chance(1, 2), 0});
    else for (i64 k = 0; k < 4; k++) p.add("fin", {k, (i64)r.below(5000), gen_chunk(r, bs, prof), (i64)r.chance(1, 2), 0});
}
static void gen1(Prng& r, Plan& p)
{
    gen_common(r, p, r.chance(2, 3) ? std::vector<int>{HK_SM3} : std::vector<int>{HK_TOY_8_8, HK_TOY_16_32, HK_TOY_48_20, HK_TOY_64_32, HK_TOY_128_64, HK_TOY_136_33}, true);
}
static void gen2(Prng& r, Plan& p) { gen_common(r, p, {HK_GHASH}, false); }
static void gen3(Prng& r, Plan& p)
{
    gen_common(r, p, {HK_HMAC_SM3, HK_HMAC_SM3, HK_HMAC_TOY_16_32, HK_HMAC_TOY_48_20, HK_HMAC_TOY_64_32, HK_HMAC_TOY_128_64}, true);
}
// directed plans: buffered residue a, then chunk b, for every library variant
static bool dir_pairs(size_t i, Plan& p, int kind, size_t bs)
{
    size_t n = bs * 3 * 2;
    if (i >= n) return false;
    i64 a = (i64)(i % bs), w = (i64)(i / bs);
    i64 b = w < 3 ? (i64)bs - a + w - 1 : (i64)bs * (w - 1) + (a * 7) % (i64)bs;
    p.add("lib", {(i64)i});
    p.add("new", {0, kind, 1, 5, 20, 3});
    p.add("upd", {0, 11, a, 0});
    p.add("cpy", {0, 1});
    p.add("upd", {0, 12, b, 0});
    if (kind == HK_GHASH) p.add("pad", {0, 13, (i64)(i & 1), 0}), p.add("fin", {0, 13, 0, 0, 0});
    else p.add("fin", {0, 13, (i64)bs + a, (i64)(i & 1), 0});
    p.add("rst", {1});
    p.add("key", {1, 6, (i64)(bs + i % 3 - 1)});
    p.add("upd", {1, 14, b, 0});
    if (kind == HK_GHASH) p.add("pad", {1, 15, 1, 0});
    p.add("fin", {1, 15, 0, 0, 0});
    return true;
}
static bool dir1(size_t i, Plan& p)
{
    if (i < 2)
    { // one over-long single chunk, one chunked
        p.add("lib", {(i64)i + 2});
        p.add("huge", {0, (1ll << 29) + 64 * (i64)i, i ? 64 * 1024 * 1024 : (1ll << 29), 37});
        return true;
    }
    static const i64 len[4] = {(1ll << 32) + 67, (1ll << 32) + 64 * 5, (1ll << 38) + 13, (1ll << 31) + 64};
    if (i < 18)
    {
        p.add("lib", {(i64)i});
        p.add("hugeh", {0, HK_TALLY, (i64)(i & 1) * 45, len[i / 2 % 4], 70, (i64)(i >= 10), 0});
        return true;
    }
    return dir_pairs(i - 18, p, HK_SM3, 64);
}
static bool dir2(size_t i, Plan& p)
{
    if (i < 3)
    {
        p.add("hugeh", {0, HK_GHASH, i == 1 ? 16 : 0, i == 2 ? (1ll << 31) + 32 : (1ll << 32) + 32, 32, (i64)(i == 1), 0});
        return true;
    }
    return dir_pairs(i - 3, p, HK_GHASH, 16);
}
static bool dir3(size_t i, Plan& p)
{
    static const i64 len[4] = {(1ll << 32) + 67, (1ll << 32) + 64 * 5, (1ll << 38) + 13, 5};
    if (i < 16)
    {
        p.add("lib", {(i64)i});
        p.add("hugeh", {0, HK_HMAC_TALLY, (i64)(i & 1) * 45, len[i / 2 % 4], 70, (i64)(i >= 8), i % 3 ? (1ll << 32) + 9 * (i64)i : 20});
        return true;
    }
    return dir_pairs(i - 16, p, HK_HMAC_SM3, 64);
}
static Module m1("C01", gen1, exec, dir1, init), m2("C02", gen2, exec, dir2, init), m3("C03", gen3, exec, dir3, init);
