// C21, C22: ASN.1 elements and SM2 objects written to a faulty store and read
// back by every build.  Oracle: an independent X.690 definite-length reader.
#include "disk.h"
using namespace ref;
static std::vector<const Asn1Api*> A;
static void init() { A = collect_api<const Asn1Api*>("gm_api_asn1"); }
static const Asn1Api* L(i64 i) { return A[nlib(i)]; }
static const char* LN(i64 i) { return g_libs[nlib(i)].name.c_str(); }
namespace {
// ------------------------------------------------------------ reference reader
struct Tv
{
    bool   ok = false;     // definite length, low tag number, all inside the input
    bool   minimal = true; // DER length octets
    int    cls = 0, pc = 0, num = 0;
    size_t hdr = 0, len = 0;
};
Tv rd_tlv(const u8* p, size_t n)
{
    Tv t;
    if (n < 2) return t;
    t.cls = p[0] & 0xc0, t.pc = p[0] & 0x20, t.num = p[0] & 0x1f;
    if (t.num == 31) return t;
    u8 b = p[1];
    if (b < 0x80) t.len = b, t.hdr = 2;
    else
    {
        size_t k = b & 0x7f;
        if (k == 0 || k > 8 || n < 2 + k) return t;
        u64 v = 0;
        for (size_t i = 0; i < k; i++) v = v << 8 | p[2 + i];
        t.len = v, t.hdr = 2 + k;
        if (v < 0x80 || p[2] == 0) t.minimal = false;
    }
    if (t.len > n - t.hdr) return t;
    t.ok = true;
    return t;
}
enum Verdict
{
    REFUSE, // malformed for this type: must be refused
    MAY,    // readable but not DER: either outcome, exact value when accepted
    MUST    // DER: must be accepted
};
struct Val
{
    Verdict v = REFUSE;
    size_t  off = 0, len = 0, bits = 0, used = 0; // contents described
    int     b = 0;
    const char* why = "";
};
enum
{
    K_BOOL,
    K_INT,
    K_BITS,
    K_OCTETS,
    K_NULL,
    K_SEQ,
    K_SET,
    K_TLV,
    K_COUNT
};
const char* KN[] = {"boolean", "integer", "bit string", "octet string", "null", "sequence", "set", "tlv"};
const int TAGNUM[] = {1, 2, 3, 4, 5, 16, 17, -1};
Val read_as(int k, const u8* p, size_t n)
{
    Val v;
    Tv  t = rd_tlv(p, n);
    if (!t.ok) return v;
    v.used = t.hdr + t.len;
    v.off = t.hdr, v.len = t.len;
    const u8* c = p + t.hdr;
    if (k == K_TLV)
    {
        v.v = t.minimal ? MUST : MAY;
        return v;
    }
    if (t.num != TAGNUM[k]) return v;
    bool der = t.minimal && t.cls == 0;
    bool cons = t.pc != 0;
    switch (k)
    {
        case K_BOOL:
            if (cons || t.len != 1) return v;
            v.b = c[0] != 0;
            if (c[0] != 0 && c[0] != 0xff) der = false;
            break;
        case K_INT:
            if (cons || t.len == 0) return v;
            if (t.len > 1 && ((c[0] == 0 && c[1] < 0x80) || (c[0] == 0xff && c[1] >= 0x80))) return v;
            if (t.len > 1 && c[0] == 0) v.off++, v.len--;
            if (c[0] >= 0x80) der = false; // negative: the interface has no sign
            break;
        case K_BITS:
            if (t.len == 0 || c[0] > 7 || (t.len == 1 && c[0])) return v;
            v.off++, v.len--;
            v.bits = 8 * v.len - c[0];
            if (cons) der = false;
            if (c[0] && (c[t.len - 1] & ((1 << c[0]) - 1))) der = false;
            break;
        case K_OCTETS:
            if (cons || t.len == 0) der = false;
            break;
        case K_NULL:
            if (cons || t.len) return v;
            break;
        default:
            if (!cons) return v;
            if (t.len == 0) der = false;
            break;
    }
    v.v = der ? MUST : MAY;
    return v;
}
struct Store
{
    Bytes d;
};
struct World
{
    Ctx&  c;
    Bytes disk;
    i64   lb = 0;
    u64   faults = 0;
    // C22
    int   okind = -1;
    Bytes obj[4];
    bool  leadzero = false;
    explicit World(Ctx& c_) : c(c_) {}
    void enc(const Op& p);
    void raw(const Op& p);
    void big(const Op& p);
    void dec(int k, size_t off, size_t n, i64 lib);
    void walk(const u8* base, const u8* p, size_t n, int depth, i64 lib, size_t& budget);
    void dec_at(int k, const Buf& b, i64 lib);
    void oenc(const Op& p);
    void odec(i64 lib, const Bytes& in, bool intact);
};
void World::dec_at(int k, const Buf& b, i64 lib)
{
    const Asn1Api* a = L(lib);
    Val            v = read_as(k, b.d(), b.n);
    const u8*      ptr = nullptr;
    size_t         len = 0, bits = 0, used = 0xdeadbeef;
    int            bv = -1, rc = 0;
    Tlv            t{};
    switch (k)
    {
        case K_BOOL: rc = a->dec_bool(&bv, &used, b.d(), b.n); break;
        case K_INT: rc = a->dec_int(&ptr, &len, &used, b.d(), b.n); break;
        case K_BITS: rc = a->dec_bits(&ptr, &len, &bits, &used, b.d(), b.n); break;
        case K_OCTETS: rc = a->dec_octets(&ptr, &len, &used, b.d(), b.n); break;
        case K_NULL: rc = a->dec_null(&used, b.d(), b.n); break;
        case K_SEQ: rc = a->dec_seq(&ptr, &len, &used, b.d(), b.n); break;
        case K_SET: rc = a->dec_set(&ptr, &len, &used, b.d(), b.n); break;
        default:
            rc = a->dec_tlv(&t, &used, b.d(), b.n);
            ptr = t.val, len = t.len;
            break;
    }
    b.check(c, "asn1 input");
    c.st->steps++;
    c.log("dec %s n=%zu rc=%d want=%d", KN[k], b.n, rc, (int)v.v);
    c.count(std::string(rc ? "dec.refused." : "dec.accepted.") + KN[k]);
    std::string head = hexs(b.d(), std::min(b.n, (size_t)24));
    if (rc == 0 && v.v == REFUSE) c.fail("malformed-accepted", "[%s] %s decoder accepted %zu bytes %s..", LN(lib), KN[k], b.n, head.c_str());
    if (rc != 0 && v.v == MUST) c.fail("wellformed-refused", "[%s] %s decoder refused (%d) the DER element %s.. (%zu bytes)", LN(lib), KN[k], rc, head.c_str(), b.n);
    c.state(hcomb(hcomb((u64)k, (u64)v.v * 4 + (rc == 0)), hcomb(size_class(v.len), b.n == v.used)));
    if (rc != 0) return;
    if (used != v.used) c.fail("wrong-consumed", "[%s] %s decoder consumed %zu of %s.., expected %zu", LN(lib), KN[k], used, head.c_str(), v.used);
    if (k == K_BOOL)
    {
        if (bv != v.b) c.fail("wrong-value", "[%s] boolean decoded as %d", LN(lib), bv);
    }
    else if (k != K_NULL)
    {
        if (len != v.len || (v.len && ptr != b.d() + v.off))
            c.fail("wrong-value", "[%s] %s contents at offset %lld length %zu, expected offset %zu length %zu in %s..", LN(lib), KN[k], (long long)(ptr - b.d()), len, v.off, v.len, head.c_str());
    }
    if (k == K_BITS && bits != v.bits) c.fail("wrong-value", "[%s] bit string of %zu bits, expected %zu", LN(lib), bits, v.bits);
    if (k == K_TLV)
    {
        Tv w = rd_tlv(b.d(), b.n);
        if (t.cls != w.cls || t.pc != w.pc || t.num != w.num) c.fail("wrong-tag", "[%s] tag %02x decoded as class %02x pc %02x number %d", LN(lib), b.d()[0], t.cls, t.pc, t.num);
        const char *nc = a->name_cls(t.cls), *np = a->name_pc(t.pc), *nn = a->name_num(t.num);
        static const char* C4[] = {"UNIVERSAL", "APPLICATION", "CONTEXT_SPECIFIC", "PRIVATE"};
        static const char* NUM[] = {"END_OF_CONTENTS", "BOOLEAN", "INTEGER", "BIT_STRING", "OCTET_STRING", "NULL", "OBJECT_IDENTIFIER", "OBJECT_DESCRIPTOR", "EXTERNAL", "REAL", "ENUMERATED", "UNKNOWN", "UTF8_STRING", "UNKNOWN", "UNKNOWN", "UNKNOWN", "SEQUENCE", "SET", "NUMERIC_STRING", "PRINTABLE_STRING", "TELETEX_STRING", "VIDEOTEX_STRING", "IA5_STRING", "UTC_TIME", "GENERALIZED_TIME", "GRAPHIC_STRING", "VISIBLE_STRING", "GENERAL_STRING", "UNIVERSAL_STRING", "UNKNOWN", "BMP_STRING"};
        if (strcmp(nc, C4[w.cls >> 6]) || strcmp(np, w.pc ? "CONSTRUCTED" : "PRIMITIVE") || strcmp(nn, NUM[w.num])) c.fail("wrong-tag-name", "[%s] tag %02x is named %s %s %s", LN(lib), b.d()[0], nc, np, nn);
    }
    // re-encoding an accepted DER element reproduces it
    if (v.v == MUST && k != K_TLV && k != K_NULL && v.used <= 70000)
    {
        size_t want = k == K_BOOL ? a->len_bool() : k == K_INT ? a->len_int(ptr, len) : k == K_BITS ? a->len_bits(bits) : k == K_OCTETS ? a->len_octets(len) : k == K_SEQ ? a->len_seq(len) : a->len_set(len);
        if (want != v.used) c.fail("wrong-announced-length", "[%s] %s of %zu bytes announced as %zu", LN(lib), KN[k], v.used, want);
        Buf    o(want);
        size_t ol = 0;
        switch (k)
        {
            case K_BOOL: a->enc_bool(o.d(), &ol, bv); break;
            case K_INT: a->enc_int(o.d(), &ol, ptr, len); break;
            case K_BITS: a->enc_bits(o.d(), &ol, ptr, len, bits); break;
            case K_OCTETS: a->enc_octets(o.d(), &ol, ptr, len); break;
            default:
                if (k == K_SEQ) a->enc_seq_tl(o.d(), &ol, len);
                else a->enc_set_tl(o.d(), &ol, len);
                memcpy(o.d() + v.off, ptr, len);
                ol += len;
                break;
        }
        o.check(c, "asn1 re-encoding");
        if (ol != want) c.fail("wrong-announced-length", "[%s] %s: announced %zu bytes, wrote %zu", LN(lib), KN[k], want, ol);
        expect_bytes(c, "reencode-differs", KN[k], o.d(), b.d(), want);
        c.nontrivial++;
    }
}
void World::dec(int k, size_t off, size_t n, i64 lib)
{
    off = std::min(off, disk.size());
    n = std::min(n, disk.size() - off);
    Buf b(disk.data() + off, n);
    dec_at(k % K_COUNT, b, lib);
    c.nontrivial++;
}
// read every element of a region, descending into constructed ones
void World::walk(const u8* base, const u8* p, size_t n, int depth, i64 lib, size_t& budget)
{
    while (n && budget)
    {
        budget--;
        Buf b(p, n);
        dec_at(K_TLV, b, lib);
        Tv t = rd_tlv(p, n);
        if (n < 2 || !t.ok)
        {
            int k = p[0] & 31;
            for (int q = 0; q < 7; q++)
                if (TAGNUM[q] == k) dec_at(q, b, lib);
            return;
        }
        for (int q = 0; q < 7; q++)
            if (TAGNUM[q] == t.num || (budget % 5 == (size_t)q && q < 5)) dec_at(q, b, lib);
        if (t.pc && t.len && depth < 12) walk(base, p + t.hdr, t.len, depth + 1, lib, budget);
        p += t.hdr + t.len, n -= t.hdr + t.len;
    }
}
void World::enc(const Op& p)
{ // kind len seed lib
    int            k = (int)((u64)p.at(0) % 7);
    size_t         len = (size_t)p.at(1);
    u64            seed = (u64)p.at(2);
    const Asn1Api* a = L(lb + p.at(3));
    const char*    ln = LN(lb + p.at(3));
    c.count(std::string("op.encode.") + KN[k]);
    c.log("enc %s len=%zu lib=%s", KN[k], len, ln);
    Bytes  body, want;
    size_t ann = 0, ol = 0, bits = 0;
    auto   put_len = [&](u8 tag, size_t n) {
        want.push_back(tag);
        if (n < 0x80) want.push_back((u8)n);
        else
        {
            u8 t[8];
            int m = 0;
            for (size_t v = n; v; v >>= 8) t[m++] = (u8)v;
            want.push_back((u8)(0x80 | m));
            while (m) want.push_back(t[--m]);
        }
    };
    switch (k)
    {
        case K_BOOL:
            put_len(1, 1), want.push_back(seed & 1 ? 0xff : 0), ann = a->len_bool();
            if (ann > a->max_bool()) c.fail("max-length", "[%s] a boolean needs more than the documented maximum", ln);
            break;
        case K_INT:
            body = sim_data(seed, std::max<size_t>(len, 1));
            if (body.size() > 1 && body[0] == 0) body[0] = 1 + seed % 255;
            if (seed % 5 == 0) body[0] = 0x80;
            if (seed % 5 == 1) body[0] = 0xff;
            if (seed % 7 == 0) body[0] = 0x7f;
            put_len(2, body.size() + (body[0] >= 0x80));
            if (body[0] >= 0x80) want.push_back(0);
            want.insert(want.end(), body.begin(), body.end());
            ann = a->len_int(body.data(), body.size());
            if (ann > a->max_int(body.size())) c.fail("max-length", "[%s] an integer of %zu bytes needs more than the documented maximum", ln, body.size());
            break;
        case K_BITS:
            body = sim_data(seed, seed % 16 == 8 ? len : std::max<size_t>(len, 1));
            bits = body.size() * 8 - seed % 8;
            if (seed % 8) body.back() &= (u8)(0xff << (seed % 8));
            put_len(3, body.size() + 1), want.push_back((u8)(seed % 8));
            want.insert(want.end(), body.begin(), body.end());
            ann = a->len_bits(bits);
            if (ann > a->max_bits(bits)) c.fail("max-length", "[%s] a bit string of %zu bits needs more than the documented maximum", ln, bits);
            break;
        case K_OCTETS:
            body = sim_data(seed, seed % 16 == 8 ? len : std::max<size_t>(len, 1));
            put_len(4, body.size());
            want.insert(want.end(), body.begin(), body.end());
            ann = a->len_octets(body.size());
            if (ann > a->max_octets(body.size())) c.fail("max-length", "[%s] an octet string of %zu bytes needs more than the documented maximum", ln, body.size());
            break;
        case K_NULL:
            disk.push_back(5), disk.push_back(0);
            return;
        default: // wraps the last stored bytes
        {
            size_t n = std::min(disk.size(), std::max<size_t>(len, 1));
            if (len == 0 || n == 0) n = disk.size();
            if (n == 0) return;
            body.assign(disk.end() - n, disk.end());
            disk.resize(disk.size() - n);
            put_len(k == K_SEQ ? 0x30 : 0x31, n);
            want.insert(want.end(), body.begin(), body.end());
            ann = k == K_SEQ ? a->len_seq(n) : a->len_set(n);
            if (ann > (k == K_SEQ ? a->max_seq(n) : a->max_set(n)) || a->len_tlv(n) > a->max_tlv(n)) c.fail("max-length", "[%s] an element of %zu bytes needs more than the documented maximum", ln, n);
        }
    }
    if (ann != want.size()) c.fail("wrong-announced-length", "[%s] %s of %zu content bytes announced as %zu, DER needs %zu", ln, KN[k], body.size(), ann, want.size());
    Buf o(ann), in(body);
    switch (k)
    {
        case K_BOOL: a->enc_bool(o.d(), &ol, seed & 1); break;
        case K_INT: a->enc_int(o.d(), &ol, in.d(), in.n); break;
        case K_BITS: a->enc_bits(o.d(), &ol, in.d(), in.n, bits); break;
        case K_OCTETS: a->enc_octets(o.d(), &ol, in.d(), in.n); break;
        default:
            if (k == K_SEQ) a->enc_seq_tl(o.d(), &ol, in.n);
            else a->enc_set_tl(o.d(), &ol, in.n);
            if (ol + in.n != ann) c.fail("wrong-announced-length", "[%s] %s header of %zu bytes", ln, KN[k], ol);
            memcpy(o.d() + ol, in.d(), in.n);
            ol += in.n;
    }
    o.check(c, "asn1 encoding"), in.check(c, "asn1 contents");
    if (ol != ann) c.fail("wrong-announced-length", "[%s] %s: announced %zu bytes, wrote %zu", ln, KN[k], ann, ol);
    expect_bytes(c, "wrong-encoding", KN[k], o.d(), want.data(), ann);
    if (k == K_BITS || k == K_OCTETS)
    { // the header alone, for contents the caller lays out: universal, this number, this length
        size_t n = want.size() - (want[1] < 0x80 ? 2 : 2 + (want[1] & 0x7f)), hn = want.size() - n;
        Buf    h(hn);
        if (k == K_BITS) a->enc_bits_tl(h.d(), &ol, n);
        else a->enc_octets_tl(h.d(), &ol, n);
        h.check(c, "asn1 header");
        if (ol != hn || (h.d()[0] & 0xdf) != want[0] || memcmp(h.d() + 1, want.data() + 1, hn - 1)) c.fail("wrong-encoding", "[%s] header of a %s with %zu content bytes: %s", ln, KN[k], n, hexs(h.d(), hn).c_str());
    }
    // intact storage: decodes to the same value in every build
    for (size_t i = 0; i < A.size(); i++) dec_at(k, o, (i64)i);
    disk.insert(disk.end(), o.d(), o.d() + ann);
    c.nontrivial++;
}
void World::big(const Op& p)
{ // kind n seed lib: an element of n content bytes, as the length functions, headers and decoders see it
    static const int ks[] = {K_OCTETS, K_SEQ, K_SET, K_BITS, K_INT, K_TLV};
    static const u8  tags[] = {4, 0x30, 0x31, 3, 2, 0x87};
    const int      w = (int)((u64)p.at(0) % 6), k = ks[w];
    const u64      n = ((u64)p.at(1) & ((1ull << 48) - 1)) + 2;
    const Asn1Api* a = L(lb + p.at(3));
    const char*    ln = LN(lb + p.at(3));
    Bytes          h{tags[w]};
    if (n < 0x80) h.push_back((u8)n);
    else
    {
        int m = 0;
        while (n >> 8 * m) m++;
        h.push_back((u8)(0x80 | m));
        while (m) h.push_back((u8)(n >> 8 * --m));
    }
    const u64 all = h.size() + n;
    c.log("big %s n=%llu lib=%s", KN[k], (unsigned long long)n, ln);
    c.count("op.big-element");
    c.nontrivial++;
    u64 ann = k == K_OCTETS ? a->len_octets(n) : k == K_SEQ ? a->len_seq(n) : k == K_SET ? a->len_set(n) : k == K_BITS ? a->len_bits(8 * (n - 1) - (u64)p.at(2) % 8) : k == K_TLV ? a->len_tlv(n) : all;
    u64 mx = k == K_OCTETS ? a->max_octets(n) : k == K_SEQ ? a->max_seq(n) : k == K_SET ? a->max_set(n) : k == K_BITS ? a->max_bits(8 * (n - 1) - (u64)p.at(2) % 8) : k == K_TLV ? a->max_tlv(n) : all;
    c.bytes(&ann, 8);
    if (ann != all) c.fail("wrong-announced-length", "[%s] %s of %llu content bytes announced as %llu, DER needs %llu", ln, KN[k], (unsigned long long)n, (unsigned long long)ann, (unsigned long long)all);
    if (mx < all) c.fail("max-length", "[%s] a %s of %llu content bytes needs more than the documented maximum", ln, KN[k], (unsigned long long)n);
    if (w < 4)
    {
        Buf    o(h.size());
        size_t ol = 0;
        (k == K_OCTETS ? a->enc_octets_tl : k == K_SEQ ? a->enc_seq_tl : k == K_SET ? a->enc_set_tl : a->enc_bits_tl)(o.d(), &ol, n);
        o.check(c, "asn1 header");
        if (ol != h.size()) c.fail("wrong-announced-length", "[%s] %s header of %zu bytes", ln, KN[k], ol);
        if ((o.d()[0] & 0xdf) != (h[0] & 0xdf) || memcmp(o.d() + 1, h.data() + 1, h.size() - 1)) c.fail("wrong-encoding", "[%s] header of a %s with %llu content bytes: %s", ln, KN[k], (unsigned long long)n, hexs(o.d(), h.size()).c_str());
    }
    if (n > 1ull << 33) return;
    Huge in(all + 64, false);
    if (!in.p) return;
    memcpy(in.p, h.data(), h.size());
    in.p[h.size()] = k == K_BITS ? (u8)((u64)p.at(2) % 8) : 0x11;
    for (int d = -1; d <= 1; d++)
    { // one byte short, exact, followed by something else
        const u8* ptr = nullptr;
        size_t    len = 0, bits = 0, used = 0;
        Tlv       t{};
        size_t    av = (size_t)(all + (d > 0 ? 9 : d));
        int rc = k == K_OCTETS ? a->dec_octets(&ptr, &len, &used, in.p, av) : k == K_SEQ ? a->dec_seq(&ptr, &len, &used, in.p, av) : k == K_SET ? a->dec_set(&ptr, &len, &used, in.p, av)
                 : k == K_BITS ? a->dec_bits(&ptr, &len, &bits, &used, in.p, av) : k == K_INT ? a->dec_int(&ptr, &len, &used, in.p, av) : a->dec_tlv(&t, &used, in.p, av);
        if (k == K_TLV) ptr = t.val, len = t.len;
        if (d < 0 && rc == 0) c.fail("malformed-accepted", "[%s] %s decoder accepted %zu bytes of a %llu-byte element", ln, KN[k], av, (unsigned long long)all);
        if (d < 0) continue;
        if (rc) c.fail("wellformed-refused", "[%s] %s decoder refused (%d) a DER element of %llu bytes", ln, KN[k], rc, (unsigned long long)all);
        size_t off = h.size() + (k == K_BITS);
        if (used != all) c.fail("wrong-consumed", "[%s] %s decoder consumed %zu of an element of %llu bytes", ln, KN[k], used, (unsigned long long)all);
        if (ptr != in.p + off || len != all - off) c.fail("wrong-value", "[%s] %s of %llu content bytes: offset %lld length %zu", ln, KN[k], (unsigned long long)n, (long long)(ptr - in.p), len);
        if (k == K_BITS && bits != 8 * (n - 1) - (u64)p.at(2) % 8) c.fail("wrong-value", "[%s] bit string of %zu bits", ln, bits);
        c.count("dec.big");
    }
}
void World::raw(const Op& p)
{ // tag lenform len avail seed : hand-made element (any class, long length forms, hostile lengths)
    u8     tag = (u8)p.at(0);
    int    form = (int)p.at(1);
    u64    len = (u64)p.at(2);
    size_t avail = (size_t)p.at(3);
    disk.push_back(tag);
    if (form < 0 || form > 9) // minimal
    {
        if (len < 0x80) disk.push_back((u8)len);
        else
        {
            int m = 0;
            for (u64 v = len; v; v >>= 8) m++;
            disk.push_back((u8)(0x80 | m));
            while (m--) disk.push_back((u8)(len >> (8 * m)));
        }
    }
    else if (form == 0) disk.push_back(0x80);
    else
    {
        disk.push_back((u8)(0x80 | form));
        for (int i = form - 1; i >= 0; i--) disk.push_back(i > 7 ? 0 : (u8)(len >> (8 * i)));
    }
    Bytes b = sim_data((u64)p.at(4), avail);
    disk.insert(disk.end(), b.begin(), b.end());
    c.count("op.raw-element");
    c.log("raw tag=%02x form=%d len=%llu avail=%zu", tag, form, (unsigned long long)len, avail);
}
// ------------------------------------------------------------------ SM2 objects
Bytes word(int kind, u64 seed)
{
    Bytes b = sim_data(seed, 32);
    switch (kind)
    {
        case 1: b[0] |= 0x80; break;
        case 2: b[0] = b[0] % 0x7f + 1; break;
        case 3: b[0] = 0xff, b[1] |= 0x80; break;
        case 4: b[0] = 0xff, b[1] &= 0x7f; break;
        case 5: b[0] = 0x80, b[1] = 0; break;
        case 6: b[0] = 0x7f; break;
        case 7: b[0] = 0; break;
        case 8: memset(b.data(), 0, 1 + seed % 31); break;
        case 9: memset(b.data(), 0, 32); break;
        case 10: b[0] = 1, memset(&b[1], 0, 31); break;
        case 11: memset(b.data(), 0xff, 32); break;
        default:
            if (b[0] == 0) b[0] = 1 + seed % 255;
            break;
    }
    return b;
}
const char* ON[] = {"private key", "public key", "signature", "ciphertext"};
void World::oenc(const Op& p)
{ // kind k1 k2 seed hl cl lib
    int            k = okind = (int)((u64)p.at(0) % 4);
    u64            seed = (u64)p.at(3);
    const Asn1Api* a = L(lb + p.at(6));
    const char*    ln = LN(lb + p.at(6));
    obj[0] = word((int)p.at(1), seed), obj[1] = word((int)p.at(2), seed + 1);
    leadzero = obj[0][0] == 0 || (k >= 2 && obj[1][0] == 0);
    obj[2].clear(), obj[3].clear();
    size_t ann = 0, mx = 0, ol = 0;
    Bytes  want;
    auto put = [&](Bytes& w, u8 tag, const Bytes& body) {
        w.push_back(tag);
        size_t n = body.size();
        if (n < 0x80) w.push_back((u8)n);
        else
        {
            int m = 0;
            for (size_t v = n; v; v >>= 8) m++;
            w.push_back((u8)(0x80 | m));
            while (m--) w.push_back((u8)(n >> (8 * m)));
        }
        w.insert(w.end(), body.begin(), body.end());
    };
    auto integer = [&](Bytes& w, const Bytes& v) {
        Bytes x = v;
        if (x[0] >= 0x80) x.insert(x.begin(), 0);
        put(w, 2, x);
    };
    if (k == 1)
    {
        Bytes y = word((int)p.at(2), seed + 1), x = obj[0];
        leadzero = false;
        obj[0].assign(1, 4), obj[0].insert(obj[0].end(), x.begin(), x.end()), obj[0].insert(obj[0].end(), y.begin(), y.end());
        obj[1].clear();
        Bytes z(1, 0);
        z.insert(z.end(), obj[0].begin(), obj[0].end());
        put(want, 3, z);
    }
    if (k == 0) obj[1].clear(), integer(want, obj[0]);
    if (k >= 2)
    {
        Bytes in;
        integer(in, obj[0]), integer(in, obj[1]);
        if (k == 3)
        {
            obj[2] = sim_data(seed + 2, std::max<size_t>(1, (size_t)p.at(4))), obj[3] = sim_data(seed + 3, std::max<size_t>(1, (size_t)p.at(5)));
            put(in, 4, obj[2]), put(in, 4, obj[3]);
        }
        put(want, 0x30, in);
    }
    Buf b0(obj[0]), b1(obj[1]), b2(obj[2]), b3(obj[3]);
    c.count(std::string("op.encode.") + ON[k]);
    c.log("oenc %s lib=%s k=%d,%d hl=%zu cl=%zu", ON[k], ln, (int)p.at(1), (int)p.at(2), obj[2].size(), obj[3].size());
    switch (k)
    {
        case 0: ann = a->sm2_priv_len(b0.d()), mx = a->sm2_priv_max(); break;
        case 1: ann = a->sm2_pub_len(b0.d()), mx = a->sm2_pub_max(); break;
        case 2: ann = a->sm2_sig_len(b0.d(), b1.d()), mx = a->sm2_sig_max(); break;
        default: ann = a->sm2_ct_len(b0.d(), b1.d(), b2.d(), b2.n, b3.d(), b3.n), mx = a->sm2_ct_max(b2.n, b3.n); break;
    }
    if (ann > mx) c.fail("max-length", "[%s] %s announced as %zu bytes, above the documented maximum %zu", ln, ON[k], ann, mx);
    if (ann != want.size() && !leadzero) c.fail("wrong-announced-length", "[%s] %s announced as %zu bytes, DER needs %zu", ln, ON[k], ann, want.size());
    Buf o(ann);
    switch (k)
    {
        case 0: a->sm2_priv_enc(o.d(), &ol, b0.d()); break;
        case 1: a->sm2_pub_enc(o.d(), &ol, b0.d()); break;
        case 2: a->sm2_sig_enc(o.d(), &ol, b0.d(), b1.d()); break;
        default: a->sm2_ct_enc(o.d(), &ol, b0.d(), b1.d(), b2.d(), b2.n, b3.d(), b3.n); break;
    }
    o.check(c, "DER encoding");
    b0.check(c, "object"), b1.check(c, "object"), b2.check(c, "object"), b3.check(c, "object");
    if (ol != ann) c.fail("wrong-announced-length", "[%s] %s: announced %zu bytes, wrote %zu", ln, ON[k], ann, ol);
    if (!leadzero) expect_bytes(c, "wrong-encoding", ON[k], o.d(), want.data(), ann);
    disk = o.b();
    faults = 0;
    for (size_t i = 0; i < A.size(); i++) odec((i64)i, disk, true);
    c.nontrivial++;
}
void World::odec(i64 lib, const Bytes& in, bool intact)
{
    const Asn1Api* a = L(lib);
    Buf            b(in);
    // reference reading
    Verdict v = MUST;
    size_t  off[4] = {0}, len[4] = {0}, used = 0;
    int     nf = okind < 2 ? 1 : okind == 2 ? 2 : 4;
    auto    fld = [&](int f, int k, size_t at, size_t lim, size_t fix) -> size_t {
        Val x = read_as(k, in.data() + at, lim - at);
        if (x.v == REFUSE || (fix && x.len != fix) || (k == K_BITS && x.bits != 65 * 8))
        {
            v = REFUSE;
            return 0;
        }
        if (x.v == MAY) v = MAY;
        if (fix && k == K_INT && x.v == MUST && x.len == 32 && in[at + 2] == 0 && 0) v = MAY;
        off[f] = at + x.off, len[f] = x.len;
        return at + x.used;
    };
    if (okind == 0) used = fld(0, K_INT, 0, in.size(), 32);
    else if (okind == 1) used = fld(0, K_BITS, 0, in.size(), 65);
    else
    {
        Val s = read_as(K_SEQ, in.data(), in.size());
        if (s.v == REFUSE || s.len == 0) v = REFUSE;
        else
        {
            if (s.v == MAY) v = MAY;
            size_t at = s.off, lim = s.off + s.len;
            used = s.used;
            for (int f = 0; f < nf && v != REFUSE; f++)
            {
                Verdict keep = v;
                at = fld(f, f < 2 ? K_INT : K_OCTETS, at, lim, f < 2 ? 32 : 0);
                if (v == MUST && keep == MAY) v = MAY;
            }
            if (v != REFUSE && at != lim) v = MAY; // trailing bytes inside the sequence
        }
    }
    const u8* q[4] = {nullptr, nullptr, nullptr, nullptr};
    size_t    l2 = 0, l3 = 0, rd = 0xdeadbeef;
    int       rc;
    switch (okind)
    {
        case 0: rc = a->sm2_priv_dec(&q[0], &rd, b.d(), b.n); break;
        case 1: rc = a->sm2_pub_dec(&q[0], &rd, b.d(), b.n); break;
        case 2: rc = a->sm2_sig_dec(&q[0], &q[1], &rd, b.d(), b.n); break;
        default: rc = a->sm2_ct_dec(&q[0], &q[1], &q[2], &l2, &q[3], &l3, &rd, b.d(), b.n); break;
    }
    b.check(c, "DER input");
    c.st->steps++;
    c.log("odec %s n=%zu rc=%d want=%d", ON[okind], in.size(), rc, (int)v);
    c.count(std::string(rc ? "dec.refused." : "dec.accepted.") + ON[okind]);
    c.state(hcomb(hcomb((u64)okind * 4 + v, rc == 0), hcomb(size_class(in.size()), faults)));
    c.nontrivial++;
    if (intact && rc != 0)
    {
        if (leadzero)
        {
            c.known("leading-zero-integer", "an SM2 integer that begins with 00 does not decode after encoding");
            return;
        }
        c.fail("roundtrip-refused", "[%s] an intact %s does not decode: %s", LN(lib), ON[okind], hexs(in).c_str());
    }
    if (rc == 0 && v == REFUSE && !(intact && leadzero)) c.fail("malformed-accepted", "[%s] %s decoder accepted %s", LN(lib), ON[okind], hexs(in).substr(0, 300).c_str());
    if (rc != 0)
    {
        if (v == MUST) c.fail("wellformed-refused", "[%s] %s decoder refused the DER object %s", LN(lib), ON[okind], hexs(in).substr(0, 300).c_str());
        return;
    }
    size_t have[4] = {okind == 1 ? (size_t)65 : 32, 32, l2, l3};
    if (intact)
    {
        if (rd != in.size()) c.fail("wrong-consumed", "[%s] %s: %zu of %zu bytes consumed", LN(lib), ON[okind], rd, in.size());
        for (int f = 0; f < nf; f++)
        {
            if (have[f] != obj[f].size()) c.fail("wrong-value", "[%s] %s field %d: %zu bytes, expected %zu", LN(lib), ON[okind], f, have[f], obj[f].size());
            expect_bytes(c, "wrong-value", ON[okind], q[f], obj[f].data(), obj[f].size());
        }
        return;
    }
    if (rd != used) c.fail("wrong-consumed", "[%s] %s: %zu of %zu bytes consumed, expected %zu", LN(lib), ON[okind], rd, in.size(), used);
    for (int f = 0; f < nf; f++)
        if (have[f] != len[f] || (len[f] && q[f] != b.d() + off[f]))
            c.fail("wrong-value", "[%s] %s field %d is %zu bytes at offset %lld, expected %zu at %zu of %s", LN(lib), ON[okind], f, have[f], (long long)(q[f] - b.d()), len[f], off[f], hexs(in).substr(0, 300).c_str());
}
} // namespace
static void exec(const Plan& p, Ctx& c)
{
    World w(c);
    for (auto& op : p.ops)
    {
        c.st->steps++;
        const std::string& n = op.n;
        if (w.disk.size() > 200000) break;
        if (n == "lib") w.lb = op.at(0);
        else if (n == "enc") w.enc(op);
        else if (n == "raw") w.raw(op);
        else if (n == "big") w.big(op);
        else if (n == "clr") w.disk.clear();
        else if (n == "flt")
        {
            disk_fault(w.disk, (int)op.at(0), (u64)op.at(1), (u64)op.at(2));
            w.faults++;
            c.count(std::string("fault.") + disk_fault_name((int)op.at(0)));
            c.log("fault %s", disk_fault_name((int)op.at(0)));
        }
        else if (n == "dec") w.dec((int)op.at(0), (size_t)op.at(1), (size_t)op.at(2), w.lb + op.at(3));
        else if (n == "pre") // every prefix of an element: a torn write at every byte
        {
            size_t off = std::min((size_t)op.at(1), w.disk.size());
            Bytes  s(w.disk.begin() + off, w.disk.end());
            if (s.size() > 160) s.resize(160);
            for (size_t i = 0; i <= s.size(); i++)
            {
                Buf b(s.data(), i);
                w.dec_at((int)(op.at(0) % K_COUNT), b, w.lb + op.at(2) + (i64)i);
            }
            c.count("fault.torn-write", s.size());
        }
        else if (n == "walk")
        {
            size_t budget = 60;
            Bytes  s = w.disk;
            w.walk(s.data(), s.data(), s.size(), 0, w.lb + op.at(0), budget);
            c.nontrivial++;
        }
        else if (n == "oenc") w.oenc(op);
        else if (n == "odec" && w.okind >= 0) w.odec(w.lb + op.at(0), w.disk, false);
        else if (n == "opre" && w.okind >= 0)
        {
            Bytes s = w.disk;
            for (size_t i = 0; i < s.size(); i++) w.odec(w.lb + op.at(0) + (i64)i, Bytes(s.begin(), s.begin() + i), false);
            c.count("fault.torn-write", s.size());
        }
        else if (n == "oflip" && w.okind >= 0) // each bit of the header region, one at a time
        {
            Bytes s = w.disk;
            for (size_t i = 0; i < s.size() * 8; i++)
            {
                if (i >= 96 && (i + (size_t)op.at(1)) % 23) continue;
                Bytes t = s;
                t[i / 8] ^= 0x80 >> (i % 8);
                w.odec(w.lb + op.at(0) + (i64)i, t, false);
                c.count("fault.bit-flip");
            }
        }
        else if (n == "osplice" && w.okind >= 0)
        { // replace a field's header: field f gets tag, length form and padding from the plan
            Bytes s = w.disk;
            if (w.okind < 2) continue;
            Val   q = read_as(K_SEQ, s.data(), s.size());
            if (q.v == REFUSE) continue;
            Bytes in(s.begin() + q.off, s.begin() + q.off + q.len), out;
            size_t at = 0;
            int    f = 0;
            while (at < in.size())
            {
                Tv t = rd_tlv(&in[at], in.size() - at);
                if (!t.ok) break;
                Bytes body(in.begin() + at + t.hdr, in.begin() + at + t.hdr + t.len);
                u8    tag = in[at];
                if (f == op.at(0) % 4)
                {
                    switch (op.at(1) % 8)
                    {
                        case 0: body.insert(body.begin(), 0); break;
                        case 1: if (!body.empty()) body.erase(body.begin()); break;
                        case 2: tag = (u8)op.at(2); break;
                        case 3: body.push_back((u8)op.at(2)); break;
                        case 4: body.clear(); break;
                        case 5: if (body.size() > 1) body.resize(body.size() - 1); break;
                        case 6: body.insert(body.begin(), 0xff); break;
                        default: if (!body.empty()) body[0] ^= 0x80; break;
                    }
                }
                out.push_back(tag);
                if (op.at(3) % 3 == 1 && body.size() < 256) out.push_back(0x81), out.push_back((u8)body.size());
                else if (body.size() < 0x80) out.push_back((u8)body.size());
                else if (body.size() < 256) out.push_back(0x81), out.push_back((u8)body.size());
                else out.push_back(0x82), out.push_back((u8)(body.size() >> 8)), out.push_back((u8)body.size());
                out.insert(out.end(), body.begin(), body.end());
                at += t.hdr + t.len;
                f++;
                if (op.at(4) % 5 == f) break; // missing fields
            }
            Bytes d;
            d.push_back(op.at(5) % 6 == 1 ? 0x31 : 0x30);
            if (out.size() < 0x80) d.push_back((u8)out.size());
            else if (out.size() < 256) d.push_back(0x81), d.push_back((u8)out.size());
            else d.push_back(0x82), d.push_back((u8)(out.size() >> 8)), d.push_back((u8)out.size());
            d.insert(d.end(), out.begin(), out.end());
            w.disk = d;
            w.faults++;
            c.count("fault.field-corruption");
        }
    }
}
static i64 sd(Prng& r) { return (i64)r.below(1000000); }
static i64 g_len(Prng& r)
{
    switch (r.below(10))
    {
        case 0: return r.pick({0, 1, 2});
        case 1: return r.pick({126, 127, 128, 129, 130});
        case 2: return r.pick({253, 254, 255, 256, 257});
        case 3: return r.range(200, 3000);
        case 4: return r.chance(1, 20) ? r.pick({65534, 65535, 65536, 65537}) : 33;
        default: return r.range(1, 70);
    }
}
static void g_fault(Prng& r, Plan& p) { p.add("flt", {(i64)r.below(DF_KINDS), r.chance(1, 2) ? (i64)r.below(8) : sd(r), sd(r)}); }
static void g_raw(Prng& r, Plan& p)
{
    i64 tag = r.chance(2, 3) ? r.pick({1, 2, 3, 4, 5, 0x30, 0x31, 0x24, 0x23, 0x22, 0x10, 0x11, 0x42, 0x82, 0xc4, 0x1f}) : (i64)r.below(256);
    i64 form = r.chance(1, 2) ? -1 : (i64)r.below(10);
    i64 avail = r.range(0, 40);
    i64 len = r.chance(1, 2) ? avail : r.chance(1, 2) ? avail + r.range(-2, 2) : r.pick({0, 1, 2, 127, 128, 255, 65535, 0x7fffffff, 0xffffffffll, 0x7fffffffffffffffll, -1, -2, -3, -11, -100, -129, (i64)0x8000000000000000ull});
    if (len < 0 && avail < 3 && r.chance(1, 2)) len = 0;
    p.add("raw", {tag, form, len, avail, sd(r)});
}
static void gen21(Prng& r, Plan& p)
{
    p.add("lib", {(i64)r.below(64)});
    i64 n = r.range(1, 6);
    for (i64 i = 0; i < n; i++)
    {
        if (r.chance(1, 3)) g_raw(r, p);
        else if (r.chance(1, 6)) p.add("big", {(i64)r.below(6), (1ll << r.range(7, r.chance(1, 8) ? 47 : 33)) + (r.chance(1, 2) ? r.range(-5, 4) : sd(r)), sd(r), (i64)r.below(8)});
        else p.add("enc", {(i64)r.below(7), g_len(r), sd(r), (i64)r.below(8)});
    }
    if (r.chance(1, 2)) p.add("walk", {(i64)r.below(8)});
    i64 m = r.range(1, 5);
    for (i64 i = 0; i < m; i++)
    {
        if (r.chance(3, 4)) g_fault(r, p);
        switch (r.below(4))
        {
            case 0: p.add("walk", {(i64)r.below(8)}); break;
            case 1: p.add("pre", {(i64)r.below(K_COUNT), r.chance(1, 2) ? 0 : r.range(0, 60), (i64)r.below(8)}); break;
            default: p.add("dec", {(i64)r.below(K_COUNT), r.chance(1, 2) ? 0 : r.range(0, 80), r.chance(1, 2) ? 1000000 : r.range(0, 50), (i64)r.below(8)}); break;
        }
    }
    p.add("walk", {(i64)r.below(8)});
}
static i64 g_word(Prng& r) { return r.chance(1, 2) ? 0 : r.range(1, r.chance(1, 6) ? 11 : 6); }
static void gen22(Prng& r, Plan& p)
{
    p.add("lib", {(i64)r.below(64)});
    p.add("oenc", {(i64)r.below(4), g_word(r), g_word(r), sd(r), r.chance(1, 2) ? 32 : r.pick({20, 48, 64, 1, 127, 128}), g_len(r), (i64)r.below(8)});
    i64 m = r.range(1, 4);
    for (i64 i = 0; i < m; i++)
    {
        if (r.chance(1, 4)) p.add("osplice", {(i64)r.below(4), (i64)r.below(8), r.chance(1, 2) ? r.pick({2, 3, 4, 0x22, 0x24, 0x42, 0x30, 0}) : (i64)r.below(256), (i64)r.below(3), (i64)r.below(5), (i64)r.below(6)});
        else g_fault(r, p);
        p.add("odec", {(i64)r.below(8)});
    }
    if (r.chance(1, 6)) p.add("opre", {(i64)r.below(8)});
    if (r.chance(1, 6)) p.add("oflip", {(i64)r.below(8), (i64)r.below(23)});
}
static bool dir21(size_t i, Plan& p)
{
    if (i < 40)
    { // elements around every power of 256
        p.add("lib", {(i64)i});
        for (i64 k = 0; k < 6; k++)
            for (i64 d = -6; d < 5; d++) p.add("big", {k, (1ll << (7 + i)) + d, (i64)i, k + d + 6});
        return true;
    }
    i -= 40;
    if (i < 300)
    { // every length class of every element kind
        static const i64 lens[] = {1, 2, 3, 31, 32, 33, 126, 127, 128, 129, 130, 254, 255, 256, 257, 4095, 65534, 65535, 65536, 70000};
        p.add("lib", {(i64)i});
        i64 k = (i64)(i % 5), l = lens[(i / 5) % 20], s = (i64)(i / 100) * 7 + k;
        if (k == 4) p.add("enc", {3, l, s, 0}), p.add("enc", {5 + s % 2, 0, s, 0});
        else p.add("enc", {k, l, s, 0});
        p.add("walk", {0});
        p.add("pre", {k == 4 ? 5 + s % 2 : k, 0, 0});
        return true;
    }
    i -= 300;
    if (i < 256)
    { // every tag byte
        p.add("lib", {(i64)i});
        p.add("raw", {(i64)i, -1, 5, 5, (i64)i}), p.add("walk", {0});
        p.add("clr", {}), p.add("raw", {(i64)i, -1, 1, 1, (i64)i}), p.add("walk", {1});
        p.add("clr", {}), p.add("raw", {(i64)i, -1, 0, 0, 0}), p.add("walk", {2});
        for (i64 k = 0; k < K_COUNT; k++) p.add("clr", {}), p.add("raw", {(i64)i, -1, 4, 4, (i64)i + 1}), p.add("dec", {k, 0, 100, k});
        return true;
    }
    i -= 256;
    if (i < 600)
    { // every length form with short, exact, long and wrapping lengths
        static const i64 delta[] = {0, -1, 1, 2, 100, 0x10000};
        i64 form = (i64)(i % 10), av = (i64)(i / 10 % 4) * 40, d = delta[i / 40 % 6];
        i64 tag = (i64[]){2, 4, 0x30, 3}[i / 240 % 4];
        p.add("lib", {(i64)i});
        p.add("raw", {tag, form, av + d < 0 ? -1 - (i64)(i % 20) : av + d, av, (i64)i});
        for (i64 k = 0; k < K_COUNT; k++) p.add("dec", {k, 0, 1000, (i64)i + k});
        p.add("pre", {K_TLV, 0, (i64)i});
        p.add("clr", {});
        p.add("raw", {tag, form < 4 ? 8 : form, -1 - (i64)(i % 40), av, (i64)i});
        for (i64 k = 0; k < K_COUNT; k++) p.add("dec", {k, 0, 1000, (i64)i + k});
        return true;
    }
    return false;
}
static bool dir22(size_t i, Plan& p)
{
    if (i < 4 * 12 * 3)
    {
        i64 k = (i64)(i % 4), w = (i64)(i / 4 % 12), v = (i64)(i / 48);
        p.add("lib", {(i64)i});
        p.add("oenc", {k, w, v == 0 ? w : v == 1 ? 0 : (w + 5) % 12, (i64)i * 13, (i64[]){32, 20, 64}[v], (i64[]){19, 1, 200}[v], (i64)i});
        p.add("opre", {(i64)i}), p.add("oflip", {(i64)i, (i64)(i % 23)});
        return true;
    }
    i -= 144;
    if (i < 4 * 8 * 4)
    {
        p.add("lib", {(i64)i});
        p.add("oenc", {2 + (i64)(i % 2), (i64)(i / 2 % 7), (i64)(i / 3 % 7), (i64)i * 17, 32, 30, 0});
        p.add("osplice", {(i64)(i % 4), (i64)(i / 4 % 8), (i64[]){2, 3, 4, 0x22}[i / 32], (i64)(i % 3), (i64)(i / 32), (i64)(i % 6)});
        p.add("odec", {0}), p.add("odec", {1}), p.add("opre", {0});
        return true;
    }
    return false;
}
static Module m21("C21", gen21, exec, dir21, init), m22("C22", gen22, exec, dir22, init);
