// C23: memory and ASN.1 dumps into a simulated output stream that can fail.
#include "disk.h"
#include <cerrno>
#include <unistd.h>
static std::vector<const DumpApi*> D;
static std::vector<const Asn1Api*> A;
static void init()
{
    D = collect_api<const DumpApi*>("gm_api_dump");
    A = collect_api<const Asn1Api*>("gm_api_asn1");
}
namespace {
// ------------------------------------------------------- simulated stdout
enum { SF_NONE = 0, SF_TRANSIENT, SF_PERMANENT, SF_SHORT, SF_PERIODIC };
struct Stream
{
    int    kind = 0, err = ENOSPC;
    u64    at = 0, period = 2, bound = 0;
    u64    calls = 0, fired = 0;
    Bytes  out;    // delivered bytes
    size_t clean = 0; // delivered before the first fault
    static ssize_t write(void* p, const char* b, size_t n)
    {
        Stream* s = (Stream*)p;
        u64     k = s->calls++;
        if (s->calls > s->bound)
        {
            fprintf(stderr, "SIM-HANG: the dump keeps writing after %llu stream calls\n", (unsigned long long)s->calls);
            _exit(98);
        }
        bool bad = (s->kind == SF_TRANSIENT && k == s->at) || (s->kind == SF_PERMANENT && k >= s->at) ||
                   (s->kind == SF_SHORT && k == s->at) || (s->kind == SF_PERIODIC && k >= s->at && (k - s->at) % s->period == 0);
        if (bad)
        {
            if (!s->fired) s->clean = s->out.size();
            s->fired++;
            if (s->kind == SF_SHORT && n > 1)
            {
                s->out.insert(s->out.end(), b, b + n / 2);
                errno = s->err;
                return (ssize_t)(n / 2);
            }
            errno = s->err;
            return 0;
        }
        s->out.insert(s->out.end(), b, b + n);
        return (ssize_t)n;
    }
};
const char* FM[] = {nullptr, "%02x", "%02X", "%d", "%3u", "0x%02x", "%c", "[%02x]", "%x", "%08x", "%%%02x", "%o", "%0300u", "%-70d|", "%hhX", "%#o"};
#define S100 "0123456789abcdefghijABCDEFGHIJ%s%d%n%%-\t.0123456789abcdefghijABCDEFGHIJ0123456789abcdefghijABCDEFGHIJ"
#define S1000 S100 S100 S100 S100 S100 S100 S100 S100 S100 S100
const char* SP[] = {nullptr, " ", "", ", ", ":", "\n", "%d", "------------------------------------------------", S100 S100 S100, S1000 S1000 S1000 S1000 S1000};
const char* PX[] = {nullptr, "", "mem: ", "%s%x 100%%\n", "\t", S1000 S1000, S100};
const char* EN[] = {nullptr, "", "\n", "%n!\n", S1000 S1000 S1000, "\n" S100};
const int NFM = sizeof FM / sizeof *FM, NSP = sizeof SP / sizeof *SP, NPX = sizeof PX / sizeof *PX, NEN = sizeof EN / sizeof *EN;
const char* MODE_NAMES[] = {"unbuffered", "line-buffered", "buffer-64", "buffer-4096"};

struct World
{
    Ctx&  c;
    Bytes asn;
    i64   lb = 0;
    explicit World(Ctx& c_) : c(c_) {}
    template <class F>
    void print(Stream& s, int mode, F&& f)
    {
        cookie_io_functions_t io = {nullptr, Stream::write, nullptr, nullptr};
        FILE* fp = fopencookie(&s, "w", io);
        char  buf[4096];
        switch (mode & 3)
        {
            case 0: setvbuf(fp, nullptr, _IONBF, 0); break;
            case 1: setvbuf(fp, buf, _IOLBF, 1024); break;
            case 2: setvbuf(fp, buf, _IOFBF, 64); break;
            default: setvbuf(fp, buf, _IOFBF, 4096); break;
        }
        FILE* keep = stdout;
        stdout = fp;
        f();
        stdout = keep;
        fclose(fp);
        c.count(std::string("stream.") + MODE_NAMES[mode & 3]);
        if (s.fired)
        {
            static const char* fk[] = {"", "transient-error", "permanent-error", "short-write", "periodic-error"};
            c.count(std::string("fault.stream-") + fk[s.kind], s.fired);
        }
        else s.clean = s.out.size();
        c.bytes(s.out.data(), s.out.size());
    }
    static Bytes layout(const Bytes& m, size_t maxline, const char* fmt, int ascii, const char* sep, const char* prefix, const char* end)
    {
        std::string o = prefix ? prefix : "";
        fmt = fmt ? fmt : "%02x", sep = sep ? sep : " ", end = end ? end : "";
        size_t full = 0; // width of the last full line
        for (size_t l = 0; l < m.size(); l += std::min(maxline, m.size()))
        {
            size_t n = std::min(maxline, m.size() - l), w = 0;
            if (l) o += "\n";
            for (size_t i = 0; i < n; i++)
            {
                char t[512];
                int  k = snprintf(t, sizeof t, fmt, m[l + i]);
                o.append(t, (size_t)k);
                o += sep;
                w += (size_t)k + strlen(sep);
            }
            if (n == maxline) full = w;
            else
                for (; w < full; w++) o += ' ';
            if (ascii)
            {
                o += "   ";
                for (size_t i = 0; i < n; i++) o += m[l + i] >= 32 && m[l + i] < 127 ? (char)m[l + i] : '.';
            }
        }
        o += end;
        return Bytes(o.begin(), o.end());
    }
    void fault(Stream& s, const Op& p, size_t i)
    {
        s.kind = (int)((u64)p.at(i) % 5), s.at = (u64)p.at(i + 1), s.period = 1 + (u64)p.at(i + 2) % 7;
        s.err = (int[]){ENOSPC, EIO, EPIPE, EAGAIN, EINTR}[(u64)p.at(i + 2) % 5];
    }
    void judge(const Stream& s, const Bytes& want, const char* what, i64 lib)
    {
        const char* ln = g_libs[nlib(lib)].name.c_str();
        size_t      n = s.clean;
        if (!s.fired && s.out.size() != want.size())
        {
            size_t i = 0;
            while (i < s.out.size() && i < want.size() && s.out[i] == want[i]) i++;
            c.fail("wrong-dump", "[%s] %s printed %zu bytes, the documented layout has %zu (first difference at %zu)", ln, what, s.out.size(), want.size(), i);
        }
        if (n > want.size()) c.fail("wrong-dump", "[%s] %s printed more than the layout before any fault", ln, what);
        expect_bytes(c, "wrong-dump", what, s.out.data(), want.data(), n);
    }
    void md(const Op& p)
    { // seed n maxline fmt ascii sep prefix end lib mode fkind fat fperiod
        Bytes  m = sim_data((u64)p.at(0), (size_t)p.at(1));
        if (p.at(0) % 3 == 0) for (auto& x : m) x = (u8)(32 + x % 95);
        size_t ml = std::max<size_t>(1, (size_t)p.at(2)); // SIZE_MAX: one line
        const char *f = FM[(u64)p.at(3) % NFM], *sp = SP[(u64)p.at(5) % NSP], *px = PX[(u64)p.at(6) % NPX], *en = EN[(u64)p.at(7) % NEN];
        { // bounded output
            size_t per = 4 + (sp ? strlen(sp) : 1) + (f == FM[12] ? 300 : 0);
            if (m.size() * per > 60000) m.resize(std::max<size_t>(3, 60000 / per));
        }
        int   ascii = (int)p.at(4) & 1;
        i64   lib = lb + p.at(8);
        Buf   b(m);
        Bytes want = layout(m, ml, f, ascii, sp, px, en);
        bool  def = p.at(4) >= 2;
        if (def) want = layout(m, 16, nullptr, 1, nullptr, nullptr, "\n");
        for (int round = 0; round < 2; round++)
        {
            Stream s;
            if (round == 0) fault(s, p, 10);
            else if (p.at(10) == 0) break; // an earlier stream error must leave no trace
            s.bound = 64 + 8 * (u64)want.size() + 8 * m.size() + 64;
            c.log("memdump n=%zu line=%zu fmt=%s ascii=%d mode=%s fault=%d", m.size(), ml, f ? f : "default", ascii, MODE_NAMES[p.at(9) & 3], s.kind);
            print(s, (int)p.at(9), [&] {
                if (def) D[nlib(lib)]->memdump_def(b.d(), b.n);
                else D[nlib(lib)]->memdump(b.d(), b.n, ml, f, ascii, sp, px, en);
            });
            b.check(c, "memdump input");
            judge(s, want, "memdump", lib);
            c.count(s.fired ? "op.memdump-with-fault" : "op.memdump");
            c.state(hcomb(hcomb(size_class(m.size()) * 64 + m.size() % ml, ml), hcomb(s.kind, s.fired > 0)));
        }
        c.nontrivial++;
    }
    bool small_stack = false; // deeply nested input, little stack: its use must not grow with the nesting
    static void on_small_stack(std::function<void()> f)
    {
        pthread_attr_t at;
        pthread_t      th;
        pthread_attr_init(&at);
        pthread_attr_setstacksize(&at, 256 << 10);
        if (pthread_create(&th, &at, [](void* p) -> void* { return (*(std::function<void()>*)p)(), nullptr; }, &f) == 0) pthread_join(th, nullptr);
        pthread_attr_destroy(&at);
    }
    struct El
    {
        int    cls, pc, num;
        size_t len;
    };
    static bool tree(const u8* p, size_t n, std::vector<El>& els, int depth)
    {
        while (n)
        {
            if (n < 2 || (p[0] & 31) == 31) return false;
            size_t h = 2;
            u64    len = p[1];
            if (p[1] >= 0x80)
            {
                size_t k = p[1] & 127;
                if (k == 0 || k > 8 || n < 2 + k) return false;
                len = 0;
                for (size_t i = 0; i < k; i++) len = len << 8 | p[2 + i];
                h = 2 + k;
            }
            if (len > n - h) return false;
            els.push_back({p[0] & 0xc0, p[0] & 0x20, p[0] & 31, (size_t)len});
            if ((p[0] & 0x20) && !tree(p + h, len, els, depth + 1)) return false;
            p += h + len, n -= h + len;
        }
        return true;
    }
    static bool top(const u8* p, size_t n)
    {
        while (n)
        {
            std::vector<El> e;
            if (n < 2 || (p[0] & 31) == 31) return false;
            size_t h = 2;
            u64    len = p[1];
            if (p[1] >= 0x80)
            {
                size_t k = p[1] & 127;
                if (k == 0 || k > 8 || n < 2 + k) return false;
                len = 0;
                for (size_t i = 0; i < k; i++) len = len << 8 | p[2 + i];
                h = 2 + k;
            }
            if (len > n - h) return false;
            p += h + len, n -= h + len;
        }
        return true;
    }
    void ad(const Op& p)
    { // lib mode fkind fat fperiod
        i64             lib = lb + p.at(0);
        const char*     ln = g_libs[nlib(lib)].name.c_str();
        const Asn1Api*  a = A[nlib(lib)];
        Buf             b(asn);
        std::vector<El> els;
        bool            ok = tree(asn.data(), asn.size(), els, 0);
        for (int round = 0; round < 2; round++)
        {
            Stream s;
            if (round == 0) fault(s, p, 2);
            else if (p.at(2) == 0) break;
            s.bound = 4096 + 400 * (u64)asn.size() + 16 * (u64)asn.size() * (asn.size() / 4 + 1);
            int rc = -7;
            print(s, (int)p.at(1), [&] {
                if (!small_stack) rc = a->dump(b.d(), b.n);
                else on_small_stack([&] { rc = a->dump(b.d(), b.n); });
            });
            b.check(c, "asn1_dump input");
            c.log("asn1_dump n=%zu rc=%d wellformed=%d fault=%d", asn.size(), rc, ok, s.kind);
            c.count(s.fired ? "op.asn1-dump-with-fault" : ok ? "op.asn1-dump" : "op.asn1-dump-malformed");
            c.state(hcomb(hcomb(size_class(asn.size()), els.size()), hcomb(ok, s.fired > 0)));
            if (ok && rc != 0) c.fail("dump-failed", "[%s] asn1_dump returned %d for well-formed input %s", ln, rc, hexs(asn).substr(0, 200).c_str());
            if (rc == 0 && !top(asn.data(), asn.size())) c.fail("dump-accepted", "[%s] asn1_dump reported success for %s", ln, hexs(asn).substr(0, 200).c_str());
            if (!ok || s.fired) continue;
            // every octet of the input, in order, and one description per element
            Bytes                    got;
            std::vector<std::string> desc;
            std::string              t(s.out.begin(), s.out.end()), line;
            for (size_t i = 0; i <= t.size(); i++)
            {
                if (i < t.size() && t[i] != '\n')
                {
                    line += t[i];
                    continue;
                }
                size_t semi = line.find(';');
                if (semi != std::string::npos) desc.push_back(line.substr(semi + 1)), line.resize(semi);
                for (size_t k = 0; k + 1 < line.size();)
                {
                    if (isxdigit((u8)line[k]) && isxdigit((u8)line[k + 1]))
                    {
                        char h[3] = {line[k], line[k + 1], 0};
                        got.push_back((u8)strtol(h, nullptr, 16));
                        k += 2;
                    }
                    else k++;
                }
                line.clear();
            }
            if (got != asn)
            {
                size_t i = 0;
                while (i < got.size() && i < asn.size() && got[i] == asn[i]) i++;
                c.fail("dump-contents", "[%s] asn1_dump printed %zu octets of %zu, first difference at %zu (input %s)", ln, got.size(), asn.size(), i, hexs(asn).substr(0, 200).c_str());
            }
            if (desc.size() != els.size()) c.fail("dump-contents", "[%s] asn1_dump described %zu elements of %zu", ln, desc.size(), els.size());
            for (size_t i = 0; i < els.size(); i++)
            {
                char l[32];
                snprintf(l, sizeof l, "= %zu ", els[i].len);
                static const char* C4[] = {"UNIVERSAL", "APPLICATION", "CONTEXT_SPECIFIC", "PRIVATE"};
                if (desc[i].find(l) == std::string::npos || desc[i].find(C4[els[i].cls >> 6]) == std::string::npos || desc[i].find(els[i].pc ? "CONSTRUCTED" : "PRIMITIVE") == std::string::npos)
                    c.fail("dump-contents", "[%s] element %zu (class %02x, %s, %zu bytes) is described as '%s'", ln, i, els[i].cls, els[i].pc ? "constructed" : "primitive", els[i].len, desc[i].c_str());
            }
        }
        c.nontrivial++;
    }
};
} // namespace
static void exec(const Plan& p, Ctx& c)
{
    World w(c);
    for (auto& op : p.ops)
    {
        c.st->steps++;
        if (w.asn.size() > 6000 && !w.small_stack) w.asn.resize(6000);
        if (op.n == "lib") w.lb = op.at(0);
        else if (op.n == "md") w.md(op);
        else if (op.n == "el")
        { // tag form len avail seed
            Bytes b = sim_data((u64)op.at(4), (size_t)op.at(3));
            u64   len = (u64)op.at(2);
            int   form = (int)op.at(1);
            w.asn.push_back((u8)op.at(0));
            if (form <= 0 || form > 8)
            {
                if (len < 0x80) w.asn.push_back((u8)len);
                else if (len < 256) w.asn.push_back(0x81), w.asn.push_back((u8)len);
                else w.asn.push_back(0x82), w.asn.push_back((u8)(len >> 8)), w.asn.push_back((u8)len);
            }
            else
            {
                w.asn.push_back((u8)(0x80 | form));
                for (int i = form - 1; i >= 0; i--) w.asn.push_back((u8)(len >> (8 * i)));
            }
            w.asn.insert(w.asn.end(), b.begin(), b.end());
        }
        else if (op.n == "wrap")
        { // tag keep-front times
            for (i64 k = 0; k < op.at(2) && w.asn.size() < 6000; k++)
            {
                size_t f = std::min(w.asn.size(), (size_t)op.at(1)), n = w.asn.size() - f;
                Bytes  h;
                h.push_back((u8)op.at(0));
                if (n < 0x80) h.push_back((u8)n);
                else if (n < 256) h.push_back(0x81), h.push_back((u8)n);
                else h.push_back(0x82), h.push_back((u8)(n >> 8)), h.push_back((u8)n);
                w.asn.insert(w.asn.begin() + f, h.begin(), h.end());
            }
        }
        else if (op.n == "deep")
        { // levels, leaf bytes
            u64   n = (u64)op.at(0) % 20000;
            Bytes leaf = sim_data(5, (size_t)op.at(1) % 100), r(leaf.rbegin(), leaf.rend());
            auto  head = [&](u8 tag) { // written backwards
                u64 len = r.size();
                u8  k = 0;
                if (len < 0x80) r.push_back((u8)len);
                else
                {
                    for (u64 v = len; v; v >>= 8) r.push_back((u8)v), k++;
                    r.push_back(0x80 | k);
                }
                r.push_back(tag);
            };
            head(0x04);
            for (u64 k = 0; k < n; k++) head(k % 3 ? 0x30 : 0xa1);
            w.asn.assign(r.rbegin(), r.rend());
            w.small_stack = true;
            c.count("input.deeply-nested");
        }
        else if (op.n == "flt")
        {
            disk_fault(w.asn, (int)op.at(0), (u64)op.at(1), (u64)op.at(2));
            c.count(std::string("fault.") + disk_fault_name((int)op.at(0)));
        }
        else if (op.n == "ad") w.ad(op);
    }
}
static i64 sd(Prng& r) { return (i64)r.below(1000000); }
static void gen(Prng& r, Plan& p)
{
    p.add("lib", {(i64)r.below(64)});
    auto flt = [&](i64& k, i64& at, i64& per) {
        k = r.chance(1, 2) ? 0 : r.range(1, 4), at = r.chance(1, 2) ? r.range(0, 6) : r.range(0, 300), per = (i64)r.below(35);
    };
    i64 k, at, per;
    if (r.chance(1, 60))
    {
        p.add("deep", {r.range(0, 500), r.range(0, 60)});
        if (r.chance(2, 3)) p.add("flt", {(i64)r.below(DF_KINDS), sd(r), sd(r)});
        p.add("ad", {(i64)r.below(4), 3, 0, 0, 0});
        return;
    }
    if (r.chance(1, 2))
    {
        i64 n = r.range(1, 3);
        for (i64 i = 0; i < n; i++)
        {
            flt(k, at, per);
            i64 ml = r.chance(1, 2) ? r.pick({1, 2, 8, 15, 16, 17, 32}) : r.range(1, 70);
            i64 len = r.chance(1, 3) ? ml * r.range(0, 5) + r.range(-1, 1) : r.range(0, 200);
            if (r.chance(1, 30)) ml = r.chance(1, 6) ? (i64)(~0ull >> r.below(40)) : gen_long(r, 16) >> r.below(6), len = r.chance(1, 2) ? r.range(0, 3 * std::min<i64>(ml < 0 ? 1000 : ml, 1000)) : gen_long(r, 16) >> r.below(6);
            p.add("md", {sd(r), std::max<i64>(0, len), ml, (i64)r.below(NFM), (i64)r.below(5) == 4 ? 2 : (i64)r.below(2), (i64)r.below(NSP), (i64)r.below(NPX), (i64)r.below(NEN), (i64)r.below(8), (i64)r.below(4), k, at, per});
        }
        return;
    }
    i64 n = r.range(1, 6);
    for (i64 i = 0; i < n; i++)
    {
        switch (r.below(4))
        {
            case 0: p.add("wrap", {r.pick({0x30, 0x31, 0xa0, 0x24, 0x63}), r.chance(1, 2) ? 0 : r.range(0, 30), r.chance(1, 30) ? r.range(1, 200) : r.range(1, 4)}); break;
            case 1:
            {
                i64 len = r.chance(1, 4) ? r.pick({127, 128, 255, 256, 300}) : r.range(0, 30);
                p.add("el", {r.pick({1, 2, 3, 4, 5, 6, 12, 19, 23, 0x80, 0x41, 0xde, 0x0d}), r.chance(3, 4) ? 0 : r.range(1, 8), len, len, sd(r)});
                break;
            }
            default:
            {
                i64 len = r.range(0, 17);
                p.add("el", {(i64)r.below(32) ? r.pick({2, 4, 5, 3, 0x13}) : (i64)r.below(256), 0, len, len, sd(r)});
            }
        }
    }
    flt(k, at, per);
    p.add("ad", {(i64)r.below(8), (i64)r.below(4), k, at, per});
    for (i64 i = r.range(0, 3); i > 0; i--)
    {
        p.add("flt", {(i64)r.below(DF_KINDS), sd(r), sd(r)});
        p.add("ad", {(i64)r.below(8), (i64)r.below(4), r.chance(1, 3) ? 2 : 0, r.range(0, 20), 3});
    }
}
static bool dir(size_t i, Plan& p)
{
    if (i < 4)
    {
        p.add("lib", {(i64)i}), p.add("deep", {4000 + (i64)i, 20}), p.add("ad", {(i64)i, 3, 0, 0, 0});
        return true;
    }
    i -= 4;
    if (i < 400)
    { // every small size against every small line width, defaults included
        p.add("lib", {(i64)i});
        for (i64 n = 0; n < 12; n++)
            p.add("md", {(i64)i + n, (i64)(i / 20) * 2 + n % 3, 1 + (i64)(i % 20), n, (i64)(i + n) % 3, (i64)(i + n / 2) % NSP, n % NPX, (i64)(i / 3 + n) % NEN, n, n, 0, 0, 0});
        return true;
    }
    i -= 400;
    if (i < 240)
    { // a stream error at each of the first writes, both kinds of dump
        p.add("lib", {(i64)i});
        p.add("md", {(i64)i, 37, 16, (i64)(i % 3), 1, 1, 0, 2, (i64)i, (i64)(i % 4), 1 + (i64)(i / 4 % 4), (i64)(i / 16), 4});
        p.add("md", {(i64)i, 5, 16, (i64)(i % 3), 2, 1, 0, 2, (i64)i, (i64)(i % 4), 1 + (i64)(i / 4 % 4), (i64)(i / 16), 4});
        p.add("el", {2, 0, 9, 9, (i64)i}), p.add("wrap", {0x30, 0, 2}), p.add("el", {4, 0, 20, 20, 1});
        p.add("ad", {(i64)i, (i64)(i % 4), 1 + (i64)(i / 4 % 4), (i64)(i / 16), 4});
        return true;
    }
    i -= 240;
    if (i < 130)
    { // torn ASN.1 at every byte
        p.add("lib", {(i64)i});
        p.add("el", {2, 0, 9, 9, 5}), p.add("el", {4, 0, 40, 40, 6}), p.add("wrap", {0x30, 0, 2}), p.add("el", {3, 2, 60, 60, 1});
        p.add("ad", {0, 3, 0, 0, 0});
        p.add("flt", {DF_TRUNC, (i64)i, 0});
        for (i64 l = 0; l < 4; l++) p.add("ad", {l, 3, 0, 0, 0});
        return true;
    }
    i -= 130;
    if (i < 20)
    { // deep nesting
        p.add("lib", {(i64)i});
        p.add("el", {5, 0, 0, 0, 5}), p.add("wrap", {i % 2 ? 0x30 : 0xa3, 0, (i64)i * 20});
        p.add("ad", {(i64)i, 3, 0, 0, 0});
        return true;
    }
    return false;
}
static Module m23("C23", gen, exec, dir, init);
