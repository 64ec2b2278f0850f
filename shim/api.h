// Boundary between the simulator (harness) and one build variant of gmlib.
// Every variant is a shared object that exports the gm_api_* factories.  No
// exception crosses the boundary: calls return an Rc.
#pragma once
#include <cstddef>
#include <cstdint>

enum Rc
{
    RC_OK    = 0,
    RC_STD   = 1, // std::exception
    RC_FAULT = 2, // the injected fault propagated
    RC_OTHER = 3  // something else was thrown
};

// simulated entropy: nonzero return = the device fails now (the adapter throws)
typedef int (*GenFn)(void* ctx, void* out, size_t len);

// ------------------------------------------------------------------ hashes
enum HashKind
{
    HK_SM3,
    HK_GHASH,
    HK_HMAC_SM3,
    HK_TOY_8_8,
    HK_TOY_16_32,
    HK_TOY_48_20,
    HK_TOY_64_32,
    HK_TOY_128_64,
    HK_TOY_136_33,
    HK_HMAC_TOY_16_32, // digest longer than the block
    HK_HMAC_TOY_48_20,
    HK_HMAC_TOY_64_32,
    HK_HMAC_TOY_128_64,
    HK_TALLY, // counts blocks without reading them: for streams of any length
    HK_HMAC_TALLY,
    HK_COUNT
};
struct IHash
{
    virtual ~IHash() {}
    virtual size_t digest_size() const = 0;
    virtual size_t block_size() const = 0;
    virtual int reset() = 0; // RC_OTHER when the type has no reset
    virtual int set_key(const uint8_t* k, size_t n) = 0;
    virtual int update(const uint8_t* in, size_t n) = 0;
    virtual int final(uint8_t* digest, const uint8_t* in, size_t n, int with_args) = 0;
    virtual IHash* clone() const = 0;
    virtual void assign(const IHash* o) = 0;
};
struct HashApi
{
    // with_key: construct with (key, klen) where the type allows it
    IHash* (*make)(int kind, int with_key, const uint8_t* key, size_t klen, uint32_t fill);
    // fault hook for toy hashes' compression calls (nonzero => throw)
    void (*set_hook)(int (*fn)(void*, int), void* ctx);
};

// -------------------------------------------------------------- cipher modes
enum ModeKind { MK_ECB, MK_CBC, MK_CFB, MK_OFB, MK_CTR, MK_COUNT };
enum CipherKind
{
    CK_SM4,
    CK_AES128,
    CK_AES192,
    CK_AES256,
    CK_SIM_8_1,
    CK_SIM_8_3,
    CK_SIM_12_2,
    CK_SIM_16_1,
    CK_SIM_16_2,
    CK_SIM_16_7,
    CK_SIM_32_3,
    CK_SIM_16_43,
    CK_SIM_20_33,
    CK_COUNT
};
struct IMode
{
    virtual ~IMode() {}
    virtual size_t block_size() const = 0;
    virtual size_t key_len() const = 0;
    virtual int init(const uint8_t* key, const uint8_t* iv) = 0;
    virtual int reset(const uint8_t* iv) = 0;
    virtual int update(uint8_t* out, size_t* outl, const uint8_t* in, size_t inl) = 0;
    virtual int final(uint8_t* out, size_t* outl, const uint8_t* in, size_t inl, int with_args) = 0;
    virtual IMode* clone() const = 0;
    virtual void assign(const IMode* o) = 0;
};
struct ICipher
{ // a bare block-cipher object
    virtual ~ICipher() {}
    virtual size_t block_size() const = 0;
    virtual size_t key_len() const = 0;
    virtual int set_key(const uint8_t* key, int enc) = 0;
    // single: n calls of the one-block function; otherwise one call for n blocks
    virtual int crypt(int enc, uint8_t* out, const uint8_t* in, size_t n, int single) const = 0;
    virtual ICipher* clone() const = 0;
    virtual void assign(const ICipher* o) = 0;
};
struct ModeApi
{
    IMode* (*make)(int mode, int enc, int cipher, int with_key, const uint8_t* key, const uint8_t* iv, uint32_t fill);
    void (*set_hook)(int (*fn)(void*, int), void* ctx); // simulated cipher faults
    ICipher* (*make_cipher)(int cipher, int enc, int with_key, const uint8_t* key, uint32_t fill);
};

struct IGcm
{
    virtual ~IGcm() {}
    virtual size_t key_len() const = 0;
    virtual int init(const uint8_t* key, const uint8_t* iv, size_t ivl, const uint8_t* aad, size_t aadl) = 0;
    virtual int update(uint8_t* out, size_t* outl, const uint8_t* in, size_t inl) = 0;
    virtual int final(uint8_t* out, size_t* outl, const uint8_t* in, size_t inl, int with_args) = 0;
    virtual int tag(uint8_t t[16]) = 0; // get_tag (encryptor) / set_tag (decryptor)
    virtual IGcm* clone() const = 0;
    virtual void assign(const IGcm* o) = 0;
};
struct GcmApi
{
    IGcm* (*make)(int enc, int cipher, int with_key, const uint8_t* key, const uint8_t* iv, size_t ivl, const uint8_t* aad, size_t aadl, uint32_t fill);
    void (*set_hook)(int (*fn)(void*, int), void* ctx);
};

// ------------------------------------------------------------------- SM2/SM9
// hash parameter: 0 = the real SM3, others = scripted hash of that digest size
enum SHash { SH_SM3, SH_S20, SH_S32, SH_S48, SH_S64, SH_COUNT };

struct ISm2
{ // wraps either a private or a stand-alone public key object
    virtual ~ISm2() {}
    virtual int gen_priv(GenFn f, void* c) = 0;
    virtual int set_priv(const uint8_t* d) = 0;
    virtual int get_priv(uint8_t* d) = 0;
    virtual int set_pub(const uint8_t* x, const uint8_t* y) = 0;
    virtual int get_pub(uint8_t* x, uint8_t* y) = 0;
    virtual int sign(uint8_t* sig, const uint8_t* m, size_t ml, GenFn f, void* c, const uint8_t* id, size_t idl, int def_id) = 0;
    virtual int verify(bool* ok, const uint8_t* sig, const uint8_t* m, size_t ml, const uint8_t* id, size_t idl, int def_id) = 0;
    virtual int ct_len(size_t* n, const uint8_t* m, size_t ml, int pc) = 0;
    virtual int encrypt(uint8_t* ct, size_t* ctl, const uint8_t* m, size_t ml, GenFn f, void* c, int pc) = 0;
    virtual int pt_len(size_t* n, const uint8_t* ct, size_t ctl) = 0;
    virtual int decrypt(uint8_t* m, size_t* ml, const uint8_t* ct, size_t ctl) = 0;
    virtual ISm2* clone() const = 0;
    virtual void assign(const ISm2* o) = 0;
    virtual ISm2* pub_copy() const = 0; // a stand-alone copy of the public key
};
struct Sm2Api
{
    // priv: 1 private key object, 0 public key object
    // how: 0 default-construct, 1 construct from bytes (k = d | x||y), 2 construct from rng
    ISm2* (*make)(int shash, int priv, int how, const uint8_t* k, GenFn f, void* c, uint32_t fill, int* rc);
    // scripted-hash override: after a digest is computed the hook may replace it
    void (*set_digest_hook)(void (*fn)(void*, size_t ds, uint8_t* out), void* ctx);
};

struct ISm9Pub
{
    virtual ~ISm9Pub() {}
    virtual int set_pub(const uint8_t* x, const uint8_t* y) = 0;
    virtual int get_pub(uint8_t* x, uint8_t* y) = 0;
    virtual int verify(bool* ok, const uint8_t* sig, size_t sl, const uint8_t* m, size_t ml, const uint8_t* id, size_t idl, int hid) = 0;
    virtual ISm9Pub* clone() const = 0;
    virtual void assign(const ISm9Pub* o) = 0;
};
struct ISm9User
{
    virtual ~ISm9User() {}
    virtual int set_priv(const uint8_t* x, const uint8_t* y, const uint8_t* px, const uint8_t* py) = 0;
    virtual int get_priv(uint8_t* x, uint8_t* y, uint8_t* px, uint8_t* py) = 0;
    virtual int sign(uint8_t* sig, size_t* sl, const uint8_t* m, size_t ml, GenFn f, void* c, int pc) = 0;
    virtual int verify(bool* ok, const uint8_t* sig, size_t sl, const uint8_t* m, size_t ml, const uint8_t* id, size_t idl, int hid) = 0;
    virtual ISm9Pub* fetch_pub() const = 0;
    virtual ISm9User* clone() const = 0;
    virtual void assign(const ISm9User* o) = 0;
};
struct ISm9Master
{
    virtual ~ISm9Master() {}
    virtual int gen_priv(GenFn f, void* c) = 0;
    virtual int set_priv(const uint8_t* ks) = 0;
    virtual int get_priv(uint8_t* ks) = 0;
    // with the public key object inside the master key, not a copy of it
    virtual int verify(bool* ok, const uint8_t* sig, size_t sl, const uint8_t* m, size_t ml, const uint8_t* id, size_t idl, int hid) = 0;
    virtual ISm9Pub* fetch_pub() const = 0;
    virtual int gen_user(ISm9User** out, const uint8_t* id, size_t idl, GenFn f, void* c, int hid, uint32_t fill) = 0;
    virtual ISm9Master* clone() const = 0;
    virtual void assign(const ISm9Master* o) = 0;
};
struct Sm9Api
{
    // how: 0 default, 1 from bytes, 2 from rng
    ISm9Master* (*make_master)(int shash, int how, const uint8_t* k, GenFn f, void* c, uint32_t fill, int* rc);
    ISm9Pub* (*make_pub)(int shash, uint32_t fill);
    ISm9User* (*make_user)(int shash, uint32_t fill);
    void (*set_digest_hook)(void (*fn)(void*, size_t ds, uint8_t* out), void* ctx);
};

// --------------------------------------------------------------------- ASN.1
struct Tlv
{
    int            cls, pc, num;
    size_t         len;
    const uint8_t* val;
};
struct Asn1Api
{
    int (*dec_tlv)(Tlv*, size_t* rd, const uint8_t* in, size_t n);
    int (*dec_bool)(int* v, size_t* rd, const uint8_t* in, size_t n);
    int (*dec_int)(const uint8_t** p, size_t* l, size_t* rd, const uint8_t* in, size_t n);
    int (*dec_bits)(const uint8_t** p, size_t* l, size_t* bits, size_t* rd, const uint8_t* in, size_t n);
    int (*dec_octets)(const uint8_t** p, size_t* l, size_t* rd, const uint8_t* in, size_t n);
    int (*dec_null)(size_t* rd, const uint8_t* in, size_t n);
    int (*dec_seq)(const uint8_t** p, size_t* l, size_t* rd, const uint8_t* in, size_t n);
    int (*dec_set)(const uint8_t** p, size_t* l, size_t* rd, const uint8_t* in, size_t n);
    size_t (*len_tlv)(size_t);
    size_t (*len_bool)();
    size_t (*len_int)(const uint8_t*, size_t);
    size_t (*len_bits)(size_t);
    size_t (*len_octets)(size_t);
    size_t (*len_seq)(size_t);
    size_t (*len_set)(size_t);
    void (*enc_bool)(uint8_t*, size_t*, int);
    void (*enc_int)(uint8_t*, size_t*, const uint8_t*, size_t);
    void (*enc_bits)(uint8_t*, size_t*, const uint8_t*, size_t, size_t);
    void (*enc_octets)(uint8_t*, size_t*, const uint8_t*, size_t);
    void (*enc_seq_tl)(uint8_t*, size_t*, size_t);
    void (*enc_set_tl)(uint8_t*, size_t*, size_t);
    void (*enc_bits_tl)(uint8_t*, size_t*, size_t);
    void (*enc_octets_tl)(uint8_t*, size_t*, size_t);
    const char* (*name_cls)(int);
    const char* (*name_pc)(int);
    const char* (*name_num)(int);
    int (*dump)(const uint8_t*, size_t);
    // documented upper bounds
    size_t (*max_tlv)(size_t);
    size_t (*max_int)(size_t);
    size_t (*max_octets)(size_t);
    size_t (*max_bits)(size_t);
    size_t (*max_seq)(size_t);
    size_t (*max_set)(size_t);
    size_t (*max_bool)();
    // SM2 objects
    size_t (*sm2_priv_len)(const uint8_t*);
    void (*sm2_priv_enc)(uint8_t*, size_t*, const uint8_t*);
    int (*sm2_priv_dec)(const uint8_t**, size_t*, const uint8_t*, size_t);
    size_t (*sm2_pub_len)(const uint8_t*);
    void (*sm2_pub_enc)(uint8_t*, size_t*, const uint8_t*);
    int (*sm2_pub_dec)(const uint8_t**, size_t*, const uint8_t*, size_t);
    size_t (*sm2_sig_len)(const uint8_t* r, const uint8_t* s);
    void (*sm2_sig_enc)(uint8_t*, size_t*, const uint8_t* r, const uint8_t* s);
    int (*sm2_sig_dec)(const uint8_t** r, const uint8_t** s, size_t*, const uint8_t*, size_t);
    size_t (*sm2_ct_len)(const uint8_t* x, const uint8_t* y, const uint8_t* h, size_t hl, const uint8_t* c, size_t cl);
    void (*sm2_ct_enc)(uint8_t*, size_t*, const uint8_t* x, const uint8_t* y, const uint8_t* h, size_t hl, const uint8_t* c, size_t cl);
    int (*sm2_ct_dec)(const uint8_t** x, const uint8_t** y, const uint8_t** h, size_t* hl, const uint8_t** c, size_t* cl, size_t*, const uint8_t*, size_t);
    size_t (*sm2_priv_max)();
    size_t (*sm2_pub_max)();
    size_t (*sm2_sig_max)();
    size_t (*sm2_ct_max)(size_t, size_t);
};

// ----------------------------------------------------------------------- RNG
enum RngKind
{
    RK_STD,
    RK_CSTD,
    RK_RDRAND32,
    RK_RDRAND64,
    RK_RDSEED32,
    RK_RDSEED64,
    RK_RDRAND32_R0, // zero retries
    RK_RDRAND64_R3,
    RK_RDSEED32_R3,
    RK_RDSEED64_R0,
    RK_COUNT
};
struct IRng
{
    virtual ~IRng() {}
    virtual int gen(void* out, size_t n) = 0;
    virtual int rand_pod(void* out, size_t n) = 0; // typed draw of that many bytes
    virtual const char* name() = 0;
    virtual IRng* clone() = 0;       // null when the type cannot be copied
    virtual int assign(IRng* o) = 0; // o is of the same kind
};
struct RngApi
{
    IRng* (*make)(int kind);         // null when the variant lacks it
    int (*retries)(int kind);        // configured retry count, -1 if none
    // simulated instruction: returns the carry flag; unit = 4 or 8 bytes
    void (*set_hw)(int (*fn)(void*, int is_seed, int unit, unsigned long long* v), void* ctx);
};

// ------------------------------------------ random adapters of Windows (simulated)
enum WinKind
{
    WK_BCRYPT,
    WK_WINCRYPT,
    WK_COUNT
};
struct WinHooks
{ // the simulated operating system; handles are numbers, 0 = none
    int (*bcrypt)(void* ctx, uint64_t handle, int flags, uint8_t* buf, uint32_t n); // nonzero: failed
    int (*acquire)(void* ctx, uint64_t* handle, int kind, int flags);                // nonzero: failed
    int (*release)(void* ctx, uint64_t handle, int kind);                            // nonzero: failed
    int (*gen)(void* ctx, uint64_t handle, uint8_t* buf, uint32_t n);                // nonzero: failed
};
struct IWin
{
    virtual ~IWin() {}
    virtual int kind() = 0;
    virtual int gen(void* out, size_t n) = 0;
    virtual int rand_pod(void* out, size_t n) = 0;
    virtual int assign(IWin* o) = 0; // RC_OTHER: the type refuses to be assigned
    virtual IWin* clone() = 0;       // null: the type refuses to be copied
};
struct WinApi
{
    IWin* (*make)(int kind, int* rc);
    void (*set)(const WinHooks* h, void* ctx);
};

// ---------------------------------------------------------------------- dump
struct DumpApi
{
    // strs: null pointers select the documented defaults of the function itself
    void (*memdump)(const void* p, size_t n, size_t maxline, const char* fmt, int ascii, const char* sep, const char* prefix, const char* end);
    void (*memdump_def)(const void* p, size_t n);
};

extern "C" {
const HashApi* gm_api_hash();
const ModeApi* gm_api_mode();
const GcmApi*  gm_api_gcm();
const Sm2Api*  gm_api_sm2();
const Sm9Api*  gm_api_sm9();
const Asn1Api* gm_api_asn1();
const RngApi*  gm_api_rng();
const DumpApi* gm_api_dump();
const WinApi*  gm_api_winrng();
}
#define GM_EXPORT extern "C" __attribute__((visibility("default")))
