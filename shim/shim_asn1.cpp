#include "shim_common.h"
#include <gmlib/asn1/asn1.h>
#include <gmlib/asn1/asn1_dump.h>
#include <gmlib/sm2/internal/sm2_asn1.h>
using namespace asn1;
using namespace sm2::internal;
typedef const uint8_t* P;
static int dec_tlv(Tlv* t, size_t* rd, P in, size_t n)
{
    Asn1TLV x;
    memset(&x, 0x5a, sizeof x);
    int r = asn1_decode_tlv(&x, rd, in, n);
    t->cls = (int)x.tag_class, t->pc = (int)x.tag_pc, t->num = (int)x.tag_number;
    t->len = x.length, t->val = x.value;
    return r;
}
static int dec_bool(int* v, size_t* rd, P in, size_t n)
{
    bool b = false;
    int r = asn1_decode_boolean_value(&b, rd, in, n);
    if (r == 0) *v = b ? 1 : 0;
    return r;
}
static void enc_bool(uint8_t* o, size_t* ol, int v) { asn1_encode_boolean_tlv(o, ol, v != 0); }
static const char* ncls(int v) { return asn1_tag_class_name((Asn1TagClass)v); }
static const char* npc(int v) { return asn1_tag_pc_name((Asn1TagPC)v); }
static const char* nnum(int v) { return asn1_tag_number_name((Asn1TagNumber)v); }
static int dec_int(P* p, size_t* l, size_t* rd, P in, size_t n) { return asn1_decode_integer_value(p, l, rd, in, n); }
static int dec_bits(P* p, size_t* l, size_t* b, size_t* rd, P in, size_t n) { return asn1_decode_bit_string_value(p, l, b, rd, in, n); }
static int dec_oct(P* p, size_t* l, size_t* rd, P in, size_t n) { return asn1_decode_octet_string_value(p, l, rd, in, n); }
static int dec_null(size_t* rd, P in, size_t n) { return asn1_decode_null_value(rd, in, n); }
static int dec_seq(P* p, size_t* l, size_t* rd, P in, size_t n) { return asn1_decode_sequence_value(p, l, rd, in, n); }
static int dec_set(P* p, size_t* l, size_t* rd, P in, size_t n) { return asn1_decode_set_value(p, l, rd, in, n); }
static size_t l_tlv(size_t n) { return asn1_encode_tlv_outl(n); }
static size_t l_bool() { return asn1_encode_boolean_outl(); }
static size_t l_int(P d, size_t n) { return asn1_encode_integer_outl(d, n); }
static size_t l_bits(size_t n) { return asn1_encode_bit_string_outl(n); }
static size_t l_oct(size_t n) { return asn1_encode_octet_string_outl(n); }
static size_t l_seq(size_t n) { return asn1_encode_sequence_outl(n); }
static size_t l_set(size_t n) { return asn1_encode_set_outl(n); }
static void e_int(uint8_t* o, size_t* ol, P d, size_t n) { asn1_encode_integer_tlv(o, ol, d, n); }
static void e_bits(uint8_t* o, size_t* ol, P d, size_t n, size_t b) { asn1_encode_bit_string_tlv(o, ol, d, n, b); }
static void e_oct(uint8_t* o, size_t* ol, P d, size_t n) { asn1_encode_octet_string_tlv(o, ol, d, n); }
static void e_bits_tl(uint8_t* o, size_t* ol, size_t n) { asn1_encode_bit_string_tl(o, ol, n); }
static void e_oct_tl(uint8_t* o, size_t* ol, size_t n) { asn1_encode_octet_string_tl(o, ol, n); }
static void e_seq(uint8_t* o, size_t* ol, size_t n) { asn1_encode_sequence_tl(o, ol, n); }
static void e_set(uint8_t* o, size_t* ol, size_t n) { asn1_encode_set_tl(o, ol, n); }
static int dump(P in, size_t n) { return asn1_dump(in, n); }
static size_t mx_tlv(size_t n) { return ASN1_ENCODE_TLV_MAX_OUTL(n); }
static size_t mx_int(size_t n) { return ASN1_ENCODE_INTEGER_MAX_OUTL(n); }
static size_t mx_oct(size_t n) { return ASN1_ENCODE_OCTET_STRING_MAX_OUTL(n); }
static size_t mx_bits(size_t n) { return ASN1_ENCODE_BIT_STRING_MAX_OUTL(n); }
static size_t mx_seq(size_t n) { return ASN1_ENCODE_SEQUENCE_MAX_OUTL(n); }
static size_t mx_set(size_t n) { return ASN1_ENCODE_SET_MAX_OUTL(n); }
static size_t mx_bool() { return ASN1_ENCODE_BOOLEAN_MAX_OUTL(); }
static size_t priv_len(P d)
{
    ASN1_SM2PrivateKey k{d};
    return sm2_private_key_asn1_encode_outl(&k);
}
static void priv_enc(uint8_t* o, size_t* ol, P d)
{
    ASN1_SM2PrivateKey k{d};
    sm2_private_key_asn1_encode_outl(o, ol, &k);
}
static int priv_dec(P* d, size_t* rd, P in, size_t n)
{
    ASN1_SM2PrivateKey k{nullptr};
    int r = sm2_private_key_asn1_decode(&k, rd, in, n);
    *d = k.value;
    return r;
}
static size_t pub_len(P d)
{
    ASN1_SM2PublicKey k{d};
    return sm2_public_key_asn1_encode_outl(&k);
}
static void pub_enc(uint8_t* o, size_t* ol, P d)
{
    ASN1_SM2PublicKey k{d};
    sm2_public_key_asn1_encode(o, ol, &k);
}
static int pub_dec(P* d, size_t* rd, P in, size_t n)
{
    ASN1_SM2PublicKey k{nullptr};
    int r = sm2_public_key_asn1_decode(&k, rd, in, n);
    *d = k.value;
    return r;
}
static size_t sig_len(P r, P s)
{
    ASN1_SM2Signature g{r, s};
    return sm2_signature_asn1_encode_outl(&g);
}
static void sig_enc(uint8_t* o, size_t* ol, P r, P s)
{
    ASN1_SM2Signature g{r, s};
    sm2_signature_asn1_encode(o, ol, &g);
}
static int sig_dec(P* r, P* s, size_t* rd, P in, size_t n)
{
    ASN1_SM2Signature g{nullptr, nullptr};
    int e = sm2_signature_asn1_decode(&g, rd, in, n);
    *r = g.R, *s = g.S;
    return e;
}
static ASN1_SM2Cipher mkc(P x, P y, P h, size_t hl, P c, size_t cl)
{
    ASN1_SM2Cipher k;
    k.XCoordinate = x, k.YCoordinate = y;
    k.HASH.value = h, k.HASH.length = hl;
    k.CipherText.value = c, k.CipherText.length = cl;
    return k;
}
static size_t ct_len(P x, P y, P h, size_t hl, P c, size_t cl)
{
    ASN1_SM2Cipher k = mkc(x, y, h, hl, c, cl);
    return sm2_cipher_asn1_encode_outl(&k);
}
static void ct_enc(uint8_t* o, size_t* ol, P x, P y, P h, size_t hl, P c, size_t cl)
{
    ASN1_SM2Cipher k = mkc(x, y, h, hl, c, cl);
    sm2_cipher_asn1_encode(o, ol, &k);
}
static int ct_dec(P* x, P* y, P* h, size_t* hl, P* c, size_t* cl, size_t* rd, P in, size_t n)
{
    ASN1_SM2Cipher k = mkc(nullptr, nullptr, nullptr, 0, nullptr, 0);
    int e = sm2_cipher_asn1_decode(&k, rd, in, n);
    *x = k.XCoordinate, *y = k.YCoordinate, *h = k.HASH.value, *hl = k.HASH.length;
    *c = k.CipherText.value, *cl = k.CipherText.length;
    return e;
}
static size_t m1() { return SM2_PRIVATE_KEY_ASN1_ENCODE_MAX_OUTL(); }
static size_t m2() { return SM2_PUBLIC_KEY_ASN1_ENCODE_MAX_OUTL(); }
static size_t m3() { return SM2_SIGNATURE_ASN1_ENCODE_MAX_OUTL(); }
static size_t m4(size_t a, size_t b) { return sm2_cipher_asn1_encode_max_outl(a, b); }
static const Asn1Api api = {dec_tlv, dec_bool, dec_int, dec_bits, dec_oct, dec_null, dec_seq, dec_set, l_tlv, l_bool, l_int, l_bits, l_oct, l_seq, l_set,
                            enc_bool, e_int, e_bits, e_oct, e_seq, e_set, e_bits_tl, e_oct_tl, ncls, npc, nnum, dump, mx_tlv, mx_int, mx_oct, mx_bits, mx_seq, mx_set, mx_bool, priv_len, priv_enc, priv_dec,
                            pub_len, pub_enc, pub_dec, sig_len, sig_enc, sig_dec, ct_len, ct_enc, ct_dec, m1, m2, m3, m4};
GM_EXPORT const Asn1Api* gm_api_asn1() { return &api; }
