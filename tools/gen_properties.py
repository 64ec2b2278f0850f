#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, st, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [], hook_needed=None)))
H = "include/gmlib/"
p("C01", "SM3 digest depends only on the bytes fed since the last reset",
  "For every message and every way its bytes arrive - any sequence of chunks including empty ones, with the hash object copied, assigned or reset at any point - the digest equals GB/T 32905 SM3 of exactly the bytes fed since construction or the last reset, identically in every build configuration. The same holds for any user-written hash of any block size built on the streaming hash base class. No call reads outside the chunk it was given or writes outside the digest.",
  ["schedules", "histories", "inputs", "configurations"],
  "all messages (including more than 2^29 bytes), all chunk schedules, all interleavings of copy/assign/reset/finish over several live objects, all build configurations",
  "The tests hash a few fixed strings, mostly in one call; chunk boundaries, empty chunks, copies taken mid-stream, resets with buffered bytes, block sizes other than 64 and 64-bit lengths are never combined.",
  [H + "hash_lib/hash.h", H + "sm3/sm3.h", "src/sm3/sm3_common.cpp", "src/sm3/sm3_yang15.cpp"],
  [("partial-block buffer", H + "hash_lib/hash.h"), ("length counter and padding", "src/sm3/*.cpp")])
p("C02", "GHASH is exact under any chunking and any change of key",
  "For every key and every chunking of the input, GHASH returns the SP 800-38D polynomial hash of exactly the bytes fed since construction, the last reset or the last key change, and reports an error when that is not a whole number of 16-byte blocks. Reset keeps the key, reset and key changes discard buffered bytes, and copies continue independently, identically in every build configuration.",
  ["schedules", "histories", "inputs", "configurations"],
  "all keys and inputs, all chunk schedules, all orders of reset, key change, copy and finish, table-driven and carry-less-multiply builds",
  "The tests check a handful of one-shot vectors through GCM; a reset or re-key while a partial block is buffered and chunked input with every residue are not exercised.",
  [H + "ghash/ghash.h", "src/ghash/ghash_common.cpp", "src/ghash/ghash_lut256.cpp", "src/ghash/ghash_pclmul.cpp"],
  [("block buffering", H + "hash_lib/hash.h"), ("reset and set_key drop the buffer", H + "ghash/ghash.h")])
p("C03", "HMAC is exact for every key length, chunking and re-keying history",
  "For any hash that offers the library's streaming-hash interface (including digests longer than its block), any key length from zero to many blocks and any chunking, the HMAC result equals RFC 2104 over exactly the bytes fed since the last key was set. Setting a key at any moment - mid-message or after a finish - starts a fresh computation that owes nothing to the earlier one, and copies taken mid-message continue independently.",
  ["schedules", "histories", "inputs", "configurations"],
  "all keys, key lengths, messages, chunk schedules and interleavings of set-key, copy, assign and finish",
  "The tests use one hash, a few key lengths and whole messages; re-keying mid-message, reuse after a finish, key lengths around the block size and wide digests are not covered.",
  [H + "hash_lib/hmac.h", H + "hash_lib/hash.h"],
  [("key normalisation and pads", H + "hash_lib/hmac.h")])
p("C04", "Block-mode output is independent of chunking and output lengths are exact",
  "For every mode (ECB, CBC, CFB, OFB, CTR), direction, built-in or user-written block cipher (any block size and parallelism), key, IV and message, feeding the message in any chunks yields, concatenated, exactly the one-shot result of the mode. After every call the reported length is exactly what was written, cumulative output is a prefix of that result lagging the input by at most one block, nothing else is written or read outside key, IV and input, and finishing delivers the rest.",
  ["schedules", "inputs", "configurations", "programs"],
  "all chunk schedules including empty and single-byte chunks, all message lengths, counter wrap-around, all ciphers, all build configurations",
  "Tests run fixed vectors in one or two calls with 16-byte blocks; residue-dependent paths, the parallel batches of each back end and length reporting at partial blocks need the product of schedules and sizes.",
  [H + "block_cipher_mode/" + f for f in ("ecb_mode.h", "cbc_mode.h", "cfb_mode.h", "ofb_mode.h", "ctr_mode.h", "internal/ctr_inc.h")] + [H + "memory_utils/memxor.h", H + "sm4/sm4.h", H + "aes/aes.h", "src/sm4/", "src/aes/", "src/memory_utils/memxor.cpp"],
  [("partial-block buffering", H + "block_cipher_mode/*.h"), ("bulk paths", "src/sm4/*.cpp src/aes/*.cpp")])
p("C05", "A re-initialised cipher or authenticated session behaves like a fresh one",
  "However an encryption, decryption or authenticated session ended or was abandoned - mid-block, after a finish, after a failed tag check or failed finish, or after the underlying cipher threw - initialising or resetting it again makes it behave exactly like a newly constructed session with the same key, IV and associated data. A session and its copies never influence each other or any other session. The same holds for a bare block-cipher object: after any history of keying, use in either direction, copy and assignment it computes the permutation of its current key.",
  ["histories", "fault_sequences", "schedules"],
  "all session histories: partial input, finish success and failure, cipher failures at any call, re-init, reset, copy and assignment in any order over several live sessions",
  "Tests construct a new object per vector; state left behind by an abandoned, failed or interrupted session appears only after specific histories or injected failures.",
  [H + "block_cipher_mode/" + f for f in ("ecb_mode.h", "cbc_mode.h", "cfb_mode.h", "ofb_mode.h", "ctr_mode.h", "gcm_mode.h", "block_cipher.h")] + [H + "sm4/sm4.h", H + "aes/aes.h", "src/sm4/", "src/aes/"],
  [("init/reset clear buffered state", H + "block_cipher_mode/*.h")])
p("C06", "GCM encryption equals SP 800-38D under any chunking, IV and AAD",
  "For every cipher with 16-byte blocks, key, IV of any non-zero length, associated data and message, streaming GCM encryption in any chunks produces exactly the SP 800-38D ciphertext and 16-byte tag, including when the 32-bit counter wraps. After every call the reported length is exactly what was written, output lags input by at most one block, and nothing else is written.",
  ["schedules", "inputs", "configurations"],
  "all chunk schedules, IV lengths, AAD lengths, message lengths, initial counters near wrap-around, interleaved sessions, build configurations",
  "Vectors use 12-byte or a few other IVs and one-shot calls; counter wrap needs a chosen IV, and interleaved sessions need a schedule.",
  [H + "block_cipher_mode/gcm_mode.h", H + "block_cipher_mode/internal/gctr_inc.h", H + "ghash/ghash.h", "src/ghash/"],
  [("J0 derivation, counter, length block", H + "block_cipher_mode/gcm_mode.h")])
p("C07", "GCM decryption accepts intact streams and rejects every tampered one",
  "A stream produced by GCM encryption and delivered intact, in any chunking, decrypts to the original message and finishes without error. If any bit of ciphertext, tag, IV or associated data was changed, or bytes were lost, added, duplicated or reordered, so that the received tag is not the SP 800-38D tag of what was received, the finishing call reports failure.",
  ["fault_sequences", "schedules", "inputs"],
  "all messages, chunk schedules and transport faults (bit flips at any position, truncation, insertion, duplication, reordering, wrong tag/IV/AAD/key), all ciphers and builds",
  "Tests decrypt intact vectors only, or flip at one place; acceptance of a forgery at another bit, length or chunking is a universally quantified absence.",
  [H + "block_cipher_mode/gcm_mode.h"], [("tag comparison over all 16 bytes in do_final", H + "block_cipher_mode/gcm_mode.h")])
p("C08", "Objects used from different threads do not interfere",
  "Threads that each use their own hash, MAC, cipher, GCM, key or signature objects, or share a key object only through its read-only operations, get exactly the results they would get running alone, under every interleaving, including the very first use of any operation in the process. The library never performs conflicting unsynchronised accesses to memory shared by such threads.",
  ["schedules"],
  "all interleavings of threads running hash, HMAC, block-mode, GCM, SM2 and SM9 operations, from a cold start, in portable and SIMD builds",
  "The tests are single-threaded.",
  ["src/", H + "block_cipher_mode/gcm_mode.h", H + "sm2/sm2.h", H + "sm9/sm9.h"],
  [("no mutable static state; const tables only", "src/ include/gmlib/")])
p("C09", "SM2 signatures are standard-valid for every random stream",
  "For every private key in [1, n-2], message, ID up to 8191 bytes, hash and random stream that is not stuck, signing terminates and returns r and s in [1, n-1] that verify under GB/T 32918.2, using a nonce in [1, n-1] that depends on the random stream. When a nonce leads to r = 0, r + k = n or s = 0 the signer draws again instead of returning a bad signature, and signatures made from different random bytes use different nonces.",
  ["fault_sequences", "inputs", "configurations", "histories"],
  "all random streams including boundary values (0, n-1, n, 2^256-1, streams forcing each retry condition), all keys, messages, IDs, digest sizes, build configurations",
  "Tests sign with a good RNG and one nonce from the standard; boundary nonces and the retry conditions have probability about 2^-256 under a real RNG.",
  [H + "sm2/sm2.h", H + "sm2/internal/sm2_alg.h", "src/sm2/sm2p256v1.cpp", "src/number/"],
  [("nonce derivation and retry loop", H + "sm2/sm2.h")])
p("C10", "SM2 verification accepts exactly the standard-valid signatures",
  "For every public key, message, ID and 64-byte string, however they were corrupted in transit or storage, verification returns true exactly when GB/T 32918.2 accepts: r and s in range, r + s not zero mod n, and r = e + x1 mod n for the non-infinite point [s]G + [t]P. It never crashes or reads outside its inputs, and IDs too long to be encoded never verify.",
  ["inputs", "fault_sequences", "configurations"],
  "all (key, ID, message, signature) with bit flips, swaps, range boundaries, adversarially constructed pairs (r+s=n, point at infinity, sG = +-tP), all builds",
  "Tests verify a few genuine signatures; exceptional curve cases and out-of-range values are never generated by an honest signer.",
  [H + "sm2/sm2.h", H + "sm2/internal/sm2_alg.h", "src/sm2/sm2p256v1.cpp", "src/number/"],
  [("range checks and point addition", H + "sm2/sm2.h, src/sm2/sm2p256v1.cpp")])
p("C11", "SM2 encryption round-trips for every random stream, length and point format",
  "For every key pair, message of any length of at least one byte, point format and random stream that is not stuck, the ciphertext is a GB/T 32918.4 encryption (C1, C3, C2 in that order) of the announced length under a nonce in [1, n-1], and the matching private key recovers exactly the message and its length in every build configuration, as it does from such a ciphertext made by any other conforming implementation. If a nonce yields an all-zero key stream the encryptor draws again.",
  ["fault_sequences", "inputs", "configurations"],
  "all random streams including boundary values and forced all-zero key streams, message lengths around multiples of the digest size up to many blocks, three point formats, digest sizes 20 to 64 bytes",
  "Tests encrypt one short message with one nonce; retry, key-stream block boundaries and compressed-point parity need chosen randomness and lengths.",
  [H + "sm2/sm2.h", H + "sm2/internal/sm2_alg.h", "src/sm2/sm2p256v1.cpp"],
  [("KDF with retry", H + "sm2/internal/sm2_alg.h"), ("point encode/decode", "src/sm2/sm2p256v1.cpp")])
p("C12", "Corrupted or truncated SM2 ciphertext is always rejected in bounds",
  "For every byte string presented as a ciphertext - truncated at any point, bit-flipped, re-formatted, with an off-curve, non-canonical or wrongly-signed point, or with pieces exchanged - decryption either throws, or the string really is a GB/T 32918.4 ciphertext of the returned plaintext under that key. It never reads outside the ciphertext or writes outside the announced plaintext length, and the key stays usable.",
  ["fault_sequences", "crash_points", "inputs"],
  "all corruptions of genuine ciphertexts at every position and truncation at every length, all point formats and digest sizes",
  "Tests decrypt genuine ciphertexts only.",
  [H + "sm2/sm2.h", "src/sm2/sm2p256v1.cpp"],
  [("point validation, hash check, length arithmetic", H + "sm2/sm2.h, src/sm2/sm2p256v1.cpp")])
p("C13", "SM2 keys stay in range and consistent from birth through export and import",
  "For every random stream a generated private key lies in [1, n-2], its public key is [d]G, and export then import into a new object, a copy or an assignment gives an object that signs, verifies, encrypts and decrypts identically. Importing accepts exactly the private keys in [1, n-2] and the public keys that are canonical points of the curve.",
  ["histories", "fault_sequences", "crash_points", "configurations"],
  "all random streams (boundary values), all 32-byte private keys and 64-byte public keys around every boundary, all histories of generate, import, export, copy, overwrite and restart",
  "Tests import one valid key; boundaries and generated-key range under adversarial randomness are not reachable with the default RNG.",
  [H + "sm2/sm2.h", "src/sm2/sm2p256v1.cpp", "src/number/"],
  [("range checks in gen_priv/set_priv/set_pub", H + "sm2/sm2.h")])
p("C14", "A failed key or signing operation leaves every object as it was",
  "When the random source fails at any draw, or an imported private or public key is rejected, the error is reported to the caller and every SM2 and SM9 object involved keeps behaving exactly as before the call. A later call that succeeds gives the same result as if the failure had never happened.",
  ["fault_sequences", "histories", "crash_points"],
  "all SM2 and SM9 operations that draw randomness or import keys, failing at every draw (including inside retry loops) with any exception, at any point of an object's history",
  "The tests never make an RNG throw and never reuse an object after a rejected import.",
  [H + "sm2/sm2.h", H + "sm9/sm9.h"],
  [("state committed only after the last throwing call", H + "sm2/sm2.h, " + H + "sm9/sm9.h")])
p("C15", "SM9 signatures verify and follow the standard for every random stream",
  "For every master key, user ID, identifier byte, message, hash, point format and random stream that is not stuck, extracting the user key and signing terminates and yields a signature that verifies for that user, is exactly the GB/T 38635 signature for the nonce used, and has the announced length. Nonces lie in [1, N-1] and depend on the random stream; a nonce with l = 0 is redrawn.",
  ["fault_sequences", "inputs", "configurations"],
  "all random streams including boundary values and forced retries, all IDs and hids (0 to 255), master keys at range boundaries, three point formats",
  "Tests sign one message with one key and nonce; retry and boundary nonces cannot occur with a real RNG.",
  [H + "sm9/sm9.h", H + "sm9/internal/sm9_alg.h", "src/sm9/sm9_field.cpp", "src/number/"],
  [("nonce derivation, l=0 retry", H + "sm9/sm9.h")])
p("C16", "SM9 verification accepts exactly what the standard accepts, in bounds",
  "For every master public key, ID, message and byte string presented as a signature - genuine, truncated, bit-flipped, re-formatted or adversarially built - verification returns true exactly when GB/T 38635 accepts it: h in [1, N-1], S a canonical point in one of the defined formats filling the string, and h recomputed. It never crashes and never reads outside its inputs.",
  ["fault_sequences", "inputs", "crash_points", "configurations"],
  "all corruptions and truncations of genuine signatures, wrong ID/hid/message/master key, exceptional points ([h1]P2 = +-Ppub), three formats, all builds",
  "Tests verify genuine signatures; exceptional points and malformed encodings are never produced by the signer.",
  [H + "sm9/sm9.h", H + "sm9/internal/sm9_alg.h", "src/sm9/sm9_field.cpp"],
  [("range and point validation, pairing", H + "sm9/sm9.h, src/sm9/sm9_field.cpp")])
p("C17", "SM9 keys are consistent from generation through export, import and copying",
  "For every random stream a generated master key lies in [1, N-1] with the public key [ks]P2, and each extracted user key is the GB/T 38635 key for its ID and identifier byte. Exporting and importing, copying or assigning master, public and user keys gives objects that behave identically, imports of out-of-range master keys and off-curve points are rejected, and an ID that makes extraction impossible is reported as an error, leaves the master key usable, and works after the key is regenerated.",
  ["histories", "fault_sequences", "crash_points"],
  "all random streams, IDs, hids, all histories of generate, extract, export, import, copy, overwrite, restart; IDs scripted so that H1 + ks = 0",
  "Tests import one master key; the regeneration case has probability 2^-256 with a real hash.",
  [H + "sm9/sm9.h", "src/sm9/sm9_field.cpp"],
  [("range checks and regeneration", H + "sm9/sm9.h")])
p("C18", "A mixed fleet over a faulty network and disk delivers only authentic data",
  "Nodes built in different configurations that exchange SM2-enveloped session keys, SM2/SM9-signed messages, HMAC-tagged records and SM4/AES-encrypted streams over a network that loses, duplicates, reorders, truncates and corrupts messages, and that crash and restart from keys kept on a faulty disk, accept a message only if its peer sent exactly that message in that session. Every intact message is accepted whatever build its receiver runs, and once faults stop pending deliveries complete.",
  ["fault_sequences", "schedules", "crash_points", "configurations", "histories"],
  "all fault schedules, node configurations, crash points and message histories",
  "The tests run one primitive in one process in one configuration with no faults.",
  ["include/gmlib/", "src/"], [("all primitives composed", "include/gmlib/")])
p("C19", "Hardware RNG adapters absorb transient failures and report permanent ones",
  "With a hardware random device whose reads fail transiently, an RDRAND or RDSEED generator fills exactly the requested bytes, for any length, with bytes the device delivered successfully, as long as no read fails more often in a row than the configured number of retries. When the device stays silent the generator throws after a bounded number of attempts instead of hanging or returning unfilled memory, and it never writes outside the request.",
  ["fault_sequences", "inputs"],
  "all failure schedules of the device (bursts of any length at any read), all request lengths, 32- and 64-bit variants, all retry settings, after any history of earlier failures",
  "Tests draw from the real CPU, which does not fail on demand.",
  [H + "rng/hardware_rng/" + f for f in ("rdrand32_rng.h", "rdrand64_rng.h", "rdseed32_rng.h", "rdseed64_rng.h")],
  [("retry loop and throw", H + "rng/hardware_rng/*.h")])
p("C20", "Software RNG adapters fill exactly the request from their device",
  "For every request length the random_device-based generator fills exactly the requested bytes, every byte taken from fresh device output, reports a failing device to the caller instead of returning unfilled or made-up bytes, and recovers when the device does. The rand-based generator fills exactly the requested bytes from the C library generator, seeds it from the clock, and two such generators in one process never repeat each other's bytes because one was constructed.",
  ["fault_sequences", "histories", "schedules"],
  "all request lengths, device value streams and failure schedules, clock readings (including a stopped or jumping clock) and interleavings of several generators",
  "Tests check nothing about the values; a clock that does not advance between constructions and a failing device need a simulated clock and device.",
  [H + "rng/std_rng.h", H + "rng/cstd_rng.h", H + "rng/rng.h"],
  [("byte loop over the device", H + "rng/std_rng.h"), ("seeding", H + "rng/cstd_rng.h")])
p("C21", "ASN.1 decoding of torn or corrupt data is bounded and exact",
  "For every byte string, torn or corrupted anywhere, each ASN.1 decoder reports failure or returns a value, a length and a consumed count that lie inside the input and are exactly what the encoding means for that type. Every DER element is accepted and every truncated, overlong, indefinite-length, wrongly tagged or non-minimal-integer one is refused; BER leniencies may go either way. Encoders write exactly the bytes they announce, and their output decodes back to the same value.",
  ["fault_sequences", "crash_points", "inputs"],
  "all inputs: genuine encodings truncated at every byte, corrupted, with overlong, indefinite or huge lengths, every tag class; all values to encode",
  "Tests decode a handful of well-formed samples.",
  [H + "asn1/asn1.h", "src/asn1/asn1.cpp"], [("length arithmetic", "src/asn1/asn1.cpp")])
p("C22", "SM2 keys, signatures and ciphertexts survive DER storage or are refused",
  "Every SM2 private key, public key, signature and ciphertext encoded to DER by the library decodes, from intact storage, to the same object, with the announced length and consumed count. From torn, truncated or bit-flipped storage, decoding either fails or yields exactly the object those bytes describe, and never touches memory outside them.",
  ["crash_points", "fault_sequences", "inputs"],
  "all objects (leading-zero and high-bit integers included), all truncation points and corruptions of the stored bytes",
  "Tests encode and decode one sample each.",
  [H + "sm2/internal/sm2_asn1.h", "src/sm2/sm2p256v1_asn1.cpp", "src/asn1/asn1.cpp"],
  [("fixed-length integer handling", "src/sm2/sm2p256v1_asn1.cpp")])
p("C23", "Dump routines print exactly their input and survive stream faults",
  "The memory dump prints exactly the documented layout of exactly the given bytes for every size, line width, item format and separator, reads nothing outside them, and terminates whatever errors the output stream reports. The ASN.1 dump terminates without reading outside its input for every byte string, and for well-formed input succeeds and prints every element's contents.",
  ["fault_sequences", "inputs"],
  "all sizes, widths and formats, all byte strings, all output-stream failure schedules (persistent, transient, full disk)",
  "Tests print to a healthy terminal and assert nothing.",
  ["src/memory_utils/memdump.cpp", "src/asn1/asn1_dump.cpp"], [("printf loops", "src/memory_utils/memdump.cpp")])
p("C24", "Secret-dependent timing",
  "Operations on private keys, nonces and secret data take time and touch memory addresses independently of the secret values.",
  ["inputs"], "all secrets", "Tests do not observe timing.", ["src/"], [("none claimed by the project", "README.md")])
p("C25", "Pure big-integer and field arithmetic is exact for every operand",
  "Every internal 256-bit integer, Montgomery, prime-field and extension-field operation returns the mathematically exact result for all operands, in the portable and the x64 implementation alike.",
  ["inputs", "configurations"], "all operand values of each internal arithmetic function taken alone", "Tests sample fixed operands.",
  ["src/number/", "src/sm9/sm9_field.cpp", "src/sm2/sm2p256v1.cpp"], [("carry chains", "src/number/")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
p("C26", "Windows random adapters fill exactly the request or report the failure",
  "For every request length, the CNG- and CryptoAPI-based generators fill exactly the requested bytes with bytes the operating system delivered for that request and write nothing else. A refused provider or a failing request is reported to the caller as a standard exception, never as made-up or unfilled bytes, and the generator works again once the system does. Across any history of construction, copying, assignment and destruction, no provider handle is used after its release, released twice or leaked.",
  ["fault_sequences", "histories", "inputs"],
  "all request lengths (beyond 2^32 included), failure schedules of the operating system and object histories of several generators",
  "The tests never compile these headers off Windows; failing services and handle accounting need a simulated operating system.",
  [H + "rng/os_rng/bcrypt_rng.h", H + "rng/os_rng/wincrypt_rng.h"],
  [("request loop", H + "rng/os_rng/*.h"), ("provider life cycle", H + "rng/os_rng/wincrypt_rng.h")])
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
