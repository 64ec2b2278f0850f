From 60058c34486a947ec388a56ee6f8e843dea0a0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:02 +0000
Subject: [PATCH 01/28] fix: report 0 output bytes when a mode update only
 fills the block buffer

---
 include/gmlib/block_cipher_mode/block_cipher_mode.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/gmlib/block_cipher_mode/block_cipher_mode.h b/include/gmlib/block_cipher_mode/block_cipher_mode.h
index 92208c0..0923095 100644
--- a/include/gmlib/block_cipher_mode/block_cipher_mode.h
+++ b/include/gmlib/block_cipher_mode/block_cipher_mode.h
@@ -74,8 +74,9 @@ public:
             out += size, in += size, inl -= size;
 
             std::memcpy(buf_, in, inl);
-            buf_size_ = inl, *outl = (std::size_t)(out - out_base);
+            buf_size_ = inl;
         }
+        *outl = (std::size_t)(out - out_base);
     }
 
     void do_final(std::uint8_t*       out,
-- 
2.43.0


From 6b8afa8f9b8b1ad03979238655182ccace209752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:02 +0000
Subject: [PATCH 02/28] fix: GCM decryption must not share its final-block
 buffers between objects

---
 include/gmlib/block_cipher_mode/gcm_mode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gmlib/block_cipher_mode/gcm_mode.h b/include/gmlib/block_cipher_mode/gcm_mode.h
index b69bb0b..8991b9b 100644
--- a/include/gmlib/block_cipher_mode/gcm_mode.h
+++ b/include/gmlib/block_cipher_mode/gcm_mode.h
@@ -314,7 +314,7 @@ private:
                      const std::uint8_t* in,
                      std::size_t         inl) override
     {
-        static std::uint8_t t[16] = {0}, tag[16];
+        std::uint8_t t[16] = {0}, tag[16];
         if (inl != 0)
         {
             std::size_t nxt_ct_len = ct_len_ + inl;
-- 
2.43.0


From 14bcc1b829ec6355c83156537c1b38017b59654f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:02 +0000
Subject: [PATCH 03/28] fix: Hash::update must split by BLOCK_SIZE, not by 64

---
 include/gmlib/hash_lib/hash.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gmlib/hash_lib/hash.h b/include/gmlib/hash_lib/hash.h
index 67daf11..307ec77 100644
--- a/include/gmlib/hash_lib/hash.h
+++ b/include/gmlib/hash_lib/hash.h
@@ -64,7 +64,7 @@ public:
         }
         if (inl && buf_size_ == 0)
         {
-            std::size_t block_num = inl / 64;
+            std::size_t block_num = inl / BLOCK_SIZE;
             this->update_blocks(in, block_num);
             in += block_num * BLOCK_SIZE, inl -= block_num * BLOCK_SIZE;
             if (inl)
-- 
2.43.0


From dd5f3fabe17d26fa892b84d0b18e18d03476a508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:02 +0000
Subject: [PATCH 04/28] fix: GHash reset and set_key must drop buffered input

---
 include/gmlib/ghash/ghash.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/gmlib/ghash/ghash.h b/include/gmlib/ghash/ghash.h
index f759cc8..8f45394 100644
--- a/include/gmlib/ghash/ghash.h
+++ b/include/gmlib/ghash/ghash.h
@@ -37,11 +37,13 @@ public:
 
     void reset() noexcept
     {
+        this->Hash<alg::GHASH_BLOCK_SIZE>::reset();
         alg::ghash_reset(&ctx_);
     }
 
     void set_key(const std::uint8_t H[16]) noexcept
     {
+        this->Hash<alg::GHASH_BLOCK_SIZE>::reset();
         alg::ghash_init(&ctx_, H);
     }
 
-- 
2.43.0


From 64b363cd46087e77aae4d551d520a1712105cac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:15 +0000
Subject: [PATCH 05/28] fix: init of a block cipher mode must start from an
 empty block buffer

---
 include/gmlib/block_cipher_mode/cbc_mode.h | 2 ++
 include/gmlib/block_cipher_mode/cfb_mode.h | 2 ++
 include/gmlib/block_cipher_mode/ctr_mode.h | 1 +
 include/gmlib/block_cipher_mode/ecb_mode.h | 2 ++
 include/gmlib/block_cipher_mode/gcm_mode.h | 1 +
 include/gmlib/block_cipher_mode/ofb_mode.h | 1 +
 6 files changed, 9 insertions(+)

diff --git a/include/gmlib/block_cipher_mode/cbc_mode.h b/include/gmlib/block_cipher_mode/cbc_mode.h
index cd64d4d..f2c6932 100644
--- a/include/gmlib/block_cipher_mode/cbc_mode.h
+++ b/include/gmlib/block_cipher_mode/cbc_mode.h
@@ -30,6 +30,7 @@ public:
 public:
     void init(const std::uint8_t* user_key, const std::uint8_t* iv)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
         std::memcpy(iv_, iv, Cipher::BLOCK_SIZE);
     }
@@ -98,6 +99,7 @@ public:
 public:
     void init(const std::uint8_t* user_key, const std::uint8_t* iv)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::DECRYPTION);
         std::memcpy(iv_, iv, Cipher::BLOCK_SIZE);
     }
diff --git a/include/gmlib/block_cipher_mode/cfb_mode.h b/include/gmlib/block_cipher_mode/cfb_mode.h
index a61604f..2dd5926 100644
--- a/include/gmlib/block_cipher_mode/cfb_mode.h
+++ b/include/gmlib/block_cipher_mode/cfb_mode.h
@@ -30,6 +30,7 @@ public:
 public:
     void init(const std::uint8_t* user_key, const std::uint8_t* iv)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
         std::memcpy(iv_, iv, Cipher::BLOCK_SIZE);
     }
@@ -93,6 +94,7 @@ public:
 public:
     void init(const std::uint8_t* user_key, const std::uint8_t* iv)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
         std::memcpy(iv_, iv, Cipher::BLOCK_SIZE);
     }
diff --git a/include/gmlib/block_cipher_mode/ctr_mode.h b/include/gmlib/block_cipher_mode/ctr_mode.h
index 1561526..6a8729b 100644
--- a/include/gmlib/block_cipher_mode/ctr_mode.h
+++ b/include/gmlib/block_cipher_mode/ctr_mode.h
@@ -30,6 +30,7 @@ public:
 public:
     void init(const std::uint8_t* user_key, const std::uint8_t* iv)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
         std::memcpy(counter_, iv, Cipher::BLOCK_SIZE);
     }
diff --git a/include/gmlib/block_cipher_mode/ecb_mode.h b/include/gmlib/block_cipher_mode/ecb_mode.h
index 3e3514d..23e9837 100644
--- a/include/gmlib/block_cipher_mode/ecb_mode.h
+++ b/include/gmlib/block_cipher_mode/ecb_mode.h
@@ -28,6 +28,7 @@ public:
 public:
     void init(const std::uint8_t* user_key)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
     }
 
@@ -83,6 +84,7 @@ public:
 public:
     void init(const std::uint8_t* user_key)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::DECRYPTION);
     }
 
diff --git a/include/gmlib/block_cipher_mode/gcm_mode.h b/include/gmlib/block_cipher_mode/gcm_mode.h
index 8991b9b..3a5e53f 100644
--- a/include/gmlib/block_cipher_mode/gcm_mode.h
+++ b/include/gmlib/block_cipher_mode/gcm_mode.h
@@ -49,6 +49,7 @@ public:
         static const std::uint8_t ZERO[16] = {0};
         std::uint8_t              t[16];
 
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
         cipher_.encrypt_block(t, ZERO);
         hash.set_key(t);
diff --git a/include/gmlib/block_cipher_mode/ofb_mode.h b/include/gmlib/block_cipher_mode/ofb_mode.h
index 12b3b72..c179faa 100644
--- a/include/gmlib/block_cipher_mode/ofb_mode.h
+++ b/include/gmlib/block_cipher_mode/ofb_mode.h
@@ -30,6 +30,7 @@ public:
 public:
     void init(const std::uint8_t* user_key, const std::uint8_t* iv)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
         std::memcpy(iv_, iv, Cipher::BLOCK_SIZE);
     }
-- 
2.43.0


From 88c2ae4a494f6a6f30d6fb97dace265227a5cb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:44 +0000
Subject: [PATCH 06/28] fix: SM2 gen_priv must never generate d = n-1

---
 include/gmlib/sm2/sm2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gmlib/sm2/sm2.h b/include/gmlib/sm2/sm2.h
index 12be82a..ab1d326 100644
--- a/include/gmlib/sm2/sm2.h
+++ b/include/gmlib/sm2/sm2.h
@@ -557,7 +557,7 @@ inline void SM2PrivateKey<Hash>::gen_priv(rng::Rng& rng)
     internal::sm2_bn_t d;
     rng.gen(priv_key, 32);
     internal::sm2_bn_from_bytes(d, priv_key);
-    internal::sm2_bn_mod_n_sub1(d);
+    internal::sm2_bn_mod_n_sub2(d);
     internal::sm2_bn_add_uint32(d, d, 1);
     internal::sm2_bn_to_bytes(priv_, d);
     // set pub
-- 
2.43.0


From 161762b2016a5b6d6d17466225c3b8407ea8d21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:44 +0000
Subject: [PATCH 07/28] fix: SM2 verify with an over-long ID must return false,
 not terminate

---
 include/gmlib/sm2/sm2.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/gmlib/sm2/sm2.h b/include/gmlib/sm2/sm2.h
index ab1d326..7e6e436 100644
--- a/include/gmlib/sm2/sm2.h
+++ b/include/gmlib/sm2/sm2.h
@@ -428,6 +428,11 @@ inline bool SM2PublicKey<Hash>::verify_(const std::uint8_t  sig_r[32],
     internal::sm2_num_t e, r, s, tmp;
     internal::sm2_ec_t  sG, tP;
 
+    // an ID that cannot be hashed into Z never verifies
+    if (id_len > UINT16_MAX / 8)
+    {
+        return false;
+    }
     // r' in [1,n-1]?, s' in [1,n-1]?
     internal::sm2_bn_from_bytes(r.bn, sig_r);
     internal::sm2_bn_from_bytes(s.bn, sig_s);
-- 
2.43.0


From b1385e273e533af49f729f839d5fa3155390f219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:44 +0000
Subject: [PATCH 08/28] fix: SM2 verify must reject when [s]G + [t]P is the
 point at infinity

---
 include/gmlib/sm2/sm2.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/gmlib/sm2/sm2.h b/include/gmlib/sm2/sm2.h
index 7e6e436..915b8d4 100644
--- a/include/gmlib/sm2/sm2.h
+++ b/include/gmlib/sm2/sm2.h
@@ -465,6 +465,10 @@ inline bool SM2PublicKey<Hash>::verify_(const std::uint8_t  sig_r[32],
     internal::sm2_ec_j_mul_g(sG.j, sig_s);
     internal::sm2_ec_j_mul_a(tP.j, t, tP.a);
     internal::sm2_ec_j_add(tP.j, sG.j, tP.j);
+    if (internal::sm2_ec_j_is_inf(tP.j))
+    {
+        return false;
+    }
     internal::sm2_ec_j_to_a(tP.a, tP.j);
     // R = e' + x1' mod n
     internal::sm2_fn_from_fp(tmp.fn, tP.a[0]);
-- 
2.43.0


From eeca173a2a3be05af1006de0d8c5b6012e912d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:44 +0000
Subject: [PATCH 09/28] fix: do not read past the end of a truncated SM2/SM9
 point encoding

---
 src/sm2/sm2p256v1.cpp | 8 ++++++++
 src/sm9/sm9_field.cpp | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/sm2/sm2p256v1.cpp b/src/sm2/sm2p256v1.cpp
index 8046bd8..61b6b74 100644
--- a/src/sm2/sm2p256v1.cpp
+++ b/src/sm2/sm2p256v1.cpp
@@ -462,11 +462,19 @@ int sm2_ec_a_from_bytes(sm2_ec_a            R,
     }
     if (in[0] == 0x04 || in[0] == 0x06 || in[0] == 0x07)
     {
+        if (inl < 65)
+        {
+            return -1;
+        }
         *read_n = 65;
         sm2_ec_a_from_bytes04(R, in + 1);
     }
     else if (in[0] == 0x02 || in[0] == 0x03)
     {
+        if (inl < 33)
+        {
+            return -1;
+        }
         *read_n = 33;
         sm2_fp_from_bytes(R[0], in + 1);
         int y_hat = in[0] == 0x02 ? 0 : 1;
diff --git a/src/sm9/sm9_field.cpp b/src/sm9/sm9_field.cpp
index 9be388b..2a69c0a 100644
--- a/src/sm9/sm9_field.cpp
+++ b/src/sm9/sm9_field.cpp
@@ -1067,11 +1067,19 @@ int sm9_ec_a_from_bytes(sm9_ec_a            R,
     }
     if (in[0] == 0x04 || in[0] == 0x06 || in[0] == 0x07)
     {
+        if (inl < 65)
+        {
+            return -1;
+        }
         *read_n = 65;
         sm9_ec_a_from_bytes04(R, in + 1);
     }
     else if (in[0] == 0x02 || in[0] == 0x03)
     {
+        if (inl < 33)
+        {
+            return -1;
+        }
         *read_n = 33;
         sm9_fp_from_bytes(R[0], in + 1);
         int y_hat = in[0] == 0x02 ? 0 : 1;
-- 
2.43.0


From 4f158487cdee57c2c2b83f8149010d8e9c32760f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:11 +0000
Subject: [PATCH 10/28] fix: reject non-canonical coordinates and wrong hybrid
 parity in SM2/SM9 point encodings

---
 src/sm2/sm2p256v1.cpp | 19 ++++++++++++++++++-
 src/sm9/sm9_field.cpp | 20 +++++++++++++++++++-
 2 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/src/sm2/sm2p256v1.cpp b/src/sm2/sm2p256v1.cpp
index 61b6b74..e4245dc 100644
--- a/src/sm2/sm2p256v1.cpp
+++ b/src/sm2/sm2p256v1.cpp
@@ -2,6 +2,7 @@
 #include <gmlib/sm2/internal/sm2p256v1.h>
 
 #include <cstdio>
+#include <cstring>
 namespace sm2::internal {
 
 const std::uint8_t SM2_DEFAULT_ID[16] = {
@@ -487,7 +488,23 @@ int sm2_ec_a_from_bytes(sm2_ec_a            R,
     {
         return -1;
     }
-    return sm2_ec_a_check(R) ? 0 : -1;
+    if (!sm2_ec_a_check(R))
+    {
+        return -1;
+    }
+    // coordinates must be canonical (less than p), and the hybrid form must
+    // carry the right parity of y
+    std::uint8_t buf[64];
+    sm2_ec_a_to_bytes04(buf, R);
+    if (std::memcmp(buf, in + 1, *read_n - 1) != 0)
+    {
+        return -1;
+    }
+    if ((in[0] == 0x06 || in[0] == 0x07) && (in[0] & 1) != (buf[63] & 1))
+    {
+        return -1;
+    }
+    return 0;
 }
 
 void sm2_ec_j_cpy(sm2_ec_j R, const sm2_ec_j P) noexcept
diff --git a/src/sm9/sm9_field.cpp b/src/sm9/sm9_field.cpp
index 2a69c0a..9088df6 100644
--- a/src/sm9/sm9_field.cpp
+++ b/src/sm9/sm9_field.cpp
@@ -1,6 +1,8 @@
 #include <gmlib/number/mpz.h>
 #include <gmlib/sm9/internal/sm9_field.h>
 
+#include <cstring>
+
 namespace sm9::internal {
 // y^2 = x^3 + 5
 // 0xb640000002a3a6f1d603ab4ff58ec74521f2934b1a7aeedbe56f9b27e351457d
@@ -1092,7 +1094,23 @@ int sm9_ec_a_from_bytes(sm9_ec_a            R,
     {
         return -1;
     }
-    return sm9_ec_a_check(R) ? 0 : -1;
+    if (!sm9_ec_a_check(R))
+    {
+        return -1;
+    }
+    // coordinates must be canonical (less than p), and the hybrid form must
+    // carry the right parity of y
+    std::uint8_t buf[64];
+    sm9_ec_a_to_bytes04(buf, R);
+    if (std::memcmp(buf, in + 1, *read_n - 1) != 0)
+    {
+        return -1;
+    }
+    if ((in[0] == 0x06 || in[0] == 0x07) && (in[0] & 1) != (buf[63] & 1))
+    {
+        return -1;
+    }
+    return 0;
 }
 
 void sm9_ec_j_cpy(sm9_ec_j R, const sm9_ec_j P) noexcept
-- 
2.43.0


From 9b7a6e313256be85e332a33dffbc80841b510773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:11 +0000
Subject: [PATCH 11/28] fix: SM2 set_pub must reject coordinates not less than
 p

---
 include/gmlib/sm2/sm2.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/gmlib/sm2/sm2.h b/include/gmlib/sm2/sm2.h
index 915b8d4..9455f23 100644
--- a/include/gmlib/sm2/sm2.h
+++ b/include/gmlib/sm2/sm2.h
@@ -354,9 +354,13 @@ inline void SM2PublicKey<Hash>::set_pub(const std::uint8_t x[32],
                                         const std::uint8_t y[32])
 {
     internal::sm2_ec_a T;
+    std::uint8_t       buf[64];
     internal::sm2_fp_from_bytes(T[0], x);
     internal::sm2_fp_from_bytes(T[1], y);
-    if (!internal::sm2_ec_a_check(T))
+    // coordinates must be canonical: they are hashed into Z as they are
+    internal::sm2_ec_a_to_bytes04(buf, T);
+    if (!internal::sm2_ec_a_check(T) || std::memcmp(buf, x, 32) != 0 ||
+        std::memcmp(buf + 32, y, 32) != 0)
     {
         throw std::runtime_error("invalid sm2p256v1 PublicKey");
     }
-- 
2.43.0


From 676cf3adf703664b5c4acb79cec7a9f4fbde7462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:11 +0000
Subject: [PATCH 12/28] fix: a rejected SM9 set_priv must leave the key
 unchanged

---
 include/gmlib/sm9/sm9.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/gmlib/sm9/sm9.h b/include/gmlib/sm9/sm9.h
index ab69cbe..22f02b9 100644
--- a/include/gmlib/sm9/sm9.h
+++ b/include/gmlib/sm9/sm9.h
@@ -442,9 +442,8 @@ inline void SM9SignPrivateKey<Hash>::set_priv(const std::uint8_t priv_x[32],
     {
         throw std::runtime_error("invalid sm9 SignPrivateKey");
     }
-    internal::sm9_ec_a_cpy(priv_, T);
-
     pub_.set_pub(pub_x, pub_y);
+    internal::sm9_ec_a_cpy(priv_, T);
 }
 
 template <class Hash>
-- 
2.43.0


From aee19ff640d86df36d32461f7a248ed1f69f775c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:33 +0000
Subject: [PATCH 13/28] fix: SM9 verify must handle [h1]P2 equal to Ppub or to
 its inverse

---
 include/gmlib/sm9/sm9.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/gmlib/sm9/sm9.h b/include/gmlib/sm9/sm9.h
index 22f02b9..b2ef7b6 100644
--- a/include/gmlib/sm9/sm9.h
+++ b/include/gmlib/sm9/sm9.h
@@ -391,6 +391,7 @@ inline bool SM9SignMasterPublicKey<Hash>::verify(
 {
     internal::sm9_fp12_t t, w;
     internal::sm9_ec2_t  T;
+    internal::sm9_ec2_j  Ppub;
     internal::sm9_ec_a   S;
     std::uint8_t         w_buf[384];
     std::size_t          size;
@@ -417,7 +418,12 @@ inline bool SM9SignMasterPublicKey<Hash>::verify(
     internal::sm9_Hn<Hash>(h_, id, id_len, &hid, 1, 1);
     //  P = [h1]P2 + Ppub
     internal::sm9_ec2_j_mul_g(T.j, h_);
-    internal::sm9_ec2_j_add_a(T.j, T.j, P_);
+    internal::sm9_ec2_j_from_a(Ppub, P_);
+    internal::sm9_ec2_j_add(T.j, T.j, Ppub);
+    if (internal::sm9_ec2_j_is_inf(T.j))
+    {
+        return false;
+    }
     internal::sm9_ec2_j_to_a(T.a, T.j);
     // w' = e(S', P) * t
     internal::sm9_pairing(w, S, T.a);
-- 
2.43.0


From 476f8243830d30fb878fa616560aeed05344e11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:33 +0000
Subject: [PATCH 14/28] fix: asn1_decode_tlv must reject a length beyond the
 end of the input

---
 src/asn1/asn1.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/asn1/asn1.cpp b/src/asn1/asn1.cpp
index 066606d..7c431e6 100644
--- a/src/asn1/asn1.cpp
+++ b/src/asn1/asn1.cpp
@@ -154,6 +154,10 @@ int asn1_decode_tlv(Asn1TLV*            tlv,
     }
     in += n, inl -= n, *read_num += n;
     // value
+    if (tlv->length > inl)
+    {
+        return -1;
+    }
     tlv->value = in;
     *read_num += tlv->length;
     return 0;
-- 
2.43.0


From b8bab3dd092a02006fb4474bb2ffcdae2ded7167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:33 +0000
Subject: [PATCH 15/28] fix: asn1_encode_integer_tlv must not overwrite the
 leading zero octet

---
 src/asn1/asn1.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/asn1/asn1.cpp b/src/asn1/asn1.cpp
index 7c431e6..361afeb 100644
--- a/src/asn1/asn1.cpp
+++ b/src/asn1/asn1.cpp
@@ -357,6 +357,7 @@ void asn1_encode_integer_tlv(std::uint8_t*       out,
         if (data[0] >= 0x80)
         {
             *out = 0, *outl += 1;
+            out += 1;
         }
         std::memmove(out, data, data_len);
         *outl += data_len;
-- 
2.43.0


From a406d86b4ef738f8a100f4d6ad0d9be823f9b6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:33 +0000
Subject: [PATCH 16/28] fix: asn1_decode_bit_string_value must use its own
 unused-bits octet

---
 src/asn1/asn1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asn1/asn1.cpp b/src/asn1/asn1.cpp
index 361afeb..c87eaea 100644
--- a/src/asn1/asn1.cpp
+++ b/src/asn1/asn1.cpp
@@ -538,7 +538,7 @@ int asn1_decode_bit_string_value(const std::uint8_t** data_ptr,
     }
     *data_ptr    = tlv.value + 1;
     *data_length = tlv.length - 1;
-    *bits_length = 8 * (tlv.length - 1) - in[0];
+    *bits_length = 8 * (tlv.length - 1) - tlv.value[0];
     return 0;
 }
 
-- 
2.43.0


From b47d34fb5121d8fb2d1ed3f241815e4b726cf985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:33 +0000
Subject: [PATCH 17/28] fix: sm2_public_key_asn1_decode must reject every
 length but 65 bytes

---
 src/sm2/sm2p256v1_asn1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sm2/sm2p256v1_asn1.cpp b/src/sm2/sm2p256v1_asn1.cpp
index 6c9d04e..26d50a9 100644
--- a/src/sm2/sm2p256v1_asn1.cpp
+++ b/src/sm2/sm2p256v1_asn1.cpp
@@ -67,7 +67,7 @@ int sm2_public_key_asn1_decode(ASN1_SM2PublicKey*  pub,
     {
         return -1;
     }
-    if (data_length != 65 && data_bits != 65 * 8)
+    if (data_length != 65 || data_bits != 65 * 8)
     {
         return -1;
     }
-- 
2.43.0


From fd55231df224bfa80ad71bcb44f901798d960f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:33 +0000
Subject: [PATCH 18/28] fix: asn1_encode_tlv_outl buffer must hold the longest
 length encoding

---
 src/asn1/asn1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asn1/asn1.cpp b/src/asn1/asn1.cpp
index c87eaea..fdd3b83 100644
--- a/src/asn1/asn1.cpp
+++ b/src/asn1/asn1.cpp
@@ -231,7 +231,7 @@ const char* asn1_tag_number_name(Asn1TagNumber tag_number) noexcept
 
 std::size_t asn1_encode_tlv_outl(std::size_t value_length) noexcept
 {
-    std::uint8_t l_buf[sizeof(std::size_t)];
+    std::uint8_t l_buf[1 + sizeof(std::size_t)];
     std::size_t  l_size;
     asn1_encode_length_octets(l_buf, &l_size, value_length);
     return 1 + l_size + value_length;
-- 
2.43.0


From df881e28d150b30bbe7b0d52edf29963e93b0e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:47 +0000
Subject: [PATCH 19/28] fix: memdump must not count a failed printf as 2^64-1
 printed characters

---
 src/memory_utils/memdump.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/memory_utils/memdump.cpp b/src/memory_utils/memdump.cpp
index 2006bd6..ab6a19c 100644
--- a/src/memory_utils/memdump.cpp
+++ b/src/memory_utils/memdump.cpp
@@ -7,6 +7,12 @@
 
 namespace memory_utils {
 
+// number of characters written, 0 if printf failed
+static inline std::size_t printed(int ret)
+{
+    return ret > 0 ? (std::size_t)ret : 0;
+}
+
 void memdump(const void *mem,
              std::size_t size,
              std::size_t maxline,
@@ -36,8 +42,8 @@ void memdump(const void *mem,
         line_char_num = 0;
         for (std::size_t i = 0; i < maxline; i++)
         {
-            line_char_num += (std::size_t)std::printf(item_fmt, data[i]);
-            line_char_num += (std::size_t)std::printf("%s", sep);
+            line_char_num += printed(std::printf(item_fmt, data[i]));
+            line_char_num += printed(std::printf("%s", sep));
         }
         if (decode_ascii)
         {
@@ -65,12 +71,13 @@ void memdump(const void *mem,
         char_num = 0;
         for (std::size_t i = 0; i < size; i++)
         {
-            char_num += std::printf(item_fmt, data[i]);
-            char_num += std::printf("%s", sep);
+            char_num += printed(std::printf(item_fmt, data[i]));
+            char_num += printed(std::printf("%s", sep));
         }
         while (char_num < line_char_num)
         {
-            char_num += (std::size_t)std::printf(" ");
+            std::printf(" ");
+            char_num += 1;
         }
         if (decode_ascii)
         {
-- 
2.43.0


From 8171545dbbb0c977bc12a342244fcaaa9a59efd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:47 +0000
Subject: [PATCH 20/28] fix: CstdRng must not restart std::rand for every
 generator

---
 include/gmlib/rng/cstd_rng.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/gmlib/rng/cstd_rng.h b/include/gmlib/rng/cstd_rng.h
index 570e313..81c8226 100644
--- a/include/gmlib/rng/cstd_rng.h
+++ b/include/gmlib/rng/cstd_rng.h
@@ -13,7 +13,11 @@ class CstdRng : public Rng
 public:
     CstdRng() noexcept
     {
-        std::srand((unsigned int)std::time(nullptr));
+        // seed once per process: seeding again within the same second would
+        // make std::rand() repeat the sequence it has already produced
+        static const bool seeded =
+            (std::srand((unsigned int)std::time(nullptr)), true);
+        (void)seeded;
     }
 
 public:
-- 
2.43.0


From 553a0d9f169d7f9ed271b9ff70edbd306f07d480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:47 +0000
Subject: [PATCH 21/28] fix: AES-192 AES-NI key expansion must not read past
 the 24-byte key

---
 src/aes/aes_aesni.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aes/aes_aesni.cpp b/src/aes/aes_aesni.cpp
index cc2cda0..764e276 100644
--- a/src/aes/aes_aesni.cpp
+++ b/src/aes/aes_aesni.cpp
@@ -110,7 +110,7 @@ static void AES_192_Key_Expansion(const unsigned char* userkey,
     __m128i  temp1, temp2, temp3;
     __m128i* Key_Schedule = (__m128i*)key;
     temp1                 = _mm_loadu_si128((__m128i*)userkey);
-    temp3                 = _mm_loadu_si128((__m128i*)(userkey + 16));
+    temp3                 = _mm_loadl_epi64((__m128i*)(userkey + 16));
     Key_Schedule[0]       = temp1;
     Key_Schedule[1]       = temp3;
     temp2                 = _mm_aeskeygenassist_si128(temp3, 0x1);
-- 
2.43.0


From 5777fd31178702e1e551515b717c23c7e2718be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:10 +0000
Subject: [PATCH 22/28] fix: SM9 point addition with an affine point handled
 neither P = Q nor P = -Q

The last step of the scalar multiplication for k = N - 2 adds -P to -P, so the
Ppub-s of ks = N - 2, the user key of t2 = N - 2 and the signature of l = N - 2
came out as garbage.
---
 src/sm9/sm9_field.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/sm9/sm9_field.cpp b/src/sm9/sm9_field.cpp
index 9088df6..295d287 100644
--- a/src/sm9/sm9_field.cpp
+++ b/src/sm9/sm9_field.cpp
@@ -1232,6 +1232,18 @@ void sm9_ec_j_add_a(sm9_ec_j R, const sm9_ec_j P, const sm9_ec_a Q) noexcept
     sm9_fp_mul(U2, X2, Z1Z1); //  U2 = X2*Z1Z1
     sm9_fp_mul(S2, Y2, Z1);
     sm9_fp_mul(S2, S2, Z1Z1); //  S2 = Y2*Z1*Z1Z1
+    if (sm9_fp_equal(U2, X1)) // P = Q or P = -Q
+    {
+        if (sm9_fp_equal(S2, Y1))
+        {
+            sm9_ec_j_dbl(R, P);
+        }
+        else
+        {
+            sm9_ec_j_set_inf(R);
+        }
+        return;
+    }
     sm9_fp_sub(H, U2, X1);    // H = U2-X1
     sm9_fp_sqr(HH, H);        // HH = H^2
     sm9_fp_dbl(I, HH);
@@ -1639,6 +1651,18 @@ void sm9_ec2_j_add_a(sm9_ec2_j R, const sm9_ec2_j P, const sm9_ec2_a Q) noexcept
     sm9_fp2_mul(U2, X2, Z1Z1); //  U2 = X2*Z1Z1
     sm9_fp2_mul(S2, Y2, Z1);
     sm9_fp2_mul(S2, S2, Z1Z1); //  S2 = Y2*Z1*Z1Z1
+    if (sm9_fp2_equal(U2, X1)) // P = Q or P = -Q
+    {
+        if (sm9_fp2_equal(S2, Y1))
+        {
+            sm9_ec2_j_dbl(R, P);
+        }
+        else
+        {
+            sm9_ec2_j_set_inf(R);
+        }
+        return;
+    }
     sm9_fp2_sub(H, U2, X1);    // H = U2-X1
     sm9_fp2_sqr(HH, H);        // HH = H^2
     sm9_fp2_dbl(I, HH);
-- 
2.43.0


From 63fb99b34f4c4922ac7d34064ccaf6a51bc7f857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:17 +0000
Subject: [PATCH 23/28] fix: assigning a WincryptRng released the provider of
 the source twice and leaked its own

---
 include/gmlib/rng/os_rng/wincrypt_rng.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/gmlib/rng/os_rng/wincrypt_rng.h b/include/gmlib/rng/os_rng/wincrypt_rng.h
index ad04af5..431ab46 100644
--- a/include/gmlib/rng/os_rng/wincrypt_rng.h
+++ b/include/gmlib/rng/os_rng/wincrypt_rng.h
@@ -39,6 +39,8 @@ public:
 
     WincryptRng(const WincryptRng& other) = delete;
 
+    WincryptRng& operator=(const WincryptRng& other) = delete;
+
     ~WincryptRng() override
     {
         BOOL ret;
-- 
2.43.0


From 4d3b90dd1679e592a86d3c8ba0ca285bc2c9d8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:59 +0000
Subject: [PATCH 24/28] fix: asn1_dump must not recurse once per nesting level
 of its input

---
 src/asn1/asn1_dump.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/asn1/asn1_dump.cpp b/src/asn1/asn1_dump.cpp
index 2489002..0314668 100644
--- a/src/asn1/asn1_dump.cpp
+++ b/src/asn1/asn1_dump.cpp
@@ -2,6 +2,7 @@
 #include <gmlib/asn1/asn1_dump.h>
 
 #include <cstdio>
+#include <vector>
 
 namespace asn1 {
 
@@ -12,12 +13,21 @@ static int r_asn1_dump(const std::uint8_t* in,
     Asn1TLV     tlv;
     std::size_t read_num;
     int         err;
-    while (inl)
+    // number of bytes behind each constructed element that is open
+    std::vector<std::size_t> rest;
+    while (inl || !rest.empty())
     {
+        if (inl == 0)
+        {
+            inl = rest.back(), rest.pop_back(), depth -= 1;
+            continue;
+        }
         err = asn1_decode_tlv(&tlv, &read_num, in, inl);
         if (err)
         {
-            return err;
+            if (rest.empty()) return err;
+            in += inl, inl = 0;
+            continue;
         }
         // dump
         for (std::size_t i = 0; i < depth; i++) printf("   ");
@@ -36,7 +46,9 @@ static int r_asn1_dump(const std::uint8_t* in,
         printf(",%s)\n", asn1_tag_pc_name(tlv.tag_pc));
         if (tlv.tag_pc == ASN1_TAG_PC_CONSTRUCTED)
         {
-            r_asn1_dump(tlv.value, tlv.length, depth + 1);
+            rest.push_back(inl - read_num);
+            in = tlv.value, inl = tlv.length, depth += 1;
+            continue;
         }
         else
         {
-- 
2.43.0


From 2ae6d1d4530d31dfeb7bf2fac7156151daba02ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:11 +0000
Subject: [PATCH 25/28] fix: the portable mont256_neg turned zero into the
 unreduced modulus

---
 src/number/mont256_common.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/number/mont256_common.cpp b/src/number/mont256_common.cpp
index a9ff88d..58a8e39 100644
--- a/src/number/mont256_common.cpp
+++ b/src/number/mont256_common.cpp
@@ -143,6 +143,7 @@ void mont256_neg(const Mont256CTX*   ctx,
     if (uint256_equal_zero(num))
     {
         uint256_set_zero(ret);
+        return;
     }
     uint256_sub_borrow(ret, ctx->P, num);
 }
-- 
2.43.0


From 3a8b63a82ce75b3c4c00571cfbf211ce60989d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:11 +0000
Subject: [PATCH 26/28] fix: mont256_pow with a zero exponent must give one in
 Montgomery form

---
 src/number/mont256_common.cpp | 2 +-
 src/number/mont256_x64.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/number/mont256_common.cpp b/src/number/mont256_common.cpp
index 58a8e39..e801fcc 100644
--- a/src/number/mont256_common.cpp
+++ b/src/number/mont256_common.cpp
@@ -197,7 +197,7 @@ void mont256_pow(const Mont256CTX*   ctx,
     }
     if (uint256_equal_zero(exponent))
     {
-        uint256_set_one(power);
+        mont256_set_one(ctx, power);
         return;
     }
 
diff --git a/src/number/mont256_x64.cpp b/src/number/mont256_x64.cpp
index d7a9caa..3d58aa8 100644
--- a/src/number/mont256_x64.cpp
+++ b/src/number/mont256_x64.cpp
@@ -252,7 +252,7 @@ void mont256_pow(const Mont256CTX*   ctx,
     }
     if (uint256_equal_zero(exponent))
     {
-        uint256_set_one(power);
+        mont256_set_one(ctx, power);
         return;
     }
 
-- 
2.43.0


From ce26af11c48ad0b6fc6d8defc5f152b9e482f502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:11 +0000
Subject: [PATCH 27/28] fix: the x64 mpz_cmp compared the least significant
 limb first

---
 src/number/mpz_x64.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/number/mpz_x64.cpp b/src/number/mpz_x64.cpp
index 551a411..f02ffaf 100644
--- a/src/number/mpz_x64.cpp
+++ b/src/number/mpz_x64.cpp
@@ -94,8 +94,8 @@ int mpz_cmp(const std::uint64_t* a,
     for (std::size_t i = 0; i < limb_size; i++)
     {
         std::size_t pos = limb_size - 1 - i;
-        if (a[i] > b[i]) return 1;
-        if (a[i] < b[i]) return -1;
+        if (a[pos] > b[pos]) return 1;
+        if (a[pos] < b[pos]) return -1;
     }
     return 0;
 }
-- 
2.43.0


From 104f641c8832e1217fec55b66fb4571bd8d95808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:11 +0000
Subject: [PATCH 28/28] fix: the portable mont256_tpl left its result unreduced
 for moduli below 2^256/3

---
 src/number/mont256_common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/number/mont256_common.cpp b/src/number/mont256_common.cpp
index e801fcc..db14f1c 100644
--- a/src/number/mont256_common.cpp
+++ b/src/number/mont256_common.cpp
@@ -130,7 +130,7 @@ void mont256_tpl(const Mont256CTX*   ctx,
     {
         carry += uint256_sub_borrow(product, product, ctx->P);
     }
-    if (uint256_cmp(product, ctx->P) >= 0)
+    while (uint256_cmp(product, ctx->P) >= 0)
     {
         uint256_sub_borrow(product, product, ctx->P);
     }
-- 
2.43.0

