From e8f4e2e0c4e9dbc8305a46e7e0a638a6ce91ab77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:11 +0000
Subject: [PATCH 01/22] fix: compare both operands in CTXT::operator==

---
 src/dme/dme.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dme/dme.cpp b/src/dme/dme.cpp
index f3d8038..257edac 100644
--- a/src/dme/dme.cpp
+++ b/src/dme/dme.cpp
@@ -131,7 +131,7 @@ CTXT& CTXT::operator=(const CTXT& ctxt)
 
 bool CTXT::operator==(const CTXT& ctxt) const
 {
-    return this->u == u && this->mv == mv;
+    return this->u == ctxt.u && this->mv == ctxt.mv;
 }
 
 
-- 
2.43.0


From 2b4e673d57ba63ac30560c7bd5d7fba745f2c0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:11 +0000
Subject: [PATCH 02/22] fix: subtract points correctly when an operand is the
 point at infinity

---
 includes/ecc_template.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/includes/ecc_template.hpp b/includes/ecc_template.hpp
index 4eb6e95..86e81b9 100644
--- a/includes/ecc_template.hpp
+++ b/includes/ecc_template.hpp
@@ -353,9 +353,10 @@ Field_XXX_p,
 Field_XXX_n
 >::operator- (const Point_XXX& P) const
 {
-    assert(*this->curve == *P.curve);
+    if(P.is_inf)
+        return *static_cast<const Point_XXX*>(this);
 
-    Point_XXX Q(P.x, Field_XXX_p(0)-P.y, curve);
+    Point_XXX Q(P.x, Field_XXX_p(0)-P.y, P.curve);
 
     
     return *this + Q;
-- 
2.43.0


From b84b12c97307025143111a26bffdf73b632fc877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:11 +0000
Subject: [PATCH 03/22] fix: doubling the point at infinity or a point with y =
 0 gives infinity

---
 includes/ecc_template.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/includes/ecc_template.hpp b/includes/ecc_template.hpp
index 86e81b9..036c889 100644
--- a/includes/ecc_template.hpp
+++ b/includes/ecc_template.hpp
@@ -554,6 +554,10 @@ Field_XXX_p,
 Field_XXX_n
 >::pointDouble() const
 {
+    // doubling infinity or a point of order two gives infinity
+    if(is_inf || this->y == Field_XXX_p(0))
+        return Point_XXX();
+
     Field_XXX_p T1;
     Field_XXX_p T2;
     Field_XXX_p S;
-- 
2.43.0


From 4e6214247149a9f0628e0c65e76b5a8a31a4d8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:11 +0000
Subject: [PATCH 04/22] fix: comparing the finite point (0,0) with infinity
 dereferenced a null curve

---
 includes/ecc_template.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/includes/ecc_template.hpp b/includes/ecc_template.hpp
index 036c889..a49bfed 100644
--- a/includes/ecc_template.hpp
+++ b/includes/ecc_template.hpp
@@ -496,10 +496,10 @@ Field_XXX_p,
 Field_XXX_n
 >::operator== (const Point_XXX& P) const
 {
-    if(is_inf == true && P.is_inf == true)
-        return true;
+    if(is_inf || P.is_inf)
+        return is_inf == P.is_inf;
     
-    return x == P.x && y == P.y && *curve == *P.curve && is_inf == P.is_inf;
+    return x == P.x && y == P.y && *curve == *P.curve;
 }
 
 template<
-- 
2.43.0


From b5adfcf1ebfff0aa82df42f53d1d3beeccf7abeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:11 +0000
Subject: [PATCH 05/22] fix: define Point::operator*= for integer scalars,
 which was declared but missing

---
 includes/ecc_template.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/includes/ecc_template.hpp b/includes/ecc_template.hpp
index a49bfed..8801895 100644
--- a/includes/ecc_template.hpp
+++ b/includes/ecc_template.hpp
@@ -462,6 +462,23 @@ Field_XXX_n
     return *static_cast<Point_XXX*>(this);;
 }
 
+template<
+        typename Curve_XXX,
+        typename Point_XXX, 
+        typename Field_XXX_p, 
+        typename Field_XXX_n
+        >
+Point_XXX& Point<
+Curve_XXX, 
+Point_XXX, 
+Field_XXX_p, 
+Field_XXX_n
+>::operator*= (const mpz_class& a)
+{
+    *this = *this * a;
+    return *static_cast<Point_XXX*>(this);;
+}
+
 template<
         typename Curve_XXX,
         typename Point_XXX, 
-- 
2.43.0


From d6a74ee8873d0a34acc8276f91f5f903196fe73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:11 +0000
Subject: [PATCH 06/22] fix: make Curve::generateKeyPair compile when it is
 instantiated

---
 includes/ecc_template.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/includes/ecc_template.hpp b/includes/ecc_template.hpp
index 8801895..51db509 100644
--- a/includes/ecc_template.hpp
+++ b/includes/ecc_template.hpp
@@ -680,7 +680,7 @@ Field_XXX_n
 >::generateKeyPair(void) const
 {
     mpz_class sk = Curve_XXX::rand.get_z_range(order);
-    Point pk = G * sk;
+    Point_XXX pk = G * sk;
     return KeyPair<Curve_XXX, Point_XXX, Field_XXX_p, Field_XXX_n>(sk,pk);
 }
 
-- 
2.43.0


From 136f2c0d1157c1b8c0dbf329d0e66df830822e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:11 +0000
Subject: [PATCH 07/22] fix: return the generated key pair from ElGamal::keyGen

---
 includes/elgamal.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/includes/elgamal.hpp b/includes/elgamal.hpp
index b7975ff..b3f90a0 100644
--- a/includes/elgamal.hpp
+++ b/includes/elgamal.hpp
@@ -41,7 +41,13 @@ public:
     ElGamal(){}
     ~ElGamal(){}
 
-    keypair_t keyGen() const {curve.generateKeyPair();}
+    keypair_t keyGen() const
+    {
+        keypair_t keys;
+        keys.sk = curve.getRandomScalar();
+        keys.pk = curve.getDefaultGen() * keys.sk;
+        return keys;
+    }
     
     ctxt_t encrypt(const pkey_t pkey, const POINT msg) const;
     ctxt_t encrypt(const pkey_t pkey, const mpz_class msg) {return encrypt(pkey, encode(msg));}
-- 
2.43.0


From e9f6b137f470a203704ffcc096ced3a65dcbacf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:10 +0000
Subject: [PATCH 08/22] fix: CRC framing wrote past the exported buffer and
 read before integers shorter than a checksum

---
 includes/crc.hpp | 48 ++++++++++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/includes/crc.hpp b/includes/crc.hpp
index 68c257a..a9981ef 100644
--- a/includes/crc.hpp
+++ b/includes/crc.hpp
@@ -49,8 +49,10 @@
 
 #include <sys/param.h>
 #include <stdint.h>
+#include <stdlib.h>
 #include <gmpxx.h>
 #include <iostream>
+#include <vector>
 #include "utilities.hpp"
 // #include <sys/systm.h>
 
@@ -763,45 +765,55 @@ calculate_crc32c(uint32_t crc32c,
 }
 
 
-const mpz_class appendCRC(mpz_class n)
+#define CRC_BYTES 4
+
+/*
+ * The big-endian bytes of n, with leading zero bytes if n is shorter than a
+ * checksum (a frame whose leading bytes are all zero).
+ */
+static std::vector<uint8_t> rawBytes(const mpz_class& n, size_t min_len)
 {
     uint8_t* res;
     size_t len = utils::getRawMpz(&res, n);
 
-    uint32_t crc32c =  0; 
-    crc32c = calculate_crc32c(crc32c,(unsigned char*) res, len);
-    memcpy(res+len, &crc32c, 4);
+    std::vector<uint8_t> bytes(len < min_len ? min_len - len : 0, 0);
+    bytes.insert(bytes.end(), res, res + len);
+    free(res);
+    return bytes;
+}
 
-    mpz_class r = utils::setRawMpz(res, len+4);    
-    return r;
+const mpz_class appendCRC(mpz_class n)
+{
+    std::vector<uint8_t> bytes = rawBytes(n, 0);
 
+    uint32_t crc32c =  0; 
+    crc32c = calculate_crc32c(crc32c, bytes.data(), bytes.size());
+    for (size_t i = 0; i < CRC_BYTES; i++)
+        bytes.push_back((crc32c >> (8 * i)) & 0xff);
+
+    return utils::setRawMpz(bytes.data(), bytes.size());
 }
 
 const bool validateCRC(mpz_class n)
 {
-    uint8_t* res;
-    size_t len = utils::getRawMpz(&res, n);
+    std::vector<uint8_t> bytes = rawBytes(n, CRC_BYTES);
+    size_t len = bytes.size() - CRC_BYTES;
 
     uint32_t value = 0;    
-    value |= *(res + len -4) ;
-    value |= *(res + len -3) << 8;
-    value |= *(res + len -2) << 16;
-    value |= *(res + len -1) << 24;
+    for (size_t i = 0; i < CRC_BYTES; i++)
+        value |= (uint32_t)bytes[len + i] << (8 * i);
     
     uint32_t crc32c =  0; 
-    crc32c = calculate_crc32c(crc32c,(unsigned char*) res, len-4);
+    crc32c = calculate_crc32c(crc32c, bytes.data(), len);
     
     return (crc32c == value);
 }
 
 const mpz_class removeCRC(mpz_class n)
 {
-    uint8_t* res;
-    size_t len = utils::getRawMpz(&res, n);
-    
-    mpz_class r = utils::setRawMpz(res, len-4);    
-    return r;
+    std::vector<uint8_t> bytes = rawBytes(n, CRC_BYTES);
 
+    return utils::setRawMpz(bytes.data(), bytes.size() - CRC_BYTES);
 }
 
 
-- 
2.43.0


From 5625f0f1fefd514cc58d255c57bc8eb6ce0595d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:10 +0000
Subject: [PATCH 09/22] fix: AES::encrypt and decrypt take the key first, as
 declared in the header

---
 src/utilities/aes.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utilities/aes.cpp b/src/utilities/aes.cpp
index 570933a..85d8d7b 100644
--- a/src/utilities/aes.cpp
+++ b/src/utilities/aes.cpp
@@ -37,7 +37,7 @@ void AES::init()
     AES::iv = iv;
 }
 
-ctxt_t AES::encrypt(const msg_t plaintext, const mpz_class key) const
+ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
 {
     EVP_CIPHER_CTX *ctx = NULL;
     int len = 0, ciphertext_len = 0;
@@ -88,7 +88,7 @@ ctxt_t AES::encrypt(const msg_t plaintext, const mpz_class key) const
     return utils::setRawMpz(ciphertext,ciphertext_len);
 }
 
-msg_t AES::decrypt(const ctxt_t cipher, const mpz_class key) const
+msg_t AES::decrypt(const mpz_class key, const ctxt_t cipher) const
 {
     EVP_CIPHER_CTX *ctx = NULL;
     int len = 0, plaintext_len = 0;
@@ -145,13 +145,13 @@ msg_t AES::decrypt(const ctxt_t cipher, const mpz_class key) const
 ctxt_t AES::encryptCRC(const mpz_class key, const msg_t plaintext) const
 {
     msg_t msg = appendCRC(plaintext);
-    return encrypt(msg, key);
+    return encrypt(key, msg);
 }
 
 msg_t AES::decryptCRC(const mpz_class key, const ctxt_t cipher) const
 {
     
-    msg_t m =  decrypt(cipher, key);
+    msg_t m =  decrypt(key, cipher);
     if(validateCRC(m))
     {
         m = removeCRC(m);
-- 
2.43.0


From c4a7f761af1a13313658fff48e2193fa9de6a57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:10 +0000
Subject: [PATCH 10/22] fix: AES::init() selects the all-zero IV and the IV
 always has 16 bytes

---
 src/utilities/aes.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utilities/aes.cpp b/src/utilities/aes.cpp
index 85d8d7b..2239a14 100644
--- a/src/utilities/aes.cpp
+++ b/src/utilities/aes.cpp
@@ -11,7 +11,8 @@
 
 namespace aes
 {
-string AES::iv;
+#define AES_IVBYTES 16
+string AES::iv = string(AES_IVBYTES, '\0');
 
 void handleErrors(void)
 {
@@ -30,11 +31,12 @@ void handleErrors(void)
 void AES::init(const string iv)
 {
     AES::iv = iv;
+    AES::iv.resize(AES_IVBYTES, '\0');
 }
 
 void AES::init()
 {
-    AES::iv = iv;
+    AES::iv = string(AES_IVBYTES, '\0');
 }
 
 ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
-- 
2.43.0


From ac728d081c57351baef27ec7acc3edef9c877bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:10 +0000
Subject: [PATCH 11/22] fix: AES read beyond keys that have leading zero bytes

---
 src/utilities/aes.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/utilities/aes.cpp b/src/utilities/aes.cpp
index 2239a14..b1a5dc0 100644
--- a/src/utilities/aes.cpp
+++ b/src/utilities/aes.cpp
@@ -39,22 +39,32 @@ void AES::init()
     AES::iv = string(AES_IVBYTES, '\0');
 }
 
+/* The key as a 128-bit big-endian string, whatever its number of leading zero bytes */
+static string rawKey(const mpz_class& key)
+{
+    uint8_t *arr;
+    size_t len = utils::getRawMpz(&arr, key);
+    string res(len < CRYPTO_KEYBYTES ? CRYPTO_KEYBYTES - len : 0, '\0');
+    res.append((char*)arr, len);
+    free(arr);
+    return res;
+}
+
 ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
 {
     EVP_CIPHER_CTX *ctx = NULL;
     int len = 0, ciphertext_len = 0;
     unsigned char ciphertext[128];
     uint8_t *ptarr;
-    uint8_t *keyarr;
+    string keyarr = rawKey(key);
     
     size_t pt_len  = utils::getRawMpz(&ptarr, plaintext);
-    utils::getRawMpz(&keyarr, key);
 
     /* Create and initialise the context */
     if(!(ctx = EVP_CIPHER_CTX_new())) handleErrors();
 
     /* Initialise the encryption operation. */
-    if(1 != EVP_EncryptInit_ex(ctx, EVP_aes_128_ctr(), NULL,(unsigned char*)keyarr, (unsigned char*)AES::iv.c_str()))
+    if(1 != EVP_EncryptInit_ex(ctx, EVP_aes_128_ctr(), NULL,(unsigned char*)keyarr.c_str(), (unsigned char*)AES::iv.c_str()))
         handleErrors();
 
     // /* Set IV length if default 12 bytes (96 bits) is not appropriate */
@@ -97,17 +107,16 @@ msg_t AES::decrypt(const mpz_class key, const ctxt_t cipher) const
     // unsigned char plaintext[128];
     unsigned char plaintext[128];
     uint8_t *ctxtarr;
-    uint8_t *keyarr;
+    string keyarr = rawKey(key);
     
     size_t ctxt_len  = utils::getRawMpz(&ctxtarr, cipher);
-    utils::getRawMpz(&keyarr, key);
 
 
     /* Create and initialise the context */
     if(!(ctx = EVP_CIPHER_CTX_new())) handleErrors();
 
     /* Initialise the decryption operation. */
-    if(!EVP_DecryptInit_ex(ctx, EVP_aes_128_ctr(), NULL, (unsigned char*)keyarr, (unsigned char*)AES::iv.c_str()))
+    if(!EVP_DecryptInit_ex(ctx, EVP_aes_128_ctr(), NULL, (unsigned char*)keyarr.c_str(), (unsigned char*)AES::iv.c_str()))
         handleErrors();
 
     // /* Set IV length. Not necessary if this is 12 bytes (96 bits) */
-- 
2.43.0


From d70b27978b71d2832e4667a712a215c05befe86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:10 +0000
Subject: [PATCH 12/22] fix: AES texts longer than 128 bytes overflowed a stack
 buffer, and every call leaked its raw text

---
 src/utilities/aes.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/utilities/aes.cpp b/src/utilities/aes.cpp
index b1a5dc0..84935b8 100644
--- a/src/utilities/aes.cpp
+++ b/src/utilities/aes.cpp
@@ -2,7 +2,9 @@
 #include <openssl/evp.h>
 #include <openssl/aes.h>
 #include <openssl/err.h>
+#include <stdlib.h>
 #include <iostream>   
+#include <vector>
 
 #include "aes.hpp"
 #include "utilities.hpp"
@@ -54,11 +56,11 @@ ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
 {
     EVP_CIPHER_CTX *ctx = NULL;
     int len = 0, ciphertext_len = 0;
-    unsigned char ciphertext[128];
     uint8_t *ptarr;
     string keyarr = rawKey(key);
     
     size_t pt_len  = utils::getRawMpz(&ptarr, plaintext);
+    std::vector<unsigned char> ciphertext(pt_len + EVP_MAX_BLOCK_LENGTH);
 
     /* Create and initialise the context */
     if(!(ctx = EVP_CIPHER_CTX_new())) handleErrors();
@@ -77,7 +79,7 @@ ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
     /* Provide the message to be encrypted, and obtain the encrypted output.
      * EVP_EncryptUpdate can be called multiple times if necessary
      */
-    if(1 != EVP_EncryptUpdate(ctx, ciphertext, &len, (unsigned char*)ptarr, pt_len))
+    if(1 != EVP_EncryptUpdate(ctx, ciphertext.data(), &len, (unsigned char*)ptarr, pt_len))
         handleErrors();
 
     ciphertext_len = len;
@@ -85,7 +87,7 @@ ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
     /* Finalise the encryption. Normally ciphertext bytes may be written at
      * this stage, but this does not occur in GCM mode
      */
-    if(1 != EVP_EncryptFinal_ex(ctx, ciphertext + len, &len)) handleErrors();
+    if(1 != EVP_EncryptFinal_ex(ctx, ciphertext.data() + len, &len)) handleErrors();
     ciphertext_len += len;
 
     // /* Get the tag */
@@ -94,22 +96,22 @@ ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
 
     /* Clean up */
     EVP_CIPHER_CTX_free(ctx);
+    free(ptarr);
 
     // string c = string((char*)ciphertext, ciphertext_len);
     // string t = string((char*)tag, 16);
-    return utils::setRawMpz(ciphertext,ciphertext_len);
+    return utils::setRawMpz(ciphertext.data(), ciphertext_len);
 }
 
 msg_t AES::decrypt(const mpz_class key, const ctxt_t cipher) const
 {
     EVP_CIPHER_CTX *ctx = NULL;
     int len = 0, plaintext_len = 0;
-    // unsigned char plaintext[128];
-    unsigned char plaintext[128];
     uint8_t *ctxtarr;
     string keyarr = rawKey(key);
     
     size_t ctxt_len  = utils::getRawMpz(&ctxtarr, cipher);
+    std::vector<unsigned char> plaintext(ctxt_len + EVP_MAX_BLOCK_LENGTH);
 
 
     /* Create and initialise the context */
@@ -131,7 +133,7 @@ msg_t AES::decrypt(const mpz_class key, const ctxt_t cipher) const
     /* Provide the message to be decrypted, and obtain the plaintext output.
      * EVP_DecryptUpdate can be called multiple times if necessary
      */
-    if(!EVP_DecryptUpdate(ctx, plaintext, &len, (unsigned char*)ctxtarr, ctxt_len))
+    if(!EVP_DecryptUpdate(ctx, plaintext.data(), &len, (unsigned char*)ctxtarr, ctxt_len))
         handleErrors();
 
     plaintext_len = len;
@@ -143,14 +145,15 @@ msg_t AES::decrypt(const mpz_class key, const ctxt_t cipher) const
     /* Finalise the decryption. A positive return value indicates success,
      * anything else is a failure - the plaintext is not trustworthy.
      */
-    EVP_DecryptFinal_ex(ctx, plaintext + len, &len);
+    EVP_DecryptFinal_ex(ctx, plaintext.data() + len, &len);
     plaintext_len += len;
 
     /* Clean up */
     EVP_CIPHER_CTX_free(ctx);
+    free(ctxtarr);
     // plaintext[plaintext_len] = '\0';
 
-    return utils::setRawMpz(plaintext, plaintext_len);
+    return utils::setRawMpz(plaintext.data(), plaintext_len);
 }    
 
 ctxt_t AES::encryptCRC(const mpz_class key, const msg_t plaintext) const
-- 
2.43.0


From aba82bb6d8617c92eac8f6e533e83e742fc1c7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:27 +0000
Subject: [PATCH 13/22] fix: AES lost the leading zero bytes of the encrypted
 data and with them the plaintext

---
 src/utilities/aes.cpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/utilities/aes.cpp b/src/utilities/aes.cpp
index 84935b8..31cb6fc 100644
--- a/src/utilities/aes.cpp
+++ b/src/utilities/aes.cpp
@@ -41,6 +41,12 @@ void AES::init()
     AES::iv = string(AES_IVBYTES, '\0');
 }
 
+/* 
+ * A ciphertext integer starts with this byte, so that the leading zero bytes of
+ * the encrypted data are not lost.
+ */
+#define AES_CTXT_MARKER 0x01
+
 /* The key as a 128-bit big-endian string, whatever its number of leading zero bytes */
 static string rawKey(const mpz_class& key)
 {
@@ -60,7 +66,8 @@ ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
     string keyarr = rawKey(key);
     
     size_t pt_len  = utils::getRawMpz(&ptarr, plaintext);
-    std::vector<unsigned char> ciphertext(pt_len + EVP_MAX_BLOCK_LENGTH);
+    std::vector<unsigned char> ciphertext(1 + pt_len + EVP_MAX_BLOCK_LENGTH);
+    ciphertext[0] = AES_CTXT_MARKER;
 
     /* Create and initialise the context */
     if(!(ctx = EVP_CIPHER_CTX_new())) handleErrors();
@@ -79,15 +86,15 @@ ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
     /* Provide the message to be encrypted, and obtain the encrypted output.
      * EVP_EncryptUpdate can be called multiple times if necessary
      */
-    if(1 != EVP_EncryptUpdate(ctx, ciphertext.data(), &len, (unsigned char*)ptarr, pt_len))
+    if(1 != EVP_EncryptUpdate(ctx, ciphertext.data() + 1, &len, (unsigned char*)ptarr, pt_len))
         handleErrors();
 
-    ciphertext_len = len;
+    ciphertext_len = 1 + len;
 
     /* Finalise the encryption. Normally ciphertext bytes may be written at
      * this stage, but this does not occur in GCM mode
      */
-    if(1 != EVP_EncryptFinal_ex(ctx, ciphertext.data() + len, &len)) handleErrors();
+    if(1 != EVP_EncryptFinal_ex(ctx, ciphertext.data() + ciphertext_len, &len)) handleErrors();
     ciphertext_len += len;
 
     // /* Get the tag */
@@ -113,6 +120,12 @@ msg_t AES::decrypt(const mpz_class key, const ctxt_t cipher) const
     size_t ctxt_len  = utils::getRawMpz(&ctxtarr, cipher);
     std::vector<unsigned char> plaintext(ctxt_len + EVP_MAX_BLOCK_LENGTH);
 
+    /* Without the marker it is not a ciphertext */
+    if(ctxt_len == 0 || ctxtarr[0] != AES_CTXT_MARKER)
+    {
+        free(ctxtarr);
+        return msg_t(0);
+    }
 
     /* Create and initialise the context */
     if(!(ctx = EVP_CIPHER_CTX_new())) handleErrors();
@@ -133,7 +146,7 @@ msg_t AES::decrypt(const mpz_class key, const ctxt_t cipher) const
     /* Provide the message to be decrypted, and obtain the plaintext output.
      * EVP_DecryptUpdate can be called multiple times if necessary
      */
-    if(!EVP_DecryptUpdate(ctx, plaintext.data(), &len, (unsigned char*)ctxtarr, ctxt_len))
+    if(!EVP_DecryptUpdate(ctx, plaintext.data(), &len, (unsigned char*)ctxtarr + 1, ctxt_len - 1))
         handleErrors();
 
     plaintext_len = len;
-- 
2.43.0


From 82e1948493caf140503328161dff569669f035ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:48 +0000
Subject: [PATCH 14/22] fix: PUDA aggregation returned 0 for the sum 65535

---
 src/puda/puda.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/puda/puda.cpp b/src/puda/puda.cpp
index 2239a25..03a0f44 100644
--- a/src/puda/puda.cpp
+++ b/src/puda/puda.cpp
@@ -19,7 +19,7 @@ Puda::~Puda()
 
 msg_t Puda::compute_dlog(POINT1 c)
 {
-    for(uint16_t i=0; i!=USHRT_MAX; i++)
+    for(uint32_t i=0; i<=USHRT_MAX; i++)
     {
         if (pp.g1 * mpz_class(i) == c)
             return i;
-- 
2.43.0


From fd2a2cde810c506894d6ad941802419985a1625a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:48 +0000
Subject: [PATCH 15/22] fix: Shamir coefficients must be uniform in the field,
 not below 100

---
 src/shamirss/shamirss.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/shamirss/shamirss.cpp b/src/shamirss/shamirss.cpp
index b878c17..ea6d17b 100644
--- a/src/shamirss/shamirss.cpp
+++ b/src/shamirss/shamirss.cpp
@@ -3,6 +3,8 @@
 
 namespace sss
 {
+static gmp_randclass coef_rand = gmp_randclass(gmp_randinit_default);
+
 ShamirSS::ShamirSS()
 {
 
@@ -29,7 +31,7 @@ share_v_t ShamirSS::getShares(size_t t, size_t n, FIELD secret)
     share_v_t shares;
     for (size_t i = 0; i < t-1; i++)
     {
-        coefs.push_back(FIELD((rand()+1) %100));
+        coefs.push_back(FIELD(coef_rand.get_z_range(secret.getField())));
     }
 
     for (size_t i = 1; i <= n; i++)
-- 
2.43.0


From 5847392f7a74fd23cde85d9eceeb38fef719749d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:33 +0000
Subject: [PATCH 16/22] fix: the generator of a copied curve referred to the
 original curve after its destruction

---
 includes/ecc_template.hpp | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/includes/ecc_template.hpp b/includes/ecc_template.hpp
index 51db509..583d556 100644
--- a/includes/ecc_template.hpp
+++ b/includes/ecc_template.hpp
@@ -88,6 +88,10 @@ class Curve
     
     public:
 
+        Curve() {}
+        Curve(const Curve& c) {*this = c;}
+        Curve& operator= (const Curve& c);
+
         template<typename T1, typename T2, typename T3, typename T4>
         friend bool operator==(const Curve<T1,T2,T3,T4>& curve, const Curve<T1,T2,T3,T4>& c);
         template<typename T1, typename T2, typename T3, typename T4>
@@ -602,6 +606,31 @@ Field_XXX_n
 
 
 
+// the generator of a copy belongs to the copy, which may outlive the original
+template<
+        typename Curve_XXX,
+        typename Point_XXX, 
+        typename Field_XXX_p, 
+        typename Field_XXX_n
+        >
+Curve<Curve_XXX, Point_XXX, Field_XXX_p, Field_XXX_n>& Curve<
+Curve_XXX, 
+Point_XXX, 
+Field_XXX_p, 
+Field_XXX_n
+>::operator= (const Curve& c)
+{
+    prime = c.prime;
+    a = c.a;
+    b = c.b;
+    G = c.G;
+    G.curve = static_cast<Curve_XXX*>(this);
+    order = c.order;
+    cofactor = c.cofactor;
+    return *this;
+}
+
+
 template<
         typename Curve_XXX,
         typename Point_XXX, 
-- 
2.43.0


From fe7c4ecef64e69b931e390b204c7a8e3c2decf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:33 +0000
Subject: [PATCH 17/22] fix: copies of DME_DDH deleted the same curve, and
 returned points outlived it

---
 includes/dme.hpp |  4 ++--
 src/dme/dme.cpp  | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/includes/dme.hpp b/includes/dme.hpp
index 5bb7b75..e0f1fe7 100644
--- a/includes/dme.hpp
+++ b/includes/dme.hpp
@@ -100,7 +100,8 @@ class DME_DDH
 private:
     static const size_t secparam = 256; //bits
     
-    CURVE* curve =  new CURVE;
+    CURVE* curve = sharedCurve();
+    static CURVE* sharedCurve();
 
     mode_t mode;  
     td_messy_ddh_t td_m;
@@ -116,7 +117,6 @@ public:
     DME_DDH();
     DME_DDH(mode_t mu);
     DME_DDH(crs_ddh_t crs);
-    ~DME_DDH();
     
     CURVE* getCurve(void) {return curve;}
 
diff --git a/src/dme/dme.cpp b/src/dme/dme.cpp
index 257edac..ed93411 100644
--- a/src/dme/dme.cpp
+++ b/src/dme/dme.cpp
@@ -184,15 +184,15 @@ DME_DDH::DME_DDH(crs_ddh_t crs)
 }
 
 
-DME_DDH::~DME_DDH()
+// Points, keys and ciphertexts keep a pointer to their curve: it is shared by all
+// instances (and their copies) and never deleted.
+CURVE* DME_DDH::sharedCurve()
 {
-    if (curve)
-        delete curve;
+    static CURVE* shared = new CURVE;
+    return shared;
 }
 
 
-
-
 keypair_t DME_DDH::KeyGen(branch_t branch) const
 {
     skey_t sk = curve->getRandomScalar();
-- 
2.43.0


From 1f03eab0e90a93a850f25d29c0ca59f420e48561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:33 +0000
Subject: [PATCH 18/22] fix: copies of Puda deleted the same curves, and
 returned points outlived them

---
 includes/puda.hpp |  1 -
 src/puda/puda.cpp | 13 +++++--------
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/includes/puda.hpp b/includes/puda.hpp
index 361cec4..5769647 100644
--- a/includes/puda.hpp
+++ b/includes/puda.hpp
@@ -72,7 +72,6 @@ private:
 
 public:
   Puda();
-  ~Puda();
 
   std::tuple<ek_v_t, sk_v_t, ak_t, vk_t> Setup(size_t n);
   ctxt_t Enc(ek_t ek, msg_t m, int t); 
diff --git a/src/puda/puda.cpp b/src/puda/puda.cpp
index 03a0f44..83d27c3 100644
--- a/src/puda/puda.cpp
+++ b/src/puda/puda.cpp
@@ -7,14 +7,11 @@ namespace puda
 
 Puda::Puda()
 {
-    pp.curve1 = new CURVE1;
-    pp.curve2 = new CURVE2;
-}
-
-Puda::~Puda()
-{
-    delete pp.curve1;
-    delete pp.curve2;
+    // shared by all instances and never deleted: points keep a pointer to their curve
+    static CURVE1* shared1 = new CURVE1;
+    static CURVE2* shared2 = new CURVE2;
+    pp.curve1 = shared1;
+    pp.curve2 = shared2;
 }
 
 msg_t Puda::compute_dlog(POINT1 c)
-- 
2.43.0


From 02c594e62371c4c50c933c66930d3d9ff5f772ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:33 +0000
Subject: [PATCH 19/22] fix: keys and ciphertexts returned by ElGamal referred
 to its curve after its destruction

---
 includes/elgamal.hpp    |  7 ++++---
 src/elgamal/elgamal.cpp | 13 ++++++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/includes/elgamal.hpp b/includes/elgamal.hpp
index b3f90a0..ee3dc98 100644
--- a/includes/elgamal.hpp
+++ b/includes/elgamal.hpp
@@ -32,7 +32,8 @@ typedef struct KeyPair
 class ElGamal
 {
 private:
-    CURVE curve;
+    CURVE* curve = sharedCurve();
+    static CURVE* sharedCurve();
 
     POINT encode(const mpz_class msg);
     mpz_class decode(const POINT P) const;
@@ -44,8 +45,8 @@ public:
     keypair_t keyGen() const
     {
         keypair_t keys;
-        keys.sk = curve.getRandomScalar();
-        keys.pk = curve.getDefaultGen() * keys.sk;
+        keys.sk = curve->getRandomScalar();
+        keys.pk = curve->getDefaultGen() * keys.sk;
         return keys;
     }
     
diff --git a/src/elgamal/elgamal.cpp b/src/elgamal/elgamal.cpp
index f2e709f..7dc3407 100644
--- a/src/elgamal/elgamal.cpp
+++ b/src/elgamal/elgamal.cpp
@@ -6,12 +6,19 @@
 namespace elgamal
 {
 static const unsigned int l = 20;
+
+// shared by all instances and never deleted: points keep a pointer to their curve
+CURVE* ElGamal::sharedCurve()
+{
+    static CURVE* shared = new CURVE;
+    return shared;
+}
   
 ctxt_t ElGamal::encrypt(const pkey_t pkey, const POINT msg) const
 {
     ctxt_t c;
-    FIELD_n r = curve.getRandomScalar();
-    c.u = curve.getDefaultGen() * r; 
+    FIELD_n r = curve->getRandomScalar();
+    c.u = curve->getDefaultGen() * r; 
     c.mv = pkey * r + msg;
     return c;
 }
@@ -39,7 +46,7 @@ POINT ElGamal::encode(const mpz_class msg)
     POINT m;
     while(m.isInf())
     {
-        m = curve.evaluateP(FIELD_p(res));
+        m = curve->evaluateP(FIELD_p(res));
         res+=1;
     }
     return m;
-- 
2.43.0


From 81704e20f2e4fe11698c0b496d62519b2c3e223f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:33 +0000
Subject: [PATCH 20/22] verification hook: width of OPPRF messages
 (CRYPTO_UTILS_VERIF_MSG_BITS)

---
 includes/opprf.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/includes/opprf.hpp b/includes/opprf.hpp
index 999aac0..bb910eb 100644
--- a/includes/opprf.hpp
+++ b/includes/opprf.hpp
@@ -10,7 +10,12 @@
 
 namespace opprf
 {
+#ifdef CRYPTO_UTILS_VERIF_MSG_BITS
+// verification builds only: explore the protocol with a smaller message width
+#define MSG_BITS CRYPTO_UTILS_VERIF_MSG_BITS
+#else
 #define MSG_BITS 16
+#endif
 
 typedef dme::POINT Gk_t;
 typedef dme::POINT G_t;
-- 
2.43.0


From ecdaeb49c8182431f8b7dfbb858a6804bea09cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:00 +0000
Subject: [PATCH 21/22] fix: random generators were never seeded and returned
 the same values in every process

---
 includes/ecc_template.hpp   |  2 +-
 includes/utilities.hpp      | 16 ++++++++++++++++
 src/shamirss/shamirss.cpp   |  3 ++-
 src/utilities/utilities.cpp |  2 +-
 4 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/includes/ecc_template.hpp b/includes/ecc_template.hpp
index 583d556..b297795 100644
--- a/includes/ecc_template.hpp
+++ b/includes/ecc_template.hpp
@@ -800,7 +800,7 @@ Curve_XXX,
 Point_XXX, 
 Field_XXX_p, 
 Field_XXX_n
->::rand(gmp_randinit_default);
+>::rand(utils::randInit);
 
 } // namespace ecc
 
diff --git a/includes/utilities.hpp b/includes/utilities.hpp
index 2e4b141..af34922 100644
--- a/includes/utilities.hpp
+++ b/includes/utilities.hpp
@@ -2,9 +2,25 @@
 #define __UTILS__
 
 #include <gmpxx.h>
+#include <random>
 
 namespace utils
 {
+/*
+ * Initializes a generator with a seed from the system's entropy source: a
+ * default-initialized one returns the same values in every process.
+ */
+inline void randInit(gmp_randstate_t state)
+{
+    std::random_device entropy;
+    mpz_class seed;
+    for (int i = 0; i < 8; i++)
+        seed = (seed << 32) + entropy();
+
+    gmp_randinit_default(state);
+    gmp_randseed(state, seed.get_mpz_t());
+}
+
 mpz_class getRandom(size_t bits);
 
 mpz_class setRawMpz(uint8_t* arr, size_t len);
diff --git a/src/shamirss/shamirss.cpp b/src/shamirss/shamirss.cpp
index ea6d17b..af6cab6 100644
--- a/src/shamirss/shamirss.cpp
+++ b/src/shamirss/shamirss.cpp
@@ -1,9 +1,10 @@
 #include "shamirss.hpp"
+#include "utilities.hpp"
 
 
 namespace sss
 {
-static gmp_randclass coef_rand = gmp_randclass(gmp_randinit_default);
+static gmp_randclass coef_rand = gmp_randclass(utils::randInit);
 
 ShamirSS::ShamirSS()
 {
diff --git a/src/utilities/utilities.cpp b/src/utilities/utilities.cpp
index ba7d821..ee8d85c 100644
--- a/src/utilities/utilities.cpp
+++ b/src/utilities/utilities.cpp
@@ -5,7 +5,7 @@
 
 namespace utils
 {
-static gmp_randclass rand = gmp_randclass(gmp_randinit_default);
+static gmp_randclass rand = gmp_randclass(randInit);
 
 mpz_class getRandom(size_t bits)
 {
-- 
2.43.0


From 4464e1fde0e22cdfeb8e2e156555cb68543b327b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:54 +0000
Subject: [PATCH 22/22] fix: the order of the OPPRF server's ciphertexts came
 from unseeded rand()

---
 src/opprf/opprf.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/opprf/opprf.cpp b/src/opprf/opprf.cpp
index 9fcf203..7ee341d 100644
--- a/src/opprf/opprf.cpp
+++ b/src/opprf/opprf.cpp
@@ -1,4 +1,6 @@
+#include <algorithm>
 #include <bitset>
+#include <random>
 
 #include "opprf.hpp"
 #include "utilities.hpp"
@@ -106,7 +108,7 @@ ot_ctxts_t OPPRFserver::runOTRound(short round, dme::pkey_t pk)
         c.ctxt[0] = ots.encMsgs(pk, Si0[round].k_lt, Si1[round].k_lt);
         c.ctxt[1] = ots.encMsgs(pk, Si0[round].k_eq, Si1[round].k_eq);
         c.ctxt[2] = ots.encMsgs(pk, Si0[round].k_gt, Si1[round].k_gt);
-        std::random_shuffle(c.ctxt.begin(), c.ctxt.end());
+        std::shuffle(c.ctxt.begin(), c.ctxt.end(), std::random_device());
 
         c.cprf = ots.encMsgs(pk, Si0[round].prf, Si1[round].prf);
     }
@@ -129,7 +131,7 @@ symctxt_t OPPRFserver::sendEncryptedMasks()
     c[0] = aes.encryptCRC(k_lt[0], mask.getEncodedX());
     c[1] = aes.encryptCRC(k_eq[0], mask.getEncodedX());
     c[2] = aes.encryptCRC(k_gt[0], curve->getRandomPoint().getEncodedX());
-    std::random_shuffle(c.begin(), c.end());
+    std::shuffle(c.begin(), c.end(), std::random_device());
  
     return c;
 }
-- 
2.43.0

