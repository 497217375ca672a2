From 9683d15e01b8cf202e70d5d2663e90b5467481fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:46 +0000
Subject: [PATCH 1/8] fix: report entropy failures in keygen and sign

The return value of rand_bytes was ignored: with a failing or short
entropy source keygen and sign returned success with a key pair or
signature derived from uninitialized memory.
---
 faest_param.c.in | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/faest_param.c.in b/faest_param.c.in
index b433613..705f597 100644
--- a/faest_param.c.in
+++ b/faest_param.c.in
@@ -32,7 +32,10 @@ int FAEST_CALLING_CONVENTION faest_@PARAM_L@_keygen(uint8_t* pk, uint8_t* sk) {
 
   bool done = false;
   while (!done) {
-    rand_bytes(sk, @SK_SIZE@);
+    if (rand_bytes(sk, @SK_SIZE@)) {
+      // entropy source failed
+      return -1;
+    }
     // declassify OWF input
     faest_declassify(SK_INPUT(sk), @PK_SIZE@ / 2);
     done = faest_@PARAM_L@_owf(SK_KEY(sk), SK_INPUT(sk), PK_OUTPUT(pk));
@@ -86,7 +89,10 @@ int FAEST_CALLING_CONVENTION faest_@PARAM_L@_sign(const uint8_t* sk, const uint8
   }
 
   uint8_t rho[FAEST_@PARAM@_LAMBDA / 8];
-  rand_bytes(rho, sizeof(rho));
+  if (rand_bytes(rho, sizeof(rho))) {
+    // entropy source failed
+    return -1;
+  }
 
   return faest_@PARAM_L@_sign_with_randomness(sk, message, message_len, rho, sizeof(rho), signature, signature_len);
 }
-- 
2.43.0


From 37310c1f1104f4c5398ffa7f56bf9fc6476cee73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:46 +0000
Subject: [PATCH 2/8] fix: do not loop forever if /dev/urandom reports end of
 file

---
 randomness.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/randomness.c b/randomness.c
index 039ebdb..3967127 100644
--- a/randomness.c
+++ b/randomness.c
@@ -109,6 +109,11 @@ int rand_bytes(uint8_t* dst, size_t len) {
       close(fd);
       return -1;
     }
+    if (ret == 0) {
+      // end of file; there is nothing left to read and retrying would never terminate
+      close(fd);
+      return -1;
+    }
 
     dst += ret;
     len -= ret;
-- 
2.43.0


From 9709ad2ad833a118a26e695defc6cdd112bd214a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:04 +0000
Subject: [PATCH 3/8] fix: stop if OpenSSL fails in prg instead of using an
 unfilled buffer

The results of the EVP calls were ignored (and the check of the context
vanished with NDEBUG), so a failing provider left the PRG output
unchanged and sign still returned success with a signature revealing the
secret key.
---
 aes.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/aes.c b/aes.c
index 5021762..d229c2a 100644
--- a/aes.c
+++ b/aes.c
@@ -15,6 +15,7 @@
 #if defined(HAVE_OPENSSL)
 #include <openssl/evp.h>
 #endif
+#include <stdlib.h>
 #include <string.h>
 
 #define ROUNDS_128 10
@@ -371,21 +372,28 @@ void prg(const uint8_t* key, const uint8_t* iv, uint8_t* out, unsigned int seclv
     break;
   }
 
+  // Continuing after a failure would leave (parts of) out uninitialized and thus leak secrets.
   EVP_CIPHER_CTX* ctx = EVP_CIPHER_CTX_new();
-  assert(ctx);
-
-  EVP_EncryptInit_ex(ctx, cipher, NULL, key, iv);
+  if (!ctx || EVP_EncryptInit_ex(ctx, cipher, NULL, key, iv) != 1) {
+    abort();
+  }
 
   static const uint8_t plaintext[16] = {0};
 
   int len = 0;
   for (size_t idx = 0; idx < outlen / 16; idx += 1, out += 16) {
-    EVP_EncryptUpdate(ctx, out, &len, plaintext, sizeof(plaintext));
+    if (EVP_EncryptUpdate(ctx, out, &len, plaintext, sizeof(plaintext)) != 1) {
+      abort();
+    }
   }
   if (outlen % 16) {
-    EVP_EncryptUpdate(ctx, out, &len, plaintext, outlen % 16);
+    if (EVP_EncryptUpdate(ctx, out, &len, plaintext, outlen % 16) != 1) {
+      abort();
+    }
+  }
+  if (EVP_EncryptFinal_ex(ctx, out, &len) != 1) {
+    abort();
   }
-  EVP_EncryptFinal_ex(ctx, out, &len);
   EVP_CIPHER_CTX_free(ctx);
 #endif
 }
-- 
2.43.0


From 99de5b3bc477f8c09dda365cf4a24370648fdb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:42 +0000
Subject: [PATCH 4/8] fix: let the KAT generator fail if its files cannot be
 written completely

Write errors (full disk, I/O errors) were ignored and the generator
exited with KAT_SUCCESS and truncated files.
---
 tools/PQCgenKAT_sign.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/tools/PQCgenKAT_sign.cpp b/tools/PQCgenKAT_sign.cpp
index f2b5ecd..403fb46 100644
--- a/tools/PQCgenKAT_sign.cpp
+++ b/tools/PQCgenKAT_sign.cpp
@@ -19,6 +19,7 @@ extern "C" {
 
 #define KAT_SUCCESS 0
 #define KAT_FILE_OPEN_ERROR -1
+#define KAT_FILE_WRITE_ERROR -2
 #define KAT_CRYPTO_FAILURE -4
 
 namespace {
@@ -79,6 +80,12 @@ int main() {
 
       fp_req << "pk =\nsk = \nsmlen =\nsm=\n" << std::endl;
     }
+
+    fp_req.close();
+    if (!fp_req) {
+      std::cout << "Couldn't write <" << fn_req << ">" << std::endl;
+      return KAT_FILE_WRITE_ERROR;
+    }
   }
 
   std::ofstream fp_rsp{fn_rsp.data()};
@@ -155,5 +162,11 @@ int main() {
     }
   }
 
+  fp_rsp.close();
+  if (!fp_rsp) {
+    std::cout << "Couldn't write <" << fn_rsp << ">" << std::endl;
+    return KAT_FILE_WRITE_ERROR;
+  }
+
   return KAT_SUCCESS;
 }
-- 
2.43.0


From 4b54a68cb946b46081d757c2cfdf9aacdbb08dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:52 +0000
Subject: [PATCH 5/8] fix: detect read and write errors in the NIST KAT
 generator

Failing writes were ignored and a request file ending early (read error)
resulted in KAT_SUCCESS with an incomplete response file.
---
 tools/PQCgenKAT_sign.c | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/tools/PQCgenKAT_sign.c b/tools/PQCgenKAT_sign.c
index da35c5d..0899fa1 100644
--- a/tools/PQCgenKAT_sign.c
+++ b/tools/PQCgenKAT_sign.c
@@ -34,6 +34,7 @@ developed by NIST employees is not subject to copyright protection within the Un
 
 #define KAT_SUCCESS 0
 #define KAT_FILE_OPEN_ERROR -1
+#define KAT_FILE_WRITE_ERROR -2
 #define KAT_DATA_ERROR -3
 #define KAT_CRYPTO_FAILURE -4
 
@@ -85,7 +86,11 @@ int main() {
     fprintf(fp_req, "smlen =\n");
     fprintf(fp_req, "sm =\n\n");
   }
-  fclose(fp_req);
+  ret_val = ferror(fp_req);
+  if (fclose(fp_req) != 0 || ret_val) {
+    printf("Couldn't write <%s>\n", fn_req);
+    return KAT_FILE_WRITE_ERROR;
+  }
 
   // Create the RESPONSE file based on what's in the REQUEST file
   if ((fp_req = fopen(fn_req, "r")) == NULL) {
@@ -94,7 +99,8 @@ int main() {
   }
 
   fprintf(fp_rsp, "# %s\n\n", CRYPTO_ALGNAME);
-  done = 0;
+  done  = 0;
+  count = -1;
   do {
     if (FindMarker(fp_req, "count = "))
       fscanf(fp_req, "%d", &count);
@@ -167,8 +173,17 @@ int main() {
 
   } while (!done);
 
+  if (ferror(fp_req) || count != 99) {
+    printf("ERROR: unable to read all requests from <%s>\n", fn_req);
+    return KAT_DATA_ERROR;
+  }
   fclose(fp_req);
-  fclose(fp_rsp);
+
+  ret_val = ferror(fp_rsp);
+  if (fclose(fp_rsp) != 0 || ret_val) {
+    printf("Couldn't write <%s>\n", fn_rsp);
+    return KAT_FILE_WRITE_ERROR;
+  }
 
   return KAT_SUCCESS;
 }
@@ -223,7 +238,7 @@ int ReadHex(FILE* infile, unsigned char* A, int Length, char* str) {
   }
   memset(A, 0x00, Length);
   started = 0;
-  if (FindMarker(infile, str))
+  if (FindMarker(infile, str)) {
     while ((ch = fgetc(infile)) != EOF) {
       if (!isxdigit(ch)) {
         if (!started) {
@@ -248,7 +263,9 @@ int ReadHex(FILE* infile, unsigned char* A, int Length, char* str) {
         A[i] = (A[i] << 4) | (A[i + 1] >> 4);
       A[Length - 1] = (A[Length - 1] << 4) | ich;
     }
-  else
+    if (ch == EOF)
+      return 0;
+  } else
     return 0;
 
   return 1;
-- 
2.43.0


From c91efe6d0c92a4de787e1c88eb412e95760c55ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:13 +0000
Subject: [PATCH 6/8] fix: make hash_init_prefix_x4 compile with the OQS hash
 back end

The function used a parameter name that it does not have.
---
 hash_shake.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hash_shake.h b/hash_shake.h
index e32d2b7..3d607a4 100644
--- a/hash_shake.h
+++ b/hash_shake.h
@@ -138,7 +138,7 @@ static inline void hash_update_x4_1(hash_context_x4* ctx, const uint8_t* data, s
   }
 }
 
-static inline void hash_init_prefix_x4(hash_context_x4* ctx, unsigned int security_parameter,
+static inline void hash_init_prefix_x4(hash_context_x4* ctx, unsigned int security_param,
                                        const uint8_t prefix) {
   if (security_param == 128) {
     OQS_SHA3_shake128_x4_inc_init(&ctx->shake128_ctx);
-- 
2.43.0


From 25fe43c8a5804d8ce3f7385476bef97f5389312d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:49 +0000
Subject: [PATCH 7/8] fix: let the submission packager fail if a source
 directory cannot be read

---
 tools/prepare_nist.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/tools/prepare_nist.py b/tools/prepare_nist.py
index 8143d84..3a34e14 100644
--- a/tools/prepare_nist.py
+++ b/tools/prepare_nist.py
@@ -7,6 +7,11 @@ import os
 from pathlib import Path
 
 
+def files_in(directory: Path, suffix: str):
+    # in contrast to Path.glob, this fails if the directory cannot be read
+    return [path for path in directory.iterdir() if path.suffix == suffix]
+
+
 def generate(
     project_root: Path, build_root: Path, target_root: Path, param_name: str
 ) -> None:
@@ -30,9 +35,9 @@ def generate(
     tools_sources = project_root / "tools"
 
     # copy FAEST implementation
-    for source in project_root.glob("*.c"):
+    for source in files_in(project_root, ".c"):
         shutil.copy(source, target)
-    for header in project_root.glob("*.h"):
+    for header in files_in(project_root, ".h"):
         shutil.copy(header, target)
 
     # copy generated files
@@ -43,22 +48,22 @@ def generate(
         shutil.copy(build_param / build_source, target)
 
     # copy sha3 sources
-    for source in sha3_sources.glob("*.c"):
+    for source in files_in(sha3_sources, ".c"):
         shutil.copy(source, target_sha3)
-    for header in sha3_sources.glob("*.h"):
+    for header in files_in(sha3_sources, ".h"):
         shutil.copy(header, target_sha3)
-    for source in sha3_sources.glob("*.macros"):
+    for source in files_in(sha3_sources, ".macros"):
         shutil.copy(source, target_sha3)
-    for source in sha3_sources.glob("*.inc"):
+    for source in files_in(sha3_sources, ".inc"):
         shutil.copy(source, target_sha3)
     sha3_sources = sha3_sources / "opt64"
-    for source in sha3_sources.glob("*.c"):
+    for source in files_in(sha3_sources, ".c"):
         shutil.copy(source, target_sha3)
-    for header in sha3_sources.glob("*.h"):
+    for header in files_in(sha3_sources, ".h"):
         shutil.copy(header, target_sha3)
-    for source in sha3_sources.glob("*.macros"):
+    for source in files_in(sha3_sources, ".macros"):
         shutil.copy(source, target_sha3)
-    for source in sha3_sources.glob("*.inc"):
+    for source in files_in(sha3_sources, ".inc"):
         shutil.copy(source, target_sha3)
 
     # copy tests
-- 
2.43.0


From 6c49ec867f5fe5f41d989a3107e27e8882e3e386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:13 +0000
Subject: [PATCH 8/8] fix: do not truncate lengths of 4 GiB and more in the
 Keccak sponge

The remaining length was truncated to 32 bits before it was compared with the
space left in the current block. Depending on the length and the position in the
block, hashing (and thus signing or verifying) a message of about 4 GiB or more
wrote far beyond the state or never terminated.
---
 sha3/KeccakSponge.inc       | 10 ++++++----
 sha3/KeccakSpongetimes4.inc | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/sha3/KeccakSponge.inc b/sha3/KeccakSponge.inc
index 7008092..0b750df 100644
--- a/sha3/KeccakSponge.inc
+++ b/sha3/KeccakSponge.inc
@@ -187,9 +187,10 @@ int SpongeAbsorb(SpongeInstance *instance, const unsigned char *data, size_t dat
         }
         else {
             /* normal lane: using the message queue */
-            partialBlock = (unsigned int)(dataByteLen - i);
-            if (partialBlock+instance->byteIOIndex > rateInBytes)
+            if (dataByteLen-i > rateInBytes-instance->byteIOIndex)
                 partialBlock = rateInBytes-instance->byteIOIndex;
+            else
+                partialBlock = (unsigned int)(dataByteLen - i);
             #ifdef KeccakReference
             displayBytes(1, "Block to be absorbed (part)", curData, partialBlock);
             #endif
@@ -281,9 +282,10 @@ int SpongeSqueeze(SpongeInstance *instance, unsigned char *data, size_t dataByte
                 SnP_Permute(instance->state);
                 instance->byteIOIndex = 0;
             }
-            partialBlock = (unsigned int)(dataByteLen - i);
-            if (partialBlock+instance->byteIOIndex > rateInBytes)
+            if (dataByteLen-i > rateInBytes-instance->byteIOIndex)
                 partialBlock = rateInBytes-instance->byteIOIndex;
+            else
+                partialBlock = (unsigned int)(dataByteLen - i);
             i += partialBlock;
 
             SnP_ExtractBytes(instance->state, curData, instance->byteIOIndex, partialBlock);
diff --git a/sha3/KeccakSpongetimes4.inc b/sha3/KeccakSpongetimes4.inc
index 080e2e5..2e2d295 100644
--- a/sha3/KeccakSpongetimes4.inc
+++ b/sha3/KeccakSpongetimes4.inc
@@ -96,9 +96,10 @@ int SpongeAbsorb(SpongeInstance *instance, const unsigned char **data, size_t da
         }
         else {
             /* normal lane: using the message queue */
-            partialBlock = (unsigned int)(dataByteLen - i);
-            if (partialBlock+instance->byteIOIndex > rateInBytes)
+            if (dataByteLen-i > rateInBytes-instance->byteIOIndex)
                 partialBlock = rateInBytes-instance->byteIOIndex;
+            else
+                partialBlock = (unsigned int)(dataByteLen - i);
             i += partialBlock;
 
             for(unsigned int instanceIndex = 0; instanceIndex < 4; instanceIndex++) {
@@ -179,9 +180,10 @@ int SpongeSqueeze(SpongeInstance *instance, unsigned char **data, size_t dataByt
                 PlSnP_Permute(instance->state);
                 instance->byteIOIndex = 0;
             }
-            partialBlock = (unsigned int)(dataByteLen - i);
-            if (partialBlock+instance->byteIOIndex > rateInBytes)
+            if (dataByteLen-i > rateInBytes-instance->byteIOIndex)
                 partialBlock = rateInBytes-instance->byteIOIndex;
+            else
+                partialBlock = (unsigned int)(dataByteLen - i);
             i += partialBlock;
 
             for(unsigned int instanceIndex = 0; instanceIndex < 4; instanceIndex++) {
-- 
2.43.0

