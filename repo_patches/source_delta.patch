From 4b10db7bc3ca6b155dc2425a5822459e8bdb6153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:18 +0000
Subject: [PATCH 01/76] fix: do not write past the digest buffer when a digest
 string is too long

---
 src/drpm_utils.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/drpm_utils.c b/src/drpm_utils.c
index 6ef0f2f..ff3ad89 100644
--- a/src/drpm_utils.c
+++ b/src/drpm_utils.c
@@ -146,12 +146,14 @@ ssize_t parse_hexnum(const char *str, size_t size)
 
 bool parse_md5(unsigned char *dest, const char *source)
 {
-    return parse_hex(dest, source) == MD5_DIGEST_LENGTH;
+    return strlen(source) / 2 == MD5_DIGEST_LENGTH &&
+           parse_hex(dest, source) == MD5_DIGEST_LENGTH;
 }
 
 bool parse_sha256(unsigned char *dest, const char *source)
 {
-    return parse_hex(dest, source) == SHA256_DIGEST_LENGTH;
+    return strlen(source) / 2 == SHA256_DIGEST_LENGTH &&
+           parse_hex(dest, source) == SHA256_DIGEST_LENGTH;
 }
 
 /* Reallocates memory for <*buffer> <threshold> bytes at a time>. */
-- 
2.43.0


From 403753b28a41218909f093c9d7bf8233e2261a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 02/76] Verification hooks: allow small buffer sizes under
 DRPM_VERIFY

---
 src/drpm_apply.c   |  7 +++++++
 src/drpm_block.c   | 15 +++++++++++++++
 src/drpm_diff.c    |  7 +++++++
 src/drpm_make.c    | 14 ++++++++++++++
 src/drpm_private.h |  7 +++++++
 src/drpm_rpm.c     |  7 +++++++
 src/drpm_search.c  |  8 ++++++++
 7 files changed, 65 insertions(+)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index fc6e032..c00f1de 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -35,6 +35,13 @@
 
 #define BUFFER_SIZE 4096
 
+#ifdef DRPM_VERIFY /* sizes for bounded verification */
+#ifdef DRPM_VERIFY_BUFFER_SIZE
+#undef BUFFER_SIZE
+#define BUFFER_SIZE DRPM_VERIFY_BUFFER_SIZE
+#endif
+#endif
+
 struct checksum {
     unsigned short digest_algo;
     union {
diff --git a/src/drpm_block.c b/src/drpm_block.c
index c5607da..0642128 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -39,6 +39,21 @@
 
 #define BLOCK_SIZE (1 << 13)
 
+#ifdef DRPM_VERIFY /* sizes for bounded verification */
+#ifdef DRPM_VERIFY_MAX_OPEN_FILES
+#undef MAX_OPEN_FILES
+#define MAX_OPEN_FILES DRPM_VERIFY_MAX_OPEN_FILES
+#endif
+#ifdef DRPM_VERIFY_MAX_CORE_BLOCKS
+#undef MAX_CORE_BLOCKS
+#define MAX_CORE_BLOCKS DRPM_VERIFY_MAX_CORE_BLOCKS
+#endif
+#ifdef DRPM_VERIFY_BLOCK_SIZE
+#undef BLOCK_SIZE
+#define BLOCK_SIZE DRPM_VERIFY_BLOCK_SIZE
+#endif
+#endif
+
 #define BLK_FREE 0
 #define BLK_CORE 1
 #define BLK_CORE_NOPAGE 2
diff --git a/src/drpm_diff.c b/src/drpm_diff.c
index 8de8bf8..75ed98a 100644
--- a/src/drpm_diff.c
+++ b/src/drpm_diff.c
@@ -49,6 +49,13 @@
 
 #define BUFFER_SIZE 4096
 
+#ifdef DRPM_VERIFY /* sizes for bounded verification */
+#ifdef DRPM_VERIFY_BUFFER_SIZE
+#undef BUFFER_SIZE
+#define BUFFER_SIZE DRPM_VERIFY_BUFFER_SIZE
+#endif
+#endif
+
 struct diff_copy {
     size_t old_off;
     size_t old_len;
diff --git a/src/drpm_make.c b/src/drpm_make.c
index 00d2f10..85cb2a9 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -39,12 +39,26 @@
 
 #define BUFFER_SIZE 4096
 
+#ifdef DRPM_VERIFY /* sizes for bounded verification */
+#ifdef DRPM_VERIFY_BUFFER_SIZE
+#undef BUFFER_SIZE
+#define BUFFER_SIZE DRPM_VERIFY_BUFFER_SIZE
+#endif
+#endif
+
 #define IN_MULTILIB_DIR(path) (strstr((path), "lib/") != NULL ||\
                                strstr((path), "lib32/") != NULL ||\
                                strstr((path), "lib64/") != NULL)
 
 #define CPIO_ALLOC_SIZE 65536
 
+#ifdef DRPM_VERIFY /* sizes for bounded verification */
+#ifdef DRPM_VERIFY_CPIO_ALLOC_SIZE
+#undef CPIO_ALLOC_SIZE
+#define CPIO_ALLOC_SIZE DRPM_VERIFY_CPIO_ALLOC_SIZE
+#endif
+#endif
+
 #define MAGIC_RPML 0x52504D4C
 
 #ifndef RPMFILE_UNPATCHED
diff --git a/src/drpm_private.h b/src/drpm_private.h
index c06a6d1..a2f539c 100644
--- a/src/drpm_private.h
+++ b/src/drpm_private.h
@@ -34,6 +34,13 @@
 
 #define CHUNK_SIZE 1024
 
+#ifdef DRPM_VERIFY /* sizes for bounded verification */
+#ifdef DRPM_VERIFY_CHUNK_SIZE
+#undef CHUNK_SIZE
+#define CHUNK_SIZE DRPM_VERIFY_CHUNK_SIZE
+#endif
+#endif
+
 #define CREAT_MODE (S_IRUSR | S_IWUSR | S_IRGRP | S_IWGRP | S_IROTH | S_IWOTH)
 
 #define DIGESTALGO_MD5 0
diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index a39510a..7bb919d 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -32,6 +32,13 @@
 
 #define BUFFER_SIZE 4096
 
+#ifdef DRPM_VERIFY /* sizes for bounded verification */
+#ifdef DRPM_VERIFY_BUFFER_SIZE
+#undef BUFFER_SIZE
+#define BUFFER_SIZE DRPM_VERIFY_BUFFER_SIZE
+#endif
+#endif
+
 /* RFC 4880 - Section 9.4. Hash Algorithms */
 #define RFC4880_HASH_ALGO_MD5 1
 #define RFC4880_HASH_ALGO_SHA256 8
diff --git a/src/drpm_search.c b/src/drpm_search.c
index 008b7f8..135132d 100644
--- a/src/drpm_search.c
+++ b/src/drpm_search.c
@@ -73,6 +73,14 @@ size_t match_len(const unsigned char *old, size_t old_len,
 /********************************* hash *********************************/
 
 #define HSIZESHIFT 4
+
+#ifdef DRPM_VERIFY /* sizes for bounded verification */
+#ifdef DRPM_VERIFY_HSIZESHIFT
+#undef HSIZESHIFT
+#define HSIZESHIFT DRPM_VERIFY_HSIZESHIFT
+#endif
+#endif
+
 #define HSIZE (1 << HSIZESHIFT)
 
 struct hash {
-- 
2.43.0


From 4cbc08f59e933e4b44752eceb36736efc3b997ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:36 +0000
Subject: [PATCH 03/76] fix: do not wrap around when allocating space for a
 name of maximum length

---
 src/drpm_read.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/drpm_read.c b/src/drpm_read.c
index 6e2ffea..a511d5e 100644
--- a/src/drpm_read.c
+++ b/src/drpm_read.c
@@ -121,7 +121,7 @@ int readdelta_rest(int filedesc, struct deltarpm *delta)
     if ((error = decompstrm_read_be32(stream, &src_nevr_len)) != DRPM_ERR_OK)
         goto cleanup;
 
-    if ((delta->src_nevr = malloc(src_nevr_len + 1)) == NULL) {
+    if ((delta->src_nevr = malloc((size_t)src_nevr_len + 1)) == NULL) {
         error = DRPM_ERR_MEMORY;
         goto cleanup;
     }
@@ -379,7 +379,7 @@ int readdelta_rpmonly(int filedesc, struct deltarpm *delta)
 
     /* reading target NEVR */
 
-    if ((delta->head.tgt_nevr = malloc(tgt_nevr_len + 1)) == NULL)
+    if ((delta->head.tgt_nevr = malloc((size_t)tgt_nevr_len + 1)) == NULL)
         return DRPM_ERR_MEMORY;
 
     if ((bytes_read = read(filedesc, delta->head.tgt_nevr, tgt_nevr_len)) < 0)
-- 
2.43.0


From f5b89c4d0b60679c75ecd9395576d2b27648187b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:36 +0000
Subject: [PATCH 04/76] fix: do not wrap around when allocating copies and
 offset adjustments

---
 src/drpm_read.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/drpm_read.c b/src/drpm_read.c
index a511d5e..2748be4 100644
--- a/src/drpm_read.c
+++ b/src/drpm_read.c
@@ -190,9 +190,14 @@ int readdelta_rest(int filedesc, struct deltarpm *delta)
                 (error = decompstrm_read_be32(stream, &delta->offadj_elems_count)) != DRPM_ERR_OK)
                 goto cleanup;
 
+            if (delta->offadj_elems_count > UINT32_MAX / 2) {
+                error = DRPM_ERR_OVERFLOW;
+                goto cleanup;
+            }
+
             if (delta->offadj_elems_count > 0) {
                 offadj_elems_size = delta->offadj_elems_count * 2;
-                if ((delta->offadj_elems = malloc(offadj_elems_size * 4)) == NULL) {
+                if ((delta->offadj_elems = malloc((size_t)offadj_elems_size * 4)) == NULL) {
                     error = DRPM_ERR_MEMORY;
                     goto cleanup;
                 }
@@ -240,11 +245,17 @@ int readdelta_rest(int filedesc, struct deltarpm *delta)
         (error = decompstrm_read_be32(stream, &delta->ext_copies_count)) != DRPM_ERR_OK)
         goto cleanup;
 
+    if (delta->int_copies_count > UINT32_MAX / 2 ||
+        delta->ext_copies_count > UINT32_MAX / 2) {
+        error = DRPM_ERR_OVERFLOW;
+        goto cleanup;
+    }
+
     int_copies_size = delta->int_copies_count * 2;
     ext_copies_size = delta->ext_copies_count * 2;
 
     if (int_copies_size > 0) {
-        if ((delta->int_copies = malloc(int_copies_size * 4)) == NULL) {
+        if ((delta->int_copies = malloc((size_t)int_copies_size * 4)) == NULL) {
             error = DRPM_ERR_MEMORY;
             goto cleanup;
         }
@@ -257,7 +268,7 @@ int readdelta_rest(int filedesc, struct deltarpm *delta)
     }
 
     if (ext_copies_size > 0) {
-        if ((delta->ext_copies = malloc(ext_copies_size * 4)) == NULL) {
+        if ((delta->ext_copies = malloc((size_t)ext_copies_size * 4)) == NULL) {
             error = DRPM_ERR_MEMORY;
             goto cleanup;
         }
-- 
2.43.0


From 2462a95e16680d88cb413f55cc01e07260ff3ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:36 +0000
Subject: [PATCH 05/76] fix: refuse deltas of an unknown format version

---
 src/drpm_read.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/drpm_read.c b/src/drpm_read.c
index 2748be4..bba0c20 100644
--- a/src/drpm_read.c
+++ b/src/drpm_read.c
@@ -110,6 +110,11 @@ int readdelta_rest(int filedesc, struct deltarpm *delta)
 
     delta->version = version % 256 - '0';
 
+    if (delta->version < 1 || delta->version > 3) {
+        error = DRPM_ERR_FORMAT;
+        goto cleanup;
+    }
+
     if (delta->version < 3 && delta->type == DRPM_TYPE_RPMONLY) {
         // rpm-only deltas only supported since version 3
         error = DRPM_ERR_FORMAT;
-- 
2.43.0


From 42eb96bfa6b94188438b78ab96299a39d247c20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:36 +0000
Subject: [PATCH 06/76] fix: refuse external data lengths for which copy
 offsets can wrap around

---
 src/drpm_read.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/drpm_read.c b/src/drpm_read.c
index bba0c20..f962289 100644
--- a/src/drpm_read.c
+++ b/src/drpm_read.c
@@ -298,6 +298,12 @@ int readdelta_rest(int filedesc, struct deltarpm *delta)
         delta->ext_data_len = ext_data_32;
     }
 
+    if (delta->ext_data_len > INT64_MAX) {
+        // offsets of external copies could wrap around
+        error = DRPM_ERR_OVERFLOW;
+        goto cleanup;
+    }
+
     /* reading add data */
 
     if ((error = decompstrm_read_be32(stream, &add_data_len)) != DRPM_ERR_OK)
-- 
2.43.0


From f704ad2afafa60cbb3e710037c0a8aa7c8f3f206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:36 +0000
Subject: [PATCH 07/76] fix: release the package when its compression cannot be
 determined

---
 src/drpm_read.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/drpm_read.c b/src/drpm_read.c
index f962289..585470d 100644
--- a/src/drpm_read.c
+++ b/src/drpm_read.c
@@ -440,11 +440,15 @@ int readdelta_standard(int filedesc, struct deltarpm *delta)
         return error;
 
     /* reading target compression from header (used for older delta versions) */
-    if ((error = rpm_get_comp(rpmst, &delta->tgt_comp)) != DRPM_ERR_OK)
+    if ((error = rpm_get_comp(rpmst, &delta->tgt_comp)) != DRPM_ERR_OK) {
+        rpm_destroy(&rpmst);
         return error;
+    }
 
-    if (lseek(filedesc, rpm_size_full(rpmst), SEEK_SET) == (off_t)-1)
+    if (lseek(filedesc, rpm_size_full(rpmst), SEEK_SET) == (off_t)-1) {
+        rpm_destroy(&rpmst);
         return DRPM_ERR_IO;
+    }
 
     delta->head.tgt_rpm = rpmst;
 
-- 
2.43.0


From 9f330d370e4da6a492902725b7cdefc11af7b220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:36 +0000
Subject: [PATCH 08/76] fix: do not wrap around when converting long binary
 fields to text

---
 src/drpm_read.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/drpm_read.c b/src/drpm_read.c
index 585470d..b3b5575 100644
--- a/src/drpm_read.c
+++ b/src/drpm_read.c
@@ -532,17 +532,17 @@ int deltarpm_to_drpm(const struct deltarpm *src, struct drpm *dst)
     dst->ext_copies_size = src->ext_copies_count * 2;
 
     if ((dst->filename = malloc(strlen(src->filename) + 1)) == NULL ||
-        (dst->sequence = malloc(src->sequence_len * 2 + 1)) == NULL ||
+        (dst->sequence = malloc((size_t)src->sequence_len * 2 + 1)) == NULL ||
         (dst->src_nevr = malloc(strlen(src->src_nevr) + 1)) == NULL ||
         (src->tgt_comp_param_len > 0 &&
-         (dst->tgt_comp_param = malloc(src->tgt_comp_param_len * 2 + 1)) == NULL) ||
-        (dst->tgt_leadsig = malloc(src->tgt_leadsig_len * 2 + 1)) == NULL ||
+         (dst->tgt_comp_param = malloc((size_t)src->tgt_comp_param_len * 2 + 1)) == NULL) ||
+        (dst->tgt_leadsig = malloc((size_t)src->tgt_leadsig_len * 2 + 1)) == NULL ||
         (dst->offadj_elems_size > 0 &&
-         (dst->offadj_elems = malloc(dst->offadj_elems_size * 4)) == NULL) ||
+         (dst->offadj_elems = malloc((size_t)dst->offadj_elems_size * 4)) == NULL) ||
         (dst->int_copies_size > 0 &&
-         (dst->int_copies = malloc(dst->int_copies_size * 4)) == NULL) ||
+         (dst->int_copies = malloc((size_t)dst->int_copies_size * 4)) == NULL) ||
         (dst->ext_copies_size > 0 &&
-         (dst->ext_copies = malloc(dst->ext_copies_size * 4)) == NULL)) {
+         (dst->ext_copies = malloc((size_t)dst->ext_copies_size * 4)) == NULL)) {
         error = DRPM_ERR_MEMORY;
         goto cleanup_fail;
     }
@@ -557,11 +557,11 @@ int deltarpm_to_drpm(const struct deltarpm *src, struct drpm *dst)
         dump_hex(dst->tgt_comp_param, src->tgt_comp_param, src->tgt_comp_param_len);
 
     if (dst->offadj_elems_size > 0)
-        memcpy(dst->offadj_elems, src->offadj_elems, dst->offadj_elems_size * 4);
+        memcpy(dst->offadj_elems, src->offadj_elems, (size_t)dst->offadj_elems_size * 4);
     if (dst->int_copies_size > 0)
-        memcpy(dst->int_copies, src->int_copies, dst->int_copies_size * 4);
+        memcpy(dst->int_copies, src->int_copies, (size_t)dst->int_copies_size * 4);
     if (dst->ext_copies_size > 0)
-        memcpy(dst->ext_copies, src->ext_copies, dst->ext_copies_size * 4);
+        memcpy(dst->ext_copies, src->ext_copies, (size_t)dst->ext_copies_size * 4);
 
     if (src->type == DRPM_TYPE_STANDARD) {
         if ((error = rpm_get_nevr(src->head.tgt_rpm, &dst->tgt_nevr)) != DRPM_ERR_OK)
-- 
2.43.0


From bee8423e568a6ac3b7bbb2f8f71354e4cfbe690c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:50 +0000
Subject: [PATCH 09/76] fix: refuse data lengths that delta versions 1 and 2
 cannot hold

---
 src/drpm_write.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/drpm_write.c b/src/drpm_write.c
index 87da972..281d142 100644
--- a/src/drpm_write.c
+++ b/src/drpm_write.c
@@ -85,6 +85,10 @@ int write_deltarpm(struct deltarpm *delta)
     if (delta->type != DRPM_TYPE_STANDARD && delta->type != DRPM_TYPE_RPMONLY)
         return DRPM_ERR_PROG;
 
+    if (delta->version < 3 &&
+        (delta->ext_data_len > UINT32_MAX || delta->int_data_len > UINT32_MAX))
+        return DRPM_ERR_OVERFLOW; // 32-bit lengths before version 3
+
     version[0] = 'D';
     version[1] = 'L';
     version[2] = 'T';
-- 
2.43.0


From cdc8f81bd1cd4cb2553f528a5f8a9c037d14ebff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:41 +0000
Subject: [PATCH 10/76] fix: report failure to copy options

---
 src/drpm_options.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/drpm_options.c b/src/drpm_options.c
index 7df5af4..cf5f211 100644
--- a/src/drpm_options.c
+++ b/src/drpm_options.c
@@ -105,19 +105,19 @@ int drpm_make_options_copy(struct drpm_make_options *opts_dst, const struct drpm
 
     if (opts_src->seqfile != NULL) {
         if ((opts_dst->seqfile = malloc(strlen(opts_src->seqfile) + 1)) == NULL)
-            return DRPM_ERR_OK;
+            return DRPM_ERR_MEMORY;
         strcpy(opts_dst->seqfile, opts_src->seqfile);
     }
 
     if (opts_src->oldrpmprint != NULL) {
         if ((opts_dst->oldrpmprint = malloc(strlen(opts_src->oldrpmprint) + 1)) == NULL)
-            return DRPM_ERR_OK;
+            return DRPM_ERR_MEMORY;
         strcpy(opts_dst->oldrpmprint, opts_src->oldrpmprint);
     }
 
     if (opts_src->oldpatchrpm != NULL) {
         if ((opts_dst->oldpatchrpm = malloc(strlen(opts_src->oldpatchrpm) + 1)) == NULL)
-            return DRPM_ERR_OK;
+            return DRPM_ERR_MEMORY;
         strcpy(opts_dst->oldpatchrpm, opts_src->oldpatchrpm);
     }
 
-- 
2.43.0


From 87aa202d1c570a1ffeddbf19841a18fbfdbdb09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:09 +0000
Subject: [PATCH 11/76] fix: leave options unchanged when adding patches fails

---
 src/drpm_options.c | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/drpm_options.c b/src/drpm_options.c
index cf5f211..668bc79 100644
--- a/src/drpm_options.c
+++ b/src/drpm_options.c
@@ -251,24 +251,26 @@ int drpm_make_options_set_seqfile(struct drpm_make_options *opts, const char *se
 
 int drpm_make_options_add_patches(struct drpm_make_options *opts, const char *oldrpmprint, const char *oldpatchrpm)
 {
-    char *tmp;
+    char *print;
+    char *patch;
 
     if (opts == NULL || oldrpmprint == NULL || oldpatchrpm == NULL)
         return DRPM_ERR_ARGS;
 
-    if (opts->oldrpmprint == NULL || strlen(opts->oldrpmprint) < strlen(oldrpmprint)) {
-        if ((tmp = realloc(opts->oldrpmprint, strlen(oldrpmprint) + 1)) == NULL)
-            return DRPM_ERR_MEMORY;
-        opts->oldrpmprint = tmp;
-    }
-    if (opts->oldpatchrpm == NULL || strlen(opts->oldpatchrpm) < strlen(oldpatchrpm)) {
-        if ((tmp = realloc(opts->oldpatchrpm, strlen(oldpatchrpm) + 1)) == NULL)
-            return DRPM_ERR_MEMORY;
-        opts->oldpatchrpm = tmp;
+    if ((print = malloc(strlen(oldrpmprint) + 1)) == NULL)
+        return DRPM_ERR_MEMORY;
+    if ((patch = malloc(strlen(oldpatchrpm) + 1)) == NULL) {
+        free(print);
+        return DRPM_ERR_MEMORY;
     }
 
-    strcpy(opts->oldrpmprint, oldrpmprint);
-    strcpy(opts->oldpatchrpm, oldpatchrpm);
+    strcpy(print, oldrpmprint);
+    strcpy(patch, oldpatchrpm);
+
+    free(opts->oldrpmprint);
+    free(opts->oldpatchrpm);
+    opts->oldrpmprint = print;
+    opts->oldpatchrpm = patch;
 
     return DRPM_ERR_OK;
 }
-- 
2.43.0


From a344ea970277e6408af1d2fe884273ea5bebd93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 12/76] fix: keep offsets right after external copies of 2 GiB
 and more

---
 src/drpm_diff.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drpm_diff.c b/src/drpm_diff.c
index 75ed98a..409df99 100644
--- a/src/drpm_diff.c
+++ b/src/drpm_diff.c
@@ -336,7 +336,7 @@ int create_diff_copies(const struct diff_copy *diff_copies, size_t diff_copies_l
                 if (old_len >= (uint32_t)INT32_MIN) {
                     ext_copies[ext_copies_count++ * 2 + 1] = INT32_MAX;
                     old_len -= INT32_MAX;
-                    old_off = offset += INT32_MAX;
+                    offset = old_off += INT32_MAX;
                     continue;
                 }
 
-- 
2.43.0


From 6e7dc86852a177f503b2f82f69338e4c246b56c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 13/76] fix: leave nothing to free behind when a diff cannot be
 started

---
 src/drpm_diff.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/drpm_diff.c b/src/drpm_diff.c
index 409df99..88459fc 100644
--- a/src/drpm_diff.c
+++ b/src/drpm_diff.c
@@ -133,10 +133,12 @@ int make_diff(const unsigned char *old, size_t old_len,
 
     //if ((error = sfxsrt_create(&suffix, old, old_len)) != DRPM_ERR_OK)
     if ((error = hash_create(&hashtab, old, old_len)) != DRPM_ERR_OK)
-        goto cleanup_fail;
+        return error;
 
-    if (addblk && (error = compstrm_init(&stream, -1, add_block_comp, add_block_comp_level)) != DRPM_ERR_OK)
-        goto cleanup_fail;
+    if (addblk && (error = compstrm_init(&stream, -1, add_block_comp, add_block_comp_level)) != DRPM_ERR_OK) {
+        hash_free(&hashtab);
+        return error;
+    }
 
     while (new_pos_prev < new_len) {
         /* find new match */
-- 
2.43.0


From 70ea1ff9ea6f277e16d13a310f7f41eabce09458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:35 +0000
Subject: [PATCH 14/76] fix: do not end a decompressor whose initialisation
 failed

---
 src/drpm_decompstrm.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/drpm_decompstrm.c b/src/drpm_decompstrm.c
index ec3115e..fedff00 100644
--- a/src/drpm_decompstrm.c
+++ b/src/drpm_decompstrm.c
@@ -156,10 +156,8 @@ int init_bzip2(struct decompstrm *strm)
 
     switch (BZ2_bzDecompressInit(&strm->stream.bzip2, 0, 1)) {
     case BZ_CONFIG_ERROR:
-        BZ2_bzDecompressEnd(&strm->stream.bzip2);
         return DRPM_ERR_CONFIG;
     case BZ_MEM_ERROR:
-        BZ2_bzDecompressEnd(&strm->stream.bzip2);
         return DRPM_ERR_MEMORY;
     }
 
@@ -178,10 +176,8 @@ int init_gzip(struct decompstrm *strm)
 
     switch (inflateInit2(&strm->stream.gzip, 16 + MAX_WBITS)) {
     case Z_VERSION_ERROR:
-        inflateEnd(&strm->stream.gzip);
         return DRPM_ERR_CONFIG;
     case Z_MEM_ERROR:
-        inflateEnd(&strm->stream.gzip);
         return DRPM_ERR_MEMORY;
     }
 
-- 
2.43.0


From 3e0ad423316fd62567487a85c07b6eeb60ef6f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:35 +0000
Subject: [PATCH 15/76] fix: free the output buffer when zstd decompression
 fails

---
 src/drpm_decompstrm.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/drpm_decompstrm.c b/src/drpm_decompstrm.c
index fedff00..bab0f53 100644
--- a/src/drpm_decompstrm.c
+++ b/src/drpm_decompstrm.c
@@ -755,23 +755,28 @@ int readchunk_zstd(struct decompstrm *strm)
     while (input.pos < input.size) {
         ZSTD_outBuffer output = { buffOut, buffOutSize, 0 };
         size_t const ret = ZSTD_decompressStream(strm->stream.zstd_context, &output , &input);
-        if (ZSTD_isError(ret))
+        if (ZSTD_isError(ret)) {
+            free(buffOut);
             return DRPM_ERR_OTHER;
+        }
         if (output.pos == 0)
             continue;
-        if ((data_tmp = realloc(strm->data, strm->data_len + output.pos)) == NULL)
+        if ((data_tmp = realloc(strm->data, strm->data_len + output.pos)) == NULL) {
+            free(buffOut);
             return DRPM_ERR_MEMORY;
+        }
         strm->data = data_tmp;
         memcpy(strm->data + strm->data_len, buffOut, output.pos);
         strm->data_len += output.pos;
     }
 
+    free(buffOut);
+
     strm->comp_size += in_len;
 
     if (strm->md5 != NULL && MD5_Update(strm->md5, in_buffer, in_len) != 1)
         return DRPM_ERR_OTHER;
 
-    free(buffOut);
     return DRPM_ERR_OK;
 }
 #endif
-- 
2.43.0


From 004392fa92beb1175791487638f0fd0e20d3588d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:35 +0000
Subject: [PATCH 16/76] fix: do not take corrupt or truncated compressed data
 for its end

---
 src/drpm_decompstrm.c | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/drpm_decompstrm.c b/src/drpm_decompstrm.c
index bab0f53..077c97a 100644
--- a/src/drpm_decompstrm.c
+++ b/src/drpm_decompstrm.c
@@ -64,6 +64,8 @@ struct decompstrm {
 #endif
     } stream;
     bool lzip_eof;
+    bool eof;   // no more input
+    bool ended; // end of compressed data reached
     int (*read_chunk)(struct decompstrm *);
     void (*finish)(struct decompstrm *);
     size_t comp_size;
@@ -282,6 +284,8 @@ int decompstrm_init(struct decompstrm **strm, int filedesc, unsigned short *comp
     (*strm)->data_len = 0;
     (*strm)->data_pos = 0;
     (*strm)->filedesc = filedesc;
+    (*strm)->eof = false;
+    (*strm)->ended = false;
     (*strm)->comp_size = 0;
     (*strm)->md5 = md5;
     (*strm)->buffer = buffer;
@@ -420,7 +424,9 @@ int decompstrm_read_until_eof(struct decompstrm *strm,
         switch ((error = strm->read_chunk(strm))) {
         case DRPM_ERR_OK:
             break;
-        case DRPM_ERR_FORMAT: // nothing more to read
+        case DRPM_ERR_FORMAT: // nothing more to read, unless data is corrupt or incomplete
+            if (!strm->eof || (strm->finish != NULL && !strm->ended))
+                return error;
             eof = true;
             break;
         default:
@@ -462,8 +468,10 @@ int readchunk(struct decompstrm *strm)
             return DRPM_ERR_IO;
     }
 
-    if (in_len == 0)
+    if (in_len == 0) {
+        strm->eof = true;
         return DRPM_ERR_FORMAT;
+    }
 
     if ((data_tmp = realloc(strm->data, strm->data_len + in_len)) == NULL)
         return DRPM_ERR_MEMORY;
@@ -498,8 +506,10 @@ int readchunk_bzip2(struct decompstrm *strm)
             return DRPM_ERR_IO;
     }
 
-    if (in_len == 0)
+    if (in_len == 0) {
+        strm->eof = true;
         return DRPM_ERR_FORMAT;
+    }
 
     strm->stream.bzip2.next_in = in_buffer;
     strm->stream.bzip2.avail_in = in_len;
@@ -508,6 +518,9 @@ int readchunk_bzip2(struct decompstrm *strm)
         strm->stream.bzip2.next_out = out_buffer;
         strm->stream.bzip2.avail_out = CHUNK_SIZE;
         switch (BZ2_bzDecompress(&strm->stream.bzip2)) {
+        case BZ_STREAM_END:
+            strm->ended = true;
+            break;
         case BZ_DATA_ERROR:
         case BZ_DATA_ERROR_MAGIC:
             return DRPM_ERR_FORMAT;
@@ -551,8 +564,10 @@ int readchunk_gzip(struct decompstrm *strm)
             return DRPM_ERR_IO;
     }
 
-    if (in_len == 0)
+    if (in_len == 0) {
+        strm->eof = true;
         return DRPM_ERR_FORMAT;
+    }
 
     strm->stream.gzip.next_in = in_buffer;
     strm->stream.gzip.avail_in = in_len;
@@ -561,6 +576,9 @@ int readchunk_gzip(struct decompstrm *strm)
         strm->stream.gzip.next_out = out_buffer;
         strm->stream.gzip.avail_out = CHUNK_SIZE;
         switch (inflate(&strm->stream.gzip, Z_SYNC_FLUSH)) {
+        case Z_STREAM_END:
+            strm->ended = true;
+            break;
         case Z_DATA_ERROR:
         case Z_NEED_DICT:
         case Z_STREAM_ERROR:
@@ -605,8 +623,10 @@ int readchunk_lzma(struct decompstrm *strm)
             return DRPM_ERR_IO;
     }
 
-    if (in_len == 0)
+    if (in_len == 0) {
+        strm->eof = true;
         return DRPM_ERR_FORMAT;
+    }
 
     strm->stream.lzma.next_in = in_buffer;
     strm->stream.lzma.avail_in = in_len;
@@ -616,7 +636,9 @@ int readchunk_lzma(struct decompstrm *strm)
         strm->stream.lzma.avail_out = CHUNK_SIZE;
         switch (lzma_code(&strm->stream.lzma, LZMA_RUN)) {
         case LZMA_OK:
+            break;
         case LZMA_STREAM_END:
+            strm->ended = true;
             break;
         case LZMA_FORMAT_ERROR:
         case LZMA_OPTIONS_ERROR:
@@ -690,6 +712,8 @@ int readchunk_lzip(struct decompstrm *strm)
             memcpy(strm->data + strm->data_len, out_buffer, out_len);
             strm->data_len += out_len;
         } while (!LZ_decompress_finished(strm->stream.lzip));
+        strm->eof = true;
+        strm->ended = true;
     } else {
         while (written < in_len) {
             if (LZ_decompress_write_size(strm->stream.lzip) > 0) {
@@ -742,8 +766,10 @@ int readchunk_zstd(struct decompstrm *strm)
             return DRPM_ERR_IO;
     }
 
-    if (in_len == 0)
+    if (in_len == 0) {
+        strm->eof = true;
         return DRPM_ERR_FORMAT;
+    }
 
     size_t const buffOutSize = ZSTD_DStreamOutSize();
     void* const buffOut = malloc(buffOutSize);
@@ -759,6 +785,7 @@ int readchunk_zstd(struct decompstrm *strm)
             free(buffOut);
             return DRPM_ERR_OTHER;
         }
+        strm->ended = (ret == 0);
         if (output.pos == 0)
             continue;
         if ((data_tmp = realloc(strm->data, strm->data_len + output.pos)) == NULL) {
-- 
2.43.0


From 5620a694c4a3ede20d19a91067983ea4bb6e2d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:43 +0000
Subject: [PATCH 17/76] fix: free the compression stream when the method is
 unknown

---
 src/drpm_compstrm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/drpm_compstrm.c b/src/drpm_compstrm.c
index 758dea1..e3ab82f 100644
--- a/src/drpm_compstrm.c
+++ b/src/drpm_compstrm.c
@@ -484,7 +484,8 @@ int compstrm_init(struct compstrm **strm, int filedesc, unsigned short comp, int
         break;
 #endif
     default:
-        return DRPM_ERR_PROG;
+        error = DRPM_ERR_PROG;
+        goto cleanup_fail;
     }
 
     return DRPM_ERR_OK;
-- 
2.43.0


From 1b3a571c4f0fc4f5e4e776de5733ba5d2ac3269f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:43 +0000
Subject: [PATCH 18/76] fix: refuse compression levels that the compressor does
 not support

---
 src/drpm_compstrm.c | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/drpm_compstrm.c b/src/drpm_compstrm.c
index e3ab82f..942ab1d 100644
--- a/src/drpm_compstrm.c
+++ b/src/drpm_compstrm.c
@@ -295,15 +295,13 @@ int init_bzip2(struct compstrm *strm, int level)
         level = 9;
 
     switch (BZ2_bzCompressInit(&strm->stream.bzip2, level, 0, 0)) {
-    case BZ_CONFIG_ERROR:
-        BZ2_bzCompressEnd(&strm->stream.bzip2);
-        return DRPM_ERR_CONFIG;
+    case BZ_OK:
+        return DRPM_ERR_OK;
     case BZ_MEM_ERROR:
-        BZ2_bzCompressEnd(&strm->stream.bzip2);
         return DRPM_ERR_MEMORY;
+    default:
+        return DRPM_ERR_CONFIG;
     }
-
-    return DRPM_ERR_OK;
 }
 
 int init_gzip(struct compstrm *strm, int level)
@@ -320,15 +318,13 @@ int init_gzip(struct compstrm *strm, int level)
 
     switch (deflateInit2(&strm->stream.gzip, level, Z_DEFLATED,
             16 + MAX_WBITS, 8, Z_DEFAULT_STRATEGY)) {
-    case Z_VERSION_ERROR:
-        deflateEnd(&strm->stream.gzip);
-        return DRPM_ERR_CONFIG;
+    case Z_OK:
+        return DRPM_ERR_OK;
     case Z_MEM_ERROR:
-        deflateEnd(&strm->stream.gzip);
         return DRPM_ERR_MEMORY;
+    default:
+        return DRPM_ERR_CONFIG;
     }
-
-    return DRPM_ERR_OK;
 }
 
 int init_lzma(struct compstrm *strm, int level)
@@ -343,7 +339,8 @@ int init_lzma(struct compstrm *strm, int level)
     if (level == DRPM_COMP_LEVEL_DEFAULT)
         level = 2;
 
-    lzma_lzma_preset(&options, level);
+    if (lzma_lzma_preset(&options, level))
+        return DRPM_ERR_CONFIG;
 
     switch (lzma_alone_encoder(&strm->stream.lzma, &options)) {
     case LZMA_OK:
-- 
2.43.0


From 482aca99fa5809368df540fe845b37970468e8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:43 +0000
Subject: [PATCH 19/76] fix: free what zstd compression uses when it fails

---
 src/drpm_compstrm.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/drpm_compstrm.c b/src/drpm_compstrm.c
index 942ab1d..25d0952 100644
--- a/src/drpm_compstrm.c
+++ b/src/drpm_compstrm.c
@@ -259,13 +259,17 @@ int finish_zstd(struct compstrm *strm)
     do{
         ZSTD_outBuffer output = { buffOut, buffOutSize, 0 };
         remaining = ZSTD_compressStream2(strm->stream.zstd_context, &output , &input, ZSTD_e_end);
-        if (ZSTD_isError(remaining))
+        if (ZSTD_isError(remaining)) {
+            free(buffOut);
             return DRPM_ERR_OTHER;
+        }
 
         if (output.pos == 0)
             continue;
-        if ((data_tmp = realloc(strm->data, strm->data_len + output.pos)) == NULL)
+        if ((data_tmp = realloc(strm->data, strm->data_len + output.pos)) == NULL) {
+            free(buffOut);
             return DRPM_ERR_MEMORY;
+        }
         strm->data = data_tmp;
         memcpy(strm->data + strm->data_len, buffOut, output.pos);
         strm->data_len += output.pos;
@@ -405,8 +409,10 @@ int init_zstd(struct compstrm *strm, int level)
     if (level == DRPM_COMP_LEVEL_DEFAULT)
         level = 19;
 
-    if (ZSTD_isError(ZSTD_CCtx_setParameter(strm->stream.zstd_context, ZSTD_c_compressionLevel, level)))
+    if (ZSTD_isError(ZSTD_CCtx_setParameter(strm->stream.zstd_context, ZSTD_c_compressionLevel, level))) {
+        ZSTD_freeCCtx(strm->stream.zstd_context);
         return DRPM_ERR_OTHER;
+    }
 
     strm->write_chunk = writechunk_zstd;
     strm->finish = finish_zstd;
@@ -742,13 +748,17 @@ int writechunk_zstd(struct compstrm *strm, size_t in_len, const void *in_buffer)
     do{
         ZSTD_outBuffer output = { buffOut, buffOutSize, 0 };
         size_t const remaining = ZSTD_compressStream2(strm->stream.zstd_context, &output , &input, ZSTD_e_continue);
-        if (ZSTD_isError(remaining))
+        if (ZSTD_isError(remaining)) {
+            free(buffOut);
             return DRPM_ERR_OTHER;
+        }
 
         if (output.pos == 0)
             continue;
-        if ((data_tmp = realloc(strm->data, strm->data_len + output.pos)) == NULL)
+        if ((data_tmp = realloc(strm->data, strm->data_len + output.pos)) == NULL) {
+            free(buffOut);
             return DRPM_ERR_MEMORY;
+        }
         strm->data = data_tmp;
         memcpy(strm->data + strm->data_len, buffOut, output.pos);
         strm->data_len += output.pos;
-- 
2.43.0


From 9af4d431239033f088c52e6d02c3ec4703010bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:43 +0000
Subject: [PATCH 20/76] fix: release the compressor of streams that are not
 finished

---
 src/drpm_compstrm.c | 56 +++++++++++++++++++++++++++++++++++++--------
 1 file changed, 47 insertions(+), 9 deletions(-)

diff --git a/src/drpm_compstrm.c b/src/drpm_compstrm.c
index 25d0952..29ffbbd 100644
--- a/src/drpm_compstrm.c
+++ b/src/drpm_compstrm.c
@@ -55,9 +55,13 @@ struct compstrm {
     } stream;
     int (*write_chunk)(struct compstrm *, size_t, const void *);
     int (*finish)(struct compstrm *);
+    void (*end)(struct compstrm *);
     bool finished;
 };
 
+static void end_bzip2(struct compstrm *);
+static void end_gzip(struct compstrm *);
+static void end_lzma(struct compstrm *);
 static int finish_bzip2(struct compstrm *);
 static int finish_gzip(struct compstrm *);
 static int finish_lzma(struct compstrm *);
@@ -71,6 +75,7 @@ static int writechunk_gzip(struct compstrm *, size_t, const void *);
 static int writechunk_lzma(struct compstrm *, size_t, const void *);
 
 #ifdef HAVE_LZLIB_DEVEL
+static void end_lzip(struct compstrm *);
 static int finish_lzip(struct compstrm *);
 static int init_lzip(struct compstrm *, int);
 static int writechunk_lzip(struct compstrm *, size_t, const void *);
@@ -92,6 +97,7 @@ static int lzip_error(struct compstrm *strm)
 #endif
 
 #ifdef WITH_ZSTD
+static void end_zstd(struct compstrm *);
 static int finish_zstd(struct compstrm *);
 static int init_zstd(struct compstrm *, int);
 static int writechunk_zstd(struct compstrm *, size_t, const void *);
@@ -127,8 +133,6 @@ int finish_bzip2(struct compstrm *strm)
     } while (ret != BZ_STREAM_END);
 
 cleanup:
-    BZ2_bzCompressEnd(&strm->stream.bzip2);
-
     return error;
 }
 
@@ -159,8 +163,6 @@ int finish_gzip(struct compstrm *strm)
     } while (strm->stream.gzip.avail_out == 0);
 
 cleanup:
-    deflateEnd(&strm->stream.gzip);
-
     return error;
 }
 
@@ -202,8 +204,6 @@ int finish_lzma(struct compstrm *strm)
     } while (ret != LZMA_STREAM_END);
 
 cleanup:
-    lzma_end(&strm->stream.lzma);
-
     return error;
 }
 
@@ -238,8 +238,6 @@ int finish_lzip(struct compstrm *strm)
     } while (!LZ_compress_finished(strm->stream.lzip));
 
 cleanup:
-    LZ_compress_close(strm->stream.lzip);
-
     return error;
 }
 #endif
@@ -276,18 +274,49 @@ int finish_zstd(struct compstrm *strm)
     } while(remaining != 0);
 
     free(buffOut);
-    ZSTD_freeCCtx(strm->stream.zstd_context);
     return DRPM_ERR_OK;
 }
 
 #endif
 
+/* Functions for releasing compressors of individual methods. */
+
+void end_bzip2(struct compstrm *strm)
+{
+    BZ2_bzCompressEnd(&strm->stream.bzip2);
+}
+
+void end_gzip(struct compstrm *strm)
+{
+    deflateEnd(&strm->stream.gzip);
+}
+
+void end_lzma(struct compstrm *strm)
+{
+    lzma_end(&strm->stream.lzma);
+}
+
+#ifdef HAVE_LZLIB_DEVEL
+void end_lzip(struct compstrm *strm)
+{
+    LZ_compress_close(strm->stream.lzip);
+}
+#endif
+
+#ifdef WITH_ZSTD
+void end_zstd(struct compstrm *strm)
+{
+    ZSTD_freeCCtx(strm->stream.zstd_context);
+}
+#endif
+
 /* Function for initializing compression for individual methods. */
 
 int init_bzip2(struct compstrm *strm, int level)
 {
     strm->write_chunk = writechunk_bzip2;
     strm->finish = finish_bzip2;
+    strm->end = end_bzip2;
 
     strm->stream.bzip2.bzalloc = NULL;
     strm->stream.bzip2.bzfree = NULL;
@@ -312,6 +341,7 @@ int init_gzip(struct compstrm *strm, int level)
 {
     strm->write_chunk = writechunk_gzip;
     strm->finish = finish_gzip;
+    strm->end = end_gzip;
 
     strm->stream.gzip.zalloc = Z_NULL;
     strm->stream.gzip.zfree = Z_NULL;
@@ -338,6 +368,7 @@ int init_lzma(struct compstrm *strm, int level)
 
     strm->write_chunk = writechunk_lzma;
     strm->finish = finish_lzma;
+    strm->end = end_lzma;
     strm->stream.lzma = stream;
 
     if (level == DRPM_COMP_LEVEL_DEFAULT)
@@ -364,6 +395,7 @@ int init_xz(struct compstrm *strm, int level)
 
     strm->write_chunk = writechunk_lzma;
     strm->finish = finish_lzma;
+    strm->end = end_lzma;
     strm->stream.lzma = stream;
     memset(&strm->stream.lzma, 0, sizeof(lzma_stream));
 
@@ -389,6 +421,7 @@ int init_lzip(struct compstrm *strm, int level)
 
     strm->write_chunk = writechunk_lzip;
     strm->finish = finish_lzip;
+    strm->end = end_lzip;
 
     if ((strm->stream.lzip = LZ_compress_open(65535, 16, SIZE_MAX)) == NULL)
         return DRPM_ERR_MEMORY;
@@ -416,6 +449,7 @@ int init_zstd(struct compstrm *strm, int level)
 
     strm->write_chunk = writechunk_zstd;
     strm->finish = finish_zstd;
+    strm->end = end_zstd;
 
     return DRPM_ERR_OK;
 }
@@ -427,6 +461,9 @@ int compstrm_destroy(struct compstrm **strm)
     if (strm == NULL || *strm == NULL)
         return DRPM_ERR_PROG;
 
+    if ((*strm)->end != NULL)
+        (*strm)->end(*strm);
+
     free((*strm)->data);
     free(*strm);
     *strm = NULL;
@@ -457,6 +494,7 @@ int compstrm_init(struct compstrm **strm, int filedesc, unsigned short comp, int
     case DRPM_COMP_NONE:
         (*strm)->write_chunk = writechunk;
         (*strm)->finish = NULL;
+        (*strm)->end = NULL;
         break;
     case DRPM_COMP_GZIP:
         if ((error = init_gzip(*strm, level)) != DRPM_ERR_OK)
-- 
2.43.0


From 18e75d68a8bee8410227230e1155b3723622dfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:12 +0000
Subject: [PATCH 21/76] fix: compress data of 4 GiB and more in pieces the
 compressors can take

---
 src/drpm_compstrm.c | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/drpm_compstrm.c b/src/drpm_compstrm.c
index 29ffbbd..14d1928 100644
--- a/src/drpm_compstrm.c
+++ b/src/drpm_compstrm.c
@@ -37,6 +37,8 @@
 #include <zstd.h>
 #endif
 
+#define MAX_PIECE_LEN ((size_t)1 << 30)
+
 struct compstrm {
     unsigned char *data;
     size_t data_len;
@@ -606,6 +608,7 @@ int compstrm_write(struct compstrm *strm, size_t write_len, const void *buffer)
 {
     int error;
     size_t comp_write_len;
+    size_t piece_len;
 
     if (strm == NULL || strm->finished)
         return DRPM_ERR_PROG;
@@ -616,18 +619,23 @@ int compstrm_write(struct compstrm *strm, size_t write_len, const void *buffer)
     if (buffer == NULL)
         return DRPM_ERR_PROG;
 
-    if ((error = strm->write_chunk(strm, write_len, buffer)) != DRPM_ERR_OK)
-        return error;
+    /* the compressors cannot take more than 32 bits (lzlib: 31 bits) at once */
+    for (const unsigned char *data = buffer; write_len > 0; data += piece_len, write_len -= piece_len) {
+        piece_len = MIN(write_len, MAX_PIECE_LEN);
 
-    comp_write_len = strm->data_len - strm->data_pos;
+        if ((error = strm->write_chunk(strm, piece_len, data)) != DRPM_ERR_OK)
+            return error;
 
-    if (strm->filedesc >= 0 && comp_write_len > 0) {
-        if (write(strm->filedesc, strm->data + strm->data_pos,
-                  comp_write_len) != (ssize_t)comp_write_len)
-            return DRPM_ERR_IO;
-    }
+        comp_write_len = strm->data_len - strm->data_pos;
 
-    strm->data_pos = strm->data_len;
+        if (strm->filedesc >= 0 && comp_write_len > 0) {
+            if (write(strm->filedesc, strm->data + strm->data_pos,
+                      comp_write_len) != (ssize_t)comp_write_len)
+                return DRPM_ERR_IO;
+        }
+
+        strm->data_pos = strm->data_len;
+    }
 
     return DRPM_ERR_OK;
 }
-- 
2.43.0


From 5083dfd9c266a983b9d2143fccc0da97fa9d29b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:49 +0000
Subject: [PATCH 22/76] fix: return only the header bytes that were written

---
 src/drpm_write.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/drpm_write.c b/src/drpm_write.c
index 281d142..de96679 100644
--- a/src/drpm_write.c
+++ b/src/drpm_write.c
@@ -373,23 +373,27 @@ int compstrm_wrapper_finish(struct compstrm_wrapper *csw, unsigned char **data,
 {
     int error;
     unsigned char *data_tmp;
+    size_t uncomp_len;
 
     if (csw == NULL)
         return DRPM_ERR_PROG;
 
+    uncomp_len = csw->uncomp_len - csw->uncomp_left;
+
     if ((error = compstrm_finish(csw->strm, data, data_len)) != DRPM_ERR_OK)
         return error;
 
-    if ((data_tmp = realloc(*data, csw->uncomp_len + *data_len)) == NULL) {
+    if ((data_tmp = realloc(*data, uncomp_len + *data_len)) == NULL) {
         free(*data);
+        *data = NULL;
         return DRPM_ERR_MEMORY;
     }
 
-    memmove(data_tmp + csw->uncomp_len, data_tmp, *data_len);
-    memcpy(data_tmp, csw->uncomp_data, csw->uncomp_len);
+    memmove(data_tmp + uncomp_len, data_tmp, *data_len);
+    memcpy(data_tmp, csw->uncomp_data, uncomp_len);
 
     *data = data_tmp;
-    *data_len += csw->uncomp_len;
+    *data_len += uncomp_len;
 
     return DRPM_ERR_OK;
 }
-- 
2.43.0


From 92b8fab617bbbb5426323f9c7236d4fab3cb6de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:06 +0000
Subject: [PATCH 23/76] fix: refuse sequences that refer to one file too many

---
 src/drpm_apply.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index c00f1de..1726c00 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -153,7 +153,7 @@ int expand_sequence(struct cpio_file **seqfiles_ret, size_t *seqfiles_len_ret,
         }
 
         while (number-- > 0) {
-            if (positions_len > file_count || pos > file_count) {
+            if (positions_len >= file_count || pos >= file_count) {
                 error = DRPM_ERR_FORMAT;
                 goto cleanup_fail;
             }
-- 
2.43.0


From 3eb3e72d1792401da714acb3eb9ec4d91713fce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:06 +0000
Subject: [PATCH 24/76] fix: refuse numbers in sequences that are too long to
 represent

---
 src/drpm_apply.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index 1726c00..17b23f7 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -22,6 +22,7 @@
 #include "drpm.h"
 #include "drpm_private.h"
 
+#include <limits.h>
 #include <stdlib.h>
 #include <stdint.h>
 #include <stdbool.h>
@@ -122,6 +123,10 @@ int expand_sequence(struct cpio_file **seqfiles_ret, size_t *seqfiles_len_ret,
             i++;
         }
         even = !even;
+        if (shift > sizeof(num) * CHAR_BIT - 3) {
+            error = DRPM_ERR_FORMAT;
+            goto cleanup_fail;
+        }
         if ((num_buf & (1 << 3)) != 0) {
             num_buf ^= 1 << 3;
             if (shift)
-- 
2.43.0


From 93415de4dd723064a91704fe2dbddc757596532a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:20 +0000
Subject: [PATCH 25/76] fix: do not wrap around when padding the size of files
 of almost 4 GiB

---
 src/drpm_apply.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index 17b23f7..c37c281 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -250,7 +250,7 @@ int expand_sequence(struct cpio_file **seqfiles_ret, size_t *seqfiles_len_ret,
             header_len = CPIO_HEADER_SIZE + strlen(filename) + 3; // "./" prefix
             seqfiles[pos].header_len = header_len + CPIO_PADDING(header_len);
 
-            seqfiles[pos].content_len = filesize + CPIO_PADDING(filesize);
+            seqfiles[pos].content_len = (size_t)filesize + CPIO_PADDING(filesize);
 
             seqfiles[pos].offset = off;
             off += seqfiles[pos].header_len + seqfiles[pos].content_len;
-- 
2.43.0


From 1f78a34883fd51f9098065607a1080b42d6fbf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:23 +0000
Subject: [PATCH 26/76] fix: release the delta when it cannot be applied from
 the filesystem

---
 src/drpm.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/drpm.c b/src/drpm.c
index 204ab79..f51954c 100644
--- a/src/drpm.c
+++ b/src/drpm.c
@@ -570,11 +570,15 @@ int drpm_apply(const char *old_rpm_name, const char *deltarpm_name, const char *
         }
     } else {
         // rpm-only deltarpms do not work from filesystem
-        if (rpm_only)
-            return DRPM_ERR_ARGS;
+        if (rpm_only) {
+            error = DRPM_ERR_ARGS;
+            goto cleanup;
+        }
         // cannot reconstruct source RPMs from filesystem
-        if (rpm_is_sourcerpm(delta.head.tgt_rpm))
-            return DRPM_ERR_ARGS;
+        if (rpm_is_sourcerpm(delta.head.tgt_rpm)) {
+            error = DRPM_ERR_ARGS;
+            goto cleanup;
+        }
         /* reading old RPM header from database */
         if ((error = rpm_read_header(&old_rpm, delta.src_nevr, NULL)) != DRPM_ERR_OK)
             goto cleanup;
-- 
2.43.0


From 3a7bb9a5b4665d4f14305bb42137fe14eec67c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:23 +0000
Subject: [PATCH 27/76] fix: report failure to close the rebuilt package

---
 src/drpm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/drpm.c b/src/drpm.c
index f51954c..5843d60 100644
--- a/src/drpm.c
+++ b/src/drpm.c
@@ -760,7 +760,8 @@ final_check:
 
 cleanup:
 
-    close(filedesc);
+    if (close(filedesc) != 0 && error == DRPM_ERR_OK)
+        error = DRPM_ERR_IO;
 
     for (size_t i = 0; i < file_count; i++) {
         free(files[i].name);
-- 
2.43.0


From 9475411f3556b3197312143f4cb68d98fbc1b51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:23 +0000
Subject: [PATCH 28/76] fix: keep the archive compressed when applying an
 rpm-only delta without a diff

---
 src/drpm.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/drpm.c b/src/drpm.c
index 5843d60..6cd7d4d 100644
--- a/src/drpm.c
+++ b/src/drpm.c
@@ -501,6 +501,7 @@ int drpm_apply(const char *old_rpm_name, const char *deltarpm_name, const char *
     struct deltarpm delta = {0};
     const bool from_rpm = (old_rpm_name != NULL);
     bool rpm_only;
+    bool no_diff;
     struct rpm *old_rpm = NULL;
     struct rpm *patched_rpm = NULL;
     unsigned char oldsig_md5[MD5_DIGEST_LENGTH];
@@ -549,11 +550,15 @@ int drpm_apply(const char *old_rpm_name, const char *deltarpm_name, const char *
     if ((error = read_deltarpm(&delta, deltarpm_name)) != DRPM_ERR_OK)
         goto cleanup;
     rpm_only = (delta.type == DRPM_TYPE_RPMONLY);
+    no_diff = (rpm_only && delta.tgt_comp == DRPM_COMP_NONE &&
+               delta.int_copies_count == 0 && delta.ext_copies_count == 0);
     no_full_md5 = (memcmp(empty_md5, delta.tgt_md5, MD5_DIGEST_LENGTH) == 0);
 
     if (from_rpm) {
-        /* reading old RPM */
-        if ((error = rpm_read(&old_rpm, old_rpm_name, RPM_ARCHIVE_READ_DECOMP, NULL, NULL, NULL)) != DRPM_ERR_OK)
+        /* reading old RPM (if there is no diff, its archive stays as it is) */
+        if ((error = rpm_read(&old_rpm, old_rpm_name,
+                              no_diff ? RPM_ARCHIVE_READ_UNCOMP : RPM_ARCHIVE_READ_DECOMP,
+                              NULL, NULL, NULL)) != DRPM_ERR_OK)
             goto cleanup;
         if (rpm_only) {
             /* comparing signature MD5 with DeltaRPM sequence */
@@ -608,8 +613,7 @@ int drpm_apply(const char *old_rpm_name, const char *deltarpm_name, const char *
     if ((error = rpm_replace_lead_and_signature(patched_rpm, delta.tgt_leadsig, delta.tgt_leadsig_len)) != DRPM_ERR_OK)
         goto cleanup;
 
-    if (rpm_only && delta.tgt_comp == DRPM_COMP_NONE &&
-        delta.int_copies_count == 0 && delta.ext_copies_count == 0) {
+    if (no_diff) {
     /* no-diff DeltaRPM, no need for reconstruction */
         if ((error = rpm_write(patched_rpm, new_rpm_name, true, md5_digest, !no_full_md5)) != DRPM_ERR_OK)
             goto cleanup;
-- 
2.43.0


From 50ad11e1625e08bac28c38f3697cf8f1a512fd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:56 +0000
Subject: [PATCH 29/76] fix: refuse digests with half a byte at the end

---
 src/drpm_utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/drpm_utils.c b/src/drpm_utils.c
index ff3ad89..229e975 100644
--- a/src/drpm_utils.c
+++ b/src/drpm_utils.c
@@ -146,13 +146,13 @@ ssize_t parse_hexnum(const char *str, size_t size)
 
 bool parse_md5(unsigned char *dest, const char *source)
 {
-    return strlen(source) / 2 == MD5_DIGEST_LENGTH &&
+    return strlen(source) == MD5_DIGEST_LENGTH * 2 &&
            parse_hex(dest, source) == MD5_DIGEST_LENGTH;
 }
 
 bool parse_sha256(unsigned char *dest, const char *source)
 {
-    return strlen(source) / 2 == SHA256_DIGEST_LENGTH &&
+    return strlen(source) == SHA256_DIGEST_LENGTH * 2 &&
            parse_hex(dest, source) == SHA256_DIGEST_LENGTH;
 }
 
-- 
2.43.0


From 79e7df56e8630d24c5660b7da12e670130765d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:18 +0000
Subject: [PATCH 30/76] fix: do not free the middle of a buffer when looking
 for prelinked files

---
 src/drpm_apply.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index c37c281..8919236 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -538,6 +538,7 @@ int is_prelinked(bool *is_prelinked_ret, int fd, const unsigned char *buf, ssize
     int i;
     int stridx;
     unsigned char *sects = NULL;
+    const unsigned char *sect;
     unsigned char *strsect = NULL;
     unsigned slen;
     unsigned o;
@@ -591,14 +592,14 @@ int is_prelinked(bool *is_prelinked_ret, int fd, const unsigned char *buf, ssize
         goto cleanup;
     }
 
-    strsect = sects + stridx * ssiz;
-    if (elf32(strsect + 4, le) != 3) {
+    sect = sects + stridx * ssiz;
+    if (elf32(sect + 4, le) != 3) {
         is_prelinked = false;
         goto cleanup;
     }
 
-    soff = elf64(is64 ? strsect + 24 : strsect + 16, le, is64);
-    slen = elf64(is64 ? strsect + 32 : strsect + 20, le, is64);
+    soff = elf64(is64 ? sect + 24 : sect + 16, le, is64);
+    slen = elf64(is64 ? sect + 32 : sect + 20, le, is64);
     if (soff == (off_t)~0 || slen == (unsigned)~0 || (int)slen < 0) {
         is_prelinked = false;
         goto cleanup;
-- 
2.43.0


From e65c88932373dbf51ff3a26f101d6f07f1ab2366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:18 +0000
Subject: [PATCH 31/76] fix: do not sign-extend offsets and lengths read from
 ELF files

---
 src/drpm_apply.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index 8919236..f78c0a7 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -507,7 +507,7 @@ uint16_t elf16(const unsigned char *buf, bool little_endian)
 uint32_t elf32(const unsigned char *buf, bool little_endian)
 {
     if (little_endian)
-        return buf[0] | buf[1] << 8 | buf[2] << 16 | buf[3] << 24;
+        return buf[0] | buf[1] << 8 | buf[2] << 16 | (uint32_t)buf[3] << 24;
     return parse_be32(buf);
 }
 
@@ -521,7 +521,7 @@ uint64_t elf64(const unsigned char *buf, bool little_endian, bool is64)
     }
 
     if (little_endian)
-        return buf[0] | buf[1] << 8 | buf[2] << 16 | buf[3] << 24;
+        return buf[0] | buf[1] << 8 | buf[2] << 16 | (uint32_t)buf[3] << 24;
     return parse_be32(buf);
 }
 
-- 
2.43.0


From 205508dda08214621ad2d74d28a81c147304a74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:44 +0000
Subject: [PATCH 32/76] fix: close files when looking for prelink fails

---
 src/drpm_apply.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index f78c0a7..c85fbf1 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -314,8 +314,10 @@ int check_filesize(const char *filename, unsigned short digest_algo,
         if ((filedesc = open(filename, O_RDONLY)) < 0)
             return DRPM_ERR_IO;
         if ((read_len = read(filedesc, buf, 128)) > 0) {
-            if ((error = is_prelinked(&prelink, filedesc, buf, read_len)) != DRPM_ERR_OK)
+            if ((error = is_prelinked(&prelink, filedesc, buf, read_len)) != DRPM_ERR_OK) {
+                close(filedesc);
                 return error;
+            }
             if (prelink) {
                 close(filedesc);
                 return check_prelink(filename, digest_algo, digest, filesize);
@@ -357,7 +359,7 @@ int check_full(const char *filename, unsigned short digest_algo,
     if (stats.st_size > (off_t)filesize) {
         if ((read_len = read(filedesc, buf, BUFFER_SIZE)) > 0) {
             if ((error = is_prelinked(&prelink, filedesc, buf, read_len)) != DRPM_ERR_OK)
-                return error;
+                goto cleanup;
             if (prelink) {
                 close(filedesc);
                 return check_prelink(filename, digest_algo, digest, filesize);
-- 
2.43.0


From f4660abeef718af4d4f38287dc37882e611229b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:44 +0000
Subject: [PATCH 33/76] fix: report read errors when checking the content of
 files

---
 src/drpm_apply.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index c85fbf1..7dc6211 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -341,7 +341,7 @@ int check_full(const char *filename, unsigned short digest_algo,
     unsigned char buf[BUFFER_SIZE];
     struct checksum chsm;
     unsigned char chsm_digest[MAX(MD5_DIGEST_LENGTH, SHA256_DIGEST_LENGTH)];
-    ssize_t read_len;
+    ssize_t read_len = 0;
     struct stat stats;
     bool prelink;
 
@@ -372,7 +372,7 @@ int check_full(const char *filename, unsigned short digest_algo,
         }
     }
 
-    while (filesize > 0 && (read_len = read(filedesc, buf, BUFFER_SIZE)) > 0) {
+    while (read_len >= 0 && filesize > 0 && (read_len = read(filedesc, buf, BUFFER_SIZE)) > 0) {
         if ((size_t)read_len > filesize)
             read_len = filesize;
         if ((error = checksum_update(&chsm, buf, read_len)) != DRPM_ERR_OK)
@@ -380,6 +380,11 @@ int check_full(const char *filename, unsigned short digest_algo,
         filesize -= read_len;
     }
 
+    if (read_len < 0) {
+        error = DRPM_ERR_IO;
+        goto cleanup;
+    }
+
     if ((error = checksum_final(&chsm, chsm_digest)) != DRPM_ERR_OK)
         goto cleanup;
 
-- 
2.43.0


From 1ed840d9d25e73ed39ebf21320d4af024b6da7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:44 +0000
Subject: [PATCH 34/76] fix: remove the temporary file when prelink cannot be
 run

---
 src/drpm_apply.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index 7dc6211..29ff3e0 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -660,6 +660,7 @@ int prelink_open(const char *filename, int *filedesc)
 
     pid = fork();
     if (pid == (pid_t)-1) {
+        unlink(template);
         return DRPM_ERR_OTHER;
     }
     if (pid == 0) {
@@ -669,10 +670,10 @@ int prelink_open(const char *filename, int *filedesc)
 
     while (waitpid(pid, &status, 0) == (pid_t)-1);
 
-    if ((fd = open(template, O_RDONLY)) < 0)
-        return DRPM_ERR_IO;
-
+    fd = open(template, O_RDONLY);
     unlink(template);
+    if (fd < 0)
+        return DRPM_ERR_IO;
 
     *filedesc = fd;
 
-- 
2.43.0


From 70659d846bae763f2e6f287d568fcba9694253c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:05 +0000
Subject: [PATCH 35/76] fix: do not count blocks beyond all bounds when there
 is no data

---
 src/drpm_block.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drpm_block.c b/src/drpm_block.c
index 0642128..f8ae566 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -59,7 +59,7 @@
 #define BLK_CORE_NOPAGE 2
 #define BLK_PAGE 3
 
-#define BLOCKS(size) (1 + ((size) - 1) / BLOCK_SIZE)
+#define BLOCKS(size) ((size) / BLOCK_SIZE + ((size) % BLOCK_SIZE != 0))
 
 /* a list of open files */
 struct open_file {
-- 
2.43.0


From 9292d06819ed18b697ba62f6504e83d452772412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:31 +0000
Subject: [PATCH 36/76] fix: open the right files when reading old data from
 the filesystem

---
 src/drpm_block.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/drpm_block.c b/src/drpm_block.c
index f8ae566..e229c89 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -991,15 +991,15 @@ int fillblock_filesystem(struct blocks *blks, struct block *blk, size_t id, size
                     strncpy((char *)buf_ptr, blks->linkto + file_off, read_len);
             } else if (file_off < blks->files[cpio->index].size) {
                 read_len = MIN(len, blks->files[cpio->index].size - file_off);
-                file = get_open_file(blks, cpio->index);
+                file = get_open_file(blks, cpio - blks->cpio_files);
                 if (file == NULL) {
-                    if ((error = open_new_file(blks, &prelinked, cpio->index)) != DRPM_ERR_OK)
+                    if ((error = open_new_file(blks, &prelinked, cpio - blks->cpio_files)) != DRPM_ERR_OK)
                         break;
                     if (prelinked) {
                         blks->cpio_files_index = -1;
                         return fillblock_prelink(blks, blk, id, copy_cnt, cpio);
                     }
-                    file = get_open_file(blks, cpio->index);
+                    file = get_open_file(blks, cpio - blks->cpio_files);
                 }
                 if (file->offset != (off_t)file_off && lseek(file->filedesc, file_off, SEEK_SET) != (off_t)file_off) {
                     error = DRPM_ERR_IO;
-- 
2.43.0


From dcab527bc6115b4246dbdfffcbd232ecdd397f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:31 +0000
Subject: [PATCH 37/76] fix: forget files that were closed to open another one

---
 src/drpm_block.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/drpm_block.c b/src/drpm_block.c
index e229c89..8c50f11 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -626,6 +626,9 @@ int open_new_file(struct blocks *blks, bool *prelinked, size_t index)
         else
             files_head->prev = NULL;
         close(new->filedesc);
+        for (size_t i = 0; i < blks->cpio_files_len; i++)
+            if (blks->rpm_files.from_filesytem.open_files[i] == new)
+                blks->rpm_files.from_filesytem.open_files[i] = NULL;
     }
 
     new->filedesc = filedesc;
-- 
2.43.0


From 872c45b8d74249ff819bd93456c06e7dd4c29c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:31 +0000
Subject: [PATCH 38/76] fix: leave no dangling blocks behind when they cannot
 be created

---
 src/drpm_block.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/drpm_block.c b/src/drpm_block.c
index 8c50f11..d974271 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -174,6 +174,8 @@ int blocks_create(struct blocks **blks_ret,
     if (blks_ret == NULL)
         return DRPM_ERR_PROG;
 
+    *blks_ret = NULL;
+
     if (block_count >= UINT32_MAX)
         return DRPM_ERR_OVERFLOW;
 
@@ -238,6 +240,11 @@ int blocks_create(struct blocks **blks_ret,
 
 cleanup:
     free(*blks_ret);
+    *blks_ret = NULL;
+    if (blks.from_rpm)
+        free(blks.rpm_files.from_rpm.old_header);
+    else
+        free(blks.rpm_files.from_filesytem.open_files);
     free(blks.blocks_table);
     free(blks.blocks_max);
     free(blks.cpio_buffer);
-- 
2.43.0


From dec6a8302f3bfc44c8a498cfea5adc265dc626c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:31 +0000
Subject: [PATCH 39/76] fix: do not free page blocks that are still in use when
 writing them fails

---
 src/drpm_block.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/drpm_block.c b/src/drpm_block.c
index d974271..cfbc47d 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -496,25 +496,22 @@ int write_page_block(struct blocks *blks, const struct block *blk, size_t copy_c
         if ((new = malloc(sizeof(struct block))) == NULL)
             return DRPM_ERR_MEMORY;
         new->type = BLK_PAGE;
+        new->id = blk->id;
         new->data.offset = blks->page_blocks_count;
         new->next = blks->page_blocks;
         blks->page_blocks = new;
         blks->page_blocks_count++;
         if (blks->page_filedesc < 0) {
-            if ((blks->page_filedesc = mkstemp(template)) < 0) {
-                free(new);
+            if ((blks->page_filedesc = mkstemp(template)) < 0)
                 return DRPM_ERR_IO;
-            }
             unlink(template);
         }
     }
 
     new->id = blk->id;
 
-    if (pwrite(blks->page_filedesc, blk->data.buffer, BLOCK_SIZE, new->data.offset * BLOCK_SIZE) != BLOCK_SIZE) {
-        free(new);
+    if (pwrite(blks->page_filedesc, blk->data.buffer, BLOCK_SIZE, new->data.offset * BLOCK_SIZE) != BLOCK_SIZE)
         return DRPM_ERR_IO;
-    }
 
     blks->blocks_table[new->id] = new;
 
-- 
2.43.0


From 89a297d62ebf140e441838031a9c266637493738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:44 +0000
Subject: [PATCH 40/76] fix: stay within the link target when restoring
 prelinked files

---
 src/drpm_block.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drpm_block.c b/src/drpm_block.c
index cfbc47d..d85d7d5 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -1133,7 +1133,7 @@ int fillblock_prelink(struct blocks *blks, struct block *blk, size_t id, size_t
             } else if (S_ISLNK(blks->files[cpio->index].mode)) {
                 file_off = off - (cpio->offset + cpio->header_len);
                 linkto = blks->files[cpio->index].linkto;
-                read_len = MIN(len, strlen(linkto) < file_off ? 0 : strlen(linkto));
+                read_len = MIN(len, strlen(linkto) < file_off ? 0 : strlen(linkto) - file_off);
                 if (read_len) {
                     memcpy(buf_ptr, linkto + file_off, read_len);
                     buf_ptr += read_len;
-- 
2.43.0


From e51fa7b6e347df5219aa01f35a3afa39cdb225a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:44 +0000
Subject: [PATCH 41/76] fix: refuse archive entries without a name when
 applying

---
 src/drpm_block.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/drpm_block.c b/src/drpm_block.c
index d85d7d5..0e3e24c 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -799,6 +799,11 @@ int fillblock_rpm_standard(struct blocks *blks, struct block *blk, size_t id, si
             c_filesize = cpio_hdr.filesize;
             c_filesize += CPIO_PADDING(c_filesize);
 
+            if (c_namesize == 0) {
+                error = DRPM_ERR_FORMAT;
+                break;
+            }
+
             if (c_namesize > name_buffer_len) {
                 if ((name_buffer_tmp = realloc(name_buffer, c_namesize)) == NULL) {
                     error = DRPM_ERR_MEMORY;
-- 
2.43.0


From f1efd4305a834349833b0c8ec87045a221a7a60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:21 +0000
Subject: [PATCH 42/76] fix: refuse archive entries without a name when making
 a delta

---
 src/drpm_make.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index 85cb2a9..43ef1b8 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -379,6 +379,11 @@ int parse_cpio_from_rpm_filedata(struct rpm *rpm_file,
         if ((error = rpm_archive_read_chunk(rpm_file, name_buffer, c_namesize)) != DRPM_ERR_OK)
             goto cleanup_fail;
 
+        if (c_namesize == 0) {
+            error = DRPM_ERR_FORMAT;
+            goto cleanup_fail;
+        }
+
         name = name_buffer;
         name[c_namesize - 1] = '\0';
 
-- 
2.43.0


From 44e1a9e23087cfd3818a699374ebff5d7cbf0a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:21 +0000
Subject: [PATCH 43/76] fix: leave out data of archive entries that have none
 when applying

---
 src/drpm_make.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index 43ef1b8..6da192d 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -557,8 +557,8 @@ int parse_cpio_from_rpm_filedata(struct rpm *rpm_file,
             if ((error = rpm_archive_read_chunk(rpm_file, buffer, read_len)) != DRPM_ERR_OK)
                 goto cleanup_fail;
             cpio_pos += read_len;
-            /* Do not add file data of skipped files or symlinks to cpio  */
-            if (!S_ISLNK(file.mode) && !skip &&
+            /* Only add data of regular files that are not skipped to cpio */
+            if (S_ISREG(file.mode) && !skip &&
                 (error = cpio_extend(&cpio, &cpio_len, buffer, read_len)) != DRPM_ERR_OK)
                 goto cleanup_fail;
             data_len -= read_len;
@@ -568,7 +568,7 @@ int parse_cpio_from_rpm_filedata(struct rpm *rpm_file,
             if ((error = rpm_archive_read_chunk(rpm_file, NULL, padding_bytes)) != DRPM_ERR_OK)
                 goto cleanup_fail;
             cpio_pos += padding_bytes;
-            if (!S_ISLNK(file.mode) && !skip &&
+            if (S_ISREG(file.mode) && !skip &&
                 (error = cpio_extend(&cpio, &cpio_len, "\0\0\0", padding_bytes)) != DRPM_ERR_OK)
                 goto cleanup_fail;
         }
-- 
2.43.0


From 33b1a3bc91a9a4b03f51a16a9bfad81646750fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:21 +0000
Subject: [PATCH 44/76] fix: release the file sequence when the archive cannot
 be read

---
 src/drpm_make.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index 6da192d..711a235 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -115,6 +115,7 @@ bool seq_append(struct files_seq *seq, unsigned val)
 {
     size_t len = 1;
     unsigned tmp = val;
+    unsigned char *data_tmp;
 
     while (tmp >= (1<<3)) {
         tmp >>= 3;
@@ -122,8 +123,9 @@ bool seq_append(struct files_seq *seq, unsigned val)
     }
 
     if (SEQ_BYTE_LEN(seq->index + len) > seq->alloc_len) {
-        if ((seq->data = realloc(seq->data, seq->alloc_len + SEQ_ALLOC_SIZE)) == NULL)
+        if ((data_tmp = realloc(seq->data, seq->alloc_len + SEQ_ALLOC_SIZE)) == NULL)
             return false;
+        seq->data = data_tmp;
         seq->alloc_len += SEQ_ALLOC_SIZE;
     }
 
@@ -319,7 +321,7 @@ int parse_cpio_from_rpm_filedata(struct rpm *rpm_file,
     MD5_CTX seq_md5;
     unsigned char seq_md5_digest[MD5_DIGEST_LENGTH];
     struct files_seq seq = SEQ_INIT;
-    unsigned char *seq_files = NULL;
+    unsigned char *seq_files;
     size_t seq_files_len;
 
     unsigned short padding_bytes;
@@ -632,7 +634,7 @@ cleanup:
     }
     free(files);
     free(name_buffer);
-    free(seq_files);
+    free(seq.data);
 
     return error;
 }
-- 
2.43.0


From d8cc76b9c58e2efc93d444e0653a1d8e4dd69081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:04 +0000
Subject: [PATCH 45/76] Allow a small hash table for bounded verification

---
 src/drpm_search.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/drpm_search.c b/src/drpm_search.c
index 135132d..ba24ec3 100644
--- a/src/drpm_search.c
+++ b/src/drpm_search.c
@@ -183,6 +183,9 @@ int hash_create(struct hash **hsh, const unsigned char *old, size_t old_len)
             break;
     }
     ht_len = primes[i];
+#if defined(DRPM_VERIFY) && defined(DRPM_VERIFY_HT_LEN) /* size for bounded verification */
+    ht_len = DRPM_VERIFY_HT_LEN;
+#endif
 
     if ((hash_table = calloc(ht_len, sizeof(size_t))) == NULL) {
         free(*hsh);
-- 
2.43.0


From d2304011361ff4fdf72cc16d59fe53fdddb56fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:18 +0000
Subject: [PATCH 46/76] fix: do not search for matches in new data shorter than
 a block

---
 src/drpm_search.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/drpm_search.c b/src/drpm_search.c
index ba24ec3..47df0a4 100644
--- a/src/drpm_search.c
+++ b/src/drpm_search.c
@@ -242,9 +242,16 @@ size_t hash_search(struct hash *hsh,
 
     uint32_t key;
     uint32_t key2;
-    uint32_t prekey = (scan <= new_len - HSIZE) ? buzhash(new + scan) : 0;
+    uint32_t prekey;
     uint32_t xprekey;
 
+    /* too short to match anything */
+    if (new_len < HSIZE) {
+        *pos_ret = 0;
+        *len_ret = 0;
+        return new_len;
+    }
+
     hash_table = hsh->hash_table;
     ht_len = hsh->ht_len;
     scan_start = scan;
-- 
2.43.0


From 8bc58343f12a346d90df6f22e13e8e20043b3e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:32 +0000
Subject: [PATCH 47/76] fix: do not wrap around when reading beyond the end of
 an archive

---
 src/drpm_rpm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index 7bb919d..b66e5db 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -378,7 +378,7 @@ int rpm_archive_read_chunk(struct rpm *rpmst, void *buffer, size_t count)
     if (rpmst == NULL)
         return DRPM_ERR_PROG;
 
-    if (rpmst->archive_offset + count > rpmst->archive_size)
+    if (count > rpmst->archive_size - rpmst->archive_offset)
         return DRPM_ERR_FORMAT;
 
     if (buffer != NULL)
-- 
2.43.0


From da25f4f15ce64f5af17cecfb81624c423664aa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:32 +0000
Subject: [PATCH 48/76] fix: do not free an archive twice when its digest
 cannot be computed

---
 src/drpm_rpm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index b66e5db..65db0d6 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -217,12 +217,12 @@ int rpm_read_archive(struct rpm *rpmst, const char *filename,
                 error = DRPM_ERR_MEMORY;
                 goto cleanup;
             }
+            rpmst->archive = archive_tmp;
             if ((seq_md5 != NULL && MD5_Update(seq_md5, buffer, bytes_read) != 1) ||
                 (full_md5 != NULL && MD5_Update(full_md5, buffer, bytes_read) != 1)) {
                 error = DRPM_ERR_OTHER;
                 goto cleanup;
             }
-            rpmst->archive = archive_tmp;
             memcpy(rpmst->archive + rpmst->archive_size, buffer, bytes_read);
             rpmst->archive_size += bytes_read;
         }
-- 
2.43.0


From 0cfe723345f029bd0c694cebc98983fc6d620ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:32 +0000
Subject: [PATCH 49/76] fix: report failure to close a written package

---
 src/drpm_rpm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index 65db0d6..c5bef97 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -546,7 +546,8 @@ int rpm_write(struct rpm *rpmst, const char *filename, bool include_archive, uns
     }
 
 cleanup:
-    Fclose(file);
+    if (Fclose(file) != 0 && error == DRPM_ERR_OK)
+        error = DRPM_ERR_IO;
     free(signature);
     free(header);
 
-- 
2.43.0


From bd0acb37e1c87f7bc0ab362668f5754903dbe42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:32 +0000
Subject: [PATCH 50/76] fix: refuse signatures that are longer than the data
 they are in

---
 src/drpm_rpm.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index c5bef97..a989830 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -565,6 +565,11 @@ int rpm_replace_lead_and_signature(struct rpm *rpmst, unsigned char *leadsig, si
     if (memcmp(leadsig + RPMLEAD_SIZE, rpm_header_magic, 4) != 0)
         return DRPM_ERR_FORMAT;
 
+    /* index entries (16 bytes each) and data must not exceed <leadsig> */
+    if (8 + 16 * (uint64_t)parse_be32(leadsig + skip) +
+        parse_be32(leadsig + skip + 4) > leadsig_len - skip)
+        return DRPM_ERR_FORMAT;
+
     memcpy(rpmst->lead, leadsig, RPMLEAD_SIZE);
 
     headerFree(rpmst->signature);
-- 
2.43.0


From 309ddded3bfb05af23bcd4164e10dc021e602cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:24 +0000
Subject: [PATCH 51/76] fix: do not free uninitialised headers when out of
 memory

---
 src/drpm_rpm.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index a989830..4734af6 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -1028,14 +1028,18 @@ int rpm_read_header(struct rpm **rpmst, const char *nevr, const char *arch)
     if (rpmst == NULL || nevr == NULL)
         return DRPM_ERR_PROG;
 
-    if ((*rpmst = malloc(sizeof(struct rpm))) == NULL ||
-        (str = malloc(strlen(nevr) + 1)) == NULL) {
+    if ((*rpmst = malloc(sizeof(struct rpm))) == NULL) {
         error = DRPM_ERR_MEMORY;
         goto cleanup_fail;
     }
 
     rpm_init(*rpmst);
 
+    if ((str = malloc(strlen(nevr) + 1)) == NULL) {
+        error = DRPM_ERR_MEMORY;
+        goto cleanup_fail;
+    }
+
     strcpy(str, nevr);
     release = strrchr(str, '-');
     if (release == NULL || release == str) {
-- 
2.43.0


From dd5cccf07b82b8db979ae0c6d6549b298e5a3228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:24 +0000
Subject: [PATCH 52/76] fix: do not free headers that belong to the database
 iterator

---
 src/drpm_rpm.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index 4734af6..baf1cd8 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -1081,7 +1081,8 @@ int rpm_read_header(struct rpm **rpmst, const char *nevr, const char *arch)
     if (arch)
         rpmdbSetIteratorRE(iter, RPMTAG_ARCH, RPMMIRE_STRCMP, arch);
 
-    if (((*rpmst)->header = rpmdbNextIterator(iter)) == NULL) {
+    /* the iterator keeps its own reference */
+    if (((*rpmst)->header = headerLink(rpmdbNextIterator(iter))) == NULL) {
         error = DRPM_ERR_NOINSTALL;
         goto cleanup_fail;
     }
@@ -1089,6 +1090,8 @@ int rpm_read_header(struct rpm **rpmst, const char *nevr, const char *arch)
     if ((error = rpm_export_header(*rpmst, &header, &header_size)) != DRPM_ERR_OK)
         goto cleanup_fail;
 
+    headerFree((*rpmst)->header);
+
     if (((*rpmst)->header = headerImport(header + sizeof(rpm_header_magic), 0, HEADERIMPORT_COPY)) == NULL) {
         error = DRPM_ERR_OTHER;
         goto cleanup_fail;
-- 
2.43.0


From 5f8c8cd0ec618631f09f09c5a3fe05ec698cc01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:24 +0000
Subject: [PATCH 53/76] fix: free the exported header of installed packages

---
 src/drpm_rpm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index baf1cd8..bb19ea8 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -1110,6 +1110,7 @@ cleanup:
     rpmdbFreeIterator(iter);
     rpmtsFree(trans);
     free(str);
+    free(header);
 
     return error;
 }
-- 
2.43.0


From a1aa4a5fedd44ada0ab4b09614603dfc810003fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:08 +0000
Subject: [PATCH 54/76] fix: refuse negative compression levels in package
 headers

---
 src/drpm_rpm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index bb19ea8..6edc8db 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -641,7 +641,7 @@ int rpm_get_comp_level(struct rpm *rpmst, unsigned short *level)
 
     /* payload_flags first contains compression level as a string (zero terminated),
      * here we check that its max length is 2 (max compression level is 99) */
-    if (strlen(payload_flags) > 2)
+    if (strlen(payload_flags) > 2 || payload_flags[0] == '-')
         return DRPM_ERR_FORMAT;
 
     *level = atoi(payload_flags);
-- 
2.43.0


From 87099c97f2022b2d5b9ea05e3236b53cfceff5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:38 +0000
Subject: [PATCH 55/76] fix: initialise the file name length when reading
 patches

---
 src/drpm_make.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index 711a235..a0fe3e0 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -745,7 +745,7 @@ int read_rpmlist(int filedesc, struct patch_info *patch, bool skip_magic)
 {
     int error = DRPM_ERR_OK;
     char *filename = NULL;
-    uint32_t filename_len;
+    uint32_t filename_len = 0;
     const char *fname;
     uint32_t magic;
     char *name = NULL;
-- 
2.43.0


From 45874d44d4b95b43d1bb6e80cce532b0323731f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:50 +0000
Subject: [PATCH 56/76] fix: skip strings of RPM lists that are not needed

---
 src/drpm_make.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index a0fe3e0..73f2581 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -674,15 +674,16 @@ int rpml_get_string(int filedesc, char **ret)
     if (read(filedesc, &len, 1) != 1)
         return DRPM_ERR_FORMAT;
 
-    if (ret != NULL) {
-        if ((*ret = malloc(len + 1)) == NULL)
-            return DRPM_ERR_MEMORY;
-        if (read(filedesc, *ret, len) != len) {
-            free(*ret);
-            return DRPM_ERR_FORMAT;
-        }
-        (*ret)[len] = '\0';
+    if (ret == NULL)
+        return rpml_skip(filedesc, len);
+
+    if ((*ret = malloc(len + 1)) == NULL)
+        return DRPM_ERR_MEMORY;
+    if (read(filedesc, *ret, len) != len) {
+        free(*ret);
+        return DRPM_ERR_FORMAT;
     }
+    (*ret)[len] = '\0';
 
     return DRPM_ERR_OK;
 }
-- 
2.43.0


From ddc2eca4770df432fb0d1c7c9767f83f7eaac57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:02 +0000
Subject: [PATCH 57/76] fix: do not free a string of a RPM list twice

---
 src/drpm_make.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index 73f2581..06893f5 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -681,6 +681,7 @@ int rpml_get_string(int filedesc, char **ret)
         return DRPM_ERR_MEMORY;
     if (read(filedesc, *ret, len) != len) {
         free(*ret);
+        *ret = NULL;
         return DRPM_ERR_FORMAT;
     }
     (*ret)[len] = '\0';
-- 
2.43.0


From 85359189275678b6b2b12c24bbc1fdaae7250685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:04 +0000
Subject: [PATCH 58/76] fix: keep track of the file name buffer when reading
 RPM lists fails

---
 src/drpm_make.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index 06893f5..caa466f 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -722,7 +722,8 @@ int rpml_get_filename(int filedesc, char **filename_ret, uint32_t *filename_len_
     if (new_filename_len > filename_len) {
         if ((filename = realloc(filename, new_filename_len)) == NULL)
             return DRPM_ERR_MEMORY;
-        filename_len = new_filename_len;
+        *filename_ret = filename;
+        *filename_len_ret = new_filename_len;
     }
 
     if (read(filedesc, filename + off, len) != len)
@@ -730,9 +731,6 @@ int rpml_get_filename(int filedesc, char **filename_ret, uint32_t *filename_len_
 
     filename[off + len] = '\0';
 
-    *filename_ret = filename;
-    *filename_len_ret = filename_len;
-
     return DRPM_ERR_OK;
 }
 
-- 
2.43.0


From e99e7cfdbcaf306eed2b992524712f6f869a3b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:37 +0000
Subject: [PATCH 59/76] fix: refuse RPM lists with file name prefixes out of
 range

---
 src/drpm_make.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index caa466f..459219d 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -710,6 +710,10 @@ int rpml_get_filename(int filedesc, char **filename_ret, uint32_t *filename_len_
 
     off = buf[0];
 
+    /* the previous file name has to have that many characters */
+    if (off > ((filename != NULL) ? strlen(filename) : 0))
+        return DRPM_ERR_FORMAT;
+
     if (buf[1] == 0xFF) {
         if ((error = rpml_get_uint16(filedesc, &len)) != DRPM_ERR_OK)
             return error;
-- 
2.43.0


From 6d7c57081bd214fa90780de263b4184d39d85bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:04 +0000
Subject: [PATCH 60/76] fix: read digests of files in RPM lists

---
 src/drpm_make.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index 459219d..15bbbf1 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -863,9 +863,9 @@ int read_rpmlist(int filedesc, struct patch_info *patch, bool skip_magic)
             if (S_ISREG(patch->files[patch->file_count].mode) || S_ISLNK(patch->files[patch->file_count].mode)) {
                 read_bytes = (num % 4) + 1;
                 memset(buf, 0, 4);
-                if (read(filedesc, buf + (4 - read_bytes), read_bytes) != read_bytes &&
-                    parse_be32(buf) > 0 &&
-                    read(filedesc, patch->files[patch->file_count].md5, MD5_DIGEST_LENGTH) != MD5_DIGEST_LENGTH) {
+                if (read(filedesc, buf + (4 - read_bytes), read_bytes) != read_bytes ||
+                    (parse_be32(buf) > 0 &&
+                     read(filedesc, patch->files[patch->file_count].md5, MD5_DIGEST_LENGTH) != MD5_DIGEST_LENGTH)) {
                     error = DRPM_ERR_FORMAT;
                     goto cleanup;
                 }
-- 
2.43.0


From e867739122023e40b704b5e0ebf038ba6712e993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:15 +0000
Subject: [PATCH 61/76] fix: store names of files from RPM lists

---
 src/drpm_make.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index 15bbbf1..a5c57ad 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -829,6 +829,7 @@ int read_rpmlist(int filedesc, struct patch_info *patch, bool skip_magic)
             goto cleanup;
         }
 
+        strcpy(patch->files[patch->file_count].name, fname);
         patch->files[patch->file_count].flags = RPMFILE_NONE;
         memset(patch->files[patch->file_count].md5, 0, MD5_DIGEST_LENGTH);
 
-- 
2.43.0


From 138f5088bc03d8d43d5e424f0f508a8668ccd78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:31 +0000
Subject: [PATCH 62/76] fix: free names of files when reading RPM lists fails

---
 src/drpm_make.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index a5c57ad..a556845 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -754,6 +754,7 @@ int read_rpmlist(int filedesc, struct patch_info *patch, bool skip_magic)
     uint32_t magic;
     char *name = NULL;
     char *evr = NULL;
+    struct patch_file *file;
     uint16_t patches_count;
     uint32_t files_count;
     uint8_t num;
@@ -829,14 +830,15 @@ int read_rpmlist(int filedesc, struct patch_info *patch, bool skip_magic)
             goto cleanup;
         }
 
-        strcpy(patch->files[patch->file_count].name, fname);
-        patch->files[patch->file_count].flags = RPMFILE_NONE;
-        memset(patch->files[patch->file_count].md5, 0, MD5_DIGEST_LENGTH);
+        file = &patch->files[patch->file_count++];
+        strcpy(file->name, fname);
+        file->flags = RPMFILE_NONE;
+        memset(file->md5, 0, MD5_DIGEST_LENGTH);
 
-        if ((error = rpml_get_uint16(filedesc, &patch->files[patch->file_count].mode)) != DRPM_ERR_OK)
+        if ((error = rpml_get_uint16(filedesc, &file->mode)) != DRPM_ERR_OK)
             goto cleanup;
 
-        if (patch->files[patch->file_count].mode != 0) {
+        if (file->mode != 0) {
             if (read(filedesc, &num, 1) != 1) {
                 error = DRPM_ERR_FORMAT;
                 goto cleanup;
@@ -857,23 +859,21 @@ int read_rpmlist(int filedesc, struct patch_info *patch, bool skip_magic)
                     goto cleanup;
             }
 
-            if ((S_ISCHR(patch->files[patch->file_count].mode) || S_ISBLK(patch->files[patch->file_count].mode)) &&
+            if ((S_ISCHR(file->mode) || S_ISBLK(file->mode)) &&
                 (error = rpml_get_uint32(filedesc, NULL)) != DRPM_ERR_OK) // rdev
                 goto cleanup;
 
-            if (S_ISREG(patch->files[patch->file_count].mode) || S_ISLNK(patch->files[patch->file_count].mode)) {
+            if (S_ISREG(file->mode) || S_ISLNK(file->mode)) {
                 read_bytes = (num % 4) + 1;
                 memset(buf, 0, 4);
                 if (read(filedesc, buf + (4 - read_bytes), read_bytes) != read_bytes ||
                     (parse_be32(buf) > 0 &&
-                     read(filedesc, patch->files[patch->file_count].md5, MD5_DIGEST_LENGTH) != MD5_DIGEST_LENGTH)) {
+                     read(filedesc, file->md5, MD5_DIGEST_LENGTH) != MD5_DIGEST_LENGTH)) {
                     error = DRPM_ERR_FORMAT;
                     goto cleanup;
                 }
             }
         }
-
-        patch->file_count++;
     }
 
 cleanup:
-- 
2.43.0


From cecfe64559325495b43dad2ec86e1ff35e323fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:09 +0000
Subject: [PATCH 63/76] fix: stop reading RPM lists when out of memory

---
 src/drpm_make.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index a556845..6e2382f 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -774,7 +774,7 @@ int read_rpmlist(int filedesc, struct patch_info *patch, bool skip_magic)
         goto cleanup;
 
     if ((patch->nevr = malloc(strlen(name) + strlen(evr) + 2)) == NULL) {
-        error = DRPM_ERR_FORMAT;
+        error = DRPM_ERR_MEMORY;
         goto cleanup;
     }
 
@@ -802,6 +802,7 @@ int read_rpmlist(int filedesc, struct patch_info *patch, bool skip_magic)
                 goto cleanup;
             if ((patch->files[patch->file_count].name = malloc(strlen(filename) + 1)) == NULL) {
                 error = DRPM_ERR_MEMORY;
+                goto cleanup;
             }
             strcpy(patch->files[patch->file_count].name, filename);
             patch->files[patch->file_count].mode = S_IFREG;
-- 
2.43.0


From eb698a1d13e5875c2ebdab38020c07cfe4ecc196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:09 +0000
Subject: [PATCH 64/76] fix: initialise patches before reading them

---
 src/drpm_make.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index 6e2382f..3f27399 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -907,7 +907,7 @@ int patches_read(const char *oldrpmprint, const char *oldpatchrpm, struct rpm_pa
         return DRPM_ERR_OK;
     }
 
-    if ((*patches = malloc(sizeof(struct rpm_patches))) == NULL)
+    if ((*patches = calloc(1, sizeof(struct rpm_patches))) == NULL)
         return DRPM_ERR_MEMORY;
 
     rpmprint = &(*patches)->rpmprint;
-- 
2.43.0


From 3cf7e7289a1be440af2e90742c40142c03e540a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:36 +0000
Subject: [PATCH 65/76] fix: allocate enough memory for the files of patched
 packages

---
 src/drpm_make.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index 3f27399..919f45f 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -937,7 +937,7 @@ int patches_read(const char *oldrpmprint, const char *oldpatchrpm, struct rpm_pa
             (error = rpm_get_nevr(rpmst, &rpmprint->nevr)) != DRPM_ERR_OK ||
             (error = rpm_get_file_info(rpmst, &files, &file_count, NULL)) != DRPM_ERR_OK)
             goto cleanup_fail;
-        if ((rpmprint->files = malloc(file_count)) == NULL) {
+        if ((rpmprint->files = calloc(file_count, sizeof(struct patch_file))) == NULL) {
             error = DRPM_ERR_MEMORY;
             goto cleanup_fail;
         }
-- 
2.43.0


From 98a4da3a5ac4ce9569e5f6e3788fa190cff4d93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:36 +0000
Subject: [PATCH 66/76] fix: accept files without digests in patched packages

---
 src/drpm_make.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index 919f45f..cb6a9c3 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -953,7 +953,8 @@ int patches_read(const char *oldrpmprint, const char *oldpatchrpm, struct rpm_pa
             strcpy(rpmprint->files[i].name, fname);
             rpmprint->files[i].mode = files[i].mode;
             rpmprint->files[i].flags = files[i].flags;
-            if (!parse_md5(rpmprint->files[i].md5, files[i].md5)) {
+            /* only regular files have got digests */
+            if (strlen(files[i].md5) > 0 && !parse_md5(rpmprint->files[i].md5, files[i].md5)) {
                 error = DRPM_ERR_FORMAT;
                 goto cleanup_fail;
             }
-- 
2.43.0


From 1c01b61978985b8a7eba296021bc7e9999e63ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:36 +0000
Subject: [PATCH 67/76] fix: release the package that patches are read from

---
 src/drpm_make.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index cb6a9c3..f23c013 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -894,8 +894,8 @@ int patches_read(const char *oldrpmprint, const char *oldpatchrpm, struct rpm_pa
     struct patch_info *patchrpm;
     uint32_t magic;
     struct rpm *rpmst = NULL;
-    struct file_info *files;
-    size_t file_count;
+    struct file_info *files = NULL;
+    size_t file_count = 0;
     char *fname;
 
     if (patches == NULL)
@@ -975,6 +975,13 @@ cleanup_fail:
     patches_destroy(patches);
 
 cleanup:
+    for (size_t i = 0; i < file_count; i++) {
+        free(files[i].name);
+        free(files[i].md5);
+        free(files[i].linkto);
+    }
+    free(files);
+    rpm_destroy(&rpmst);
     close(filedesc);
 
     return error;
-- 
2.43.0


From 816769a7dcd56198eaaf7d88469dc2afb625a858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:42 +0000
Subject: [PATCH 68/76] fix: do not leak the options when a version is refused

---
 src/drpm.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/drpm.c b/src/drpm.c
index 6cd7d4d..b469afe 100644
--- a/src/drpm.c
+++ b/src/drpm.c
@@ -326,14 +326,14 @@ int drpm_make(const char *old_rpm_name, const char *new_rpm_name,
     if (alone)
         solo_rpm_name = (old_rpm_name == NULL) ? new_rpm_name : old_rpm_name;
 
+    if (rpm_only && user_opts->version < 3)
+        return DRPM_ERR_ARGS;
+
     if (user_opts == NULL)
         drpm_make_options_defaults(&opts);
     else
         drpm_make_options_copy(&opts, user_opts);
 
-    if (rpm_only && opts.version < 3)
-        return DRPM_ERR_ARGS;
-
     delta.filename = deltarpm_name;
     delta.type = rpm_only ? DRPM_TYPE_RPMONLY : DRPM_TYPE_STANDARD;
     delta.version = opts.version;
-- 
2.43.0


From 581a5a19800784c050d5feb935e1d36f4d0d8296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:03 +0000
Subject: [PATCH 69/76] fix: release packages when making a delta fails

---
 src/drpm.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/drpm.c b/src/drpm.c
index b469afe..767bed1 100644
--- a/src/drpm.c
+++ b/src/drpm.c
@@ -473,11 +473,13 @@ write_files:
 
 cleanup:
 
-    free_deltarpm(&delta);
-
-    rpm_destroy(&old_rpm);
-    if (rpm_only) // preventing double free (delta.head.tgt_rpm)
+    if (rpm_only || delta.head.tgt_rpm == NULL) { // preventing double free (delta.head.tgt_rpm)
+        rpm_destroy(&solo_rpm);
         rpm_destroy(&new_rpm);
+    }
+    rpm_destroy(&old_rpm);
+
+    free_deltarpm(&delta);
 
     free(old_cpio);
     free(new_cpio);
-- 
2.43.0


From 8c545809f42ba23e126d16af06aa02490ceccd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:26 +0000
Subject: [PATCH 70/76] fix: do not make a delta when its options cannot be
 copied

---
 src/drpm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/drpm.c b/src/drpm.c
index 767bed1..ab8ee36 100644
--- a/src/drpm.c
+++ b/src/drpm.c
@@ -331,8 +331,8 @@ int drpm_make(const char *old_rpm_name, const char *new_rpm_name,
 
     if (user_opts == NULL)
         drpm_make_options_defaults(&opts);
-    else
-        drpm_make_options_copy(&opts, user_opts);
+    else if ((error = drpm_make_options_copy(&opts, user_opts)) != DRPM_ERR_OK)
+        goto cleanup;
 
     delta.filename = deltarpm_name;
     delta.type = rpm_only ? DRPM_TYPE_RPMONLY : DRPM_TYPE_STANDARD;
-- 
2.43.0


From b08a924a1263fd0871c743224f10f2a5493126c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:26 +0000
Subject: [PATCH 71/76] fix: do not free the old archive twice when out of
 memory

---
 src/drpm.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/drpm.c b/src/drpm.c
index ab8ee36..bc8b2f7 100644
--- a/src/drpm.c
+++ b/src/drpm.c
@@ -417,12 +417,15 @@ int drpm_make(const char *old_rpm_name, const char *new_rpm_name,
             (error = rpm_fetch_archive(new_rpm, &new_cpio, &new_cpio_len)) != DRPM_ERR_OK)
             goto cleanup;
 
-        if ((old_cpio_tmp = realloc(old_cpio, old_header_len + old_cpio_len)) == NULL ||
-            (new_cpio_tmp = realloc(new_cpio, new_header_len + new_cpio_len)) == NULL) {
+        if ((old_cpio_tmp = realloc(old_cpio, old_header_len + old_cpio_len)) == NULL) {
             error = DRPM_ERR_MEMORY;
             goto cleanup;
         }
         old_cpio = old_cpio_tmp;
+        if ((new_cpio_tmp = realloc(new_cpio, new_header_len + new_cpio_len)) == NULL) {
+            error = DRPM_ERR_MEMORY;
+            goto cleanup;
+        }
         new_cpio = new_cpio_tmp;
 
         memmove(old_cpio + old_header_len, old_cpio, old_cpio_len);
-- 
2.43.0


From 97f52bfb17ff2f2e688e74738108c94acef3c1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:26 +0000
Subject: [PATCH 72/76] fix: do not release an uninitialised package when out
 of memory

---
 src/drpm_make.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index f23c013..1496b96 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -1055,7 +1055,7 @@ bool is_unpatched(const struct rpm_patches *patches, const char *name,
 int fill_nodiff_deltarpm(struct deltarpm *delta, const char *rpm_filename,
                          bool comp_not_set)
 {
-    struct rpm *solo_rpm;
+    struct rpm *solo_rpm = NULL;
     char *nevr = NULL;
     int error = DRPM_ERR_OK;
 
-- 
2.43.0


From a95d12bbbc2c22d1b4d218ecdea109072631b327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:47 +0000
Subject: [PATCH 73/76] fix: release everything when writing a delta fails

---
 src/drpm_write.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/drpm_write.c b/src/drpm_write.c
index de96679..f01d571 100644
--- a/src/drpm_write.c
+++ b/src/drpm_write.c
@@ -213,28 +213,34 @@ int write_deltarpm(struct deltarpm *delta)
     switch (delta->type) {
     case DRPM_TYPE_STANDARD:
         if ((error = rpm_fetch_header(delta->head.tgt_rpm, &header, &header_size)) != DRPM_ERR_OK)
-            return error;
+            goto cleanup;
 
         if (MD5_Init(&md5) != 1 ||
             MD5_Update(&md5, header, header_size) != 1 ||
             MD5_Update(&md5, strm_data, strm_data_len) != 1 ||
-            MD5_Final(md5_digest, &md5) != 1)
-            return DRPM_ERR_OTHER;
+            MD5_Final(md5_digest, &md5) != 1) {
+            error = DRPM_ERR_OTHER;
+            goto cleanup;
+        }
 
         if ((error = rpm_signature_empty(delta->head.tgt_rpm)) != DRPM_ERR_OK ||
             (error = rpm_signature_set_size(delta->head.tgt_rpm, header_size + strm_data_len)) != DRPM_ERR_OK ||
             (error = rpm_signature_set_md5(delta->head.tgt_rpm, md5_digest)) != DRPM_ERR_OK ||
             (error = rpm_signature_reload(delta->head.tgt_rpm)) != DRPM_ERR_OK ||
             (error = rpm_write(delta->head.tgt_rpm, delta->filename, false, NULL, false)) != DRPM_ERR_OK)
-            return error;
+            goto cleanup;
 
-        if ((filedesc = open(delta->filename, O_WRONLY | O_APPEND)) < 0)
-            return DRPM_ERR_IO;
+        if ((filedesc = open(delta->filename, O_WRONLY | O_APPEND)) < 0) {
+            error = DRPM_ERR_IO;
+            goto cleanup;
+        }
         break;
 
     case DRPM_TYPE_RPMONLY:
-        if ((filedesc = creat(delta->filename, CREAT_MODE)) < 0)
-            return DRPM_ERR_IO;
+        if ((filedesc = creat(delta->filename, CREAT_MODE)) < 0) {
+            error = DRPM_ERR_IO;
+            goto cleanup;
+        }
 
         if (write(filedesc, "drpm", 4) != 4 ||
             write(filedesc, version, 4) != 4) {
-- 
2.43.0


From 53d684ae680b1741cc537820c77ff3feec11f22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:02 +0000
Subject: [PATCH 74/76] fix: report failure to close a written delta

---
 src/drpm_write.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/drpm_write.c b/src/drpm_write.c
index f01d571..4308784 100644
--- a/src/drpm_write.c
+++ b/src/drpm_write.c
@@ -276,7 +276,8 @@ cleanup:
 
     free(header);
     free(strm_data);
-    close(filedesc);
+    if (filedesc >= 0 && close(filedesc) != 0 && error == DRPM_ERR_OK)
+        error = DRPM_ERR_IO;
 
     return error;
 }
-- 
2.43.0


From bec952cdcd2b6052c5d0164c3320ff3c3df6e3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:02 +0000
Subject: [PATCH 75/76] fix: report failure to write the sequence file

---
 src/drpm_write.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/drpm_write.c b/src/drpm_write.c
index 4308784..fac5dbf 100644
--- a/src/drpm_write.c
+++ b/src/drpm_write.c
@@ -298,11 +298,13 @@ int write_seqfile(struct deltarpm *delta, const char *filename)
 
     dump_hex(sequence, delta->sequence, delta->sequence_len);
 
-    fprintf(file, "%s-%s\n", delta->src_nevr, sequence);
+    if (fprintf(file, "%s-%s\n", delta->src_nevr, sequence) < 0)
+        error = DRPM_ERR_IO;
 
 cleanup:
     free(sequence);
-    fclose(file);
+    if (fclose(file) != 0 && error == DRPM_ERR_OK)
+        error = DRPM_ERR_IO;
 
     return error;
 }
-- 
2.43.0


From 3a07cba9470345b66665c5e476be14d7aeb1d7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:02 +0000
Subject: [PATCH 76/76] fix: free the result when reading a delta fails

---
 src/drpm.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/drpm.c b/src/drpm.c
index bc8b2f7..8a51c7e 100644
--- a/src/drpm.c
+++ b/src/drpm.c
@@ -79,8 +79,10 @@ int drpm_read(struct drpm **delta_ret, const char *filename)
         goto cleanup;
     }
 
-    if ((error = deltarpm_to_drpm(&delta, *delta_ret)) != DRPM_ERR_OK)
+    if ((error = deltarpm_to_drpm(&delta, *delta_ret)) != DRPM_ERR_OK) {
+        free(*delta_ret);
         goto cleanup;
+    }
 
 cleanup:
     free_deltarpm(&delta);
-- 
2.43.0

