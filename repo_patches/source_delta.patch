From d06f0c936c94171e24379cfe6c9c8e1a6e8299cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:46 +0000
Subject: [PATCH 01/52] fix: pbkdf2: feed back whole PRF blocks and notice
 failed MAC re-creation

---
 lib/pbkdf2.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/pbkdf2.c b/lib/pbkdf2.c
index c456fb0..f75914f 100644
--- a/lib/pbkdf2.c
+++ b/lib/pbkdf2.c
@@ -49,7 +49,7 @@ int kripto_pbkdf2
 	assert(iter);
 
 	x = kripto_mac_maxtag(mac);
-	if(out_len < x) x = out_len;
+	if(!x) return -1;
 
 	buf0 = (uint8_t *)malloc(x << 1);
 	if(!buf0) return -1;
@@ -75,7 +75,7 @@ int kripto_pbkdf2
 		for(i = 1; i < iter; i++)
 		{
 			m = kripto_mac_recreate(m, mac_rounds, pass, pass_len, x);
-			if(!mac) goto err;
+			if(!m) goto err;
 
 			kripto_mac_input(m, buf0, x);
 			kripto_mac_tag(m, buf0, x);
-- 
2.43.0


From 3278d975adbaf3e00e396762d25672d569a382db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:14 +0000
Subject: [PATCH 02/52] fix: pkcs7: pad to any block size and remove a block of
 padding only

---
 lib/pkcs7.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/pkcs7.c b/lib/pkcs7.c
index f615557..33fd0a5 100644
--- a/lib/pkcs7.c
+++ b/lib/pkcs7.c
@@ -30,7 +30,7 @@ size_t kripto_pkcs7_add
 {
 	unsigned int i;
 
-	pad = pad - (len & (pad - 1));
+	pad = pad - (unsigned int)(len % pad);
 
 	if(pad + len > maxlen) return 0;
 
@@ -42,7 +42,7 @@ size_t kripto_pkcs7_add
 
 size_t kripto_pkcs7_rem(void *buf, size_t len)
 {
-	if(U8(buf)[len - 1] < len)
+	if(len && U8(buf)[len - 1] <= len)
 		return (len - U8(buf)[len - 1]);
 	else
 		return len;
-- 
2.43.0


From 003b3a81d1f79a3ef9f5d371fb0c3eff53092978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:21 +0000
Subject: [PATCH 03/52] fix: ctr: carry the counter into its first byte

---
 lib/stream/ctr.c | 374 +++++++++++++++++++++++------------------------
 1 file changed, 187 insertions(+), 187 deletions(-)

diff --git a/lib/stream/ctr.c b/lib/stream/ctr.c
index d3a833c..81d7019 100644
--- a/lib/stream/ctr.c
+++ b/lib/stream/ctr.c
@@ -1,187 +1,187 @@
-/*
- * Copyright (C) 2011 by Gregor Pintar <grpintar@gmail.com>
- *
- * Permission to use, copy, modify, and/or distribute this software for any
- * purpose with or without fee is hereby granted.
- *
- * THE SOFTWARE IS PROVIDED "AS IS" AND THE AUTHOR DISCLAIMS ALL WARRANTIES
- * WITH REGARD TO THIS SOFTWARE INCLUDING ALL IMPLIED WARRANTIES OF
- * MERCHANTABILITY AND FITNESS. IN NO EVENT SHALL THE AUTHOR BE LIABLE FOR
- * ANY SPECIAL, DIRECT, INDIRECT, OR CONSEQUENTIAL DAMAGES OR ANY DAMAGES
- * WHATSOEVER RESULTING FROM LOSS OF USE, DATA OR PROFITS, WHETHER IN AN
- * ACTION OF CONTRACT, NEGLIGENCE OR OTHER TORTIOUS ACTION, ARISING OUT OF
- * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
- */
-
-#include <stdint.h>
-#include <string.h>
-#include <stdlib.h>
-
-#include <kripto/cast.h>
-#include <kripto/memory.h>
-#include <kripto/block.h>
-#include <kripto/stream.h>
-#include <kripto/desc/stream.h>
-
-#include <kripto/stream/ctr.h>
-
-struct kripto_stream
-{
-	const kripto_desc_stream *desc;
-	unsigned int multof;
-	kripto_block *block;
-	uint8_t *x;
-	uint8_t *buf;
-	unsigned int blocksize;
-	unsigned int used;
-};
-
-static void ctr_crypt
-(
-	kripto_stream *s,
-	const void *in,
-	void *out,
-	size_t len
-)
-{
-	size_t i;
-	unsigned int n;
-
-	for(i = 0; i < len; i++)
-	{
-		if(s->used == s->blocksize)
-		{
-			kripto_block_encrypt(s->block, s->x, s->buf);
-			s->used = 0;
-
-			for(n = s->blocksize - 1; n; n--)
-				if(++s->x[n]) break;
-		}
-
-		U8(out)[i] = CU8(in)[i] ^ s->buf[s->used++];
-	}
-}
-
-static void ctr_prng
-(
-	kripto_stream *s,
-	void *out,
-	size_t len
-)
-{
-	size_t i;
-	unsigned int n;
-
-	for(i = 0; i < len; i++)
-	{
-		if(s->used == s->blocksize)
-		{
-			kripto_block_encrypt(s->block, s->x, s->buf);
-			s->used = 0;
-
-			for(n = s->blocksize - 1; n; n--)
-				if(++s->x[n]) break;
-		}
-
-		U8(out)[i] = s->buf[s->used++];
-	}
-}
-
-static void ctr_destroy(kripto_stream *s)
-{
-	kripto_block_destroy(s->block);
-	kripto_memory_wipe(s, sizeof(kripto_stream) + (s->blocksize << 1));
-	free(s);
-}
-
-struct ext
-{
-	kripto_desc_stream desc;
-	const kripto_desc_block *block;
-};
-
-#define EXT(X) ((const struct ext *)(X))
-
-static kripto_stream *ctr_create
-(
-	const kripto_desc_stream *desc,
-	unsigned int rounds,
-	const void *key,
-	unsigned int key_len,
-	const void *iv,
-	unsigned int iv_len
-)
-{
-	kripto_stream *s = (kripto_stream *)malloc(sizeof(kripto_stream) + (desc->maxiv << 1));
-	if(!s) return 0;
-
-	s->desc = desc;
-	s->multof = 1;
-
-	s->used = s->blocksize = desc->maxiv;
-
-	s->x = (uint8_t *)s + sizeof(kripto_stream);
-	s->buf = s->x + s->blocksize;
-
-	/* block cipher */
-	s->block = kripto_block_create(EXT(desc)->block, rounds, key, key_len);
-	if(!s->block)
-	{
-		kripto_memory_wipe(s, sizeof(kripto_stream) + (s->blocksize << 1));
-		free(s);
-		return 0;
-	}
-
-	/* IV (nonce) */
-	if(iv_len) memcpy(s->x, iv, iv_len);
-	memset(s->x + iv_len, 0, s->blocksize - iv_len);
-
-	return s;
-}
-
-static kripto_stream *ctr_recreate
-(
-	kripto_stream *s,
-	unsigned int rounds,
-	const void *key,
-	unsigned int key_len,
-	const void *iv,
-	unsigned int iv_len
-)
-{
-	/* block cipher */
-	s->block = kripto_block_recreate(s->block, rounds, key, key_len);
-	if(!s->block)
-	{
-		kripto_memory_wipe(s, sizeof(kripto_stream) + (s->blocksize << 1));
-		free(s);
-		return 0;
-	}
-
-	/* IV (nonce) */
-	if(iv_len) memcpy(s->x, iv, iv_len);
-	memset(s->x + iv_len, 0, s->blocksize - iv_len);
-
-	s->used = s->blocksize;
-
-	return s;
-}
-
-kripto_desc_stream *kripto_stream_ctr(const kripto_desc_block *block)
-{
-	struct ext *s = (struct ext *)malloc(sizeof(struct ext));
-	if(!s) return 0;
-
-	s->block = block;
-
-	s->desc.create = &ctr_create;
-	s->desc.recreate = &ctr_recreate;
-	s->desc.encrypt = &ctr_crypt;
-	s->desc.decrypt = &ctr_crypt;
-	s->desc.prng = &ctr_prng;
-	s->desc.destroy = &ctr_destroy;
-	s->desc.maxkey = kripto_block_maxkey(block);
-	s->desc.maxiv = kripto_block_size(block);
-
-	return (kripto_desc_stream *)s;
-}
+/*
+ * Copyright (C) 2011 by Gregor Pintar <grpintar@gmail.com>
+ *
+ * Permission to use, copy, modify, and/or distribute this software for any
+ * purpose with or without fee is hereby granted.
+ *
+ * THE SOFTWARE IS PROVIDED "AS IS" AND THE AUTHOR DISCLAIMS ALL WARRANTIES
+ * WITH REGARD TO THIS SOFTWARE INCLUDING ALL IMPLIED WARRANTIES OF
+ * MERCHANTABILITY AND FITNESS. IN NO EVENT SHALL THE AUTHOR BE LIABLE FOR
+ * ANY SPECIAL, DIRECT, INDIRECT, OR CONSEQUENTIAL DAMAGES OR ANY DAMAGES
+ * WHATSOEVER RESULTING FROM LOSS OF USE, DATA OR PROFITS, WHETHER IN AN
+ * ACTION OF CONTRACT, NEGLIGENCE OR OTHER TORTIOUS ACTION, ARISING OUT OF
+ * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
+ */
+
+#include <stdint.h>
+#include <string.h>
+#include <stdlib.h>
+
+#include <kripto/cast.h>
+#include <kripto/memory.h>
+#include <kripto/block.h>
+#include <kripto/stream.h>
+#include <kripto/desc/stream.h>
+
+#include <kripto/stream/ctr.h>
+
+struct kripto_stream
+{
+	const kripto_desc_stream *desc;
+	unsigned int multof;
+	kripto_block *block;
+	uint8_t *x;
+	uint8_t *buf;
+	unsigned int blocksize;
+	unsigned int used;
+};
+
+static void ctr_crypt
+(
+	kripto_stream *s,
+	const void *in,
+	void *out,
+	size_t len
+)
+{
+	size_t i;
+	unsigned int n;
+
+	for(i = 0; i < len; i++)
+	{
+		if(s->used == s->blocksize)
+		{
+			kripto_block_encrypt(s->block, s->x, s->buf);
+			s->used = 0;
+
+			for(n = s->blocksize; n; n--)
+				if(++s->x[n - 1]) break;
+		}
+
+		U8(out)[i] = CU8(in)[i] ^ s->buf[s->used++];
+	}
+}
+
+static void ctr_prng
+(
+	kripto_stream *s,
+	void *out,
+	size_t len
+)
+{
+	size_t i;
+	unsigned int n;
+
+	for(i = 0; i < len; i++)
+	{
+		if(s->used == s->blocksize)
+		{
+			kripto_block_encrypt(s->block, s->x, s->buf);
+			s->used = 0;
+
+			for(n = s->blocksize; n; n--)
+				if(++s->x[n - 1]) break;
+		}
+
+		U8(out)[i] = s->buf[s->used++];
+	}
+}
+
+static void ctr_destroy(kripto_stream *s)
+{
+	kripto_block_destroy(s->block);
+	kripto_memory_wipe(s, sizeof(kripto_stream) + (s->blocksize << 1));
+	free(s);
+}
+
+struct ext
+{
+	kripto_desc_stream desc;
+	const kripto_desc_block *block;
+};
+
+#define EXT(X) ((const struct ext *)(X))
+
+static kripto_stream *ctr_create
+(
+	const kripto_desc_stream *desc,
+	unsigned int rounds,
+	const void *key,
+	unsigned int key_len,
+	const void *iv,
+	unsigned int iv_len
+)
+{
+	kripto_stream *s = (kripto_stream *)malloc(sizeof(kripto_stream) + (desc->maxiv << 1));
+	if(!s) return 0;
+
+	s->desc = desc;
+	s->multof = 1;
+
+	s->used = s->blocksize = desc->maxiv;
+
+	s->x = (uint8_t *)s + sizeof(kripto_stream);
+	s->buf = s->x + s->blocksize;
+
+	/* block cipher */
+	s->block = kripto_block_create(EXT(desc)->block, rounds, key, key_len);
+	if(!s->block)
+	{
+		kripto_memory_wipe(s, sizeof(kripto_stream) + (s->blocksize << 1));
+		free(s);
+		return 0;
+	}
+
+	/* IV (nonce) */
+	if(iv_len) memcpy(s->x, iv, iv_len);
+	memset(s->x + iv_len, 0, s->blocksize - iv_len);
+
+	return s;
+}
+
+static kripto_stream *ctr_recreate
+(
+	kripto_stream *s,
+	unsigned int rounds,
+	const void *key,
+	unsigned int key_len,
+	const void *iv,
+	unsigned int iv_len
+)
+{
+	/* block cipher */
+	s->block = kripto_block_recreate(s->block, rounds, key, key_len);
+	if(!s->block)
+	{
+		kripto_memory_wipe(s, sizeof(kripto_stream) + (s->blocksize << 1));
+		free(s);
+		return 0;
+	}
+
+	/* IV (nonce) */
+	if(iv_len) memcpy(s->x, iv, iv_len);
+	memset(s->x + iv_len, 0, s->blocksize - iv_len);
+
+	s->used = s->blocksize;
+
+	return s;
+}
+
+kripto_desc_stream *kripto_stream_ctr(const kripto_desc_block *block)
+{
+	struct ext *s = (struct ext *)malloc(sizeof(struct ext));
+	if(!s) return 0;
+
+	s->block = block;
+
+	s->desc.create = &ctr_create;
+	s->desc.recreate = &ctr_recreate;
+	s->desc.encrypt = &ctr_crypt;
+	s->desc.decrypt = &ctr_crypt;
+	s->desc.prng = &ctr_prng;
+	s->desc.destroy = &ctr_destroy;
+	s->desc.maxkey = kripto_block_maxkey(block);
+	s->desc.maxiv = kripto_block_size(block);
+
+	return (kripto_desc_stream *)s;
+}
-- 
2.43.0


From 89828db6495f892c5d414d191cae33ab1d928c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:58 +0000
Subject: [PATCH 04/52] fix: cfb: decrypt with the keystream instead of the
 output buffer

---
 lib/stream/cfb.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/stream/cfb.c b/lib/stream/cfb.c
index 373ec5e..ff9dbcf 100644
--- a/lib/stream/cfb.c
+++ b/lib/stream/cfb.c
@@ -66,17 +66,19 @@ static void cfb_decrypt
 )
 {
 	size_t i;
+	uint8_t c;
 
 	for(i = 0; i < len; i++)
 	{
 		if(s->used == s->blocksize)
 		{
-			kripto_block_encrypt(s->block, s->prev, pt);
+			kripto_block_encrypt(s->block, s->prev, s->prev);
 			s->used = 0;
 		}
 
-		U8(pt)[i] ^= CU8(ct)[i];
-		s->prev[s->used++] = CU8(ct)[i];
+		c = CU8(ct)[i];
+		U8(pt)[i] = s->prev[s->used] ^ c;
+		s->prev[s->used++] = c;
 	}
 }
 
-- 
2.43.0


From 52971f0d8fd20827a1125d2d69045a9fa23bdc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:38 +0000
Subject: [PATCH 05/52] fix: eax: use the whole nonce OMAC as counter and tag
 mask

---
 lib/ae/eax.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/ae/eax.c b/lib/ae/eax.c
index a03af41..6d3a870 100644
--- a/lib/ae/eax.c
+++ b/lib/ae/eax.c
@@ -159,7 +159,7 @@ static kripto_ae *eax_create
 	memset(buf, 0, len);
 	kripto_mac_input(s->omac, buf, len);
 	kripto_mac_input(s->omac, iv, iv_len);
-	kripto_mac_tag(s->omac, s->iv, iv_len);
+	kripto_mac_tag(s->omac, s->iv, len);
 
 	/* recreate OMAC for encryption/decryption */
 	s->omac = kripto_mac_recreate(s->omac, rounds, key, key_len, len);
@@ -168,7 +168,7 @@ static kripto_ae *eax_create
 	kripto_mac_input(s->omac, buf, len);
 
 	/* create CTR */
-	s->ctr = kripto_stream_create(s->ctr_desc, rounds, key, key_len, s->iv, iv_len);
+	s->ctr = kripto_stream_create(s->ctr_desc, rounds, key, key_len, s->iv, len);
 	if(!s->ctr) goto err6;
 
 	/* create OMAC for header */
@@ -215,7 +215,7 @@ static kripto_ae *eax_recreate
 	memset(buf, 0, s->len);
 	kripto_mac_input(s->omac, buf, s->len);
 	kripto_mac_input(s->omac, iv, iv_len);
-	kripto_mac_tag(s->omac, s->iv, iv_len);
+	kripto_mac_tag(s->omac, s->iv, s->len);
 
 	/* recreate OMAC for encryption/decryption */
 	s->omac = kripto_mac_recreate(s->omac, rounds, key, key_len, s->len);
@@ -224,7 +224,7 @@ static kripto_ae *eax_recreate
 	kripto_mac_input(s->omac, buf, s->len);
 
 	/* recreate CTR */
-	s->ctr = kripto_stream_recreate(s->ctr, rounds, key, key_len, s->iv, iv_len);
+	s->ctr = kripto_stream_recreate(s->ctr, rounds, key, key_len, s->iv, s->len);
 	if(!s->ctr) goto err2;
 
 	/* recreate OMAC for header */
-- 
2.43.0


From 95a5abdc0155bd4cad5446e56c5fa0d4e1407e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:02 +0000
Subject: [PATCH 06/52] fix: eax: release every part when re-creation fails

---
 lib/ae/eax.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/ae/eax.c b/lib/ae/eax.c
index 6d3a870..ba0bee2 100644
--- a/lib/ae/eax.c
+++ b/lib/ae/eax.c
@@ -225,11 +225,11 @@ static kripto_ae *eax_recreate
 
 	/* recreate CTR */
 	s->ctr = kripto_stream_recreate(s->ctr, rounds, key, key_len, s->iv, s->len);
-	if(!s->ctr) goto err2;
+	if(!s->ctr) goto err1;
 
 	/* recreate OMAC for header */
 	s->header = kripto_mac_recreate(s->header, rounds, key, key_len, s->len);
-	if(!s->header) goto err3;
+	if(!s->header) goto err1;
 	buf[s->len - 1] = 1;
 	kripto_mac_input(s->header, buf, s->len);
 
@@ -237,10 +237,12 @@ static kripto_ae *eax_recreate
 
 	return s;
 
-err3: kripto_stream_destroy(s->ctr);
-err2: kripto_mac_destroy(s->omac);
+	/* a failed recreate leaves its pointer null */
 err1: free(buf);
 err0:
+	if(s->ctr) kripto_stream_destroy(s->ctr);
+	if(s->omac) kripto_mac_destroy(s->omac);
+	if(s->header) kripto_mac_destroy(s->header);
 	free(s->ctr_desc);
 	free(s->omac_desc);
 	kripto_memory_wipe(s->iv, s->len);
-- 
2.43.0


From 5fc40cb644659eff177e5fef211202dfc858c241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:19 +0000
Subject: [PATCH 07/52] fix: eax2: keep the nonce MAC in its buffer, use all of
 it and split long keys

---
 lib/ae/eax2.c | 38 +++++++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/lib/ae/eax2.c b/lib/ae/eax2.c
index 16ddbe0..ef9865b 100644
--- a/lib/ae/eax2.c
+++ b/lib/ae/eax2.c
@@ -13,6 +13,7 @@
  * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
  */
 
+#include <limits.h>
 #include <stdint.h>
 #include <string.h>
 #include <stdlib.h>
@@ -124,6 +125,9 @@ static kripto_ae *eax2_create
 	uint8_t *buf;
 	unsigned int mac_key; /* K1 */
 	unsigned int stream_key; /* K2 */
+	unsigned int stream_iv;
+
+	if(!tag_len) goto err0;
 
 	buf = (uint8_t *)malloc(tag_len);
 	if(!buf) goto err0;
@@ -141,13 +145,24 @@ static kripto_ae *eax2_create
 		stream_key = kripto_stream_maxkey(EXT(desc)->stream);
 	mac_key = key_len - stream_key;
 
+	if(mac_key > kripto_mac_maxkey(EXT(desc)->mac))
+	{
+		mac_key = kripto_mac_maxkey(EXT(desc)->mac);
+		stream_key = key_len - mac_key;
+	}
+	if(!mac_key) goto err2; /* too short to split */
+
+	/* the whole nonce MAC, as far as the stream cipher takes it */
+	stream_iv = kripto_stream_maxiv(EXT(desc)->stream);
+	if(stream_iv > tag_len) stream_iv = tag_len;
+
 	/* MAC IV */
 	s->mac = kripto_mac_create(EXT(desc)->mac, rounds, key, mac_key, tag_len);
 	if(!s->mac) goto err2;
 	memset(buf, 0, tag_len);
 	kripto_mac_input(s->mac, buf, tag_len);
 	kripto_mac_input(s->mac, iv, iv_len);
-	kripto_mac_tag(s->mac, s->iv, iv_len);
+	kripto_mac_tag(s->mac, s->iv, tag_len);
 
 	/* recreate MAC for encryption/decryption */
 	s->mac = kripto_mac_recreate(s->mac, rounds, key, mac_key, tag_len);
@@ -160,7 +175,7 @@ static kripto_ae *eax2_create
 	(
 		EXT(desc)->stream, rounds,
 		(const uint8_t *)key + mac_key, stream_key,
-		s->iv, iv_len
+		s->iv, stream_iv
 	);
 	if(!s->stream) goto err4;
 
@@ -198,9 +213,10 @@ static kripto_ae *eax2_recreate
 	uint8_t *buf;
 	unsigned int mac_key; /* K1 */
 	unsigned int stream_key; /* K2 */
+	unsigned int stream_iv;
 	const kripto_desc_ae *desc;
 
-	if(tag_len > s->len)
+	if(!tag_len || tag_len > s->len)
 	{
 		desc = s->desc;
 		eax2_destroy(s);
@@ -221,13 +237,24 @@ static kripto_ae *eax2_recreate
 		stream_key = kripto_stream_maxkey(EXT(s->desc)->stream);
 	mac_key = key_len - stream_key;
 
+	if(mac_key > kripto_mac_maxkey(EXT(s->desc)->mac))
+	{
+		mac_key = kripto_mac_maxkey(EXT(s->desc)->mac);
+		stream_key = key_len - mac_key;
+	}
+	if(!mac_key) goto err1; /* too short to split */
+
+	/* the whole nonce MAC, as far as the stream cipher takes it */
+	stream_iv = kripto_stream_maxiv(EXT(s->desc)->stream);
+	if(stream_iv > tag_len) stream_iv = tag_len;
+
 	/* MAC IV */
 	s->mac = kripto_mac_recreate(s->mac, rounds, key, mac_key, tag_len);
 	if(!s->mac) goto err1;
 	memset(buf, 0, tag_len);
 	kripto_mac_input(s->mac, buf, tag_len);
 	kripto_mac_input(s->mac, iv, iv_len);
-	kripto_mac_tag(s->mac, s->iv, iv_len);
+	kripto_mac_tag(s->mac, s->iv, tag_len);
 
 	/* recreate MAC for encryption/decryption */
 	s->mac = kripto_mac_recreate(s->mac, rounds, key, mac_key, tag_len);
@@ -240,7 +267,7 @@ static kripto_ae *eax2_recreate
 	(
 		s->stream, rounds,
 		(const uint8_t *)key + mac_key, stream_key,
-		s->iv, iv_len
+		s->iv, stream_iv
 	);
 	if(!s->stream) goto err2;
 
@@ -285,6 +312,7 @@ kripto_desc_ae *kripto_ae_eax2
 	s->desc.tag = &eax2_tag;
 	s->desc.destroy = &eax2_destroy;
 	s->desc.maxkey = kripto_stream_maxkey(stream) + kripto_mac_maxkey(mac);
+	if(s->desc.maxkey < kripto_mac_maxkey(mac)) s->desc.maxkey = UINT_MAX;
 	s->desc.maxiv = kripto_stream_maxiv(stream);
 	s->desc.maxtag = kripto_mac_maxtag(mac);
 
-- 
2.43.0


From 9f517f27fcf2c06d71757751a888b78a63c51a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:24 +0000
Subject: [PATCH 08/52] fix: eax2: release every part when re-creation fails

---
 lib/ae/eax2.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/ae/eax2.c b/lib/ae/eax2.c
index ef9865b..14bd692 100644
--- a/lib/ae/eax2.c
+++ b/lib/ae/eax2.c
@@ -269,13 +269,13 @@ static kripto_ae *eax2_recreate
 		(const uint8_t *)key + mac_key, stream_key,
 		s->iv, stream_iv
 	);
-	if(!s->stream) goto err2;
+	if(!s->stream) goto err1;
 
 	s->multof = kripto_stream_multof(s->stream);
 
 	/* recreate MAC for header */
 	s->header = kripto_mac_recreate(s->header, rounds, key, mac_key, tag_len);
-	if(!s->header) goto err3;
+	if(!s->header) goto err1;
 	buf[s->len - 1] = 1;
 	kripto_mac_input(s->header, buf, tag_len);
 
@@ -283,10 +283,12 @@ static kripto_ae *eax2_recreate
 
 	return s;
 
-err3: kripto_stream_destroy(s->stream);
-err2: kripto_mac_destroy(s->mac);
+	/* a failed recreate leaves its pointer null */
 err1: free(buf);
 err0:
+	if(s->stream) kripto_stream_destroy(s->stream);
+	if(s->mac) kripto_mac_destroy(s->mac);
+	if(s->header) kripto_mac_destroy(s->header);
 	kripto_memory_wipe(s->iv, tag_len);
 	free(s);
 	return 0;
-- 
2.43.0


From 7b0dd4c3e6b37a555bb9ed85c2b27a24c0a8335d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:49 +0000
Subject: [PATCH 09/52] fix: skein mac: absorb the key block by block,
 zero-padded

---
 lib/mac/skein1024.c | 6 ++++--
 lib/mac/skein256.c  | 6 ++++--
 lib/mac/skein512.c  | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/lib/mac/skein1024.c b/lib/mac/skein1024.c
index 405ae55..baa1598 100644
--- a/lib/mac/skein1024.c
+++ b/lib/mac/skein1024.c
@@ -90,7 +90,7 @@ static kripto_mac *skein1024_recreate
 	memset(s->h, 0, 128);
 	memset(s->tweak, 0, 16);
 
-	t = tag_len << 3;
+	t = (uint64_t)tag_len << 3;
 
 	/* KEY */
 	s->tweak[15] = 0x40; /* type KEY, first */
@@ -101,10 +101,11 @@ static kripto_mac *skein1024_recreate
 		else block = key_len;
 
 		memcpy(s->buf, key, block);
-		memset(s->buf, 0, 128 - block);
+		memset(s->buf + block, 0, 128 - block);
 
 		POS_ADD(s->tweak, block);
 
+		key = CU8(key) + block;
 		key_len -= block;
 
 		if(!key_len) s->tweak[15] |= 0x80; /* add final */
@@ -125,6 +126,7 @@ static kripto_mac *skein1024_recreate
 	s->buf[7] = 0;
 	STORE64L(t, s->buf + 8);
 	memset(s->buf + 16, 0, 112);
+	memset(s->tweak, 0, 12);
 	s->tweak[0] = 32;
 	s->tweak[15] = 0xC4; /* type CFG, first, final */
 	skein1024_process(s);
diff --git a/lib/mac/skein256.c b/lib/mac/skein256.c
index ea4b813..8b01bed 100644
--- a/lib/mac/skein256.c
+++ b/lib/mac/skein256.c
@@ -90,7 +90,7 @@ static kripto_mac *skein256_recreate
 	memset(s->h, 0, 32);
 	memset(s->tweak, 0, 16);
 
-	t = tag_len << 3;
+	t = (uint64_t)tag_len << 3;
 
 	/* KEY */
 	s->tweak[15] = 0x40; /* type KEY, first */
@@ -101,10 +101,11 @@ static kripto_mac *skein256_recreate
 		else block = key_len;
 
 		memcpy(s->buf, key, block);
-		memset(s->buf, 0, 32 - block);
+		memset(s->buf + block, 0, 32 - block);
 
 		POS_ADD(s->tweak, block);
 
+		key = CU8(key) + block;
 		key_len -= block;
 
 		if(!key_len) s->tweak[15] |= 0x80; /* add final */
@@ -125,6 +126,7 @@ static kripto_mac *skein256_recreate
 	s->buf[7] = 0;
 	STORE64L(t, s->buf + 8);
 	memset(s->buf + 16, 0, 16);
+	memset(s->tweak, 0, 12);
 	s->tweak[0] = 32;
 	s->tweak[15] = 0xC4; /* type CFG, first, final */
 	skein256_process(s);
diff --git a/lib/mac/skein512.c b/lib/mac/skein512.c
index ae114ac..7c3399c 100644
--- a/lib/mac/skein512.c
+++ b/lib/mac/skein512.c
@@ -90,7 +90,7 @@ static kripto_mac *skein512_recreate
 	memset(s->h, 0, 64);
 	memset(s->tweak, 0, 16);
 
-	t = tag_len << 3;
+	t = (uint64_t)tag_len << 3;
 
 	/* KEY */
 	s->tweak[15] = 0x40; /* type KEY, first */
@@ -101,10 +101,11 @@ static kripto_mac *skein512_recreate
 		else block = key_len;
 
 		memcpy(s->buf, key, block);
-		memset(s->buf, 0, 64 - block);
+		memset(s->buf + block, 0, 64 - block);
 
 		POS_ADD(s->tweak, block);
 
+		key = CU8(key) + block;
 		key_len -= block;
 
 		if(!key_len) s->tweak[15] |= 0x80; /* add final */
@@ -125,6 +126,7 @@ static kripto_mac *skein512_recreate
 	s->buf[7] = 0;
 	STORE64L(t, s->buf + 8);
 	memset(s->buf + 16, 0, 48);
+	memset(s->tweak, 0, 12);
 	s->tweak[0] = 32;
 	s->tweak[15] = 0xC4; /* type CFG, first, final */
 	skein512_process(s);
-- 
2.43.0


From 2884bd49f187fd20255431f10c0e7739ef961859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:56 +0000
Subject: [PATCH 10/52] fix: skein: process a full last block as the final one

---
 lib/hash/skein1024.c | 4 ++--
 lib/hash/skein256.c  | 4 ++--
 lib/hash/skein512.c  | 4 ++--
 lib/mac/skein1024.c  | 4 ++--
 lib/mac/skein256.c   | 4 ++--
 lib/mac/skein512.c   | 4 ++--
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/lib/hash/skein1024.c b/lib/hash/skein1024.c
index 25708cd..dbfc4b2 100644
--- a/lib/hash/skein1024.c
+++ b/lib/hash/skein1024.c
@@ -145,8 +145,6 @@ static void skein1024_input
 {
 	for(size_t i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
 		if(s->i == 128)
 		{
 			POS_ADD(s->tweak, 128);
@@ -154,6 +152,8 @@ static void skein1024_input
 			s->tweak[15] = 0x30; /* type MSG */
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
diff --git a/lib/hash/skein256.c b/lib/hash/skein256.c
index de6f2dd..603aa73 100644
--- a/lib/hash/skein256.c
+++ b/lib/hash/skein256.c
@@ -145,8 +145,6 @@ static void skein256_input
 {
 	for(size_t i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
 		if(s->i == 32)
 		{
 			POS_ADD(s->tweak, 32);
@@ -154,6 +152,8 @@ static void skein256_input
 			s->tweak[15] = 0x30; /* type MSG */
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
diff --git a/lib/hash/skein512.c b/lib/hash/skein512.c
index e0fbeaa..6111c14 100644
--- a/lib/hash/skein512.c
+++ b/lib/hash/skein512.c
@@ -145,8 +145,6 @@ static void skein512_input
 {
 	for(size_t i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
 		if(s->i == 64)
 		{
 			POS_ADD(s->tweak, 64);
@@ -154,6 +152,8 @@ static void skein512_input
 			s->tweak[15] = 0x30; /* type MSG */
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
diff --git a/lib/mac/skein1024.c b/lib/mac/skein1024.c
index baa1598..198dc1d 100644
--- a/lib/mac/skein1024.c
+++ b/lib/mac/skein1024.c
@@ -149,8 +149,6 @@ static void skein1024_input
 
 	for(i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
 		if(s->i == 128)
 		{
 			POS_ADD(s->tweak, 128);
@@ -158,6 +156,8 @@ static void skein1024_input
 			s->tweak[15] = 0x30; /* type MSG */
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
diff --git a/lib/mac/skein256.c b/lib/mac/skein256.c
index 8b01bed..9b2b951 100644
--- a/lib/mac/skein256.c
+++ b/lib/mac/skein256.c
@@ -149,8 +149,6 @@ static void skein256_input
 
 	for(i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
 		if(s->i == 32)
 		{
 			POS_ADD(s->tweak, 32);
@@ -158,6 +156,8 @@ static void skein256_input
 			s->tweak[15] = 0x30; /* type MSG */
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
diff --git a/lib/mac/skein512.c b/lib/mac/skein512.c
index 7c3399c..f370038 100644
--- a/lib/mac/skein512.c
+++ b/lib/mac/skein512.c
@@ -149,8 +149,6 @@ static void skein512_input
 
 	for(i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
 		if(s->i == 64)
 		{
 			POS_ADD(s->tweak, 64);
@@ -158,6 +156,8 @@ static void skein512_input
 			s->tweak[15] = 0x30; /* type MSG */
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
-- 
2.43.0


From db52b4079dc13f90159b7eae4b4e824b6f033bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:31 +0000
Subject: [PATCH 11/52] fix: skein: absorb the salt block by block, zero-padded

---
 lib/hash/skein1024.c | 5 +++--
 lib/hash/skein256.c  | 5 +++--
 lib/hash/skein512.c  | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/lib/hash/skein1024.c b/lib/hash/skein1024.c
index dbfc4b2..54143a1 100644
--- a/lib/hash/skein1024.c
+++ b/lib/hash/skein1024.c
@@ -91,7 +91,7 @@ static kripto_hash *skein1024_recreate
 	memset(s->tweak, 0, 16);
 
 	s->out_len = out_len;
-	t = out_len << 3;
+	t = (uint64_t)out_len << 3;
 
 	/* CFG */
 	s->buf[0] = 'S';
@@ -117,9 +117,10 @@ static kripto_hash *skein1024_recreate
 		unsigned int len = salt_len > 128 ? 128 : salt_len;
 
 		memcpy(s->buf, salt, len);
-		memset(s->buf, 0, 128 - len);
+		memset(s->buf + len, 0, 128 - len);
 
 		POS_ADD(s->tweak, len);
+		salt = CU8(salt) + len;
 		salt_len -= len;
 
 		if(!salt_len) s->tweak[15] |= 0x80; /* add final */
diff --git a/lib/hash/skein256.c b/lib/hash/skein256.c
index 603aa73..6bc6997 100644
--- a/lib/hash/skein256.c
+++ b/lib/hash/skein256.c
@@ -91,7 +91,7 @@ static kripto_hash *skein256_recreate
 	memset(s->tweak, 0, 16);
 
 	s->out_len = out_len;
-	t = out_len << 3;
+	t = (uint64_t)out_len << 3;
 
 	/* CFG */
 	s->buf[0] = 'S';
@@ -117,9 +117,10 @@ static kripto_hash *skein256_recreate
 		unsigned int len = salt_len > 32 ? 32 : salt_len;
 
 		memcpy(s->buf, salt, len);
-		memset(s->buf, 0, 32 - len);
+		memset(s->buf + len, 0, 32 - len);
 
 		POS_ADD(s->tweak, len);
+		salt = CU8(salt) + len;
 		salt_len -= len;
 
 		if(!salt_len) s->tweak[15] |= 0x80; /* add final */
diff --git a/lib/hash/skein512.c b/lib/hash/skein512.c
index 6111c14..5cc67aa 100644
--- a/lib/hash/skein512.c
+++ b/lib/hash/skein512.c
@@ -91,7 +91,7 @@ static kripto_hash *skein512_recreate
 	memset(s->tweak, 0, 16);
 
 	s->out_len = out_len;
-	t = out_len << 3;
+	t = (uint64_t)out_len << 3;
 
 	/* CFG */
 	s->buf[0] = 'S';
@@ -117,9 +117,10 @@ static kripto_hash *skein512_recreate
 		unsigned int len = salt_len > 64 ? 64 : salt_len;
 
 		memcpy(s->buf, salt, len);
-		memset(s->buf, 0, 64 - len);
+		memset(s->buf + len, 0, 64 - len);
 
 		POS_ADD(s->tweak, len);
+		salt = CU8(salt) + len;
 		salt_len -= len;
 
 		if(!salt_len) s->tweak[15] |= 0x80; /* add final */
-- 
2.43.0


From fb7edba1f159e6f638170bc9ce6e68721fd90b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:38 +0000
Subject: [PATCH 12/52] fix: skein: generate output blocks from a counter,
 however output is split

---
 lib/hash/skein1024.c | 12 +++++++-----
 lib/hash/skein256.c  | 12 +++++++-----
 lib/hash/skein512.c  | 12 +++++++-----
 3 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/lib/hash/skein1024.c b/lib/hash/skein1024.c
index 54143a1..44907e1 100644
--- a/lib/hash/skein1024.c
+++ b/lib/hash/skein1024.c
@@ -38,6 +38,7 @@ struct kripto_hash
 	unsigned int out_len;
 	int f;
 	uint8_t h[128];
+	uint8_t g[128];
 	uint8_t buf[128];
 	uint8_t tweak[16];
 };
@@ -168,23 +169,24 @@ static void skein1024_output(kripto_hash *s, void *out, size_t len)
 		skein1024_process(s);
 		s->f = -1;
 		s->i = 128;
+		memcpy(s->g, s->h, 128);
 		memset(s->buf, 0, 128);
 		memset(s->tweak, 0, 12);
 		s->tweak[0] = 8; /* 8 byte counter */
-		s->tweak[15] = 0x7F; /* type OUT, first */
+		s->tweak[15] = 0xFF; /* type OUT, first, final */
 	}
 
 	assert(s->out_len >= len);
+	s->out_len -= len;
 
 	for(size_t i = 0; i < len; i++)
 	{
 		if(s->i == 128)
 		{
-			s->out_len -= 128;
-			if(!s->out_len) s->tweak[15] |= 0x80; /* add final */
+			memcpy(s->h, s->g, 128);
 			skein1024_process(s);
-			s->tweak[15] &= 0xBF; /* remove first */
-			POS_ADD(s->tweak, 128);
+			for(s->i = 0; s->i < 8; s->i++)
+				if(++s->buf[s->i]) break;
 			s->i = 0;
 		}
 		
diff --git a/lib/hash/skein256.c b/lib/hash/skein256.c
index 6bc6997..9289d30 100644
--- a/lib/hash/skein256.c
+++ b/lib/hash/skein256.c
@@ -38,6 +38,7 @@ struct kripto_hash
 	unsigned int out_len;
 	int f;
 	uint8_t h[32];
+	uint8_t g[32];
 	uint8_t buf[32];
 	uint8_t tweak[16];
 };
@@ -168,23 +169,24 @@ static void skein256_output(kripto_hash *s, void *out, size_t len)
 		skein256_process(s);
 		s->f = -1;
 		s->i = 32;
+		memcpy(s->g, s->h, 32);
 		memset(s->buf, 0, 32);
 		memset(s->tweak, 0, 12);
 		s->tweak[0] = 8; /* 8 byte counter */
-		s->tweak[15] = 0x7F; /* type OUT, first */
+		s->tweak[15] = 0xFF; /* type OUT, first, final */
 	}
 
 	assert(s->out_len >= len);
+	s->out_len -= len;
 
 	for(size_t i = 0; i < len; i++)
 	{
 		if(s->i == 32)
 		{
-			s->out_len -= 32;
-			if(!s->out_len) s->tweak[15] |= 0x80; /* add final */
+			memcpy(s->h, s->g, 32);
 			skein256_process(s);
-			s->tweak[15] &= 0xBF; /* remove first */
-			POS_ADD(s->tweak, 32);
+			for(s->i = 0; s->i < 8; s->i++)
+				if(++s->buf[s->i]) break;
 			s->i = 0;
 		}
 		
diff --git a/lib/hash/skein512.c b/lib/hash/skein512.c
index 5cc67aa..b790131 100644
--- a/lib/hash/skein512.c
+++ b/lib/hash/skein512.c
@@ -38,6 +38,7 @@ struct kripto_hash
 	unsigned int out_len;
 	int f;
 	uint8_t h[64];
+	uint8_t g[64];
 	uint8_t buf[64];
 	uint8_t tweak[16];
 };
@@ -168,23 +169,24 @@ static void skein512_output(kripto_hash *s, void *out, size_t len)
 		skein512_process(s);
 		s->f = -1;
 		s->i = 64;
+		memcpy(s->g, s->h, 64);
 		memset(s->buf, 0, 64);
 		memset(s->tweak, 0, 12);
 		s->tweak[0] = 8; /* 8 byte counter */
-		s->tweak[15] = 0x7F; /* type OUT, first */
+		s->tweak[15] = 0xFF; /* type OUT, first, final */
 	}
 
 	assert(s->out_len >= len);
+	s->out_len -= len;
 
 	for(size_t i = 0; i < len; i++)
 	{
 		if(s->i == 64)
 		{
-			s->out_len -= 64;
-			if(!s->out_len) s->tweak[15] |= 0x80; /* add final */
+			memcpy(s->h, s->g, 64);
 			skein512_process(s);
-			s->tweak[15] &= 0xBF; /* remove first */
-			POS_ADD(s->tweak, 64);
+			for(s->i = 0; s->i < 8; s->i++)
+				if(++s->buf[s->i]) break;
 			s->i = 0;
 		}
 		
-- 
2.43.0


From 00e23fcab718bac1493eb571d6a163d3fbd75acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:01 +0000
Subject: [PATCH 13/52] fix: blake2: process a full last block as the final one

---
 lib/hash/blake2b.c | 4 ++--
 lib/hash/blake2s.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/hash/blake2b.c b/lib/hash/blake2b.c
index 8451628..6a4ab46 100644
--- a/lib/hash/blake2b.c
+++ b/lib/hash/blake2b.c
@@ -177,8 +177,6 @@ static void blake2b_input
 {
 	for(size_t i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
 		if(s->i == 128)
 		{
 			s->len[0] += 128;
@@ -191,6 +189,8 @@ static void blake2b_input
 			blake2b_process(s, s->buf);
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
diff --git a/lib/hash/blake2s.c b/lib/hash/blake2s.c
index 881bac0..7988125 100644
--- a/lib/hash/blake2s.c
+++ b/lib/hash/blake2s.c
@@ -175,8 +175,6 @@ static void blake2s_input
 {
 	for(size_t i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
 		if(s->i == 64)
 		{
 			s->len[0] += 64;
@@ -189,6 +187,8 @@ static void blake2s_input
 			blake2s_process(s, s->buf);
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
-- 
2.43.0


From ab4ba2dbcd3429ab46157147fcb5fad233610fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:07 +0000
Subject: [PATCH 14/52] fix: blake: zero counter for a last block without
 message bits

---
 lib/hash/blake256.c | 6 +++++-
 lib/hash/blake512.c | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/hash/blake256.c b/lib/hash/blake256.c
index ded9fe2..d029c6f 100644
--- a/lib/hash/blake256.c
+++ b/lib/hash/blake256.c
@@ -212,6 +212,9 @@ static void blake256_input
 
 static void blake256_finish(kripto_hash *s)
 {
+	/* does the last block contain any message? */
+	int last = s->i > 0;
+
 	s->len[0] += s->i << 3;
 	if(s->len[0] < (s->i << 3))
 	{
@@ -227,6 +230,7 @@ static void blake256_finish(kripto_hash *s)
 		while(s->i < 64) s->buf[s->i++] = 0;
 		blake256_process(s, s->buf);
 		s->i = 0;
+		last = 0;
 	}
 
 	while(s->i < 56) s->buf[s->i++] = 0;
@@ -237,7 +241,7 @@ static void blake256_finish(kripto_hash *s)
 	STORE32B(s->len[1], s->buf + 56);
 	STORE32B(s->len[0], s->buf + 60);
 
-	if(!s->i) s->len[0] = s->len[1] = 0;
+	if(!last) s->len[0] = s->len[1] = 0;
 
 	blake256_process(s, s->buf);
 
diff --git a/lib/hash/blake512.c b/lib/hash/blake512.c
index 0c64c32..9ef5215 100644
--- a/lib/hash/blake512.c
+++ b/lib/hash/blake512.c
@@ -217,6 +217,9 @@ static void blake512_input
 
 static void blake512_finish(kripto_hash *s)
 {
+	/* does the last block contain any message? */
+	int last = s->i > 0;
+
 	s->len[0] += s->i << 3;
 	if(s->len[0] < (s->i << 3))
 	{
@@ -232,6 +235,7 @@ static void blake512_finish(kripto_hash *s)
 		while(s->i < 128) s->buf[s->i++] = 0;
 		blake512_process(s, s->buf);
 		s->i = 0;
+		last = 0;
 	}
 
 	while(s->i < 112) s->buf[s->i++] = 0;
@@ -242,7 +246,7 @@ static void blake512_finish(kripto_hash *s)
 	STORE64B(s->len[1], s->buf + 112);
 	STORE64B(s->len[0], s->buf + 120);
 
-	if(!s->i) s->len[0] = s->len[1] = 0;
+	if(!last) s->len[0] = s->len[1] = 0;
 
 	blake512_process(s, s->buf);
 
-- 
2.43.0


From c74f7ac481e2faa41aaf717f0c557d058d6ba81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:35 +0000
Subject: [PATCH 15/52] fix: scrypt: keep the working block out of the table
 and compute sizes without overflow

---
 lib/scrypt.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/lib/scrypt.c b/lib/scrypt.c
index 71541c8..fc3c4ed 100644
--- a/lib/scrypt.c
+++ b/lib/scrypt.c
@@ -13,6 +13,7 @@
  * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
  */
 
+#include <limits.h>
 #include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
@@ -217,13 +218,18 @@ int kripto_scrypt
 	uint32_t *t1;
 	uint32_t *t2;
 	uint32_t i;
+	size_t size = (size_t)r << 7; /* of one block */
 
-	b = (uint8_t *)malloc((r << 7) * p + (r << 7) * n + (r << 8));
+	/* the salt length of PBKDF2 and the memory needed have limits */
+	if(!r || !p || p > UINT_MAX / size) return -1;
+	if(n + p + 2 > SIZE_MAX / size) return -1;
+
+	b = (uint8_t *)malloc(size * p + size * n + (size << 1));
 	if(!b) return -1;
 
-	t0 = (uint32_t *)(void *)(b + (r << 7) * p);
-	t1 = t0 + (r << 5);
-	t2 = t1 + (r << 5);
+	t0 = (uint32_t *)(void *)(b + size * p);
+	t1 = t0 + (size >> 2) * n;
+	t2 = t1 + (size >> 2);
 
 	if(kripto_pbkdf2
 	(
@@ -235,11 +241,11 @@ int kripto_scrypt
 		salt,
 		salt_len,
 		b,
-		p * (r << 7)
+		p * size
 	)) goto err;
 
 	for(i = 0; i < p; i++)
-		smix(b + (r << 7) * i, r, n, t0, t1, t2);
+		smix(b + size * i, r, n, t0, t1, t2);
 
 	if(kripto_pbkdf2
 	(
@@ -249,18 +255,18 @@ int kripto_scrypt
 		pass,
 		pass_len,
 		b,
-		p * (r << 7),
+		p * size,
 		out,
 		out_len
 	)) goto err;
 
-	kripto_memory_wipe(b, (r << 7) * p + (r << 7) * n + (r << 8));
+	kripto_memory_wipe(b, size * p + size * n + (size << 1));
 	free(b);
 
 	return 0;
 
 err:
-	kripto_memory_wipe(b, (r << 7) * p + (r << 7) * n + (r << 8));
+	kripto_memory_wipe(b, size * p + size * n + (size << 1));
 	free(b);
 
 	return -1;
-- 
2.43.0


From c81ae6bc1c9c2c88392f0a68085ad60536d3696c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:16 +0000
Subject: [PATCH 16/52] fix: keccak: refuse digests that leave no rate

---
 lib/hash/keccak1600.c | 9 +++++++++
 lib/hash/keccak800.c  | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/lib/hash/keccak1600.c b/lib/hash/keccak1600.c
index 0a95af7..6c6b5e2 100644
--- a/lib/hash/keccak1600.c
+++ b/lib/hash/keccak1600.c
@@ -299,6 +299,13 @@ static kripto_hash *keccak1600_recreate
 	(void)salt;
 	(void)salt_len;
 
+	if(out_len > 99) /* no rate left */
+	{
+		kripto_memory_wipe(s, sizeof(kripto_hash));
+		free(s);
+		return 0;
+	}
+
 	s->o = s->i = 0;
 
 	s->r = r;
@@ -405,6 +412,8 @@ static int keccak1600_hash
 	kripto_hash s;
 	(void)desc;
 
+	if(out_len > 99) return -1; /* no rate left */
+
 	(void)keccak1600_recreate(&s, r, salt, salt_len, out_len);
 	keccak1600_input(&s, in, in_len);
 	keccak1600_output(&s, out, out_len);
diff --git a/lib/hash/keccak800.c b/lib/hash/keccak800.c
index 8b9ce0d..a6ef7ae 100644
--- a/lib/hash/keccak800.c
+++ b/lib/hash/keccak800.c
@@ -284,6 +284,13 @@ static kripto_hash *keccak800_recreate
 	(void)salt;
 	(void)salt_len;
 
+	if(out_len > 49) /* no rate left */
+	{
+		kripto_memory_wipe(s, sizeof(kripto_hash));
+		free(s);
+		return 0;
+	}
+
 	s->o = s->i = 0;
 
 	s->r = r;
@@ -385,6 +392,8 @@ static int keccak800_hash
 	kripto_hash s;
 	(void)desc;
 
+	if(out_len > 49) return -1; /* no rate left */
+
 	(void)keccak800_recreate(&s, r, salt, salt_len, out_len);
 	keccak800_input(&s, in, in_len);
 	keccak800_output(&s, out, out_len);
-- 
2.43.0


From b1973afde70f4e01fb030b25b9f004fbe6ae4ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:23 +0000
Subject: [PATCH 17/52] fix: whirlpool: accept the full number of rounds

---
 lib/hash/whirlpool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hash/whirlpool.c b/lib/hash/whirlpool.c
index 59a412e..162852e 100644
--- a/lib/hash/whirlpool.c
+++ b/lib/hash/whirlpool.c
@@ -897,7 +897,7 @@ static kripto_hash *whirlpool_recreate
 	unsigned int out_len
 )
 {
-	assert(r < 10);
+	assert(r <= 10);
 	(void)salt;
 	(void)salt_len;
 	(void)out_len;
-- 
2.43.0


From 094008b46a2417e546c7e35816d89e407eef9adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:38 +0000
Subject: [PATCH 18/52] fix: keccak800: round constants are the 64-bit ones cut
 to 32 bits

---
 lib/hash/keccak800.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/lib/hash/keccak800.c b/lib/hash/keccak800.c
index a6ef7ae..c246c27 100644
--- a/lib/hash/keccak800.c
+++ b/lib/hash/keccak800.c
@@ -39,16 +39,16 @@ struct kripto_hash
 
 static const uint32_t rc[40] = 
 {
-	0x00000001, 0x00008082, 0x8000808A, 0x00008000,
-	0x0000808B, 0x80000001, 0x00008081, 0x80008009,
+	0x00000001, 0x00008082, 0x0000808A, 0x80008000,
+	0x0000808B, 0x80000001, 0x80008081, 0x00008009,
 	0x0000008A, 0x00000088, 0x80008009, 0x8000000A,
-	0x8000808B, 0x8000008B, 0x80008089, 0x80008003,
-	0x80008002, 0x80000080, 0x0000800A, 0x0000000A,
-	0x00008081, 0x80008080, 0x80000001, 0x00008008,
-	0x00008082, 0x0000800A, 0x80000003, 0x00000009,
-	0x80008082, 0x00008009, 0x80000080, 0x00008083,
-	0x80000081, 0x00000001, 0x0000800B, 0x00008001,
-	0x00000080, 0x80008000, 0x00008001, 0x00000009
+	0x8000808B, 0x0000008B, 0x00008089, 0x00008003,
+	0x00008002, 0x00000080, 0x0000800A, 0x8000000A,
+	0x80008081, 0x00008080, 0x80000001, 0x80008008,
+	0x80008082, 0x8000800A, 0x00000003, 0x80000009,
+	0x00008082, 0x00008009, 0x00000080, 0x00008083,
+	0x00000081, 0x00000001, 0x0000800B, 0x80008001,
+	0x00000080, 0x00008000, 0x80008001, 0x00000009
 };
 
 static void keccak800_F(kripto_hash *s)
-- 
2.43.0


From 9f56d527ba4f72fa638d2993df98828fb1bfb822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:43 +0000
Subject: [PATCH 19/52] fix: keccak800: 22 rounds by default

---
 lib/hash/keccak800.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hash/keccak800.c b/lib/hash/keccak800.c
index c246c27..2be208e 100644
--- a/lib/hash/keccak800.c
+++ b/lib/hash/keccak800.c
@@ -294,7 +294,7 @@ static kripto_hash *keccak800_recreate
 	s->o = s->i = 0;
 
 	s->r = r;
-	if(!s->r) s->r = 20;
+	if(!s->r) s->r = 22;
 
 	s->rate = 100 - (out_len << 1);
 
-- 
2.43.0


From d13289659a30cbf3052cf55ab0753e30226f7013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:26 +0000
Subject: [PATCH 20/52] fix: random: let the self-test pass on uniform data

---
 lib/random.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/random.c b/lib/random.c
index 49f750b..f3dc69d 100644
--- a/lib/random.c
+++ b/lib/random.c
@@ -430,7 +430,7 @@ int kripto_random_test(kripto_random *s)
 	for(i = 0; i < 256; i++)
 	{
 		/* chi square */
-		t = count[i] - 16;
+		t = (double)count[i] - 16;
 		chi += t * t;
 
 		/* entropy */
@@ -445,6 +445,7 @@ int kripto_random_test(kripto_random *s)
 	}
 	chi /= 16;
 	avg /= 4096;
+	avg_null /= 256;
 
 	/* serial correlation */
 	corr2 = corr2 * corr2;
-- 
2.43.0


From 84876ca29d5aba09908d05cf82ddd79c8e04f71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:31 +0000
Subject: [PATCH 21/52] fix: xcbc: wipe the derived keys when creation fails

---
 lib/mac/xcbc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/mac/xcbc.c b/lib/mac/xcbc.c
index f421b13..aec7a58 100644
--- a/lib/mac/xcbc.c
+++ b/lib/mac/xcbc.c
@@ -160,6 +160,7 @@ static kripto_mac *xcbc_create
 
 	if(xcbc_init(s, r))
 	{
+		kripto_memory_wipe(s, sizeof(kripto_mac) + s->len * 3);
 		free(s);
 		return 0;
 	}
-- 
2.43.0


From 14cf54e71eb075ff1b71159ec5aa90f9c4b60fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:53 +0000
Subject: [PATCH 22/52] fix: skein stream: start with keystream, not with the
 last input block

---
 lib/stream/skein1024.c | 2 +-
 lib/stream/skein256.c  | 2 +-
 lib/stream/skein512.c  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/stream/skein1024.c b/lib/stream/skein1024.c
index f722ae9..26bfe38 100644
--- a/lib/stream/skein1024.c
+++ b/lib/stream/skein1024.c
@@ -76,7 +76,7 @@ static kripto_stream *skein1024_recreate
 	unsigned int i;
 
 	s->r = r;
-	s->i = 0;
+	s->i = 128;
 	memset(k, 0, 128);
 	memset(s->ctr, 0, 128);
 
diff --git a/lib/stream/skein256.c b/lib/stream/skein256.c
index 847ec10..6364313 100644
--- a/lib/stream/skein256.c
+++ b/lib/stream/skein256.c
@@ -76,7 +76,7 @@ static kripto_stream *skein256_recreate
 	unsigned int i;
 
 	s->r = r;
-	s->i = 0;
+	s->i = 32;
 	memset(k, 0, 32);
 	memset(s->ctr, 0, 32);
 
diff --git a/lib/stream/skein512.c b/lib/stream/skein512.c
index 231a56d..c9b96c7 100644
--- a/lib/stream/skein512.c
+++ b/lib/stream/skein512.c
@@ -76,7 +76,7 @@ static kripto_stream *skein512_recreate
 	unsigned int i;
 
 	s->r = r;
-	s->i = 0;
+	s->i = 64;
 	memset(k, 0, 64);
 	memset(s->ctr, 0, 64);
 
-- 
2.43.0


From 67e2505edceadeb55667fb6256d48b08966f5724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:00 +0000
Subject: [PATCH 23/52] fix: skein stream: absorb key and nonce block by block,
 zero-padded

---
 lib/stream/skein1024.c | 6 ++++--
 lib/stream/skein256.c  | 6 ++++--
 lib/stream/skein512.c  | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/lib/stream/skein1024.c b/lib/stream/skein1024.c
index 26bfe38..59adfa6 100644
--- a/lib/stream/skein1024.c
+++ b/lib/stream/skein1024.c
@@ -90,10 +90,11 @@ static kripto_stream *skein1024_recreate
 		else block = key_len;
 
 		memcpy(s->buf, key, block);
-		memset(s->buf, 0, 128 - block);
+		memset(s->buf + block, 0, 128 - block);
 
 		POS_ADD(tweak, block);
 
+		key = CU8(key) + block;
 		key_len -= block;
 
 		if(!key_len) tweak[15] |= 0x80; /* add final */
@@ -138,10 +139,11 @@ static kripto_stream *skein1024_recreate
 		else block = iv_len;
 
 		memcpy(s->buf, iv, block);
-		memset(s->buf, 0, 128 - block);
+		memset(s->buf + block, 0, 128 - block);
 
 		POS_ADD(tweak, block);
 
+		iv = CU8(iv) + block;
 		iv_len -= block;
 
 		if(!iv_len) tweak[15] |= 0x80; /* add final */
diff --git a/lib/stream/skein256.c b/lib/stream/skein256.c
index 6364313..790b40d 100644
--- a/lib/stream/skein256.c
+++ b/lib/stream/skein256.c
@@ -90,10 +90,11 @@ static kripto_stream *skein256_recreate
 		else block = key_len;
 
 		memcpy(s->buf, key, block);
-		memset(s->buf, 0, 32 - block);
+		memset(s->buf + block, 0, 32 - block);
 
 		POS_ADD(tweak, block);
 
+		key = CU8(key) + block;
 		key_len -= block;
 
 		if(!key_len) tweak[15] |= 0x80; /* add final */
@@ -138,10 +139,11 @@ static kripto_stream *skein256_recreate
 		else block = iv_len;
 
 		memcpy(s->buf, iv, block);
-		memset(s->buf, 0, 32 - block);
+		memset(s->buf + block, 0, 32 - block);
 
 		POS_ADD(tweak, block);
 
+		iv = CU8(iv) + block;
 		iv_len -= block;
 
 		if(!iv_len) tweak[15] |= 0x80; /* add final */
diff --git a/lib/stream/skein512.c b/lib/stream/skein512.c
index c9b96c7..ea40049 100644
--- a/lib/stream/skein512.c
+++ b/lib/stream/skein512.c
@@ -90,10 +90,11 @@ static kripto_stream *skein512_recreate
 		else block = key_len;
 
 		memcpy(s->buf, key, block);
-		memset(s->buf, 0, 64 - block);
+		memset(s->buf + block, 0, 64 - block);
 
 		POS_ADD(tweak, block);
 
+		key = CU8(key) + block;
 		key_len -= block;
 
 		if(!key_len) tweak[15] |= 0x80; /* add final */
@@ -138,10 +139,11 @@ static kripto_stream *skein512_recreate
 		else block = iv_len;
 
 		memcpy(s->buf, iv, block);
-		memset(s->buf, 0, 64 - block);
+		memset(s->buf + block, 0, 64 - block);
 
 		POS_ADD(tweak, block);
 
+		iv = CU8(iv) + block;
 		iv_len -= block;
 
 		if(!iv_len) tweak[15] |= 0x80; /* add final */
-- 
2.43.0


From 5a4f0e37bd410dc626ec4c89ffec9aae2056b8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:32 +0000
Subject: [PATCH 24/52] fix: block: do not read a destroyed object when
 re-creating with other rounds

---
 lib/block/anubis.c    | 4 +++-
 lib/block/aria.c      | 4 +++-
 lib/block/blowfish.c  | 4 +++-
 lib/block/gost.c      | 4 +++-
 lib/block/idea.c      | 4 +++-
 lib/block/khazad.c    | 4 +++-
 lib/block/lea.c       | 4 +++-
 lib/block/rc5.c       | 4 +++-
 lib/block/rc6.c       | 4 +++-
 lib/block/rectangle.c | 4 +++-
 lib/block/rijndael.c  | 8 ++++++--
 lib/block/safer.c     | 8 ++++++--
 lib/block/saferpp.c   | 4 +++-
 lib/block/seed.c      | 4 +++-
 lib/block/serpent.c   | 4 +++-
 lib/block/shacal2.c   | 4 +++-
 lib/block/simon128.c  | 4 +++-
 lib/block/simon32.c   | 4 +++-
 lib/block/simon64.c   | 4 +++-
 lib/block/sm4.c       | 4 +++-
 lib/block/speck128.c  | 4 +++-
 lib/block/speck32.c   | 4 +++-
 lib/block/speck64.c   | 4 +++-
 lib/block/trax_l.c    | 4 +++-
 lib/block/trax_m.c    | 4 +++-
 lib/block/twofish.c   | 4 +++-
 lib/block/xtea.c      | 4 +++-
 27 files changed, 87 insertions(+), 29 deletions(-)

diff --git a/lib/block/anubis.c b/lib/block/anubis.c
index 78dd58b..79a37a9 100644
--- a/lib/block/anubis.c
+++ b/lib/block/anubis.c
@@ -770,8 +770,10 @@ static kripto_block *anubis_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		anubis_destroy(s);
-		s = anubis_create(s->desc, r, key, key_len);
+		s = anubis_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/aria.c b/lib/block/aria.c
index fd6c724..b735d98 100644
--- a/lib/block/aria.c
+++ b/lib/block/aria.c
@@ -705,8 +705,10 @@ static kripto_block *aria_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		aria_destroy(s);
-		s = aria_create(s->desc, r, key, key_len);
+		s = aria_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/blowfish.c b/lib/block/blowfish.c
index 3a8f000..9c280ee 100644
--- a/lib/block/blowfish.c
+++ b/lib/block/blowfish.c
@@ -519,8 +519,10 @@ static kripto_block *blowfish_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		blowfish_destroy(s);
-		s = blowfish_create(s->desc, r, key, key_len);
+		s = blowfish_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/gost.c b/lib/block/gost.c
index 6e172dc..00c1be2 100644
--- a/lib/block/gost.c
+++ b/lib/block/gost.c
@@ -190,8 +190,10 @@ static kripto_block *gost_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		gost_destroy(s);
-		s = gost_create(s->desc, r, key, key_len);
+		s = gost_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/idea.c b/lib/block/idea.c
index bea4387..e33ea90 100644
--- a/lib/block/idea.c
+++ b/lib/block/idea.c
@@ -212,8 +212,10 @@ static kripto_block *idea_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		idea_destroy(s);
-		s = idea_create(s->desc, r, key, key_len);
+		s = idea_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/khazad.c b/lib/block/khazad.c
index 52cc321..5189f88 100644
--- a/lib/block/khazad.c
+++ b/lib/block/khazad.c
@@ -747,8 +747,10 @@ static kripto_block *khazad_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		khazad_destroy(s);
-		s = khazad_create(s->desc, r, key, key_len);
+		s = khazad_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/lea.c b/lib/block/lea.c
index 7c5ce68..ebb0ef3 100644
--- a/lib/block/lea.c
+++ b/lib/block/lea.c
@@ -249,8 +249,10 @@ static kripto_block *lea_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		lea_destroy(s);
-		s = lea_create(s->desc, r, key, key_len);
+		s = lea_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/rc5.c b/lib/block/rc5.c
index 650ab37..cd1d4ca 100644
--- a/lib/block/rc5.c
+++ b/lib/block/rc5.c
@@ -156,8 +156,10 @@ static kripto_block *rc5_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		rc5_destroy(s);
-		s = rc5_create(s->desc, r, key, key_len);
+		s = rc5_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/rc6.c b/lib/block/rc6.c
index dccc223..8920a8e 100644
--- a/lib/block/rc6.c
+++ b/lib/block/rc6.c
@@ -197,8 +197,10 @@ static kripto_block *rc6_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		rc6_destroy(s);
-		s = rc6_create(s->desc, r, key, key_len);
+		s = rc6_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/rectangle.c b/lib/block/rectangle.c
index 03eb04f..821d437 100644
--- a/lib/block/rectangle.c
+++ b/lib/block/rectangle.c
@@ -286,8 +286,10 @@ static kripto_block *rectangle_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		rectangle_destroy(s);
-		s = rectangle_create(s->desc, r, key, key_len);
+		s = rectangle_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/rijndael.c b/lib/block/rijndael.c
index 4e0e8e6..70aea61 100644
--- a/lib/block/rijndael.c
+++ b/lib/block/rijndael.c
@@ -934,8 +934,10 @@ static kripto_block *rijndael128_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		rijndael128_destroy(s);
-		s = rijndael128_create(s->desc, r, key, key_len);
+		s = rijndael128_create(desc, r, key, key_len);
 	}
 	else
 	{
@@ -1167,8 +1169,10 @@ static kripto_block *rijndael256_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		rijndael256_destroy(s);
-		s = rijndael256_create(s->desc, r, key, key_len);
+		s = rijndael256_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/safer.c b/lib/block/safer.c
index 9ab2013..f47ba54 100644
--- a/lib/block/safer.c
+++ b/lib/block/safer.c
@@ -348,8 +348,10 @@ static kripto_block *safer_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		safer_destroy(s);
-		s = safer_create(s->desc, r, key, key_len);
+		s = safer_create(desc, r, key, key_len);
 	}
 	else
 	{
@@ -401,8 +403,10 @@ static kripto_block *safer_sk_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		safer_destroy(s);
-		s = safer_sk_create(s->desc, r, key, key_len);
+		s = safer_sk_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/saferpp.c b/lib/block/saferpp.c
index 86d6978..a8825a0 100644
--- a/lib/block/saferpp.c
+++ b/lib/block/saferpp.c
@@ -410,8 +410,10 @@ static kripto_block *saferpp_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		saferpp_destroy(s);
-		s = saferpp_create(s->desc, r, key, key_len);
+		s = saferpp_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/seed.c b/lib/block/seed.c
index 91f0c23..0bc3e20 100644
--- a/lib/block/seed.c
+++ b/lib/block/seed.c
@@ -457,8 +457,10 @@ static kripto_block *seed_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		seed_destroy(s);
-		s = seed_create(s->desc, r, key, key_len);
+		s = seed_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/serpent.c b/lib/block/serpent.c
index 9e1396d..63ec683 100644
--- a/lib/block/serpent.c
+++ b/lib/block/serpent.c
@@ -707,8 +707,10 @@ static kripto_block *serpent_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		serpent_destroy(s);
-		s = serpent_create(s->desc, r, key, key_len);
+		s = serpent_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/shacal2.c b/lib/block/shacal2.c
index 9d436de..6bd6b51 100644
--- a/lib/block/shacal2.c
+++ b/lib/block/shacal2.c
@@ -234,8 +234,10 @@ static kripto_block *shacal2_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		shacal2_destroy(s);
-		s = shacal2_create(s->desc, r, key, key_len);
+		s = shacal2_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/simon128.c b/lib/block/simon128.c
index 8259e95..87d3460 100644
--- a/lib/block/simon128.c
+++ b/lib/block/simon128.c
@@ -182,8 +182,10 @@ static kripto_block *simon128_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		simon128_destroy(s);
-		s = simon128_create(s->desc, r, key, key_len);
+		s = simon128_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/simon32.c b/lib/block/simon32.c
index 94d071f..45d955d 100644
--- a/lib/block/simon32.c
+++ b/lib/block/simon32.c
@@ -154,8 +154,10 @@ static kripto_block *simon32_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		simon32_destroy(s);
-		s = simon32_create(s->desc, r, key, key_len);
+		s = simon32_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/simon64.c b/lib/block/simon64.c
index 0caf667..4797fac 100644
--- a/lib/block/simon64.c
+++ b/lib/block/simon64.c
@@ -165,8 +165,10 @@ static kripto_block *simon64_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		simon64_destroy(s);
-		s = simon64_create(s->desc, r, key, key_len);
+		s = simon64_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/sm4.c b/lib/block/sm4.c
index 142173a..079b9db 100644
--- a/lib/block/sm4.c
+++ b/lib/block/sm4.c
@@ -222,8 +222,10 @@ static kripto_block *sm4_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		sm4_destroy(s);
-		s = sm4_create(s->desc, r, key, key_len);
+		s = sm4_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/speck128.c b/lib/block/speck128.c
index 1dfaf86..70cd0de 100644
--- a/lib/block/speck128.c
+++ b/lib/block/speck128.c
@@ -144,8 +144,10 @@ static kripto_block *speck128_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		speck128_destroy(s);
-		s = speck128_create(s->desc, r, key, key_len);
+		s = speck128_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/speck32.c b/lib/block/speck32.c
index e85af4d..bbf563f 100644
--- a/lib/block/speck32.c
+++ b/lib/block/speck32.c
@@ -144,8 +144,10 @@ static kripto_block *speck32_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		speck32_destroy(s);
-		s = speck32_create(s->desc, r, key, key_len);
+		s = speck32_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/speck64.c b/lib/block/speck64.c
index f495424..a20ecce 100644
--- a/lib/block/speck64.c
+++ b/lib/block/speck64.c
@@ -144,8 +144,10 @@ static kripto_block *speck64_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		speck64_destroy(s);
-		s = speck64_create(s->desc, r, key, key_len);
+		s = speck64_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/trax_l.c b/lib/block/trax_l.c
index d447c42..d7b118d 100644
--- a/lib/block/trax_l.c
+++ b/lib/block/trax_l.c
@@ -287,8 +287,10 @@ static kripto_block *trax_l_recreate
 
 	if(r != s->steps)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		trax_l_destroy(s);
-		s = trax_l_create(s->desc, r, key, key_len);
+		s = trax_l_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/trax_m.c b/lib/block/trax_m.c
index 1611466..f324407 100644
--- a/lib/block/trax_m.c
+++ b/lib/block/trax_m.c
@@ -219,8 +219,10 @@ static kripto_block *trax_m_recreate
 
 	if(r != s->steps)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		trax_m_destroy(s);
-		s = trax_m_create(s->desc, r, key, key_len);
+		s = trax_m_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/twofish.c b/lib/block/twofish.c
index 676aa5f..c128761 100644
--- a/lib/block/twofish.c
+++ b/lib/block/twofish.c
@@ -1224,8 +1224,10 @@ static kripto_block *twofish_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		twofish_destroy(s);
-		s = twofish_create(s->desc, r, key, key_len);
+		s = twofish_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/xtea.c b/lib/block/xtea.c
index b050337..713c9cf 100644
--- a/lib/block/xtea.c
+++ b/lib/block/xtea.c
@@ -142,8 +142,10 @@ static kripto_block *xtea_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		xtea_destroy(s);
-		s = xtea_create(s->desc, r, key, key_len);
+		s = xtea_create(desc, r, key, key_len);
 	}
 	else
 	{
-- 
2.43.0


From 609df2d34f10f099659d076662ebb5273c1e7d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:37 +0000
Subject: [PATCH 25/52] fix: gost: report a descriptor that could not be
 allocated

---
 lib/block/gost.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/block/gost.c b/lib/block/gost.c
index 00c1be2..ca45e2f 100644
--- a/lib/block/gost.c
+++ b/lib/block/gost.c
@@ -206,6 +206,7 @@ static kripto_block *gost_recreate
 kripto_desc_block *kripto_block_gost(const unsigned char (*sboxes)[16])
 {
 	kripto_desc_block *desc = (kripto_desc_block *)malloc(sizeof(kripto_desc_block) + sizeof(struct gost));
+	if(!desc) return 0;
 
 	desc->create = &gost_create;
 	desc->recreate = &gost_recreate;
-- 
2.43.0


From 3242d51c356f832190ae1ea73002bc03b6c8233a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:27 +0000
Subject: [PATCH 26/52] fix: 3way: decrypt reduced rounds with the matching
 constants

---
 lib/block/3way.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/block/3way.c b/lib/block/3way.c
index ce3159d..60d4d20 100644
--- a/lib/block/3way.c
+++ b/lib/block/3way.c
@@ -155,15 +155,15 @@ static void threeway_decrypt
 	MU(x);
 	for(i = 0; i < s->r; i++)
 	{
-		x[0] ^= s->dk[0] ^ (rc_d[i] << 16);
+		x[0] ^= s->dk[0] ^ (rc_d[11 - s->r + i] << 16);
 		x[1] ^= s->dk[1];
-		x[2] ^= s->dk[2] ^ rc_d[i];
+		x[2] ^= s->dk[2] ^ rc_d[11 - s->r + i];
 		THETA(x);
 		PI_GAMMA_PI(x);
 	}
-	x[0] ^= s->dk[0] ^ (rc_d[i] << 16);
+	x[0] ^= s->dk[0] ^ (rc_d[11 - s->r + i] << 16);
 	x[1] ^= s->dk[1];
-	x[2] ^= s->dk[2] ^ rc_d[i];
+	x[2] ^= s->dk[2] ^ rc_d[11 - s->r + i];
 	THETA(x);
 	MU(x);
 
-- 
2.43.0


From e58becf029b38476df71831438a9176c0082920a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:32 +0000
Subject: [PATCH 27/52] fix: rijndael: stay inside the round constants for very
 short keys

---
 lib/block/rijndael.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/block/rijndael.c b/lib/block/rijndael.c
index 70aea61..3392728 100644
--- a/lib/block/rijndael.c
+++ b/lib/block/rijndael.c
@@ -662,7 +662,7 @@ static const uint8_t td4[256] =
 	0xE1, 0x69, 0x14, 0x63, 0x55, 0x21, 0x0C, 0x7D
 };
 
-static const uint32_t rcon[52] =
+static const uint32_t rcon[51] =
 {
 	0x01000000, 0x02000000, 0x04000000, 0x08000000,
 	0x10000000, 0x20000000, 0x40000000, 0x80000000,
@@ -739,7 +739,7 @@ static void rijndael_setup
 			((te4[(t >> 16) & 0xFF] << 24) |
 			(te4[(t >> 8) & 0xFF] << 16) |
 			(te4[t & 0xFF] << 8) |
-			te4[t >> 24]) ^ rcon[x++];
+			te4[t >> 24]) ^ rcon[x++ % 51];
 
 		if(n <= 6)
 		{
-- 
2.43.0


From b8ef6d3a4b3911ab634a171c7119b85996b5cfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:37 +0000
Subject: [PATCH 28/52] fix: speck: accept keys of at most one word

---
 lib/block/speck128.c | 2 ++
 lib/block/speck32.c  | 2 ++
 lib/block/speck64.c  | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/lib/block/speck128.c b/lib/block/speck128.c
index 70cd0de..581bc53 100644
--- a/lib/block/speck128.c
+++ b/lib/block/speck128.c
@@ -88,6 +88,8 @@ static void speck128_setup
 	uint64_t k[4] = {0, 0, 0, 0};
 	unsigned int m = ((len + 7) >> 3) - 1;
 
+	if(!m) m = 1; /* at least two words */
+
 	LOAD64L_ARRAY(key, k, len);
 
 	s->k[0] = k[0];
diff --git a/lib/block/speck32.c b/lib/block/speck32.c
index bbf563f..87a1d18 100644
--- a/lib/block/speck32.c
+++ b/lib/block/speck32.c
@@ -88,6 +88,8 @@ static void speck32_setup
 	uint16_t k[4] = {0, 0, 0, 0};
 	unsigned int m = ((len + 1) >> 1) - 1;
 
+	if(!m) m = 1; /* at least two words */
+
 	LOAD16L_ARRAY(key, k, len);
 
 	s->k[0] = k[0];
diff --git a/lib/block/speck64.c b/lib/block/speck64.c
index a20ecce..80a31bf 100644
--- a/lib/block/speck64.c
+++ b/lib/block/speck64.c
@@ -88,6 +88,8 @@ static void speck64_setup
 	uint32_t k[4] = {0, 0, 0, 0};
 	unsigned int m = ((len + 3) >> 2) - 1;
 
+	if(!m) m = 1; /* at least two words */
+
 	LOAD32L_ARRAY(key, k, len);
 
 	s->k[0] = k[0];
-- 
2.43.0


From ac52deb43c699016ec42983170e4dcdf405acd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:52 +0000
Subject: [PATCH 29/52] fix: safer: extend short keys with zeros instead of
 reading past them

---
 lib/block/safer.c   | 7 +++++++
 lib/block/saferpp.c | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/lib/block/safer.c b/lib/block/safer.c
index f47ba54..f05823f 100644
--- a/lib/block/safer.c
+++ b/lib/block/safer.c
@@ -262,6 +262,12 @@ static void safer_setup
 	uint8_t *k = s->k;
 	uint8_t ka[9];
 	uint8_t kb[9];
+	uint8_t buf[16];
+
+	/* short keys are extended with zeros */
+	memset(buf, 0, 16);
+	memcpy(buf, key, len);
+	key = buf;
 
 	kb[8] = ka[8] = 0;
 
@@ -297,6 +303,7 @@ static void safer_setup
 
 	kripto_memory_wipe(ka, 9);
 	kripto_memory_wipe(kb, 9);
+	kripto_memory_wipe(buf, 16);
 }
 
 static void safer_destroy(kripto_block *s)
diff --git a/lib/block/saferpp.c b/lib/block/saferpp.c
index a8825a0..7b98c6f 100644
--- a/lib/block/saferpp.c
+++ b/lib/block/saferpp.c
@@ -311,6 +311,12 @@ static void saferpp_setup
 	uint8_t *k = s->k;
 	uint8_t ka[17];
 	uint8_t kb[17];
+	uint8_t buf[32];
+
+	/* short keys are extended with zeros */
+	memset(buf, 0, 32);
+	memcpy(buf, key, len);
+	key = buf;
 
 	kb[16] = ka[16] = 0;
 
@@ -358,6 +364,7 @@ static void saferpp_setup
 
 	kripto_memory_wipe(ka, 17);
 	kripto_memory_wipe(kb, 17);
+	kripto_memory_wipe(buf, 32);
 }
 
 static void saferpp_destroy(kripto_block *s)
-- 
2.43.0


From 055b27c349f204ddbbe74e3767e3a2cc5ffe6186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:18 +0000
Subject: [PATCH 30/52] fix: hmac: keep the hash of a long key inside its
 buffer

---
 lib/mac/hmac.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/mac/hmac.c b/lib/mac/hmac.c
index 5bd432e..b8e18d7 100644
--- a/lib/mac/hmac.c
+++ b/lib/mac/hmac.c
@@ -50,6 +50,8 @@ static int hmac_init
 
 	if(key_len > s->blocksize)
 	{
+		i = tag_len < s->blocksize ? tag_len : s->blocksize;
+
 		if(kripto_hash_all(
 			hash,
 			s->r,
@@ -58,10 +60,8 @@ static int hmac_init
 			key,
 			key_len,
 			s->key,
-			tag_len)
+			i)
 		) return -1;
-
-		i = tag_len;
 	}
 	else
 	{
-- 
2.43.0


From c3a3126178b8123994b5d2fcc6db486396e9efa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:48 +0000
Subject: [PATCH 31/52] fix: rc5: mix in the whole of keys longer than the key
 table

---
 lib/block/rc5.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/block/rc5.c b/lib/block/rc5.c
index cd1d4ca..2e8b563 100644
--- a/lib/block/rc5.c
+++ b/lib/block/rc5.c
@@ -47,6 +47,7 @@ static void rc5_setup
 	uint32_t b;
 	uint32_t x[64];
 	const unsigned int ls = (key_len + 3) >> 2;
+	unsigned int n = (s->r + 1) << 1;
 
 	for(i = 0; i < ls; i++) x[i] = 0;
 	LOAD32L_ARRAY(key, x, key_len);
@@ -55,8 +56,11 @@ static void rc5_setup
 	for(i = 1; i < ((s->r + 1) << 1); i++)
 		s->k[i] = s->k[i - 1] + 0x9E3779B9;
 
+	/* three passes over the longer of both arrays */
+	if(n < ls) n = ls;
+
 	a = b = i = j = k = 0;
-	while(k < (s->r + 1) * 6)
+	while(k < n * 3)
 	{
 		a = s->k[i] = ROL32_03(s->k[i] + a + b);
 		b = x[j] = ROL32(x[j] + a + b, a + b);
-- 
2.43.0


From 39cdd9a19ad3eb87b27fc5d10bca60d0de433d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:56 +0000
Subject: [PATCH 32/52] fix: rc6: mix in the whole of keys longer than the key
 table

---
 lib/block/rc6.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/block/rc6.c b/lib/block/rc6.c
index 8920a8e..3b93663 100644
--- a/lib/block/rc6.c
+++ b/lib/block/rc6.c
@@ -46,6 +46,7 @@ static void rc6_setup
 	unsigned int j;
 	unsigned int k;
 	const unsigned int ls = (key_len + 3) >> 2;
+	unsigned int n = RC6_K_LEN(s->rounds);
 	uint32_t a;
 	uint32_t b;
 	uint32_t x[64];
@@ -57,8 +58,11 @@ static void rc6_setup
 	for(i = 1; i < RC6_K_LEN(s->rounds); i++)
 		s->k[i] = s->k[i-1] + 0x9E3779B9;
 
+	/* three passes over the longer of both arrays */
+	if(n < ls) n = ls;
+
 	a = b = i = j = k = 0;
-	while(k < RC6_K_LEN(s->rounds) * 3)
+	while(k < n * 3)
 	{
 		a = s->k[i] = ROL32_03(s->k[i] + a + b);
 		b = x[j] = ROL32(x[j] + a + b, a + b);
-- 
2.43.0


From 10119341f02b89d7643e3fef9b3fb1b01637a51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:03 +0000
Subject: [PATCH 33/52] fix: xtea: decrypt with an odd number of rounds

---
 lib/block/xtea.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/block/xtea.c b/lib/block/xtea.c
index 713c9cf..3dc0299 100644
--- a/lib/block/xtea.c
+++ b/lib/block/xtea.c
@@ -87,12 +87,11 @@ static void xtea_decrypt(const kripto_block *s, const void *ct, void *pt)
 	uint32_t x1 = LOAD32B(CU8(ct) + 4);
 	unsigned int i = s->rounds;
 
+	if(i & 1) x0 -= F(x1) ^ s->k[--i];
+
 	while(i)
 	{
 		x1 -= F(x0) ^ s->k[--i];
-
-		if(i == UINT_MAX) break;
-
 		x0 -= F(x1) ^ s->k[--i];
 	}
 
-- 
2.43.0


From 02f6074244ee3a4532691774befbeaa2f8f427c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:14 +0000
Subject: [PATCH 34/52] fix: rotate: ROR8_6 rotates by six

---
 include/kripto/rotate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kripto/rotate.h b/include/kripto/rotate.h
index 0b4c6cb..be006a1 100644
--- a/include/kripto/rotate.h
+++ b/include/kripto/rotate.h
@@ -331,7 +331,7 @@ static inline uint8_t ROL8_7(uint8_t x)
 #define ROR8_3 ROL8_5
 #define ROR8_4 ROL8_4
 #define ROR8_5 ROL8_3
-#define ROR8_6 ROL8_3
+#define ROR8_6 ROL8_2
 #define ROR8_7 ROL8_1
 
 static inline uint16_t ROL16_01(uint16_t x)
-- 
2.43.0


From 3884ff207db68303e63025369d476b8e34d3ebc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:58 +0000
Subject: [PATCH 35/52] fix: rotate: portable 32- and 64-bit rotation by zero
 does not shift by the word size

---
 include/kripto/rotate.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/kripto/rotate.h b/include/kripto/rotate.h
index be006a1..cbdf455 100644
--- a/include/kripto/rotate.h
+++ b/include/kripto/rotate.h
@@ -118,7 +118,7 @@ static inline uint32_t ROL32(uint32_t x, unsigned int r)
 #else
 
 	r &= 31;
-	return (x << r) | (x >> (32 - r));
+	return (x << r) | (x >> ((32 - r) & 31));
 
 #endif
 }
@@ -139,7 +139,7 @@ static inline uint32_t ROR32(uint32_t x, unsigned int r)
 #else
 
 	r &= 31;
-	return (x >> r) | (x << (32 - r));
+	return (x >> r) | (x << ((32 - r) & 31));
 
 #endif
 }
@@ -160,7 +160,7 @@ static inline uint64_t ROL64(uint64_t x, unsigned int r)
 #else
 
 	r &= 63;
-	return (x << r) | (x >> (64 - r));
+	return (x << r) | (x >> ((64 - r) & 63));
 
 #endif
 }
@@ -181,7 +181,7 @@ static inline uint64_t ROR64(uint64_t x, unsigned int r)
 #else
 
 	r &= 63;
-	return (x >> r) | (x << (64 - r));
+	return (x >> r) | (x << ((64 - r) & 63));
 
 #endif
 }
-- 
2.43.0


From 775955e3fdfff4380c9766124f7d9cba8b4bb549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:56 +0000
Subject: [PATCH 36/52] fix: keccak MAC: a refused re-creation uses the
 released hash

---
 lib/mac/keccak.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/mac/keccak.c b/lib/mac/keccak.c
index 1a56e4d..c26e7cb 100644
--- a/lib/mac/keccak.c
+++ b/lib/mac/keccak.c
@@ -58,7 +58,12 @@ static kripto_mac *keccak_recreate
 	unsigned int tag_len
 )
 {
-	(void)kripto_hash_recreate(s->hash, r, 0, 0, tag_len);
+	s->hash = kripto_hash_recreate(s->hash, r, 0, 0, tag_len);
+	if(!s->hash)
+	{
+		free(s);
+		return 0;
+	}
 
 	kripto_hash_input(s->hash, key, key_len);
 
-- 
2.43.0


From f246b6b88b9d729b9c0f855f1c6d46100f422e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:34 +0000
Subject: [PATCH 37/52] fix: block: a tweak longer than the cipher's overruns
 its object

---
 lib/block.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/block.c b/lib/block.c
index 3aa1104..db10d67 100644
--- a/lib/block.c
+++ b/lib/block.c
@@ -73,6 +73,7 @@ void kripto_block_tweak
 
 	assert(tweak);
 	assert(len);
+	assert(len <= kripto_block_maxtweak(s->desc));
 
 	s->desc->tweak(s, tweak, len);
 }
-- 
2.43.0


From c07b0af1175892726b0d9f2f77048e44ce4ce8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:41 +0000
Subject: [PATCH 38/52] fix: EAX2: a tag longer than asked for at creation
 overruns the object

---
 lib/ae/eax2.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/ae/eax2.c b/lib/ae/eax2.c
index 14bd692..f9927cf 100644
--- a/lib/ae/eax2.c
+++ b/lib/ae/eax2.c
@@ -16,6 +16,7 @@
 #include <limits.h>
 #include <stdint.h>
 #include <string.h>
+#include <assert.h>
 #include <stdlib.h>
 
 #include <kripto/cast.h>
@@ -81,6 +82,8 @@ static void eax2_tag
 {
 	unsigned int i;
 
+	assert(len <= s->len);
+
 	kripto_mac_tag(s->mac, tag, len);
 	for(i = 0; i < len; i++)
 		U8(tag)[i] ^= s->iv[i];
-- 
2.43.0


From c3f38ec44bf41171270d65642c00f98818bfdcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:04 +0000
Subject: [PATCH 39/52] fix: scrypt: refuse cost parameters that are no power
 of two

---
 lib/scrypt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/scrypt.c b/lib/scrypt.c
index fc3c4ed..f8a945c 100644
--- a/lib/scrypt.c
+++ b/lib/scrypt.c
@@ -221,6 +221,7 @@ int kripto_scrypt
 	size_t size = (size_t)r << 7; /* of one block */
 
 	/* the salt length of PBKDF2 and the memory needed have limits */
+	if(n < 2 || n & (n - 1)) return -1; /* not a power of two */
 	if(!r || !p || p > UINT_MAX / size) return -1;
 	if(n + p + 2 > SIZE_MAX / size) return -1;
 
-- 
2.43.0


From 0122b4393e5632b3225e395f5ccfbfa6a4b67691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:27 +0000
Subject: [PATCH 40/52] fix: ctr: restore the line endings that 003b3a8 changed

---
 lib/stream/ctr.c | 374 +++++++++++++++++++++++------------------------
 1 file changed, 187 insertions(+), 187 deletions(-)

diff --git a/lib/stream/ctr.c b/lib/stream/ctr.c
index 81d7019..137ca9f 100644
--- a/lib/stream/ctr.c
+++ b/lib/stream/ctr.c
@@ -1,187 +1,187 @@
-/*
- * Copyright (C) 2011 by Gregor Pintar <grpintar@gmail.com>
- *
- * Permission to use, copy, modify, and/or distribute this software for any
- * purpose with or without fee is hereby granted.
- *
- * THE SOFTWARE IS PROVIDED "AS IS" AND THE AUTHOR DISCLAIMS ALL WARRANTIES
- * WITH REGARD TO THIS SOFTWARE INCLUDING ALL IMPLIED WARRANTIES OF
- * MERCHANTABILITY AND FITNESS. IN NO EVENT SHALL THE AUTHOR BE LIABLE FOR
- * ANY SPECIAL, DIRECT, INDIRECT, OR CONSEQUENTIAL DAMAGES OR ANY DAMAGES
- * WHATSOEVER RESULTING FROM LOSS OF USE, DATA OR PROFITS, WHETHER IN AN
- * ACTION OF CONTRACT, NEGLIGENCE OR OTHER TORTIOUS ACTION, ARISING OUT OF
- * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
- */
-
-#include <stdint.h>
-#include <string.h>
-#include <stdlib.h>
-
-#include <kripto/cast.h>
-#include <kripto/memory.h>
-#include <kripto/block.h>
-#include <kripto/stream.h>
-#include <kripto/desc/stream.h>
-
-#include <kripto/stream/ctr.h>
-
-struct kripto_stream
-{
-	const kripto_desc_stream *desc;
-	unsigned int multof;
-	kripto_block *block;
-	uint8_t *x;
-	uint8_t *buf;
-	unsigned int blocksize;
-	unsigned int used;
-};
-
-static void ctr_crypt
-(
-	kripto_stream *s,
-	const void *in,
-	void *out,
-	size_t len
-)
-{
-	size_t i;
-	unsigned int n;
-
-	for(i = 0; i < len; i++)
-	{
-		if(s->used == s->blocksize)
-		{
-			kripto_block_encrypt(s->block, s->x, s->buf);
-			s->used = 0;
-
-			for(n = s->blocksize; n; n--)
-				if(++s->x[n - 1]) break;
-		}
-
-		U8(out)[i] = CU8(in)[i] ^ s->buf[s->used++];
-	}
-}
-
-static void ctr_prng
-(
-	kripto_stream *s,
-	void *out,
-	size_t len
-)
-{
-	size_t i;
-	unsigned int n;
-
-	for(i = 0; i < len; i++)
-	{
-		if(s->used == s->blocksize)
-		{
-			kripto_block_encrypt(s->block, s->x, s->buf);
-			s->used = 0;
-
-			for(n = s->blocksize; n; n--)
-				if(++s->x[n - 1]) break;
-		}
-
-		U8(out)[i] = s->buf[s->used++];
-	}
-}
-
-static void ctr_destroy(kripto_stream *s)
-{
-	kripto_block_destroy(s->block);
-	kripto_memory_wipe(s, sizeof(kripto_stream) + (s->blocksize << 1));
-	free(s);
-}
-
-struct ext
-{
-	kripto_desc_stream desc;
-	const kripto_desc_block *block;
-};
-
-#define EXT(X) ((const struct ext *)(X))
-
-static kripto_stream *ctr_create
-(
-	const kripto_desc_stream *desc,
-	unsigned int rounds,
-	const void *key,
-	unsigned int key_len,
-	const void *iv,
-	unsigned int iv_len
-)
-{
-	kripto_stream *s = (kripto_stream *)malloc(sizeof(kripto_stream) + (desc->maxiv << 1));
-	if(!s) return 0;
-
-	s->desc = desc;
-	s->multof = 1;
-
-	s->used = s->blocksize = desc->maxiv;
-
-	s->x = (uint8_t *)s + sizeof(kripto_stream);
-	s->buf = s->x + s->blocksize;
-
-	/* block cipher */
-	s->block = kripto_block_create(EXT(desc)->block, rounds, key, key_len);
-	if(!s->block)
-	{
-		kripto_memory_wipe(s, sizeof(kripto_stream) + (s->blocksize << 1));
-		free(s);
-		return 0;
-	}
-
-	/* IV (nonce) */
-	if(iv_len) memcpy(s->x, iv, iv_len);
-	memset(s->x + iv_len, 0, s->blocksize - iv_len);
-
-	return s;
-}
-
-static kripto_stream *ctr_recreate
-(
-	kripto_stream *s,
-	unsigned int rounds,
-	const void *key,
-	unsigned int key_len,
-	const void *iv,
-	unsigned int iv_len
-)
-{
-	/* block cipher */
-	s->block = kripto_block_recreate(s->block, rounds, key, key_len);
-	if(!s->block)
-	{
-		kripto_memory_wipe(s, sizeof(kripto_stream) + (s->blocksize << 1));
-		free(s);
-		return 0;
-	}
-
-	/* IV (nonce) */
-	if(iv_len) memcpy(s->x, iv, iv_len);
-	memset(s->x + iv_len, 0, s->blocksize - iv_len);
-
-	s->used = s->blocksize;
-
-	return s;
-}
-
-kripto_desc_stream *kripto_stream_ctr(const kripto_desc_block *block)
-{
-	struct ext *s = (struct ext *)malloc(sizeof(struct ext));
-	if(!s) return 0;
-
-	s->block = block;
-
-	s->desc.create = &ctr_create;
-	s->desc.recreate = &ctr_recreate;
-	s->desc.encrypt = &ctr_crypt;
-	s->desc.decrypt = &ctr_crypt;
-	s->desc.prng = &ctr_prng;
-	s->desc.destroy = &ctr_destroy;
-	s->desc.maxkey = kripto_block_maxkey(block);
-	s->desc.maxiv = kripto_block_size(block);
-
-	return (kripto_desc_stream *)s;
-}
+/*
+ * Copyright (C) 2011 by Gregor Pintar <grpintar@gmail.com>
+ *
+ * Permission to use, copy, modify, and/or distribute this software for any
+ * purpose with or without fee is hereby granted.
+ *
+ * THE SOFTWARE IS PROVIDED "AS IS" AND THE AUTHOR DISCLAIMS ALL WARRANTIES
+ * WITH REGARD TO THIS SOFTWARE INCLUDING ALL IMPLIED WARRANTIES OF
+ * MERCHANTABILITY AND FITNESS. IN NO EVENT SHALL THE AUTHOR BE LIABLE FOR
+ * ANY SPECIAL, DIRECT, INDIRECT, OR CONSEQUENTIAL DAMAGES OR ANY DAMAGES
+ * WHATSOEVER RESULTING FROM LOSS OF USE, DATA OR PROFITS, WHETHER IN AN
+ * ACTION OF CONTRACT, NEGLIGENCE OR OTHER TORTIOUS ACTION, ARISING OUT OF
+ * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
+ */
+
+#include <stdint.h>
+#include <string.h>
+#include <stdlib.h>
+
+#include <kripto/cast.h>
+#include <kripto/memory.h>
+#include <kripto/block.h>
+#include <kripto/stream.h>
+#include <kripto/desc/stream.h>
+
+#include <kripto/stream/ctr.h>
+
+struct kripto_stream
+{
+	const kripto_desc_stream *desc;
+	unsigned int multof;
+	kripto_block *block;
+	uint8_t *x;
+	uint8_t *buf;
+	unsigned int blocksize;
+	unsigned int used;
+};
+
+static void ctr_crypt
+(
+	kripto_stream *s,
+	const void *in,
+	void *out,
+	size_t len
+)
+{
+	size_t i;
+	unsigned int n;
+
+	for(i = 0; i < len; i++)
+	{
+		if(s->used == s->blocksize)
+		{
+			kripto_block_encrypt(s->block, s->x, s->buf);
+			s->used = 0;
+
+			for(n = s->blocksize; n; n--)
+				if(++s->x[n - 1]) break;
+		}
+
+		U8(out)[i] = CU8(in)[i] ^ s->buf[s->used++];
+	}
+}
+
+static void ctr_prng
+(
+	kripto_stream *s,
+	void *out,
+	size_t len
+)
+{
+	size_t i;
+	unsigned int n;
+
+	for(i = 0; i < len; i++)
+	{
+		if(s->used == s->blocksize)
+		{
+			kripto_block_encrypt(s->block, s->x, s->buf);
+			s->used = 0;
+
+			for(n = s->blocksize; n; n--)
+				if(++s->x[n - 1]) break;
+		}
+
+		U8(out)[i] = s->buf[s->used++];
+	}
+}
+
+static void ctr_destroy(kripto_stream *s)
+{
+	kripto_block_destroy(s->block);
+	kripto_memory_wipe(s, sizeof(kripto_stream) + (s->blocksize << 1));
+	free(s);
+}
+
+struct ext
+{
+	kripto_desc_stream desc;
+	const kripto_desc_block *block;
+};
+
+#define EXT(X) ((const struct ext *)(X))
+
+static kripto_stream *ctr_create
+(
+	const kripto_desc_stream *desc,
+	unsigned int rounds,
+	const void *key,
+	unsigned int key_len,
+	const void *iv,
+	unsigned int iv_len
+)
+{
+	kripto_stream *s = (kripto_stream *)malloc(sizeof(kripto_stream) + (desc->maxiv << 1));
+	if(!s) return 0;
+
+	s->desc = desc;
+	s->multof = 1;
+
+	s->used = s->blocksize = desc->maxiv;
+
+	s->x = (uint8_t *)s + sizeof(kripto_stream);
+	s->buf = s->x + s->blocksize;
+
+	/* block cipher */
+	s->block = kripto_block_create(EXT(desc)->block, rounds, key, key_len);
+	if(!s->block)
+	{
+		kripto_memory_wipe(s, sizeof(kripto_stream) + (s->blocksize << 1));
+		free(s);
+		return 0;
+	}
+
+	/* IV (nonce) */
+	if(iv_len) memcpy(s->x, iv, iv_len);
+	memset(s->x + iv_len, 0, s->blocksize - iv_len);
+
+	return s;
+}
+
+static kripto_stream *ctr_recreate
+(
+	kripto_stream *s,
+	unsigned int rounds,
+	const void *key,
+	unsigned int key_len,
+	const void *iv,
+	unsigned int iv_len
+)
+{
+	/* block cipher */
+	s->block = kripto_block_recreate(s->block, rounds, key, key_len);
+	if(!s->block)
+	{
+		kripto_memory_wipe(s, sizeof(kripto_stream) + (s->blocksize << 1));
+		free(s);
+		return 0;
+	}
+
+	/* IV (nonce) */
+	if(iv_len) memcpy(s->x, iv, iv_len);
+	memset(s->x + iv_len, 0, s->blocksize - iv_len);
+
+	s->used = s->blocksize;
+
+	return s;
+}
+
+kripto_desc_stream *kripto_stream_ctr(const kripto_desc_block *block)
+{
+	struct ext *s = (struct ext *)malloc(sizeof(struct ext));
+	if(!s) return 0;
+
+	s->block = block;
+
+	s->desc.create = &ctr_create;
+	s->desc.recreate = &ctr_recreate;
+	s->desc.encrypt = &ctr_crypt;
+	s->desc.decrypt = &ctr_crypt;
+	s->desc.prng = &ctr_prng;
+	s->desc.destroy = &ctr_destroy;
+	s->desc.maxkey = kripto_block_maxkey(block);
+	s->desc.maxiv = kripto_block_size(block);
+
+	return (kripto_desc_stream *)s;
+}
-- 
2.43.0


From c3846f44d67a860fe54001e62bf726a7689a942e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:37 +0000
Subject: [PATCH 41/52] fix: OMAC: the polynomial for blocks of 33 bytes is
 reducible

x^264+x^11+x^8+x^6+x^2+1 has an even number of terms, so x+1 divides it;
the first irreducible polynomial of that degree is x^264+x^9+x^6+x^2+1.
---
 lib/mac/omac.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mac/omac.c b/lib/mac/omac.c
index 5ed42fd..aa09e77 100644
--- a/lib/mac/omac.c
+++ b/lib/mac/omac.c
@@ -78,7 +78,7 @@ static const uint8_t poly[256][6] =
 	{0x00, 0x00, 0x00, 0x00, 0x01, 0x29}, /*  30 */
 	{0x00, 0x00, 0x00, 0x00, 0xC4, 0x01}, /*  31 */
 	{0x00, 0x00, 0x00, 0x00, 0x04, 0x25}, /*  32 */
-	{0x00, 0x00, 0x00, 0x00, 0x09, 0x45}, /*  33 */
+	{0x00, 0x00, 0x00, 0x00, 0x02, 0x45}, /*  33 */
 	{0x00, 0x00, 0x00, 0x00, 0x02, 0x0D}, /*  34 */
 	{0x00, 0x00, 0x00, 0x00, 0x02, 0x25}, /*  35 */
 	{0x00, 0x00, 0x00, 0x00, 0x0C, 0x03}, /*  36 */
-- 
2.43.0


From 0126a66bfc07131b8cd0c8f0fecd6d254907566a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:42 +0000
Subject: [PATCH 42/52] fix: OMAC: the polynomial for blocks of 207 bytes is
 reducible

The first irreducible polynomial of degree 1656 with five terms is
x^1656+x^19+x^15+x^10+1, not x^1656+x^19+x^15+x^8+1.
---
 lib/mac/omac.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mac/omac.c b/lib/mac/omac.c
index aa09e77..04d4b6d 100644
--- a/lib/mac/omac.c
+++ b/lib/mac/omac.c
@@ -252,7 +252,7 @@ static const uint8_t poly[256][6] =
 	{0x00, 0x00, 0x00, 0x02, 0x80, 0x09}, /* 204 */
 	{0x00, 0x00, 0x00, 0x00, 0x00, 0xA3}, /* 205 */
 	{0x00, 0x00, 0x00, 0x04, 0x20, 0x03}, /* 206 */
-	{0x00, 0x00, 0x00, 0x08, 0x81, 0x01}, /* 207 */
+	{0x00, 0x00, 0x00, 0x08, 0x84, 0x01}, /* 207 */
 	{0x00, 0x00, 0x00, 0x02, 0x02, 0x41}, /* 208 */
 	{0x00, 0x00, 0x00, 0x00, 0x00, 0x39}, /* 209 */
 	{0x00, 0x00, 0x00, 0x00, 0x08, 0x45}, /* 210 */
-- 
2.43.0


From 6f32c2198cb99cb2a1fd5f73248f9dcdc0513395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:49 +0000
Subject: [PATCH 43/52] fix: OMAC: high terms of the polynomial land in the
 wrong bytes

The six bytes of a polynomial end with the last byte of the block, but the
first three were added to the bytes the following ones belong to, which
gave wrong subkeys for blocks of 123, 137, 152, 154, 157, 221, 237, 243,
246, 247, 251 and 253 bytes.
---
 lib/mac/omac.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/mac/omac.c b/lib/mac/omac.c
index 04d4b6d..1a5532f 100644
--- a/lib/mac/omac.c
+++ b/lib/mac/omac.c
@@ -323,9 +323,9 @@ static void omac_init(kripto_mac *s)
 	{
 		if(s->len >= 8)
 		{
-			s->lu[s->len - 4] ^= poly[s->len][0];
-			s->lu[s->len - 3] ^= poly[s->len][1];
-			s->lu[s->len - 2] ^= poly[s->len][2];
+			s->lu[s->len - 6] ^= poly[s->len][0];
+			s->lu[s->len - 5] ^= poly[s->len][1];
+			s->lu[s->len - 4] ^= poly[s->len][2];
 			s->lu[s->len - 3] ^= poly[s->len][3];
 			s->lu[s->len - 2] ^= poly[s->len][4];
 		}
@@ -346,9 +346,9 @@ static void omac_init(kripto_mac *s)
 	{
 		if(s->len >= 8)
 		{
-			s->lu2[s->len - 4] ^= poly[s->len][0];
-			s->lu2[s->len - 3] ^= poly[s->len][1];
-			s->lu2[s->len - 2] ^= poly[s->len][2];
+			s->lu2[s->len - 6] ^= poly[s->len][0];
+			s->lu2[s->len - 5] ^= poly[s->len][1];
+			s->lu2[s->len - 4] ^= poly[s->len][2];
 			s->lu2[s->len - 3] ^= poly[s->len][3];
 			s->lu2[s->len - 2] ^= poly[s->len][4];
 		}
-- 
2.43.0


From 9613bd0045f225d28546e97edd440b66ed448f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:00 +0000
Subject: [PATCH 44/52] fix: mac: the one-shot call drops all but the low 32
 bits of the message length

---
 include/kripto/mac.h | 2 +-
 lib/mac.c            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kripto/mac.h b/include/kripto/mac.h
index 98a9063..3f02aae 100644
--- a/include/kripto/mac.h
+++ b/include/kripto/mac.h
@@ -54,7 +54,7 @@ extern int kripto_mac_all
 	const void *key,
 	unsigned int key_len,
 	const void *in,
-	unsigned int in_len,
+	size_t in_len,
 	void *tag,
 	unsigned int tag_len
 );
diff --git a/lib/mac.c b/lib/mac.c
index de9d3bc..3ff00b1 100644
--- a/lib/mac.c
+++ b/lib/mac.c
@@ -106,7 +106,7 @@ int kripto_mac_all
 	const void *key,
 	unsigned int key_len,
 	const void *in,
-	unsigned int in_len,
+	size_t in_len,
 	void *tag,
 	unsigned int tag_len
 )
-- 
2.43.0


From 817695dda74aea3153eaa0bb447af4aea356f7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:41 +0000
Subject: [PATCH 45/52] fix: random: build with CryptGenRandom

sizeof cannot be evaluated by the preprocessor, so the CryptGenRandom
configuration did not compile.
---
 lib/random.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/lib/random.c b/lib/random.c
index f3dc69d..e05cca6 100644
--- a/lib/random.c
+++ b/lib/random.c
@@ -221,10 +221,6 @@ kripto_random *kripto_random_create(void)
 	return s;
 
 	#elif defined(KRIPTO_CRYPTGENRANDOM)
-	#if sizeof(kripto_random *) < sizeof(HCRYPTPROV)
-	#error sizeof(kripto_random *) < sizeof(HCRYPTPROV)
-	#endif
-
 	HCRYPTPROV prov = 0;
 
 	if(!CryptAcquireContext
-- 
2.43.0


From a62b3a6bfb6ce9eaa1688eaa03aa39afb95d1a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:46 +0000
Subject: [PATCH 46/52] fix: random: free the object of the RtlGenRandom source
 on destruction

---
 lib/random.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/random.c b/lib/random.c
index e05cca6..abf8d16 100644
--- a/lib/random.c
+++ b/lib/random.c
@@ -310,6 +310,7 @@ void kripto_random_destroy(kripto_random *s)
 
 	assert(s->lib);
 	FreeLibrary(s->lib);
+	free(s);
 
 	#elif defined(KRIPTO_CRYPTGENRANDOM)
 
-- 
2.43.0


From 53a6e7cf7e4816aad0b8f51f1d78532eec73da2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:51 +0000
Subject: [PATCH 47/52] fix: random: fill requests the Windows interfaces
 cannot express in one call

RtlGenRandom and CryptGenRandom take 32-bit lengths: a longer request was
truncated and still reported as filled.  RtlGenRandom returns a one-byte
BOOLEAN, which was called through FARPROC and compared with TRUE as int.
---
 lib/random.c | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/lib/random.c b/lib/random.c
index abf8d16..4f44ced 100644
--- a/lib/random.c
+++ b/lib/random.c
@@ -38,7 +38,7 @@
 struct kripto_random
 {
 	HMODULE lib;
-	FARPROC rtlgenrandom;
+	BOOLEAN (WINAPI *rtlgenrandom)(PVOID, ULONG);
 };
 #elif defined(KRIPTO_CRYPTGENRANDOM)
 #include <wincrypt.h>
@@ -210,7 +210,8 @@ kripto_random *kripto_random_create(void)
 		return 0;
 	}
 
-	s->rtlgenrandom = GetProcAddress(s->lib, "SystemFunction036");
+	s->rtlgenrandom = (BOOLEAN (WINAPI *)(PVOID, ULONG))
+		GetProcAddress(s->lib, "SystemFunction036");
 	if(!s->rtlgenrandom)
 	{
 		FreeLibrary(s->lib);
@@ -251,14 +252,31 @@ size_t kripto_random_gen(kripto_random *s, void *out, size_t len)
 
 	#elif defined(KRIPTO_RTLGENRANDOM)
 
+	size_t i;
+	ULONG n; /* 32 bit */
+
 	assert(s->rtlgenrandom);
-	if(s->rtlgenrandom(out, len) == TRUE) return len;
-	return 0;
-	
+
+	for(i = 0; i < len; i += n)
+	{
+		n = len - i < 0xFFFFFFFF ? len - i : 0xFFFFFFFF;
+		if(!s->rtlgenrandom((uint8_t *)out + i, n)) break;
+	}
+
+	return i;
+
 	#elif defined(KRIPTO_CRYPTGENRANDOM)
 
-	if(CryptGenRandom((HCRYPTPROV)s, len, out)) return len;
-	return 0;
+	size_t i;
+	DWORD n; /* 32 bit */
+
+	for(i = 0; i < len; i += n)
+	{
+		n = len - i < 0xFFFFFFFF ? len - i : 0xFFFFFFFF;
+		if(!CryptGenRandom((HCRYPTPROV)s, n, (uint8_t *)out + i)) break;
+	}
+
+	return i;
 
 	#else
 
-- 
2.43.0


From cc0bddd5a4eadb617f76ef741369aca90605359c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:57 +0000
Subject: [PATCH 48/52] fix: random: do not leak the MAC descriptor on every
 seeding

seed() made a new descriptor each time; one is kept for the life of the
object now and freed when creation fails.
---
 lib/random.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/random.c b/lib/random.c
index 4f44ced..21c3d51 100644
--- a/lib/random.c
+++ b/lib/random.c
@@ -103,9 +103,6 @@ static int seed(kripto_random *s, uint8_t *out, unsigned int len)
 		uint8_t unassigned[4];
 	} entropy;
 
-	s->mac = kripto_mac_hmac(kripto_hash_blake2s);
-	if(!s->mac) return -1;
-
 	#if defined(KRIPTO_UNIX)
 	entropy.pid = getpid();
 	(void)clock_gettime(CLOCK_REALTIME, &entropy.time);
@@ -158,7 +155,10 @@ static kripto_random *create(void)
 	kripto_random *s = (kripto_random *)malloc(sizeof(kripto_random));
 	if(!s) return 0;
 
-	if(seed(s, buf, 32)) goto err;
+	s->mac = kripto_mac_hmac(kripto_hash_blake2s);
+	if(!s->mac) goto err0;
+
+	if(seed(s, buf, 32)) goto err1;
 
 	s->stream = kripto_stream_create
 	(
@@ -166,12 +166,12 @@ static kripto_random *create(void)
 		buf, 32,
 		0, 0
 	);
-	if(!s->stream) goto err;
+	if(!s->stream) goto err1;
 
 	return s;
 
-err:
-	free(s);
+err1: free(s->mac);
+err0: free(s);
 	return 0;
 }
 
-- 
2.43.0


From b924ca6902345f452d4d902504ac87b3e41ef45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:02 +0000
Subject: [PATCH 49/52] fix: random: a failed request must not free the object

The caller still owns it: later requests and destruction used freed memory.
---
 lib/random.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/lib/random.c b/lib/random.c
index 21c3d51..a50952d 100644
--- a/lib/random.c
+++ b/lib/random.c
@@ -283,6 +283,8 @@ size_t kripto_random_gen(kripto_random *s, void *out, size_t len)
 	uint8_t buf[32];
 	uint8_t iv[8];
 
+	if(!s->stream) return 0;
+
 	s->output += len;
 
 	if /* reseed */
@@ -293,7 +295,7 @@ size_t kripto_random_gen(kripto_random *s, void *out, size_t len)
 	{
 		kripto_stream_prng(s->stream, iv, 8);
 
-		if(seed(s, buf, 32)) goto err;
+		if(seed(s, buf, 32)) return 0;
 
 		s->stream = kripto_stream_recreate
 		(
@@ -301,18 +303,13 @@ size_t kripto_random_gen(kripto_random *s, void *out, size_t len)
 			buf, 32,
 			iv, 8
 		);
-		if(!s->stream) goto err;
+		if(!s->stream) return 0;
 	}
 
 	kripto_stream_prng(s->stream, out, len);
 
 	return len;
 
-err:
-	kripto_memory_wipe(s, sizeof(kripto_random));
-	free(s);
-	return 0;
-
 	#endif
 }
 
@@ -336,7 +333,7 @@ void kripto_random_destroy(kripto_random *s)
 
 	#else
 
-	kripto_stream_destroy(s->stream);
+	if(s->stream) kripto_stream_destroy(s->stream);
 	free(s->mac);
 
 	kripto_memory_wipe(s, sizeof(kripto_random));
-- 
2.43.0


From 51ef04b0fc02ee0b33a2c9f2885b84d0ada9c245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:09 +0000
Subject: [PATCH 50/52] fix: scrypt: reject block sizes a 32-bit size cannot
 express

r of 2^25 and more made the size of a block wrap: division by zero, or
buffers far smaller than what is written.
---
 lib/scrypt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/scrypt.c b/lib/scrypt.c
index f8a945c..feec306 100644
--- a/lib/scrypt.c
+++ b/lib/scrypt.c
@@ -222,7 +222,7 @@ int kripto_scrypt
 
 	/* the salt length of PBKDF2 and the memory needed have limits */
 	if(n < 2 || n & (n - 1)) return -1; /* not a power of two */
-	if(!r || !p || p > UINT_MAX / size) return -1;
+	if(!r || !p || r > SIZE_MAX >> 7 || p > UINT_MAX / size) return -1;
 	if(n + p + 2 > SIZE_MAX / size) return -1;
 
 	b = (uint8_t *)malloc(size * p + size * n + (size << 1));
-- 
2.43.0


From 7820f1afeffc76f82c1f0ed387969a082aadbb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:58 +0000
Subject: [PATCH 51/52] fix: block ciphers overran the heap for numbers of
 rounds whose key schedule size overflows

---
 lib/block/aria.c     | 3 +++
 lib/block/gost.c     | 4 ++++
 lib/block/idea.c     | 4 ++++
 lib/block/lea.c      | 4 ++++
 lib/block/rc5.c      | 3 +++
 lib/block/rc6.c      | 3 +++
 lib/block/rijndael.c | 7 +++++++
 lib/block/safer.c    | 7 +++++++
 lib/block/saferpp.c  | 4 ++++
 lib/block/seed.c     | 4 ++++
 lib/block/serpent.c  | 3 +++
 lib/block/simon128.c | 4 ++++
 lib/block/simon32.c  | 4 ++++
 lib/block/simon64.c  | 4 ++++
 lib/block/speck128.c | 4 ++++
 lib/block/speck32.c  | 4 ++++
 lib/block/speck64.c  | 4 ++++
 lib/block/trax_l.c   | 4 ++++
 lib/block/trax_m.c   | 4 ++++
 lib/block/twofish.c  | 4 ++++
 lib/block/xtea.c     | 3 +++
 21 files changed, 85 insertions(+)

diff --git a/lib/block/aria.c b/lib/block/aria.c
index b735d98..28b7370 100644
--- a/lib/block/aria.c
+++ b/lib/block/aria.c
@@ -669,6 +669,9 @@ static kripto_block *aria_create
 		if(r < 12) r = 12;
 	}
 
+	/* the size of the key schedule must not overflow */
+	if(r > UINT_MAX >> 6) return 0;
+
 	s = (kripto_block *)malloc(sizeof(kripto_block) + ((r + 1) << 5));
 	if(!s) return 0;
 
diff --git a/lib/block/gost.c b/lib/block/gost.c
index ca45e2f..d8009bc 100644
--- a/lib/block/gost.c
+++ b/lib/block/gost.c
@@ -13,6 +13,7 @@
  * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
  */
 
+#include <limits.h>
 #include <stdint.h>
 #include <stdlib.h>
 
@@ -150,6 +151,9 @@ static kripto_block *gost_create
 
 	if(!r) r = 32;
 
+	/* the size of the key schedule must not overflow */
+	if(r > UINT_MAX >> 3) return 0;
+
 	s = (kripto_block *)malloc(sizeof(kripto_block) + (r << 2));
 	if(!s) return 0;
 
diff --git a/lib/block/idea.c b/lib/block/idea.c
index e33ea90..55ac533 100644
--- a/lib/block/idea.c
+++ b/lib/block/idea.c
@@ -15,6 +15,7 @@
 
 /* written and placed in the public domain by Wei Dai */
 
+#include <limits.h>
 #include <stdint.h>
 #include <stdlib.h>
 
@@ -181,6 +182,9 @@ static kripto_block *idea_create
 
 	if(!r) r = 8;
 
+	/* the size of the key schedule must not overflow */
+	if(r > UINT_MAX >> 6) return 0;
+
 	s = (kripto_block *)malloc(sizeof(kripto_block) + r * 24 + 16);
 	if(!s) return 0;
 
diff --git a/lib/block/lea.c b/lib/block/lea.c
index ebb0ef3..498760d 100644
--- a/lib/block/lea.c
+++ b/lib/block/lea.c
@@ -13,6 +13,7 @@
  * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
  */
 
+#include <limits.h>
 #include <stdint.h>
 #include <stddef.h>
 #include <stdlib.h>
@@ -215,6 +216,9 @@ static kripto_block *lea_create
 		else r = 24;
 	}
 
+	/* the size of the key schedule must not overflow */
+	if(r > UINT_MAX >> 6) return 0;
+
 	kripto_block *s = (kripto_block *)malloc(sizeof(kripto_block) + r * 24);
 	if(!s) return 0;
 
diff --git a/lib/block/rc5.c b/lib/block/rc5.c
index 2e8b563..599cd24 100644
--- a/lib/block/rc5.c
+++ b/lib/block/rc5.c
@@ -130,6 +130,9 @@ static kripto_block *rc5_create
 
 	if(!r) r = 12;
 
+	/* the size of the key schedule must not overflow */
+	if(r > UINT_MAX >> 4) return 0;
+
 	s = (kripto_block *)malloc(sizeof(kripto_block) + ((r + 1) << 3));
 	if(!s) return 0;
 
diff --git a/lib/block/rc6.c b/lib/block/rc6.c
index 3b93663..09ac69e 100644
--- a/lib/block/rc6.c
+++ b/lib/block/rc6.c
@@ -171,6 +171,9 @@ static kripto_block *rc6_create
 
 	if(!r) r = 20;
 
+	/* the size of the key schedule must not overflow */
+	if(r > UINT_MAX >> 4) return 0;
+
 	s = (kripto_block *)malloc(sizeof(kripto_block) + (RC6_K_LEN(r) << 2));
 	if(!s) return 0;
 
diff --git a/lib/block/rijndael.c b/lib/block/rijndael.c
index 3392728..f560980 100644
--- a/lib/block/rijndael.c
+++ b/lib/block/rijndael.c
@@ -25,6 +25,7 @@
  * @author Paulo Barreto <paulo.barreto@terra.com.br>
  */
 
+#include <limits.h>
 #include <stdint.h>
 #include <stdlib.h>
 
@@ -899,6 +900,9 @@ static kripto_block *rijndael128_create
 		if(r < 10) r = 10;
 	}
 
+	/* the size of the key schedule must not overflow */
+	if(r > UINT_MAX >> 6) return 0;
+
 	s = (kripto_block *)malloc(sizeof(kripto_block) + ((r + 1) << 5));
 	if(!s) return 0;
 
@@ -1134,6 +1138,9 @@ static kripto_block *rijndael256_create
 		if(r < 14) r = 14;
 	}
 
+	/* the size of the key schedule must not overflow */
+	if(r > UINT_MAX >> 7) return 0;
+
 	s = (kripto_block *)malloc(sizeof(kripto_block) + ((r + 1) << 6));
 	if(!s) return 0;
 
diff --git a/lib/block/safer.c b/lib/block/safer.c
index f05823f..902bfff 100644
--- a/lib/block/safer.c
+++ b/lib/block/safer.c
@@ -15,6 +15,7 @@
 
 /* based on Richard De Moliner's implementation */
 
+#include <limits.h>
 #include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
@@ -328,6 +329,9 @@ static kripto_block *safer_create
 		else r = 6;
 	}
 
+	/* the size of the key schedule must not overflow */
+	if(r > UINT_MAX >> 5) return 0;
+
 	s = (kripto_block *)malloc(sizeof(kripto_block) + (r << 4) + 8);
 	if(!s) return 0;
 
@@ -383,6 +387,9 @@ static kripto_block *safer_sk_create
 		r = key_len > 8 ? 10 : 6;
 	}
 
+	/* the size of the key schedule must not overflow */
+	if(r > UINT_MAX >> 5) return 0;
+
 	s = (kripto_block *)malloc(sizeof(kripto_block) + (r << 4) + 8);
 	if(!s) return 0;
 
diff --git a/lib/block/saferpp.c b/lib/block/saferpp.c
index 7b98c6f..ee30a45 100644
--- a/lib/block/saferpp.c
+++ b/lib/block/saferpp.c
@@ -13,6 +13,7 @@
  * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
  */
 
+#include <limits.h>
 #include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
@@ -389,6 +390,9 @@ static kripto_block *saferpp_create
 		else r = 7;
 	}
 
+	/* the size of the key schedule must not overflow */
+	if(r > UINT_MAX >> 6) return 0;
+
 	s = (kripto_block *)malloc(sizeof(kripto_block) + (r << 5) + 16);
 	if(!s) return 0;
 
diff --git a/lib/block/seed.c b/lib/block/seed.c
index 0bc3e20..bd62c4a 100644
--- a/lib/block/seed.c
+++ b/lib/block/seed.c
@@ -13,6 +13,7 @@
  * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
  */
 
+#include <limits.h>
 #include <stdint.h>
 #include <stdlib.h>
 
@@ -427,6 +428,9 @@ static kripto_block *seed_create
 
 	if(!r) r = 16;
 
+	/* the size of the key schedule must not overflow */
+	if(r > UINT_MAX >> 4) return 0;
+
 	s = (kripto_block *)malloc(sizeof(kripto_block) + (r << 3));
 	if(!s) return 0;
 
diff --git a/lib/block/serpent.c b/lib/block/serpent.c
index 63ec683..8094241 100644
--- a/lib/block/serpent.c
+++ b/lib/block/serpent.c
@@ -677,6 +677,9 @@ static kripto_block *serpent_create
 
 	if(!r) r = 32;
 
+	/* the size of the key schedule must not overflow */
+	if(r > UINT_MAX >> 5) return 0;
+
 	s = (kripto_block *)malloc(sizeof(kripto_block) + ((r + 1) << 4));
 	if(!s) return 0;
 
diff --git a/lib/block/simon128.c b/lib/block/simon128.c
index 87d3460..176a86d 100644
--- a/lib/block/simon128.c
+++ b/lib/block/simon128.c
@@ -13,6 +13,7 @@
  * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
  */
 
+#include <limits.h>
 #include <stdint.h>
 #include <stdlib.h>
 
@@ -144,6 +145,9 @@ static kripto_block *simon128_create
 		}
 	}
 
+	/* the size of the key schedule must not overflow */
+	if(r > UINT_MAX >> 4) return 0;
+
 	s = (kripto_block *)malloc(sizeof(kripto_block) + (r << 3));
 	if(!s) return 0;
 
diff --git a/lib/block/simon32.c b/lib/block/simon32.c
index 45d955d..12fdf65 100644
--- a/lib/block/simon32.c
+++ b/lib/block/simon32.c
@@ -13,6 +13,7 @@
  * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
  */
 
+#include <limits.h>
 #include <stdint.h>
 #include <stdlib.h>
 
@@ -124,6 +125,9 @@ static kripto_block *simon32_create
 
 	if(!r) r = 32;
 
+	/* the size of the key schedule must not overflow */
+	if(r > UINT_MAX >> 2) return 0;
+
 	s = (kripto_block *)malloc(sizeof(kripto_block) + (r << 1));
 	if(!s) return 0;
 
diff --git a/lib/block/simon64.c b/lib/block/simon64.c
index 4797fac..b44000c 100644
--- a/lib/block/simon64.c
+++ b/lib/block/simon64.c
@@ -13,6 +13,7 @@
  * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
  */
 
+#include <limits.h>
 #include <stdint.h>
 #include <stdlib.h>
 
@@ -135,6 +136,9 @@ static kripto_block *simon64_create
 
 	if(!r) r = 36 + (((key_len + 3) >> 2) << 1);
 
+	/* the size of the key schedule must not overflow */
+	if(r > UINT_MAX >> 3) return 0;
+
 	s = (kripto_block *)malloc(sizeof(kripto_block) + (r << 2));
 	if(!s) return 0;
 
diff --git a/lib/block/speck128.c b/lib/block/speck128.c
index 581bc53..befc763 100644
--- a/lib/block/speck128.c
+++ b/lib/block/speck128.c
@@ -13,6 +13,7 @@
  * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
  */
 
+#include <limits.h>
 #include <stdint.h>
 #include <stdlib.h>
 
@@ -116,6 +117,9 @@ static kripto_block *speck128_create
 
 	if(!r) r = 30 + ((key_len + 7) >> 3);
 
+	/* the size of the key schedule must not overflow */
+	if(r > UINT_MAX >> 4) return 0;
+
 	s = (kripto_block *)malloc(sizeof(kripto_block) + (r << 3));
 	if(!s) return 0;
 
diff --git a/lib/block/speck32.c b/lib/block/speck32.c
index 87a1d18..4ab4e76 100644
--- a/lib/block/speck32.c
+++ b/lib/block/speck32.c
@@ -13,6 +13,7 @@
  * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
  */
 
+#include <limits.h>
 #include <stdint.h>
 #include <stdlib.h>
 
@@ -116,6 +117,9 @@ static kripto_block *speck32_create
 
 	if(!r) r = 22;
 
+	/* the size of the key schedule must not overflow */
+	if(r > UINT_MAX >> 2) return 0;
+
 	s = (kripto_block *)malloc(sizeof(kripto_block) + (r << 1));
 	if(!s) return 0;
 
diff --git a/lib/block/speck64.c b/lib/block/speck64.c
index 80a31bf..61982ac 100644
--- a/lib/block/speck64.c
+++ b/lib/block/speck64.c
@@ -13,6 +13,7 @@
  * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
  */
 
+#include <limits.h>
 #include <stdint.h>
 #include <stdlib.h>
 
@@ -116,6 +117,9 @@ static kripto_block *speck64_create
 
 	if(!r) r = 23 + ((key_len + 3) >> 2);
 
+	/* the size of the key schedule must not overflow */
+	if(r > UINT_MAX >> 3) return 0;
+
 	s = (kripto_block *)malloc(sizeof(kripto_block) + (r << 2));
 	if(!s) return 0;
 
diff --git a/lib/block/trax_l.c b/lib/block/trax_l.c
index d7b118d..a3e2cda 100644
--- a/lib/block/trax_l.c
+++ b/lib/block/trax_l.c
@@ -13,6 +13,7 @@
  * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
  */
 
+#include <limits.h>
 #include <stdint.h>
 #include <stdlib.h>
 
@@ -257,6 +258,9 @@ static kripto_block *trax_l_create
 {
 	if(!r) r = 17;
 
+	/* the size of the key schedule must not overflow */
+	if(r > UINT_MAX >> 6) return 0;
+
 	kripto_block *s = (kripto_block *)malloc(sizeof(kripto_block) + ((r + 1) << 5));
 	if(!s) return 0;
 
diff --git a/lib/block/trax_m.c b/lib/block/trax_m.c
index f324407..594360b 100644
--- a/lib/block/trax_m.c
+++ b/lib/block/trax_m.c
@@ -13,6 +13,7 @@
  * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
  */
 
+#include <limits.h>
 #include <stdint.h>
 #include <stdlib.h>
 
@@ -189,6 +190,9 @@ static kripto_block *trax_m_create
 {
 	if(!r) r = 14;
 
+	/* the size of the key schedule must not overflow */
+	if(r > UINT_MAX >> 5) return 0;
+
 	kripto_block *s = (kripto_block *)malloc(sizeof(kripto_block) + ((r + 1) << 4));
 	if(!s) return 0;
 
diff --git a/lib/block/twofish.c b/lib/block/twofish.c
index c128761..bbdf868 100644
--- a/lib/block/twofish.c
+++ b/lib/block/twofish.c
@@ -15,6 +15,7 @@
 
 /* Derived from Tom St Denis public domain source */
 
+#include <limits.h>
 #include <stdint.h>
 #include <stdlib.h>
 
@@ -1194,6 +1195,9 @@ static kripto_block *twofish_create
 
 	if(!r) r = 16;
 
+	/* the size of the key schedule must not overflow */
+	if(r > UINT_MAX >> 4) return 0;
+
 	s = (kripto_block *)malloc(sizeof(kripto_block) + (TWOFISH_K_LEN(r) << 2));
 	if(!s) return 0;
 
diff --git a/lib/block/xtea.c b/lib/block/xtea.c
index 3dc0299..d7e2ab4 100644
--- a/lib/block/xtea.c
+++ b/lib/block/xtea.c
@@ -111,6 +111,9 @@ static kripto_block *xtea_create
 
 	if(!r) r = 64;
 
+	/* the size of the key schedule must not overflow */
+	if(r > UINT_MAX >> 3) return 0;
+
 	s = (kripto_block *)malloc(sizeof(kripto_block) + (r << 2));
 	if(!s) return 0;
 
-- 
2.43.0


From ac6ab6f16966a359f7ff132d24d08574b3527dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:03 +0000
Subject: [PATCH 52/52] fix: numbers of rounds that read or write outside keys
 and tables are refused

---
 lib/block/3way.c      | 3 +++
 lib/block/anubis.c    | 3 +++
 lib/block/blowfish.c  | 3 +++
 lib/block/gost.c      | 3 +++
 lib/block/khazad.c    | 3 +++
 lib/block/lea.c       | 3 +++
 lib/block/noekeon.c   | 2 ++
 lib/block/serpent.c   | 3 +++
 lib/block/shacal2.c   | 4 ++--
 lib/block/simon128.c  | 3 +++
 lib/block/simon32.c   | 3 +++
 lib/block/simon64.c   | 3 +++
 lib/block/sm4.c       | 3 +++
 lib/hash/keccak1600.c | 2 ++
 lib/hash/keccak800.c  | 2 ++
 lib/hash/sha2_256.c   | 1 +
 lib/hash/sha2_512.c   | 1 +
 17 files changed, 43 insertions(+), 2 deletions(-)

diff --git a/lib/block/3way.c b/lib/block/3way.c
index 60d4d20..c7145bb 100644
--- a/lib/block/3way.c
+++ b/lib/block/3way.c
@@ -16,6 +16,7 @@
 /* modifed by Wei Dai from Joan Daemen's 3way.c
 The original code and all modifications are in the public domain. */
 
+#include <assert.h>
 #include <stdint.h>
 #include <stdlib.h>
 
@@ -180,6 +181,8 @@ static kripto_block *threeway_recreate
 	unsigned int key_len
 )
 {
+	assert(r <= 11);
+
 	if(!r) s->r = 11;
 	else s->r = r;
 
diff --git a/lib/block/anubis.c b/lib/block/anubis.c
index 79a37a9..7b60aed 100644
--- a/lib/block/anubis.c
+++ b/lib/block/anubis.c
@@ -18,6 +18,7 @@
  * and Vincent Rijmen public domain source.
  */
 
+#include <assert.h>
 #include <stdint.h>
 #include <stdlib.h>
 
@@ -735,6 +736,8 @@ static kripto_block *anubis_create
 		if(r < 12) r = 12;
 	}
 
+	assert(r <= 64);
+
 	s = (kripto_block *)malloc(sizeof(kripto_block) + ((r + 1) << 5));
 	if(!s) return 0;
 
diff --git a/lib/block/blowfish.c b/lib/block/blowfish.c
index 9c280ee..c93b9f1 100644
--- a/lib/block/blowfish.c
+++ b/lib/block/blowfish.c
@@ -13,6 +13,7 @@
  * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
  */
 
+#include <assert.h>
 #include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
@@ -489,6 +490,8 @@ static kripto_block *blowfish_create
 
 	if(!r) r = 16;
 
+	assert(r <= 34);
+
 	s = (kripto_block *)malloc(sizeof(kripto_block) + ((r + 2) << 2));
 	if(!s) return 0;
 
diff --git a/lib/block/gost.c b/lib/block/gost.c
index d8009bc..c37abbb 100644
--- a/lib/block/gost.c
+++ b/lib/block/gost.c
@@ -13,6 +13,7 @@
  * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
  */
 
+#include <assert.h>
 #include <limits.h>
 #include <stdint.h>
 #include <stdlib.h>
@@ -109,6 +110,8 @@ static void gost_setup
 	unsigned int i;
 	unsigned int j;
 
+	assert(!(s->r & 1) && s->r >= ((key_len + 3) >> 2) << 1);
+
 	for(i = 0; i < (key_len + 3) >> 2; i++)
 		s->k[i] = 0;
 
diff --git a/lib/block/khazad.c b/lib/block/khazad.c
index 5189f88..dde0696 100644
--- a/lib/block/khazad.c
+++ b/lib/block/khazad.c
@@ -13,6 +13,7 @@
  * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
  */
 
+#include <assert.h>
 #include <stdint.h>
 #include <stdlib.h>
 
@@ -716,6 +717,8 @@ static kripto_block *khazad_create
 
 	if(!r) r = 8;
 
+	assert(r <= 8);
+
 	s = (kripto_block *)malloc(sizeof(kripto_block) + ((r + 1) << 4));
 	if(!s) return 0;
 
diff --git a/lib/block/lea.c b/lib/block/lea.c
index 498760d..941c4be 100644
--- a/lib/block/lea.c
+++ b/lib/block/lea.c
@@ -13,6 +13,7 @@
  * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
  */
 
+#include <assert.h>
 #include <limits.h>
 #include <stdint.h>
 #include <stddef.h>
@@ -216,6 +217,8 @@ static kripto_block *lea_create
 		else r = 24;
 	}
 
+	assert(!(r & 3));
+
 	/* the size of the key schedule must not overflow */
 	if(r > UINT_MAX >> 6) return 0;
 
diff --git a/lib/block/noekeon.c b/lib/block/noekeon.c
index 231a2e6..b545797 100644
--- a/lib/block/noekeon.c
+++ b/lib/block/noekeon.c
@@ -13,6 +13,7 @@
  * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
  */
 
+#include <assert.h>
 #include <stdint.h>
 #include <stdlib.h>
 #include <limits.h>
@@ -162,6 +163,7 @@ static void noekeon_setup
 	uint32_t T;
 
 	if(!s->rounds) s->rounds = 16;
+	assert(s->rounds <= 33);
 
 	/* direct mode */
 	s->k[0] = s->k[1] = s->k[2] = s->k[3] = 0;
diff --git a/lib/block/serpent.c b/lib/block/serpent.c
index 8094241..6f0f86d 100644
--- a/lib/block/serpent.c
+++ b/lib/block/serpent.c
@@ -15,6 +15,7 @@
 
 /* The S-box functions by Dag Arne Osvik */
 
+#include <assert.h>
 #include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
@@ -677,6 +678,8 @@ static kripto_block *serpent_create
 
 	if(!r) r = 32;
 
+	assert(!(r & 7));
+
 	/* the size of the key schedule must not overflow */
 	if(r > UINT_MAX >> 5) return 0;
 
diff --git a/lib/block/shacal2.c b/lib/block/shacal2.c
index 6bd6b51..366b4e2 100644
--- a/lib/block/shacal2.c
+++ b/lib/block/shacal2.c
@@ -199,10 +199,10 @@ static kripto_block *shacal2_create
 	unsigned int key_len
 )
 {
-	assert(r < 128);
-
 	if(!r) r = 64;
 
+	assert(r >= 16 && !(r & 7) && r < 128);
+
 	kripto_block *s = (kripto_block *)malloc(sizeof(kripto_block) + (r << 2));
 	if(!s) return 0;
 
diff --git a/lib/block/simon128.c b/lib/block/simon128.c
index 176a86d..8e1c905 100644
--- a/lib/block/simon128.c
+++ b/lib/block/simon128.c
@@ -13,6 +13,7 @@
  * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
  */
 
+#include <assert.h>
 #include <limits.h>
 #include <stdint.h>
 #include <stdlib.h>
@@ -109,6 +110,8 @@ static void simon128_setup
 	unsigned int m = (len + 7) >> 3;
 	if(m < 2) m = 2;
 
+	assert(s->rounds >= m);
+
 	for(unsigned int i = 0; i < m; i++)
 		s->k[i] = 0;
 
diff --git a/lib/block/simon32.c b/lib/block/simon32.c
index 12fdf65..252616a 100644
--- a/lib/block/simon32.c
+++ b/lib/block/simon32.c
@@ -13,6 +13,7 @@
  * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
  */
 
+#include <assert.h>
 #include <limits.h>
 #include <stdint.h>
 #include <stdlib.h>
@@ -100,6 +101,8 @@ static void simon32_setup
 {
 	uint16_t t;
 
+	assert(s->rounds >= 4);
+
 	s->k[3] = s->k[2] = s->k[1] = s->k[0] = 0;
     LOAD16L_ARRAY(key, s->k, len);
 
diff --git a/lib/block/simon64.c b/lib/block/simon64.c
index b44000c..0bb3936 100644
--- a/lib/block/simon64.c
+++ b/lib/block/simon64.c
@@ -13,6 +13,7 @@
  * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
  */
 
+#include <assert.h>
 #include <limits.h>
 #include <stdint.h>
 #include <stdlib.h>
@@ -108,6 +109,8 @@ static void simon64_setup
 	unsigned int m = (len + 3) >> 2;
 	if(m < 3) m = 3;
 
+	assert(s->rounds >= m);
+
 	for(unsigned int i = 0; i < m; i++)
 		s->k[i] = 0;
 
diff --git a/lib/block/sm4.c b/lib/block/sm4.c
index 079b9db..e110fad 100644
--- a/lib/block/sm4.c
+++ b/lib/block/sm4.c
@@ -13,6 +13,7 @@
  * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
  */
 
+#include <assert.h>
 #include <stdint.h>
 #include <stddef.h>
 #include <stdlib.h>
@@ -193,6 +194,8 @@ static kripto_block *sm4_create
 {
 	if(!r) r = 32;
 
+	assert(!(r & 3) && r <= 32);
+
 	kripto_block *s = (kripto_block *)malloc(sizeof(kripto_block) + (r << 2));
 	if(!s) return 0;
 
diff --git a/lib/hash/keccak1600.c b/lib/hash/keccak1600.c
index 6c6b5e2..86fc5e7 100644
--- a/lib/hash/keccak1600.c
+++ b/lib/hash/keccak1600.c
@@ -13,6 +13,7 @@
  * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
  */
 
+#include <assert.h>
 #include <stdint.h>
 #include <stddef.h>
 #include <stdlib.h>
@@ -310,6 +311,7 @@ static kripto_hash *keccak1600_recreate
 
 	s->r = r;
 	if(!s->r) s->r = 24;
+	assert(s->r <= 48);
 
 	s->rate = 200 - (out_len << 1);
 
diff --git a/lib/hash/keccak800.c b/lib/hash/keccak800.c
index 2be208e..4074d3a 100644
--- a/lib/hash/keccak800.c
+++ b/lib/hash/keccak800.c
@@ -13,6 +13,7 @@
  * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
  */
 
+#include <assert.h>
 #include <stdint.h>
 #include <stddef.h>
 #include <stdlib.h>
@@ -295,6 +296,7 @@ static kripto_hash *keccak800_recreate
 
 	s->r = r;
 	if(!s->r) s->r = 22;
+	assert(s->r <= 40);
 
 	s->rate = 100 - (out_len << 1);
 
diff --git a/lib/hash/sha2_256.c b/lib/hash/sha2_256.c
index 9eea5fb..2d3cb95 100644
--- a/lib/hash/sha2_256.c
+++ b/lib/hash/sha2_256.c
@@ -89,6 +89,7 @@ static kripto_hash *sha2_256_recreate
 
 	s->r = r;
 	if(!s->r) s->r = 64;
+	assert(s->r <= 128);
 
 	if(out_len > 28)
 	{
diff --git a/lib/hash/sha2_512.c b/lib/hash/sha2_512.c
index 9ffd58c..52847a6 100644
--- a/lib/hash/sha2_512.c
+++ b/lib/hash/sha2_512.c
@@ -137,6 +137,7 @@ static kripto_hash *sha2_512_recreate
 
 	s->r = r;
 	if(!s->r) s->r = 80;
+	assert(s->r <= 160);
 
 	if(out_len > 48)
 	{
-- 
2.43.0

