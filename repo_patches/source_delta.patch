From e09366a459a3eeafd24f6ca738c12f3ce48b8af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:33 +0000
Subject: [PATCH 01/28] fix: do not read past the input of a truncated LZMA
 chunk

---
 lzma2_dec.c | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/lzma2_dec.c b/lzma2_dec.c
index 80bfcd7..785add3 100644
--- a/lzma2_dec.c
+++ b/lzma2_dec.c
@@ -862,21 +862,34 @@ static size_t LZMA_decodeToDic(LZMA2_DCtx *const p, size_t const dic_limit, cons
         if (p->need_init_state)
             LZMA_initStateReal(p);
 
-        const BYTE *buf_limit;
-        if (finish_mode == LZMA_FINISH_END) {
-            buf_limit = src + in_size;
+        size_t processed;
+        if (in_size > LZMA_REQUIRED_INPUT_MAX) {
+            p->buf = src;
+
+            CHECK_F(LZMA_decodeReal2(p, dic_limit, src + in_size - LZMA_REQUIRED_INPUT_MAX));
+
+            processed = (size_t)(p->buf - src);
         }
         else {
-            if (in_size <= LZMA_REQUIRED_INPUT_MAX) {
+            if (finish_mode != LZMA_FINISH_END) {
                 return LZMA_STATUS_NEEDS_MORE_INPUT;
             }
-            buf_limit = src + in_size - LZMA_REQUIRED_INPUT_MAX;
-        }
-        p->buf = src;
+            /* The decoder can read up to LZMA_REQUIRED_INPUT_MAX bytes beyond the limit.
+             * Finish from a padded copy so a truncated chunk can't cause a read past the end of src. */
+            BYTE tail[LZMA_REQUIRED_INPUT_MAX * 2];
+            memcpy(tail, src, in_size);
+            memset(tail + in_size, 0, sizeof(tail) - in_size);
+            p->buf = tail;
 
-        CHECK_F(LZMA_decodeReal2(p, dic_limit, buf_limit));
+            size_t const res = LZMA_decodeReal2(p, dic_limit, tail + in_size);
 
-        size_t const processed = (size_t)(p->buf - src);
+            processed = (size_t)(p->buf - tail);
+            p->buf = src;
+            CHECK_F(res);
+
+            if (processed > in_size)
+                return FL2_ERROR(corruption_detected);
+        }
         (*src_len) += processed;
         src += processed;
         in_size -= processed;
-- 
2.43.0


From 80ca24f280336806249796cc447d305735854537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:33 +0000
Subject: [PATCH 02/28] fix: reject an LZMA chunk without properties when none
 have been set

---
 lzma2_dec.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lzma2_dec.c b/lzma2_dec.c
index 785add3..a755cc5 100644
--- a/lzma2_dec.c
+++ b/lzma2_dec.c
@@ -971,7 +971,7 @@ size_t LZMA2_initDecoder(LZMA2_DCtx *const p, BYTE const dict_prop, BYTE *const
     p->dic_buf_size = dic_buf_size;
     p->prop.lc = 3;
     p->prop.lp = 0;
-    p->prop.lc = 2;
+    p->prop.pb = 2;
     p->prop.dic_size = (U32)dict_size;
 
     p->state2 = LZMA2_STATE_CONTROL;
@@ -1074,12 +1074,14 @@ static size_t LZMA2_decodeChunkToDic(LZMA2_DCtx *const p, size_t const dic_limit
             unsigned const mode = LZMA2_GET_LZMA_MODE(p->control);
             BYTE const init_dic = (mode == 3);
             BYTE const init_state = (mode != 0);
-            if ((!init_dic && p->need_init_dic) || (!init_state && p->need_init_state2))
+            if ((!init_dic && p->need_init_dic) || (!init_state && p->need_init_state2)
+                || (!LZMA2_IS_THERE_PROP(mode) && p->need_init_prop))
                 return FL2_ERROR(corruption_detected);
 
             LZMA_initDicAndState(p, init_dic, init_state);
             p->need_init_dic = 0;
             p->need_init_state2 = 0;
+            p->need_init_prop = 0;
         }
     }
     if (p->state2 == LZMA2_STATE_DATA) {
-- 
2.43.0


From d485893c00e408c3a01b5606c750a726935f04e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:33 +0000
Subject: [PATCH 03/28] fix: treat leftover packed data in a finished LZMA
 chunk as corruption

---
 lzma2_dec.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lzma2_dec.c b/lzma2_dec.c
index a755cc5..d110bc5 100644
--- a/lzma2_dec.c
+++ b/lzma2_dec.c
@@ -1130,8 +1130,8 @@ static size_t LZMA2_decodeChunkToDic(LZMA2_DCtx *const p, size_t const dic_limit
             if (FL2_isError(res))
                 return res;
 
-            /* error if decoder not finished but chunk output is complete */
-            if (res != LZMA_STATUS_FINISHED && p->unpack_size == 0)
+            /* error if decoder not finished or input is left over but chunk output is complete */
+            if ((res != LZMA_STATUS_FINISHED || p->pack_size != 0) && p->unpack_size == 0)
                 return FL2_ERROR(corruption_detected);
 
             /* Error conditions:
-- 
2.43.0


From 2831074e16c7e48d6f348c6da85e7c1303a5b5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:33 +0000
Subject: [PATCH 04/28] fix: dictionary size for prop 40 must not be an error
 code

---
 lzma2_dec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lzma2_dec.c b/lzma2_dec.c
index d110bc5..404b174 100644
--- a/lzma2_dec.c
+++ b/lzma2_dec.c
@@ -923,7 +923,7 @@ size_t LZMA2_getDictSizeFromProp(BYTE const dict_prop)
         return FL2_ERROR(corruption_detected);
 
     size_t const dict_size = (dict_prop == 40)
-        ? (size_t)-1
+        ? (size_t)(U32)-1
         : (((size_t)2 | (dict_prop & 1)) << (dict_prop / 2 + 11));
     return dict_size;
 }
-- 
2.43.0


From d624f36e596301a22fe84ce953c2759172806fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:15 +0000
Subject: [PATCH 05/28] fix: do not read the property byte from empty input in
 FL2_decompressDCtx

---
 fl2_decompress.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index 048b03c..cdc1f8d 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -320,6 +320,8 @@ FL2LIB_API size_t FL2LIB_CALL FL2_decompressDCtx(FL2_DCtx* dctx,
     const BYTE *srcBuf = src;
 
     if (prop == LZMA2_PROP_UNINITIALIZED) {
+        if (srcSize == 0)
+            return FL2_ERROR(srcSize_wrong);
         prop = *(const BYTE*)src;
         ++srcBuf;
         --srcSize;
-- 
2.43.0


From 2071b88c56133e9eb980d8d7722c3a130388e726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:15 +0000
Subject: [PATCH 06/28] fix: check for empty input and an invalid property byte
 at the start of a decompression stream

---
 fl2_decompress.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index cdc1f8d..290e9d2 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -1203,10 +1203,10 @@ static size_t FL2_decompressStream_blocking(FL2_DStream* fds, FL2_outBuffer* out
         || decmt
 #endif
         ) {
-        if (fds->stage == FL2DEC_STAGE_INIT) {
+        if (fds->stage == FL2DEC_STAGE_INIT && input->pos < input->size) {
             BYTE prop = ((const BYTE*)input->src)[input->pos];
             ++input->pos;
-            FL2_initDStream_prop(fds, prop);
+            CHECK_F(FL2_initDStream_prop(fds, prop));
             fds->stage = FL2DEC_STAGE_DECOMP;
         }
 #ifndef FL2_SINGLETHREAD
-- 
2.43.0


From f4c87ce18a1dc3cb81509fcc51ed6da633fc2a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:15 +0000
Subject: [PATCH 07/28] fix: initialize decoder 0 before starting the other
 decoder threads

---
 fl2_decompress.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index 290e9d2..931cb71 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -203,11 +203,13 @@ static size_t FL2_decompressCtxBlocksMt(FL2_DCtx* const dctx, const BYTE *const
     if (dstCapacity < blocks[nbThreads - 1].unpackPos + blocks[nbThreads - 1].unpackSize)
         return FL2_ERROR(dstSize_tooSmall);
 
+    /* Must not return while the other threads are running */
+    CHECK_F(LZMA2_initDecoder(blocks[0].dec, prop, dst + blocks[0].unpackPos, blocks[0].unpackSize));
+
     /* Decompress thread 1..n */
     FL2POOL_addRange(dctx->factory, FL2_decompressCtxBlock, blocks, 1, nbThreads);
 
     /* Decompress thread 0 */
-    CHECK_F(LZMA2_initDecoder(blocks[0].dec, prop, dst + blocks[0].unpackPos, blocks[0].unpackSize));
     FL2_decompressCtxBlock(blocks, 0);
 
     FL2POOL_waitAll(dctx->factory, 0);
-- 
2.43.0


From b466481cb7b35a591055333ce5f683b1cd7d38a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:15 +0000
Subject: [PATCH 08/28] fix: NULL dereference when canceling a single-threaded
 decompression stream which has a timeout

---
 fl2_decompress.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index 931cb71..4ae84b7 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -1144,11 +1144,13 @@ FL2LIB_API void FL2LIB_CALL FL2_cancelDStream(FL2_DStream *fds)
 {
 #ifndef FL2_SINGLETHREAD
     if (fds->decompressThread != NULL) {
-        fds->decmt->canceled = 1;
+        if (fds->decmt != NULL)
+            fds->decmt->canceled = 1;
 
         FL2POOL_waitAll(fds->decompressThread, 0);
 
-        fds->decmt->canceled = 0;
+        if (fds->decmt != NULL)
+            fds->decmt->canceled = 0;
     }
     FL2_lzma2DecMt_cleanup(fds->decmt);
 #endif
-- 
2.43.0


From 98c33981bda779a704e5a755d8b86a791a29e819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:15 +0000
Subject: [PATCH 09/28] fix: deadlock when a decompression stream with a
 timeout makes no progress

---
 fl2_decompress.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index 4ae84b7..1efb895 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -1257,7 +1257,10 @@ static size_t FL2_decompressStream_blocking(FL2_DStream* fds, FL2_outBuffer* out
         /* No progress was made */
         ++fds->loopCount;
         if (fds->loopCount > 2) {
-            FL2_cancelDStream(fds);
+#ifndef FL2_SINGLETHREAD
+            /* This can be running in decompressThread so it must not wait for it */
+            FL2_lzma2DecMt_cleanup(decmt);
+#endif
             return FL2_ERROR(buffer);
         }
     }
-- 
2.43.0


From f73743456fac2e19ffead40c26483ce7f766a8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:15 +0000
Subject: [PATCH 10/28] fix: end the decompression thread before freeing the
 decoder in FL2_freeDStream

---
 fl2_decompress.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index 1efb895..b5c95d5 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -1073,11 +1073,12 @@ FL2LIB_API size_t FL2LIB_CALL FL2_freeDStream(FL2_DStream* fds)
 {
     if (fds != NULL) {
         DEBUGLOG(3, "FL2_freeDStream");
-        LZMA_destructDCtx(&fds->dec);
 #ifndef FL2_SINGLETHREAD
+        /* Any decompression in progress must end before its objects are freed */
         FL2POOL_free(fds->decompressThread);
         FL2_lzma2DecMt_free(fds->decmt);
 #endif
+        LZMA_destructDCtx(&fds->dec);
 #ifndef NO_XXHASH
         XXH32_freeState(fds->xxh);
 #endif
-- 
2.43.0


From 664de8d3e350a593a1ead954d2a34e92f484ec8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:03 +0000
Subject: [PATCH 11/28] fix: FL2POOL_waitAll must hold the mutex when it tests
 for completion

---
 fl2_pool.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fl2_pool.c b/fl2_pool.c
index 8f90b44..5b0f51e 100644
--- a/fl2_pool.c
+++ b/fl2_pool.c
@@ -174,7 +174,7 @@ void FL2POOL_add(void* ctxVoid, FL2POOL_function function, void *opaque, ptrdiff
 int FL2POOL_waitAll(void *ctxVoid, unsigned timeout)
 {
     FL2POOL_ctx* const ctx = (FL2POOL_ctx*)ctxVoid;
-    if (!ctx || (!ctx->numThreadsBusy && ctx->queueIndex >= ctx->queueEnd) || ctx->shutdown) { return 0; }
+    if (!ctx) { return 0; }
 
     FL2_pthread_mutex_lock(&ctx->queueMutex);
     /* Need to test for ctx->queueIndex < ctx->queueEnd in case not all jobs have started */
@@ -186,8 +186,9 @@ int FL2POOL_waitAll(void *ctxVoid, unsigned timeout)
         while ((ctx->numThreadsBusy || ctx->queueIndex < ctx->queueEnd) && !ctx->shutdown)
             FL2_pthread_cond_wait(&ctx->busyCond, &ctx->queueMutex);
     }
+    int const busy = (ctx->numThreadsBusy || ctx->queueIndex < ctx->queueEnd) && !ctx->shutdown;
     FL2_pthread_mutex_unlock(&ctx->queueMutex);
-    return ctx->numThreadsBusy && !ctx->shutdown;
+    return busy;
 }
 
 size_t FL2POOL_threadsBusy(void * ctx)
-- 
2.43.0


From 33f48f1b6c7f28049569da4a52b87504e2ce9eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:03 +0000
Subject: [PATCH 12/28] fix: dangling input buffer reference after a
 decompression stream error or cancel

---
 fl2_decompress.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index b5c95d5..8b3ce63 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -580,6 +580,12 @@ static void FL2_lzma2DecMt_cleanup(FL2_decMt *const decmt)
     if (decmt) {
         FL2_freeOutputBuffers(decmt);
         LZMA2_freeExtraInbufNodes(decmt);
+        /* Block 0 must not refer to a freed node */
+        decmt->threads[0].inBlock.first = decmt->head;
+        decmt->threads[0].inBlock.last = decmt->head;
+        decmt->threads[0].inBlock.startPos = 0;
+        decmt->threads[0].inBlock.endPos = 0;
+        decmt->threads[0].inBlock.unpackSize = 0;
     }
 }
 
-- 
2.43.0


From 968cf3baf68821b8981865e5c98779d8433f3dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:03 +0000
Subject: [PATCH 13/28] fix: memory accounting of the multithreaded stream
 decoder after failed allocations and reinitialization

---
 fl2_decompress.c | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index 8b3ce63..a20ee69 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -606,7 +606,6 @@ static void FL2_lzma2DecMt_init(FL2_decMt *const decmt)
         decmt->failState = 0;
         decmt->isFinal = 0;
         decmt->canceled = 0;
-        decmt->memTotal = 0;
         FL2_freeOutputBuffers(decmt);
         LZMA2_freeExtraInbufNodes(decmt);
         decmt->threads[0].inBlock.first = decmt->head;
@@ -634,12 +633,12 @@ static int FL2_lzma2DecMt_initProp(FL2_decMt *const decmt, BYTE prop)
 static FL2_decInbuf * FL2_createInbufNode(FL2_decMt *const decmt, FL2_decInbuf *const prev)
 {
     decmt->memTotal += sizeof(FL2_decInbuf) + LZMA2_MT_INPUT_SIZE - 1;
-    if (decmt->memTotal > decmt->memLimit)
-        return NULL;
-
-    FL2_decInbuf *const node = malloc(sizeof(FL2_decInbuf) + LZMA2_MT_INPUT_SIZE - 1);
-    if (node == NULL)
+    FL2_decInbuf *const node = (decmt->memTotal > decmt->memLimit) ? NULL
+        : malloc(sizeof(FL2_decInbuf) + LZMA2_MT_INPUT_SIZE - 1);
+    if (node == NULL) {
+        decmt->memTotal -= sizeof(FL2_decInbuf) + LZMA2_MT_INPUT_SIZE - 1;
         return NULL;
+    }
 
     node->next = NULL;
     node->length = 0;
@@ -856,13 +855,12 @@ static size_t FL2_handleFinalChunkMt(FL2_decMt *const decmt, size_t res)
 
     done->bufSize = done->inBlock.unpackSize;
     decmt->memTotal += done->bufSize;
-    if (decmt->memTotal > decmt->memLimit)
-        return FL2_ERROR(memory_allocation);
-
     /* Decompressed data will be stored in outBuf */
-    done->outBuf = malloc(done->bufSize);
-    if (done->outBuf == NULL)
+    done->outBuf = (decmt->memTotal > decmt->memLimit) ? NULL : malloc(done->bufSize);
+    if (done->outBuf == NULL) {
+        decmt->memTotal -= done->bufSize;
         return FL2_ERROR(memory_allocation);
+    }
 
     decmt->isFinal = (res == CHUNK_FINAL);
 
-- 
2.43.0


From 8b50b44ac3500175a010197f8fe2ff49d2b0f51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:49 +0000
Subject: [PATCH 14/28] fix: leak when the dual buffer compression thread
 cannot be created

---
 fl2_compress.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index 0ffeab0..70e1ab8 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -164,8 +164,10 @@ static FL2_CCtx* FL2_createCCtx_internal(unsigned nbThreads, int const dualBuffe
     }
     if (dualBuffer) {
       cctx->compressThread = FL2POOL_create(1);
-      if (cctx->compressThread == NULL)
+      if (cctx->compressThread == NULL) {
+        FL2_freeCCtx(cctx);
         return NULL;
+      }
     }
 #endif
 
-- 
2.43.0


From 77e534b1df402032c5a39c951c1279a97d449555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:49 +0000
Subject: [PATCH 15/28] fix: end the compression threads before freeing the
 objects they use in FL2_freeCCtx

---
 fl2_compress.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index 70e1ab8..d19b0dd 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -205,17 +205,19 @@ FL2LIB_API void FL2LIB_CALL FL2_freeCCtx(FL2_CCtx* cctx)
 
     DEBUGLOG(3, "FL2_freeCCtx : %u threads", cctx->jobCount);
 
+#ifndef FL2_SINGLETHREAD
+    /* Any compression in progress must end before its objects are freed.
+     * compressThread uses factory so it must end first. */
+    FL2POOL_free(cctx->compressThread);
+    FL2POOL_free(cctx->factory);
+#endif
+
     DICT_destruct(&cctx->buf);
 
     for (unsigned u = 0; u < cctx->jobCount; ++u) {
         LZMA2_freeECtx(cctx->jobs[u].enc);
     }
 
-#ifndef FL2_SINGLETHREAD
-    FL2POOL_free(cctx->factory);
-    FL2POOL_free(cctx->compressThread);
-#endif
-
     RMF_freeMatchTable(cctx->matchTable);
     free(cctx);
 }
-- 
2.43.0


From e49b8fc5cebb7b00ccb1acad72832f70412f36e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:49 +0000
Subject: [PATCH 16/28] fix: empty input wrote a property byte, possibly beyond
 dstCapacity, when properties are omitted

---
 fl2_compress.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index d19b0dd..9cf1de5 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -576,7 +576,7 @@ FL2LIB_API size_t FL2LIB_CALL FL2_compressCCtx(FL2_CCtx* cctx,
     if(dstBuf >= end)
         return FL2_ERROR(dstSize_tooSmall);
 
-    if (cSize == 0)
+    if (cSize == 0 && !cctx->params.omitProp)
         *dstBuf++ = FL2_getProp(cctx, 0);
 
     *dstBuf++ = LZMA2_END_MARKER;
-- 
2.43.0


From c61f882a6cb5641369aef4fd2b569b87f49a8f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:49 +0000
Subject: [PATCH 17/28] fix: parameters stayed locked after FL2_compressCCtx
 failed

---
 fl2_compress.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index 9cf1de5..dded4e8 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -566,6 +566,9 @@ FL2LIB_API size_t FL2LIB_CALL FL2_compressCCtx(FL2_CCtx* cctx,
 
     size_t const cSize = FL2_compressBuffer(cctx, src, srcSize, dst, dstCapacity);
 
+    /* Unlock the parameters even if an error occurred */
+    FL2_endFrame(cctx);
+
     if (FL2_isError(cSize))
         return cSize;
 
@@ -592,8 +595,6 @@ FL2LIB_API size_t FL2LIB_CALL FL2_compressCCtx(FL2_CCtx* cctx,
         dstBuf += XXHASH_SIZEOF;
     }
 #endif
-    
-    FL2_endFrame(cctx);
 
     return dstBuf - (BYTE*)dst;
 }
-- 
2.43.0


From a57838b026e523ab28f8c256dc6295a2bd663896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:49 +0000
Subject: [PATCH 18/28] fix: starting a new frame must end the previous one and
 report an invalid compression level

---
 fl2_compress.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index dded4e8..c235fc7 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -549,11 +549,6 @@ FL2LIB_API size_t FL2LIB_CALL FL2_compressCCtx(FL2_CCtx* cctx,
     if (dstCapacity < 2U - cctx->params.omitProp) /* empty LZMA2 stream is byte sequence {0, 0} */
         return FL2_ERROR(dstSize_tooSmall);
 
-    if (compressionLevel > 0)
-        FL2_CCtx_setParameter(cctx, FL2_p_compressionLevel, compressionLevel);
-
-    DEBUGLOG(4, "FL2_compressCCtx : level %u, %u src => %u avail", cctx->params.compressionLevel, (U32)srcSize, (U32)dstCapacity);
-
 #ifndef FL2_SINGLETHREAD
     /* No async compression for in-memory function */
     FL2POOL_free(cctx->compressThread);
@@ -561,6 +556,14 @@ FL2LIB_API size_t FL2LIB_CALL FL2_compressCCtx(FL2_CCtx* cctx,
     cctx->timeout = 0;
 #endif
 
+    /* An unfinished frame is abandoned */
+    cctx->lockParams = 0;
+
+    if (compressionLevel > 0)
+        CHECK_F(FL2_CCtx_setParameter(cctx, FL2_p_compressionLevel, compressionLevel));
+
+    DEBUGLOG(4, "FL2_compressCCtx : level %u, %u src => %u avail", cctx->params.compressionLevel, (U32)srcSize, (U32)dstCapacity);
+
     FL2_preBeginFrame(cctx, srcSize);
     CHECK_F(FL2_beginFrame(cctx, srcSize));
 
@@ -864,8 +867,14 @@ FL2LIB_API size_t FL2LIB_CALL FL2_initCStream(FL2_CStream* fcs, int compressionL
     fcs->wroteProp = 0;
     fcs->loopCount = 0;
 
+#ifndef FL2_SINGLETHREAD
+    /* Compression is still in progress if the previous frame was abandoned */
+    FL2POOL_waitAll(fcs->compressThread, 0);
+#endif
+    fcs->lockParams = 0;
+
     if(compressionLevel > 0)
-        FL2_CCtx_setParameter(fcs, FL2_p_compressionLevel, compressionLevel);
+        CHECK_F(FL2_CCtx_setParameter(fcs, FL2_p_compressionLevel, compressionLevel));
 
     DICT_buffer *const buf = &fcs->buf;
     size_t const dictSize = fcs->params.rParams.dictionary_size;
-- 
2.43.0


From ae8a9a8a2b2f387119492677d3731138f7fb6482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:49 +0000
Subject: [PATCH 19/28] fix: FL2_estimateCStreamSize read outside the level
 table

---
 fl2_compress.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fl2_compress.c b/fl2_compress.c
index c235fc7..2b808cc 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -1307,6 +1307,11 @@ FL2LIB_API size_t FL2LIB_CALL FL2_estimateCCtxSize_usingCCtx(const FL2_CCtx * cc
 
 FL2LIB_API size_t FL2LIB_CALL FL2_estimateCStreamSize(int compressionLevel, unsigned nbThreads, int dualBuffer)
 {
+    if (compressionLevel == 0)
+        compressionLevel = FL2_CLEVEL_DEFAULT;
+
+    CLAMPCHECK(compressionLevel, 1, FL2_MAX_CLEVEL);
+
     return FL2_estimateCCtxSize(compressionLevel, nbThreads)
         + (FL2_defaultCParameters[compressionLevel].dictionarySize << (dualBuffer != 0));
 }
-- 
2.43.0


From 12be5653834234ec298242850ce7118219d3e112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:49 +0000
Subject: [PATCH 20/28] fix: report allocation failure of the match table
 builders

---
 fl2_compress.c | 2 +-
 radix_mf.c     | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index 2b808cc..cf5e47d 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -457,7 +457,7 @@ static size_t FL2_beginFrame(FL2_CCtx* const cctx, size_t const dictReduce)
     }
     else {
         DEBUGLOG(5, "Have compatible match table");
-        RMF_applyParameters(cctx->matchTable, &cctx->params.rParams, dictReduce);
+        CHECK_F(RMF_applyParameters(cctx->matchTable, &cctx->params.rParams, dictReduce));
     }
 
     cctx->dictMax = 0;
diff --git a/radix_mf.c b/radix_mf.c
index 346f894..78da7e7 100644
--- a/radix_mf.c
+++ b/radix_mf.c
@@ -228,7 +228,10 @@ FL2_matchTable* RMF_createMatchTable(const RMF_parameters* const p, size_t const
     tbl->unreduced_dict_size = unreduced_dict_size;
     tbl->builders = NULL;
 
-    RMF_applyParameters_internal(tbl, &params);
+    if (FL2_isError(RMF_applyParameters_internal(tbl, &params))) {
+        RMF_freeMatchTable(tbl);
+        return NULL;
+    }
 
     RMF_initListHeads(tbl);
 
-- 
2.43.0


From 95234fdd942bcf5484f21ad8863a807350b784a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:49 +0000
Subject: [PATCH 21/28] fix: FL2_updateDictionary must report a missing
 initialization

---
 fl2_compress.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fl2_compress.c b/fl2_compress.c
index cf5e47d..5611b8c 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -1068,6 +1068,9 @@ FL2LIB_API size_t FL2LIB_CALL FL2_getDictionaryBuffer(FL2_CStream * fcs, FL2_dic
 
 FL2LIB_API size_t FL2LIB_CALL FL2_updateDictionary(FL2_CStream * fcs, size_t addedSize)
 {
+    if (!fcs->lockParams)
+        return FL2_ERROR(init_missing);
+
     if (DICT_update(&fcs->buf, addedSize))
         CHECK_F(FL2_compressStream_internal(fcs, 0));
 
-- 
2.43.0


From 21feb536c942e09b435cfe3da3162fbb316d1a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:49 +0000
Subject: [PATCH 22/28] fix: NULL dereference in FL2_getCStreamProgress after
 initialization failed

---
 fl2_compress.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index 5611b8c..7e15a62 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -1102,7 +1102,7 @@ FL2LIB_API unsigned long long FL2LIB_CALL FL2_getCStreamProgress(const FL2_CStre
 
     U64 const encodeSize = fcs->curBlock.end - fcs->curBlock.start;
 
-    if (fcs->progressIn == 0 && fcs->curBlock.end != 0)
+    if (fcs->progressIn == 0 && fcs->curBlock.end != 0 && fcs->matchTable != NULL)
         return fcs->streamTotal + ((fcs->matchTable->progress * encodeSize / fcs->curBlock.end * fcs->rmfWeight) >> 4);
 
     return fcs->streamTotal + ((fcs->rmfWeight * encodeSize) >> 4) + ((fcs->progressIn * fcs->encWeight) >> 4);
-- 
2.43.0


From ea29b145d2b03641409137e5e0d1038058b337cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:13 +0000
Subject: [PATCH 23/28] fix: NULL dereference in the encoder after allocation
 of the hash chain failed

---
 lzma2_enc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lzma2_enc.c b/lzma2_enc.c
index da2e09b..5d92a43 100644
--- a/lzma2_enc.c
+++ b/lzma2_enc.c
@@ -852,8 +852,10 @@ static int LZMA_hashCreate(LZMA2_ECtx *const enc, unsigned const dictionary_bits
     enc->hash_alloc_3 = (ptrdiff_t)1 << dictionary_bits_3;
     enc->hash_buf = malloc(sizeof(LZMA2_hc3) + (enc->hash_alloc_3 - 1) * sizeof(S32));
 
-    if (enc->hash_buf == NULL)
+    if (enc->hash_buf == NULL) {
+        enc->hash_alloc_3 = 0;
         return 1;
+    }
 
     LZMA_hashReset(enc, dictionary_bits_3);
 
-- 
2.43.0


From f48de94071feed517e1327e174ae941efc08bb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:28 +0000
Subject: [PATCH 24/28] fix: NULL dereference reading pending stream output
 after initialization failed

---
 fl2_compress.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fl2_compress.c b/fl2_compress.c
index 7e15a62..397f693 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -442,6 +442,9 @@ static void FL2_preBeginFrame(FL2_CCtx* const cctx, size_t const dictReduce)
     if (cctx->matchTable && !RMF_compatibleParameters(cctx->matchTable, &cctx->params.rParams, dictReduce)) {
         RMF_freeMatchTable(cctx->matchTable);
         cctx->matchTable = NULL;
+        /* Output of a previous frame which was not read is lost */
+        cctx->outThread = 0;
+        cctx->threadCount = 0;
     }
 }
 
-- 
2.43.0


From 7f4be0ea6e29d519f3c757727117c11678d1ae6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:55 +0000
Subject: [PATCH 25/28] fix: report an invalid dictionary property when an MT
 decoder stream is initialized

---
 fl2_decompress.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index a20ee69..76d5eff 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -621,8 +621,9 @@ static int FL2_lzma2DecMt_initProp(FL2_decMt *const decmt, BYTE prop)
     decmt->prop = prop;
     size_t const dictSize = LZMA2_getDictSizeFromProp(prop);
     /* Minimum memory is for two threads, one dict size per thread plus a minimal amount of
-     * compressed data for each. Compression to < 1/6 is uncommon. */
-    if (decmt->memLimit < (dictSize + dictSize / 6U) * 2U) {
+     * compressed data for each. Compression to < 1/6 is uncommon.
+     * The ST decoder init reports the error if the property is invalid. */
+    if (FL2_isError(dictSize) || decmt->memLimit < (dictSize + dictSize / 6U) * 2U) {
         DEBUGLOG(3, "Using ST decompression due to dict size %u, memory limit %u", (unsigned)dictSize, (unsigned)decmt->memLimit);
         decmt->failState = 1;
         return 1;
-- 
2.43.0


From 646d7d924c69f6cc1983d6fefcbe1d59ed2cfb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:40 +0000
Subject: [PATCH 26/28] fix: an empty dictionary buffer is not switched back to
 the one being compressed

---
 dict_buffer.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dict_buffer.c b/dict_buffer.c
index 06d9a4f..4d47c93 100644
--- a/dict_buffer.c
+++ b/dict_buffer.c
@@ -160,7 +160,8 @@ void DICT_getBlock(DICT_buffer * const buf, FL2_dataBlock * const block)
 /* Shift occurs when all is processed and end is beyond the overlap size */
 int DICT_needShift(DICT_buffer * const buf)
 {
-    if (buf->start < buf->end)
+    /* An empty buffer has been shifted already. Shifting again would switch back to the one in use. */
+    if (buf->start < buf->end || buf->end == 0)
         return 0;
     /* Reset the dict if the next compression cycle would exceed the reset interval */
     size_t overlap = (buf->total + buf->size - buf->overlap > buf->reset_interval) ? 0 : buf->overlap;
@@ -176,7 +177,7 @@ int DICT_async(const DICT_buffer * const buf)
  * if it exists */
 void DICT_shift(DICT_buffer * const buf)
 {
-    if (buf->start < buf->end)
+    if (buf->start < buf->end || buf->end == 0)
         return;
 
     size_t overlap = buf->overlap;
-- 
2.43.0


From f0cef5c1616e7f9c580bfed696ab3d6c57535e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:40 +0000
Subject: [PATCH 27/28] fix: MT stream decoder rewound input to before the
 position of the current call

When a chunk header with a dictionary reset was split over two calls, the
rewind moved the position of the second buffer below its value at entry, so
bytes which precede the data were decoded and a valid stream was rejected.
---
 fl2_decompress.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index 76d5eff..a0c7ab0 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -891,6 +891,8 @@ static size_t FL2_loadInputMt(FL2_decMt *const decmt, FL2_inBuffer* const input)
 {
     FL2_decBlock *inBlock = &decmt->threads[decmt->numThreads].inBlock;
     LZMA2_parseRes res = CHUNK_CONTINUE;
+    /* Bytes before this were read by an earlier call, and may be in a different caller buffer */
+    size_t const inStart = input->pos;
     /* Continue while input is available or the parse pos is not beyond the end */
     while (input->pos < input->size || inBlock->endPos < inBlock->last->length) {
         if (inBlock->endPos < inBlock->last->length) {
@@ -907,7 +909,7 @@ static size_t FL2_loadInputMt(FL2_decMt *const decmt, FL2_inBuffer* const input)
                 if (end != 0) {
                     inBlock = &decmt->threads[decmt->numThreads - 1].inBlock;
                     /* rewind input in case data beyond terminator was read. Required for xxhash and container formats */
-                    size_t back = MIN(input->pos, inBlock->last->length - inBlock->endPos);
+                    size_t back = MIN(input->pos - inStart, inBlock->last->length - inBlock->endPos);
                     input->pos -= back;
                     inBlock->last->length -= back;
                     return end;
@@ -920,7 +922,7 @@ static size_t FL2_loadInputMt(FL2_decMt *const decmt, FL2_inBuffer* const input)
             FL2_decInbuf *const next = FL2_createInbufNode(decmt, inBlock->last);
             if (next == NULL) {
                 if (inBlock->endPos < inBlock->last->length) {
-                    size_t back = MIN(input->pos, inBlock->last->length - inBlock->endPos);
+                    size_t back = MIN(input->pos - inStart, inBlock->last->length - inBlock->endPos);
                     input->pos -= back;
                     inBlock->last->length -= back;
                 }
-- 
2.43.0


From 6495dcaf23b5c9b496410f6cccf02e96080b95e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:22 +0000
Subject: [PATCH 28/28] fix: do not publish an intermediate CPU core count to
 other threads

---
 util.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/util.c b/util.c
index d646606..2859003 100644
--- a/util.c
+++ b/util.c
@@ -586,8 +586,9 @@ int UTIL_countPhysicalCores(void)
 
     if (numPhysicalCores != 0) return numPhysicalCores;
 
-    numPhysicalCores = (int)sysconf(_SC_NPROCESSORS_ONLN);
-    if (numPhysicalCores == -1) {
+    /* Other threads can call this at the same time so the static is set only once its value is final */
+    int const numLogicalCores = (int)sysconf(_SC_NPROCESSORS_ONLN);
+    if (numLogicalCores == -1) {
         /* value not queryable, fall back on 1 */
         return numPhysicalCores = 1;
     }
@@ -603,7 +604,7 @@ int UTIL_countPhysicalCores(void)
 
         if (cpuinfo == NULL) {
             /* fall back on the sysconf value */
-            return numPhysicalCores;
+            return numPhysicalCores = numLogicalCores;
         }
 
         /* assume the cpu cores/siblings values will be constant across all
@@ -638,7 +639,7 @@ int UTIL_countPhysicalCores(void)
         }
 failed:
         fclose(cpuinfo);
-        return numPhysicalCores = numPhysicalCores / ratio;
+        return numPhysicalCores = numLogicalCores / ratio;
     }
 }
 
-- 
2.43.0

