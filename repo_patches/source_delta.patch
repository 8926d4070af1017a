From 734eb90705ab6aa336b0d631dee1716766cbb12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:07 +0000
Subject: [PATCH 01/44] fix: do not release a null entry when a store cannot
 allocate

---
 src/pogocache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index bcf350f..9b1863d 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -1549,7 +1549,7 @@ static int storeop(const void *key, size_t keylen, const void *val,
     struct entry *entry = entry_new(key, keylen, val, vallen, expires,
         opts->flags, shard->cas, ctx);
     if (!entry) {
-        goto nomem;
+        return POGOCACHE_NOMEM;
     }
     entry_settime(entry, now);
     if (opts->lowmem && ctx->noevict) {
-- 
2.43.0


From a4f855ca8510ca34becce2d3c51b7da6cf4262fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:07 +0000
Subject: [PATCH 02/44] fix: keep the entry memory size in step with removed
 and updated entries

---
 src/pogocache.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index 9b1863d..0556ecf 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -1415,7 +1415,7 @@ static int loadop(const void *key, size_t keylen,
     entry_extract(entry, 0, 0, 0, &val, &vallen, &expires, &flags, &cas, ctx);
     if (!entry_alive_exp(expires, now)) {
         // Entry is no longer alive. Delete from map and notify the user.
-        delbkt(&shard->map, bidx);
+        delentry_at_bkt(&shard->map, bidx);
         notify(shardidx, NOTIFY_EXPIRED, 0, entry, now, ctx);
         entry_free(entry, ctx);
         return POGOCACHE_NOTFOUND;
@@ -1438,6 +1438,8 @@ static int loadop(const void *key, size_t keylen,
             }
             entry_settime(entry2, now);
             set_entry(bkt, entry2);
+            shard->map.entsize += entry_memsize(entry2);
+            shard->map.entsize -= entry_memsize(entry);
             notify(shardidx, NOTIFY_REPLACED, entry2, entry, now, ctx);
             entry_free(entry, ctx);
         }
@@ -1685,7 +1687,7 @@ static int iterop(struct shard *shard, int shardidx, int64_t now,
         struct entry *entry = get_entry(bkt);
         if (!entry_alive(entry, now)) {
             // Entry has expired
-            delbkt(&shard->map, i);
+            delentry_at_bkt(&shard->map, i);
             notify(shardidx, NOTIFY_EXPIRED, 0, entry, now, ctx);
             entry_free(entry, ctx);
             i--;
@@ -1707,7 +1709,7 @@ static int iterop(struct shard *shard, int shardidx, int64_t now,
         if (action != POGOCACHE_ITER_CONTINUE) {
             if (action&POGOCACHE_ITER_DELETE) {
                 // Delete entry at bucket
-                delbkt(&shard->map, i);
+                delentry_at_bkt(&shard->map, i);
                 notify(shardidx, NOTIFY_DELETED, 0, entry, now, ctx);
                 entry_free(entry, ctx);
                 i--;
@@ -1767,7 +1769,7 @@ static struct pogocache_entry *entryiter(struct shard *shard, int64_t now,
         struct entry *entry = get_entry(bkt);
         if (!entry_alive(entry, now)) {
             // Entry has expired
-            delbkt(&shard->map, i);
+            delentry_at_bkt(&shard->map, i);
             notify(shardidx, NOTIFY_EXPIRED, 0, entry, now, ctx);
             entry_free(entry, ctx);
             i--;
@@ -1923,7 +1925,7 @@ static int sweepop(struct shard *shard, int shardidx, int64_t now,
             continue;
         }
         // entry is no longer alive.
-        delbkt(&shard->map, i);
+        delentry_at_bkt(&shard->map, i);
         notify(shardidx, NOTIFY_EXPIRED, 0, entry, now, ctx);
         entry_free(entry, ctx);
         (*swept)++;
-- 
2.43.0


From b98c82a6cdc2ec6b37a8a2a0d06159044db976ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:07 +0000
Subject: [PATCH 03/44] fix: count only entries that were really stored in the
 total

---
 src/pogocache.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pogocache.c b/src/pogocache.c
index 0556ecf..97076b2 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -1500,6 +1500,8 @@ static int deleteop(const void *key, size_t keylen,
             bool ok = map_insert(&shard->map, entry, hash, &old, ctx);
             assert(ok);
             assert(!old);
+            // The entry was put back, it was already counted in the total.
+            shard->map.total--;
             return POGOCACHE_CANCELED;
         }
     }
@@ -1562,6 +1564,7 @@ static int storeop(const void *key, size_t keylen, const void *val,
     if (!map_insert(&shard->map, entry, hash, &old, ctx)) {
         goto nomem;
     }
+    bool grew = !old;
     if (old && !entry_alive(old, now)) {
         // There's an old entry, but it's no longer alive.
         // Notify the user, as if the entry was evicted through expiration.
@@ -1606,6 +1609,10 @@ static int storeop(const void *key, size_t keylen, const void *val,
         // Delete it and return early.
         struct entry *e = map_delete(&shard->map, key, keylen, hash, ctx);
         assert(e == entry);
+        if (grew) {
+            // The entry is not stored and does not count towards the total.
+            shard->map.total--;
+        }
         entry_free(entry, ctx);
         return POGOCACHE_NOTFOUND;
     }
-- 
2.43.0


From bb21e82c725c72b1d5853377945e1604d7ebd365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:07 +0000
Subject: [PATCH 04/44] fix: clear the buckets and not the table pointer when
 reusing a map

---
 src/pogocache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index 97076b2..0d23136 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -2011,7 +2011,7 @@ static int clearop(struct shard *shard, int shardidx, int64_t now,
                 }
             }
         }
-        memset(&shard->map.buckets, 0, 
+        memset(shard->map.buckets, 0, 
             sizeof(struct bucket)*shard->map.nbuckets);
         shard->map.count = 0;
         shard->map.entsize = 0;
-- 
2.43.0


From 68af6146818ec1a2d99a3212156ec39d3d2272b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:07 +0000
Subject: [PATCH 05/44] fix: do not deinit uninitialized shards when
 pogocache_new fails

---
 src/pogocache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index 0d23136..af3ff16 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -1225,7 +1225,7 @@ struct pogocache *pogocache_new(struct pogocache_opts *opts) {
     if (!cache) {
         return 0;
     }
-    memset(cache, 0, sizeof(struct pogocache));
+    memset(cache, 0, size);
     struct pgctx *ctx = &cache->ctx;
     opts_to_ctx(shards, opts, ctx);
     ctx->malloc = _malloc;
-- 
2.43.0


From d008b310f833875842cf55ca4877c0857284307f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:07 +0000
Subject: [PATCH 06/44] fix: keep using the batch for every shard of a
 multi-shard operation

---
 src/pogocache.c | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index af3ff16..b368809 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -1369,9 +1369,10 @@ static bool acquire_for_key(const char *key, size_t keylen, uint32_t *hash_out,
     int shardidx; \
     uint32_t hash; \
     struct shard *shard; \
+    struct pogocache *root = cache; \
     bool usebatch = acquire_for_key((key), (keylen), &hash, &shard, &shardidx, \
-        &cache); \
-    struct pgctx *ctx = &cache->ctx; \
+        &root); \
+    struct pgctx *ctx = &root->ctx; \
     (void)shardidx, (void)hash, (void)ctx; \
     rettype status = op; \
     if (!usebatch) { \
@@ -1383,8 +1384,9 @@ static bool acquire_for_key(const char *key, size_t keylen, uint32_t *hash_out,
 // Acquire a lock on the shard at index and execute the provided operation.
 #define ACQUIRE_FOR_SCAN_AND_EXECUTE(rettype, shardidx, op) ({ \
     struct shard *shard; \
-    bool usebatch = acquire_for_scan((shardidx), &shard, &cache); \
-    struct pgctx *ctx = &cache->ctx; \
+    struct pogocache *root = cache; \
+    bool usebatch = acquire_for_scan((shardidx), &shard, &root); \
+    struct pgctx *ctx = &root->ctx; \
     (void)ctx; \
     rettype status = op; \
     if (!usebatch) { \
@@ -1747,12 +1749,12 @@ int pogocache_iter(struct pogocache *cache, struct pogocache_iter_opts *opts) {
             return POGOCACHE_FINISHED;
         }
         return ACQUIRE_FOR_SCAN_AND_EXECUTE(int, opts->oneshardidx,
-            iterop(shard, opts->oneshardidx, now, opts, &cache->ctx)
+            iterop(shard, opts->oneshardidx, now, opts, ctx)
         );
     }
     for (int i = 0; i < nshards; i++) {
         int status = ACQUIRE_FOR_SCAN_AND_EXECUTE(int, i,
-            iterop(shard, i, now, opts, &cache->ctx)
+            iterop(shard, i, now, opts, ctx)
         );
         if (status != POGOCACHE_FINISHED) {
             return status;
@@ -1795,8 +1797,9 @@ struct pogocache_entry *pogocache_entry_iter(struct pogocache *cache,
 {
     assert(cursor);
     int64_t now = time > 0 ? time : getnow();
+    int nshards = pogocache_nshards(cache);
     int shardidx = (*cursor)>>32;
-    if (shardidx < 0 || shardidx > cache->ctx.nshards) {
+    if (shardidx < 0 || shardidx > nshards) {
         goto notfound;
     }
     int iter = (*cursor)&0xFFFFFFFF;
@@ -1814,7 +1817,7 @@ struct pogocache_entry *pogocache_entry_iter(struct pogocache *cache,
         }
         shardidx++;
         iter = 0;
-        if (shardidx == cache->ctx.nshards) {
+        if (shardidx == nshards) {
             goto notfound;
         }
     }
@@ -1960,7 +1963,7 @@ void pogocache_sweep(struct pogocache *cache, size_t *swept, size_t *kept,
         if (opts->oneshardidx >= 0 && opts->oneshardidx < nshards) {
             ACQUIRE_FOR_SCAN_AND_EXECUTE(int, opts->oneshardidx,
                 sweepop(shard, opts->oneshardidx, now, &sweptc, &keptc,
-                    &cache->ctx);
+                    ctx);
             );
         }
     } else {
@@ -1968,7 +1971,7 @@ void pogocache_sweep(struct pogocache *cache, size_t *swept, size_t *kept,
             size_t sweptc2 = 0;
             size_t keptc2 = 0;
             ACQUIRE_FOR_SCAN_AND_EXECUTE(int, i,
-                sweepop(shard, i, now, &sweptc2, &keptc2, &cache->ctx);
+                sweepop(shard, i, now, &sweptc2, &keptc2, ctx);
             );
             sweptc += sweptc2;
             keptc += keptc2;
@@ -2035,7 +2038,7 @@ static int clearop(struct shard *shard, int shardidx, int64_t now,
 static void aquireclearop(struct pogocache *cache, int shardidx, int64_t now, 
     bool deferfree)
 {
-    struct pgctx *ctx = &cache->ctx;
+    struct pgctx *ctx = &rootcache(cache)->ctx;
     int nbuckets = 0;
     struct bucket *buckets = 0;
     ACQUIRE_FOR_SCAN_AND_EXECUTE(int, shardidx,
@@ -2047,7 +2050,7 @@ static void aquireclearop(struct pogocache *cache, int shardidx, int64_t now,
                 entry_free(get_entry(&buckets[i]), ctx);
             }
         }
-        cache->ctx.free(buckets);
+        ctx->free(buckets);
     }
 }
 
@@ -2065,7 +2068,7 @@ void pogocache_clear(struct pogocache *cache, struct pogocache_clear_opts *opts)
         aquireclearop(cache, opts->oneshardidx, now, opts->deferfree);
         return;
     }
-    for (int i = 0; i < cache->ctx.nshards; i++) {
+    for (int i = 0; i < nshards; i++) {
         aquireclearop(cache, i, now, opts->deferfree);
     }
 }
@@ -2124,7 +2127,7 @@ void pogocache_entry_release(struct pogocache *cache,
     struct pogocache_entry *entry)
 {
     if (entry) {
-        entry_free((struct entry*)entry, &cache->ctx);
+        entry_free((struct entry*)entry, &rootcache(cache)->ctx);
     }
 }
 
@@ -2135,7 +2138,8 @@ const void *pogocache_entry_key(struct pogocache *cache,
     const void *key = 0;
     size_t keylen0 = 0;
     if (entry) {
-        key = entry_key((struct entry*)entry, &keylen0, buf, &cache->ctx);
+        key = entry_key((struct entry*)entry, &keylen0, buf, 
+            &rootcache(cache)->ctx);
     }
     if (keylen) {
         *keylen = keylen0;
@@ -2149,7 +2153,8 @@ const void *pogocache_entry_value(struct pogocache *cache,
     const void *value = 0;
     size_t valuelen0 = 0;
     if (entry) {
-        value = entry_value((struct entry*)entry, &valuelen0, &cache->ctx);
+        value = entry_value((struct entry*)entry, &valuelen0, 
+            &rootcache(cache)->ctx);
     }
     if (valuelen) {
         *valuelen = valuelen0;
-- 
2.43.0


From 203a0fe7f934d73af4075c02f71fabbb368cc006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:07 +0000
Subject: [PATCH 07/44] fix: reject a scan cursor that points one past the last
 shard

---
 src/pogocache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index b368809..d5420db 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -1799,7 +1799,7 @@ struct pogocache_entry *pogocache_entry_iter(struct pogocache *cache,
     int64_t now = time > 0 ? time : getnow();
     int nshards = pogocache_nshards(cache);
     int shardidx = (*cursor)>>32;
-    if (shardidx < 0 || shardidx > nshards) {
+    if (shardidx < 0 || shardidx >= nshards) {
         goto notfound;
     }
     int iter = (*cursor)&0xFFFFFFFF;
-- 
2.43.0


From 1d98179f9c23cffb83faa4b62b016bf1a1321307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:38 +0000
Subject: [PATCH 08/44] fix: memcache NOT_FOUND reply carried a stray NUL byte

---
 src/cmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmds.c b/src/cmds.c
index 8d83c2c..337f547 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -125,7 +125,7 @@ static void execSET(struct conn *conn, const char *cmdname,
             if (status == POGOCACHE_FOUND) {
                 conn_write_raw(conn, "EXISTS\r\n", 8);
             } else {
-                conn_write_raw(conn, "NOT_FOUND\r\n", 12);
+                conn_write_raw(conn, "NOT_FOUND\r\n", 11);
             }
         } else {
             conn_write_raw(conn, "STORED\r\n", 8);
-- 
2.43.0


From ec6d8b68792c378ada055f92f6f0a3bcf9eb10e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:38 +0000
Subject: [PATCH 09/44] fix: MONITOR wrote a second reply when its thread could
 not be started

---
 src/cmds.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cmds.c b/src/cmds.c
index 337f547..14b2d4f 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -1552,7 +1552,8 @@ static void cmdMONITOR(struct conn *conn, struct args *args) {
     memset(ctx, 0, sizeof(struct monitor_ctx));
     ctx->conn = conn;
     if (!conn_bgwork(conn, monitor_work, monitor_done, ctx)) {
-        conn_write_error(conn, "ERR failed to do work");
+        // OK has already been written
+        conn_close(conn);
         xfree(ctx);
     }
 
-- 
2.43.0


From a7551f2110e82e596bc513bd627797e4623bb304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:38 +0000
Subject: [PATCH 10/44] fix: pthread_create reports failure with a positive
 error number, not -1

---
 src/cmds.c | 12 ++++++------
 src/main.c |  6 +++---
 src/net.c  |  6 +++---
 src/save.c |  4 ++--
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/cmds.c b/src/cmds.c
index 14b2d4f..60bca07 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -707,7 +707,7 @@ static void flushfast(void) {
         if (i == nprocs-1) {
             ctx->count = nshards-ctx->start;
         }
-        if (pthread_create(&ctx->th, 0, thflush, ctx) == -1) {
+        if (pthread_create(&ctx->th, 0, thflush, ctx) != 0) {
             ctx->th = 0;
         }
         start += ctx->count;
@@ -820,7 +820,7 @@ static void cmdFLUSHALL(struct conn *conn, struct args *args) {
     if (async) {
         pthread_t th;
         int ret = pthread_create(&th, 0, thflush0, ctx);
-        if (ret == -1) {
+        if (ret != 0) {
             xfree(ctx);
             conn_write_error(conn, "ERR failed to do work");
             return;
@@ -1129,7 +1129,7 @@ static void sweepfast(size_t *swept, size_t *kept) {
         if (i == nprocs-1) {
             ctx->count = nshards-ctx->start;
         }
-        if (pthread_create(&ctx->th, 0, thsweep, ctx) == -1) {
+        if (pthread_create(&ctx->th, 0, thsweep, ctx) != 0) {
             ctx->th = 0;
         }
         start += ctx->count;
@@ -1216,7 +1216,7 @@ static void cmdSWEEP(struct conn *conn, struct args *args) {
     if (async) {
         pthread_t th;
         int ret = pthread_create(&th, 0, thsweep0, ctx);
-        if (ret == -1) {
+        if (ret != 0) {
             xfree(ctx);
             conn_write_error(conn, "ERR failed to do work");
             return;
@@ -1279,7 +1279,7 @@ static void cmdPURGE(struct conn *conn, struct args *args) {
     if (async) {
         pthread_t th;
         int ret = pthread_create(&th, 0, thpurge, 0);
-        if (ret == -1) {
+        if (ret != 0) {
             conn_write_error(conn, "ERR failed to do work");
             return;
         }
@@ -1395,7 +1395,7 @@ static void cmdDEBUG_populate(struct conn *conn, struct args *args) {
         ctx->randex = randex;
         ctx->randmin = randmin;
         ctx->randmax = randmax;
-        if (pthread_create(&ctx->th, 0, populate_entry, ctx) == -1) {
+        if (pthread_create(&ctx->th, 0, populate_entry, ctx) != 0) {
             ctx->th = 0;
         }
         start += group;
diff --git a/src/main.c b/src/main.c
index b3dbbbf..04bbe79 100644
--- a/src/main.c
+++ b/src/main.c
@@ -394,7 +394,7 @@ static void *autosweepticker(void *arg) {
 static void start_sigtermticker(void) {
     pthread_t th;
     int ret = pthread_create(&th, 0, sigtermticker, 0);
-    if (ret == -1) {
+    if (ret != 0) {
         perror("# pthread_create(sigtermticker)");
         exit(1);
     }
@@ -403,7 +403,7 @@ static void start_sigtermticker(void) {
 static void start_memticker(void) {
     pthread_t th;
     int ret = pthread_create(&th, 0, memticker, 0);
-    if (ret == -1) {
+    if (ret != 0) {
         perror("# pthread_create(memticker)");
         exit(1);
     }
@@ -412,7 +412,7 @@ static void start_memticker(void) {
 static void start_autosweepticker(void) {
     pthread_t th;
     int ret = pthread_create(&th, 0, autosweepticker, 0);
-    if (ret == -1) {
+    if (ret != 0) {
         perror("# pthread_create(autosweepticker)");
         exit(1);
     }
diff --git a/src/net.c b/src/net.c
index e822fbf..bea6950 100644
--- a/src/net.c
+++ b/src/net.c
@@ -1223,7 +1223,7 @@ void net_main(struct net_opts *opts) {
     if (!opts->nowarmup) {
         pthread_t th;
         int ret = pthread_create(&th, 0, thwarmup, opts);
-        if (ret != -1) {
+        if (ret == 0) {
             pthread_detach(th);
         }
     }
@@ -1233,7 +1233,7 @@ void net_main(struct net_opts *opts) {
             qthread(ctx);
         } else {
             int ret = pthread_create(&ctx->th, 0, qthread, ctx);
-            if (ret == -1) {
+            if (ret != 0) {
                 perror("# pthread_create");
                 abort();
             }
@@ -1284,7 +1284,7 @@ bool net_conn_bgwork(struct net_conn *conn, void (*work)(void *udata),
     conn->bgctx->work = work;
     conn->bgctx->udata = udata;
     pthread_t th;
-    if (pthread_create(&th, 0, bgwork, conn->bgctx) == -1) {
+    if (pthread_create(&th, 0, bgwork, conn->bgctx) != 0) {
         // Failed to create thread. Revert and return false.
         ret = addread(ctx->qfd, conn->fd);
         assert(ret == 0);
diff --git a/src/save.c b/src/save.c
index 39fbe9b..c3b0d40 100644
--- a/src/save.c
+++ b/src/save.c
@@ -183,7 +183,7 @@ int save(const char *path, bool fast) {
             ctx->count = nshards-ctx->start;
         }
         if (nprocs > 1) {
-            if (pthread_create(&ctx->th, 0, thsave, ctx) == -1) {
+            if (pthread_create(&ctx->th, 0, thsave, ctx) != 0) {
                 ctx->th = 0;
             }
         }
@@ -444,7 +444,7 @@ int load(const char *path, bool fast, struct load_stats *stats) {
         ctx->failure = &failure;
         ctx->blocks = blocks;
         atomic_init(&ctx->ok, true);
-        if (pthread_create(&ctx->th, 0, thload, ctx) == -1) {
+        if (pthread_create(&ctx->th, 0, thload, ctx) != 0) {
             ctx->th = 0;
             ok = false;
             if (therrnum == 0) {
-- 
2.43.0


From 75bc9ccd72791100991842da775fbee7535004e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:38 +0000
Subject: [PATCH 11/44] fix: the connection map never counted closed
 connections and grew forever

---
 src/net.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/net.c b/src/net.c
index bea6950..14b346c 100644
--- a/src/net.c
+++ b/src/net.c
@@ -427,6 +427,7 @@ static void cmap_delete(struct cmap *cmap, struct net_conn *conn) {
     } else {
         cmap->buckets[i] = iter->next;
     }
+    cmap->len--;
 }
 
 static atomic_size_t nconns = 0;
-- 
2.43.0


From bafa557a647ed61cdcf2e17ad963391118fa2f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:38 +0000
Subject: [PATCH 12/44] fix: a rejected TLS connection left its descriptor
 marked as TLS

---
 src/net.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/net.c b/src/net.c
index 14b346c..baf4db6 100644
--- a/src/net.c
+++ b/src/net.c
@@ -622,6 +622,7 @@ static void qaccept(struct qthreadctx *ctx) {
                 // rejected
                 atomic_fetch_add(&rconns, 1);
                 atomic_fetch_sub(&nconns, 1);
+                del_tls_fd(fd);
                 close(fd);
                 continue;
             }
-- 
2.43.0


From dc7b6887f275b2474cfd688133ceed25395d201a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:38 +0000
Subject: [PATCH 13/44] fix: control bytes in one-line replies were not
 replaced when other output was pending

---
 src/conn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conn.c b/src/conn.c
index 4e15a82..9d79666 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -238,7 +238,7 @@ static void writeln(struct conn *conn, char ch, const void *data, ssize_t len) {
     net_conn_out_write_byte_nocheck(conn->conn5, '\r');
     net_conn_out_write_byte_nocheck(conn->conn5, '\n');
     uint8_t *out = (uint8_t*)net_conn_out(conn->conn5);
-    for (ssize_t i = mark; i < len; i++) {
+    for (size_t i = mark; i < mark+len; i++) {
         if (out[i] < ' ') {
             out[i] = ' ';
         }
-- 
2.43.0


From ad7e9410bd0afdf04f8d66fb863ca05a106d8ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:52 +0000
Subject: [PATCH 14/44] fix: MONITOR sent uninitialised bytes after each
 escaped byte

---
 src/monitor.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/monitor.c b/src/monitor.c
index b80cefd..d2705e7 100644
--- a/src/monitor.c
+++ b/src/monitor.c
@@ -86,7 +86,7 @@ void monitor_cmd(int64_t now, int db, const char *addr, struct args *args) {
                 if (ch < 32 || ch >= 127) {
                     char hex[8];
                     snprintf(hex, 8, "\\x%02X", ch);
-                    buf_append(&buf, hex, 8);
+                    buf_append(&buf, hex, 4);
                 } else {
                     buf_append_byte(&buf, ch);
                 }
-- 
2.43.0


From d4e83fddb22c6c62eb71fbeb263ac6cdcd373b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:24 +0000
Subject: [PATCH 15/44] fix: SET EXAT and PXAT compared Unix time with the
 boot-time clock

---
 src/cmds.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cmds.c b/src/cmds.c
index 60bca07..8c1ca5d 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -167,6 +167,12 @@ static int64_t expiry_seconds_time(struct conn *conn, int64_t now,
     return int64_add_clamp(now, expiry);
 }
 
+// Convert an absolute Unix time into the clock used for expirations.
+static int64_t expiry_unix_time(int64_t now, int64_t unixtime) {
+    int64_t unixnow = sys_unixnow();
+    return int64_add_clamp(now, unixtime > unixnow ? unixtime-unixnow : 0);
+}
+
 // SET key value [NX | XX] [GET] [EX seconds | PX milliseconds |
 //   EXAT unix-time-seconds | PXAT unix-time-milliseconds | KEEPTTL] 
 //   [FLAGS flags] [CAS cas] 
@@ -245,9 +251,11 @@ static void cmdSET(struct conn *conn, struct args *args) {
                 break;
             case 3:
                 expires = int64_mul_clamp(expires, SECOND);
+                expires = expiry_unix_time(now, expires);
                 break;
             case 4:
                 expires = int64_mul_clamp(expires, MILLISECOND);
+                expires = expiry_unix_time(now, expires);
                 break;
             }
         skip_exkind:
-- 
2.43.0


From dac89bbc381625620adfa84015d8b954313eaa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:24 +0000
Subject: [PATCH 16/44] fix: EXPIRE with a large negative time made the entry
 permanent

---
 src/cmds.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cmds.c b/src/cmds.c
index 8c1ca5d..c78cfea 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -1038,6 +1038,10 @@ static void cmdEXPIRE(struct conn *conn, struct args *args) {
     }
     expires = int64_mul_clamp(expires, POGOCACHE_SECOND);
     expires = int64_add_clamp(now, expires);
+    if (expires <= 0) {
+        // Expired long ago. Zero or less would mean no expiration.
+        expires = 1;
+    }
     struct pogocache_update ctx = { .expires = expires };
     struct pogocache_load_opts lopts = { 
         .time = now,
-- 
2.43.0


From 3ccdff2808afcdba8b48f6a9a41e71cbeb0c8b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:24 +0000
Subject: [PATCH 17/44] fix: DEBUG POPULATE with an empty expiry range divided
 by zero

---
 src/cmds.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cmds.c b/src/cmds.c
index c78cfea..d038ed4 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -1335,7 +1335,10 @@ static void *populate_entry(void *arg) {
             .time = now,
         };
         if (ctx->randex) {
-            int ex = (rand()%(ctx->randmax-ctx->randmin))+ctx->randmin;
+            int ex = ctx->randmin;
+            if (ctx->randmax > ctx->randmin) {
+                ex += rand()%((int64_t)ctx->randmax-ctx->randmin);
+            }
             opts.ttl = ex*POGOCACHE_SECOND;
         }
         pogocache_store(cache, key, keylen, ctx->val, ctx->vallen, &opts);
-- 
2.43.0


From 838d05fc8f24b6d54d97430c40f05f0d5662efbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:24 +0000
Subject: [PATCH 18/44] fix: INCR, DECR, APPEND and PREPEND ignored the memory
 limit

---
 src/cmds.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cmds.c b/src/cmds.c
index d038ed4..5b77404 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -1733,6 +1733,7 @@ static void execINCRDECR(struct conn *conn, const char *key, size_t keylen,
         .flags = ctx.flags, 
         .cas = ctx.cas,
         .udata = &ctx,
+        .lowmem = atomic_load_explicit(&lowmem, __ATOMIC_ACQUIRE),
     };
     status = pogocache_store(batch, key, keylen, val, vallen, &sopts);
     if (status == POGOCACHE_NOMEM) {
@@ -1914,6 +1915,7 @@ static void cmdAPPEND(struct conn *conn, struct args *args) {
         len = vallen;
         struct pogocache_store_opts sopts = {
             .time = now,
+            .lowmem = atomic_load_explicit(&lowmem, __ATOMIC_ACQUIRE),
         };
         status = pogocache_store(batch, key, keylen, val, vallen, &sopts);
     } else {
@@ -1928,12 +1930,14 @@ static void cmdAPPEND(struct conn *conn, struct args *args) {
             .time = now,
             .expires = ctx.expires,
             .flags = ctx.flags,
+            .lowmem = atomic_load_explicit(&lowmem, __ATOMIC_ACQUIRE),
         };
         status = pogocache_store(batch, key, keylen, ctx.outval, ctx.outvallen, 
             &sopts);
         xfree(ctx.outval);
     }
     if (status == POGOCACHE_NOMEM) {
+        stat_store_no_memory_incr(conn);
         conn_write_error(conn, ERR_OUT_OF_MEMORY);
         goto done;
     }
-- 
2.43.0


From 87d947effe11f1c2dc60aa2cc10732e73b8456d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:17 +0000
Subject: [PATCH 19/44] fix: empty and space-led text was read as a number

---
 src/util.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.c b/src/util.c
index 9e01e39..142c646 100644
--- a/src/util.c
+++ b/src/util.c
@@ -310,7 +310,7 @@ uint32_t fnv1a_case(const char* buf, size_t len) {
 
 bool parse_i64(const char *data, size_t len, int64_t *x) {
     char buf[24];
-    if (len > 21) {
+    if (len == 0 || len > 21 || isspace((unsigned char)data[0])) {
         return false;
     }
     memcpy(buf, data, len);
@@ -323,7 +323,7 @@ bool parse_i64(const char *data, size_t len, int64_t *x) {
 
 bool parse_u64(const char *data, size_t len, uint64_t *x) {
     char buf[24];
-    if (len > 21) {
+    if (len == 0 || len > 21 || isspace((unsigned char)data[0])) {
         return false;
     }
     memcpy(buf, data, len);
-- 
2.43.0


From 13649403a67155e21d8c386402b830901e897c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:55 +0000
Subject: [PATCH 20/44] fix: SAVE lost the entries of a shard too big to
 compress and reported OK

---
 src/save.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/save.c b/src/save.c
index c3b0d40..1c21295 100644
--- a/src/save.c
+++ b/src/save.c
@@ -31,6 +31,7 @@
 #include "xmalloc.h"
 
 #define BLOCKSIZE 1048576
+#define MAXBLOCKSIZE 1073741824 // larger blocks may be too big to compress
 #define COMPRESS
 
 extern struct pogocache *cache;
@@ -48,6 +49,7 @@ struct savectx {
     int errnum;            // final errno status
     struct buf dst;        // compressed buffer space
     size_t nentries;       // number of entried in block buffer
+    int64_t unixtime;      // unix timestamp of the entries
 };
 
 static int flush(struct savectx *ctx) {
@@ -62,6 +64,11 @@ static int flush(struct savectx *ctx) {
     // Compress the block
     uint32_t len = LZ4_compress_default((char*)ctx->buf.data, 
         (char*)ctx->dst.data+16, ctx->buf.len, bounds);
+    if (len == 0) {
+        // The block is too big to be compressed
+        errno = EFBIG;
+        return -1;
+    }
     // The block is now compressed.
     // Genreate a checksum of the compressed data.
     uint32_t crc = crc32(ctx->dst.data+16, len);
@@ -114,6 +121,13 @@ static int save_entry(int shard, int64_t time, const void *key, size_t keylen,
     buf_append_uvarint(&ctx->buf, flags);
     buf_append_uvarint(&ctx->buf, cas);
     ctx->nentries++;
+    if (ctx->buf.len >= MAXBLOCKSIZE) {
+        // Continue with a new block
+        if (flush(ctx) == -1) {
+            return POGOCACHE_ITER_STOP;
+        }
+        buf_append_uvarint(&ctx->buf, ctx->unixtime);
+    }
     return POGOCACHE_ITER_CONTINUE;
 }
 
@@ -129,7 +143,8 @@ static void *thsave(void *arg) {
             .udata = ctx,
         };
         // write the unix timestamp before entries
-        buf_append_uvarint(&ctx->buf, sys_unixnow());
+        ctx->unixtime = sys_unixnow();
+        buf_append_uvarint(&ctx->buf, ctx->unixtime);
         int status = pogocache_iter(cache, &opts);
         if (status == POGOCACHE_CANCELED) {
             goto done;
-- 
2.43.0


From 9300da88560703b4cada991aa19fefda633bf1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:55 +0000
Subject: [PATCH 21/44] fix: an entry that expired at the moment of loading
 became permanent

---
 src/save.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/save.c b/src/save.c
index 1c21295..693392d 100644
--- a/src/save.c
+++ b/src/save.c
@@ -359,7 +359,7 @@ static bool load_block(struct cblock *block, struct loadctx *ctx) {
         p += n;
         if (ttl > 0) {
             int64_t unixexpires = int64_add_clamp(unixtime, ttl);
-            if (unixexpires < unixnow) {
+            if (unixexpires <= unixnow) {
                 // already expired, skip this entry
                 ctx->nexpired++;
                 continue;
-- 
2.43.0


From be2ac7c7ccfb4b283f7400de641bad75db889e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:23 +0000
Subject: [PATCH 22/44] fix: --autosweep no was rejected and other values were
 judged by --usecas

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 04bbe79..4847916 100644
--- a/src/main.c
+++ b/src/main.c
@@ -644,7 +644,7 @@ int main(int argc, char *argv[]) {
 
     if (strcmp(autosweep, "yes") == 0) {
         useautosweep = true;
-    } else if (strcmp(usecas, "no") == 0) {
+    } else if (strcmp(autosweep, "no") == 0) {
         useautosweep = false;
     } else {
         INVALID_FLAG("autosweep", autosweep);
-- 
2.43.0


From 169ee3ffc9af5b38b9d47be222c60b0a42f83dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:23 +0000
Subject: [PATCH 23/44] fix: --evict no and --sixpack no had no effect

---
 src/main.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.c b/src/main.c
index 4847916..5d27fea 100644
--- a/src/main.c
+++ b/src/main.c
@@ -754,6 +754,8 @@ int main(int argc, char *argv[]) {
         .nshards = nshards,
         .loadfactor = loadfactor,
         .usecas = usecasflag,
+        .nosixpack = !usesixpack,
+        .noevict = !useevict,
         .allowshrink = true,
         .usethreadbatch = true,
     };
-- 
2.43.0


From b882fe6ae8676eef92f5cb80af6a0b6e71489adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:24 +0000
Subject: [PATCH 24/44] fix: postgres strings with doubled quotes decode to
 their content

The unescape loop was bounded by the (zero) output length, so every quoted
string containing '' became an empty argument.
---
 src/postgres.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/postgres.c b/src/postgres.c
index c24de1c..d482076 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -150,7 +150,7 @@ static void arg_append_unescape_simplestr(struct args *args, const char *str,
 {
     size_t str2len = 0;
     char *str2 = xmalloc(slen+1);
-    for (size_t i = 0; i < str2len; i++) {
+    for (size_t i = 0; i < slen; i++) {
         if (str[i] == '\'' && str[i+1] == '\'') {
             i++;
         }
-- 
2.43.0


From b952be5b13245cd2b5f004f1b2cb4ce187d82e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:24 +0000
Subject: [PATCH 25/44] fix: postgres startup ends when the password was
 accepted

The startup state survived authentication, so a later message without a
response of its own (Describe of a portal) was answered with another
password request in the middle of the session.
---
 src/postgres.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/postgres.c b/src/postgres.c
index d482076..b0a3821 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -1471,6 +1471,7 @@ bool pg_respond(struct conn *conn, struct pg *pg) {
         conn_setauth(conn, true);
         write_auth_ok(conn, pg);
         pg->auth = 0;
+        pg->startup = 0;
         return true;
     }
     if (pg->startup == 1) {
-- 
2.43.0


From 8d83416b57639bc619d51e87454e6dc7ad07c623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:24 +0000
Subject: [PATCH 26/44] fix: a postgres query may use the same parameter twice

Repeated parameters were counted again, so "$1 $1" was rejected with
"missing parameter $2".
---
 src/postgres.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/postgres.c b/src/postgres.c
index b0a3821..73ecd71 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -480,15 +480,6 @@ static void pmap_grow(struct pmap *map) {
     map->nbuckets = nbuckets2;
 }
 
-static void pmap_insert(struct pmap *map, uint16_t param) {
-    assert(param != 0);
-    if (map->count == (map->nbuckets>>1)+(map->nbuckets>>2)) {
-        pmap_grow(map);
-    }
-    pmap_insert0(map->buckets, map->nbuckets, param);
-    map->count++;
-}
-
 static bool pmap_exists(struct pmap *map, uint16_t param) {
     uint16_t hash = mix13(param);
     int i = hash%map->nbuckets;
@@ -503,6 +494,18 @@ static bool pmap_exists(struct pmap *map, uint16_t param) {
     }
 }
 
+static void pmap_insert(struct pmap *map, uint16_t param) {
+    assert(param != 0);
+    if (pmap_exists(map, param)) {
+        return;
+    }
+    if (map->count == (map->nbuckets>>1)+(map->nbuckets>>2)) {
+        pmap_grow(map);
+    }
+    pmap_insert0(map->buckets, map->nbuckets, param);
+    map->count++;
+}
+
 static bool parse_query_args(const char *query, struct args *args, 
     int *nparams, struct buf *argtypes)
 {
-- 
2.43.0


From 8d10d5eee3d94880f91d29c342bf632160373ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:18 +0000
Subject: [PATCH 27/44] fix: keep an escaped single quote in a postgres E''
 string

The quote in E'it\'s' was dropped by the unescaping.
---
 src/postgres.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/postgres.c b/src/postgres.c
index 73ecd71..85233a9 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -395,6 +395,7 @@ static inline int encode_codepoint(uint8_t dst[], uint32_t cp) {
         case 'r' : ch = '\r'; break; \
         case 't' : ch = '\t'; break; \
         case '"' : ch = '"';  break; \
+        case '\'': ch = '\''; break; \
         case 'u' : \
             if (ii+5 > nn) { nn = 0; continue; }; \
             uint32_t cp = decode_hex((jstr)+ii+1); \
-- 
2.43.0


From 5155f732a9f02bdc5933d41bd25611a7ff3e8d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:18 +0000
Subject: [PATCH 28/44] fix: release the previous startup parameters of a
 postgres connection

A client may send the startup message again (or any number of times), which
leaked the strings of the previous one.
---
 src/postgres.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/postgres.c b/src/postgres.c
index 85233a9..fa1fdce 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -1163,6 +1163,9 @@ static ssize_t parse_magic_proto3(const char *data, size_t len, struct pg *pg) {
             client_encoding);
         return -1;
     }
+    xfree(pg->user);
+    xfree(pg->database);
+    xfree(pg->application_name);
     pg->user = xmalloc(strlen(user)+1);
     strcpy((char*)pg->user, user);
     pg->database = xmalloc(strlen(database)+1);
-- 
2.43.0


From 292ccb82a6ceee66bce696fdf18c564cbc42ae01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:50 +0000
Subject: [PATCH 29/44] fix: refuse memcache storage commands with missing
 arguments

The argument count test could never be true, so "set a 0 0" went on to use
arguments that were not given.
---
 src/memcache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memcache.c b/src/memcache.c
index 7fd2333..789d2e3 100644
--- a/src/memcache.c
+++ b/src/memcache.c
@@ -206,7 +206,7 @@ ssize_t parse_memcache(const char *data, size_t len, struct args *args,
     if (is_mc_store_cmd(cmd)) {
         // Store commands include 'set', 'add', 'replace', 'append', 'prepend',
         // and 'cas'.
-        if ((cmd == MC_CAS && args->len != 6) && 
+        if ((cmd == MC_CAS && args->len != 6) || 
             (cmd != MC_CAS && args->len != 5))
         {
             parse_seterror("ERROR");
-- 
2.43.0


From 0e69671098c33bf26d16bd93b81e7b74743ff89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:50 +0000
Subject: [PATCH 30/44] fix: refuse memcache verbosity without an argument

It used the argument at index 1 without there being one.
---
 src/memcache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memcache.c b/src/memcache.c
index 789d2e3..6fdeead 100644
--- a/src/memcache.c
+++ b/src/memcache.c
@@ -461,7 +461,7 @@ ssize_t parse_memcache(const char *data, size_t len, struct args *args,
         args_append(&args2, "version", 7, true);
         *noreply = false;
     } else if (cmd == MC_VERBOSITY) {
-        if (args->len > 2) {
+        if (args->len != 2) {
             parse_seterror("ERROR");
             return -1;
         }
-- 
2.43.0


From 857872d3faac85ee007a5926151fb2874d2d4515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:50 +0000
Subject: [PATCH 31/44] fix: honour the noreply option of memcache commands

The option was parsed and stripped but the reply was still sent, which the
client then takes for the reply of its next command.
---
 src/conn.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/conn.c b/src/conn.c
index 9d79666..ae9dcb3 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -76,6 +76,16 @@ void evclosed(struct net_conn *conn5, void *udata) {
     xfree(conn);
 }
 
+// noreply_drop removes what was written since mark for a memcache command that
+// asked for no reply.
+static void noreply_drop(struct conn *conn, size_t mark) {
+    if (conn->proto == PROTO_MEMCACHE && conn->noreply && 
+        net_conn_out_len(conn->conn5) > mark)
+    {
+        net_conn_out_setlen(conn->conn5, mark);
+    }
+}
+
 // network data handler
 // The evlen may be zero when returning from a bgwork routine, while having
 // existing data in the connection packet.
@@ -155,7 +165,9 @@ void evdata(struct net_conn *conn5, const void *evdata, size_t evlen,
         } else if (conn->proto != PROTO_POSTGRES || 
             pg_precommand(conn, &conn->args, conn->pg))
         {
+            size_t mark = net_conn_out_len(conn->conn5);
             evcommand(conn, &conn->args);
+            noreply_drop(conn, mark);
         }
         len -= n;
         data += n;
@@ -205,7 +217,9 @@ static void work5(void *udata) {
 static void done5(struct net_conn *conn, void *udata) {
     (void)conn;
     struct bgworkctx *ctx = udata;
+    size_t mark = net_conn_out_len(ctx->conn->conn5);
     ctx->done(ctx->conn, ctx->udata);
+    noreply_drop(ctx->conn, mark);
     xfree(ctx);
 }
 
-- 
2.43.0


From f21ad34edbb72dde43939a8fee1c246a25937da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:50 +0000
Subject: [PATCH 32/44] fix: wait for the rest of an http header that was split
 after a CR

A request arriving in two pieces cut between the CR and LF of the blank line
was answered with 400 Bad Request.
---
 src/http.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/http.c b/src/http.c
index 7b786af..17f4666 100644
--- a/src/http.c
+++ b/src/http.c
@@ -160,7 +160,10 @@ readhdrs:
                         p++;
                         if (p < e && *p == '\r') {
                             p++;
-                            if (p < e && *p == '\n') {
+                            if (p == e) {
+                                return 0;
+                            }
+                            if (*p == '\n') {
                                 p++;
                             } else {
                                 goto badreq;
-- 
2.43.0


From ec2d72e4d9e992aa4e633de39d66cbfcfdeb4ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:50 +0000
Subject: [PATCH 33/44] fix: answer http requests that have no headers

The blank line was looked for only after a header, so a request like
"GET /key HTTP/1.0" without any was never answered.
---
 src/http.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/http.c b/src/http.c
index 17f4666..f95312f 100644
--- a/src/http.c
+++ b/src/http.c
@@ -110,6 +110,11 @@ ssize_t parse_http(const char *data, size_t len, struct args *args,
     }
     goto badreq;
 readhdrs:
+    if (e-p >= 2 && p[0] == '\r' && p[1] == '\n') {
+        // There are no headers
+        p += 2;
+        goto readbody;
+    }
     // Parse the headers, pulling the pairs along the way.
     while (p < e) {
         hdrname = p;
-- 
2.43.0


From 6eaaeaba90ccec3dafa6e1c9d89654e6b5993466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:50 +0000
Subject: [PATCH 34/44] fix: answer unknown http methods with 405

The error was overwritten with Bad Request on the way out.
---
 src/http.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http.c b/src/http.c
index f95312f..3f6d83c 100644
--- a/src/http.c
+++ b/src/http.c
@@ -326,7 +326,7 @@ readbody:
         args_append(args, uri, urilen, true);
     } else {
         parse_seterror("Method Not Allowed");
-        goto badreq;
+        return -1;
     }
 
     // Check authorization
-- 
2.43.0


From a4724306c5dbf69365a50d8b5b66327f8ff6c953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:50 +0000
Subject: [PATCH 35/44] fix: wait for a complete first line before choosing the
 protocol

A first request that arrived in pieces was refused with an error and the
connection closed. Trimming leading spaces could also run past the end of
the data when there was no newline in it.
---
 src/parse.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index 7b928c3..8d519bd 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -56,6 +56,11 @@ static bool sniff_proto(const char *data, size_t len, int *proto) {
             break;
         }
     }
+    if (n == 0) {
+        // The first line is not complete
+        *proto = 0;
+        return true;
+    }
     // Look for " HTTP/*.*\r\n" suffix
     if (n >= 11 && memcmp(data+n-11, " HTTP/", 5) == 0 && 
         data[n-4] == '.' && data[n-2] == '\r')
-- 
2.43.0


From 3dbb431e897c949001dec08c9e0493d9a1224d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:10 +0000
Subject: [PATCH 36/44] fix: removing the first argument left a second owner of
 the last one

---
 src/args.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/args.c b/src/args.c
index c3c2060..95238a1 100644
--- a/src/args.c
+++ b/src/args.c
@@ -105,5 +105,6 @@ void args_remove_first(struct args *args) {
             args->bufs[i-1] = args->bufs[i];
         }
         args->len--;
+        memset(&args->bufs[args->len], 0, sizeof(struct buf));
     }
 }
-- 
2.43.0


From 5d46641ef44c46a9f4457b2379431d038e82d263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:07 +0000
Subject: [PATCH 37/44] fix: an empty resp length was read from beyond the end
 of the line

---
 src/resp.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/resp.c b/src/resp.c
index e9ad484..6ba9f22 100644
--- a/src/resp.c
+++ b/src/resp.c
@@ -136,6 +136,12 @@ fail_argsz:
 static int64_t read_num(const char *data, size_t len, int64_t min, int64_t max,
     bool *ok)
 {
+    if (len == 0 || isspace((unsigned char)data[0])) {
+        // Nothing to read. strtoll would skip over the end of the line and
+        // continue into whatever follows.
+        *ok = false;
+        return 0;
+    }
     errno = 0;
     char *end;
     int64_t x = strtoll(data, &end, 10);
-- 
2.43.0


From f83b3c6a550540f71d2446c3150a056e8f2468b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:29 +0000
Subject: [PATCH 38/44] fix: SWEEP refused ASYNC together with FAST

---
 src/cmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmds.c b/src/cmds.c
index 5b77404..0e459e3 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -1206,7 +1206,7 @@ static void *thsweep0(void *arg) {
 
 // SWEEP [ASYNC] [FAST]
 static void cmdSWEEP(struct conn *conn, struct args *args) {
-    if (args->len > 2) {
+    if (args->len > 3) {
         conn_write_error(conn, ERR_WRONG_NUM_ARGS);
         return;
     }
-- 
2.43.0


From bdf6f45202e6741a957e567f7dea492947213296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:24 +0000
Subject: [PATCH 39/44] fix: requests received before background work ended
 were lost at end of file

---
 src/net.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/net.c b/src/net.c
index baf4db6..3a34905 100644
--- a/src/net.c
+++ b/src/net.c
@@ -724,7 +724,12 @@ static void qattach(struct qthreadctx *ctx) {
         if (conn->closed) {
             ctx->qcloses[ctx->nqcloses++] = conn;
         } else {
-            ctx->qreads[ctx->nqreads++] = conn;
+            // Process the requests that have already been received before
+            // reading any further. The read may report an end of file.
+            ctx->qins[ctx->nqins] = conn;
+            ctx->qinpkts[ctx->nqins] = "";
+            ctx->qinpktlens[ctx->nqins] = 0;
+            ctx->nqins++;
         }
     }
 }
-- 
2.43.0


From 98bcfd1878ddfb6df39c6c8a09f1729654cba36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:00 +0000
Subject: [PATCH 40/44] fix: an http query option followed by a final & was
 ignored

---
 src/http.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http.c b/src/http.c
index 3f6d83c..3e91049 100644
--- a/src/http.c
+++ b/src/http.c
@@ -261,7 +261,7 @@ readbody:
             } else if (query[i] == '&' || i == querylen-1) {
                 qval = 0;
                 qvallen = 0;
-                if (i == querylen-1) {
+                if (query[i] != '&') {
                     i++;
                 }
                 k = i;
-- 
2.43.0


From 4548dbc523eb04a6a1b61524ef8bbc06a364677b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:26 +0000
Subject: [PATCH 41/44] fix: a memcache line with \r and a blank before its end
 had a last word of length -1

---
 src/memcache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memcache.c b/src/memcache.c
index 6fdeead..f3b8e66 100644
--- a/src/memcache.c
+++ b/src/memcache.c
@@ -78,7 +78,7 @@ static ssize_t parse_memcache_telnet(const char *data, size_t len,
         }
         if (ch == '\n') {
             size_t wn = p-s-1;
-            if (last == '\r') {
+            if (wn > 0 && last == '\r') {
                 wn--;
             }
             if (wn > 0) {
-- 
2.43.0


From 2afdcff606e394ce0969089826e95909d6613663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:41 +0000
Subject: [PATCH 42/44] fix: a Postgres message announcing a length below 4 was
 waited for or refused without a reason

---
 src/postgres.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/postgres.c b/src/postgres.c
index fa1fdce..c134416 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -1073,7 +1073,13 @@ static ssize_t parse_message(const char *data, size_t len, struct args *args,
         return 0;
     }
     int msgbyte = data[0];
-    size_t msglen = read_i32(data+1);
+    int32_t announced = read_i32(data+1);
+    if (announced < 4) {
+        // the announced length includes the four bytes of the length itself
+        parse_errorf("invalid message");
+        return -1;
+    }
+    size_t msglen = announced;
     if (len < msglen+1) {
         return 0;
     }
-- 
2.43.0


From 8cbc4f147e8c2395415c1ab3c79798efce653ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:54 +0000
Subject: [PATCH 43/44] fix: surrogate pairs in E'' strings at the first
 surrogates or outside plane 1 decoded to another character

---
 src/postgres.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/postgres.c b/src/postgres.c
index c134416..6f87f4e 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -337,12 +337,12 @@ static uint32_t decode_hex(const uint8_t *str) {
 }
 
 static bool is_surrogate(uint32_t cp) {
-    return cp > 55296 && cp < 57344;
+    return cp >= 55296 && cp < 57344;
 }
 
 static uint32_t decode_codepoint(uint32_t cp1, uint32_t cp2) {
-    return cp1 > 55296  && cp1 < 56320 && cp2 > 56320 && cp2 < 57344 ?
-        ((cp1 - 55296) << 10) | ((cp2 - 56320) + 65536) :
+    return cp1 >= 55296  && cp1 < 56320 && cp2 >= 56320 && cp2 < 57344 ?
+        (((cp1 - 55296) << 10) | (cp2 - 56320)) + 65536 :
         65533;
 }
 
-- 
2.43.0


From bb5bbe2a875c60670f6304678df050db67ed5311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:23 +0000
Subject: [PATCH 44/44] fix: free the name of the work file when SAVE cannot
 open it

---
 src/save.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/save.c b/src/save.c
index 693392d..7076d2a 100644
--- a/src/save.c
+++ b/src/save.c
@@ -172,6 +172,9 @@ int save(const char *path, bool fast) {
     }
     int fd = open(workpath, O_RDWR|O_CREAT, S_IRUSR|S_IRGRP|S_IROTH);
     if (fd == -1) {
+        int errnum = errno;
+        xfree(workpath);
+        errno = errnum;
         return -1;
     }
     int nshards = pogocache_nshards(cache);
-- 
2.43.0

