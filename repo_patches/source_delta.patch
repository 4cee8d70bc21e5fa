From 68f745db6860dc44e79b88ae45b306ecea352d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:09 +0000
Subject: [PATCH 01/33] hook: page-pool hash size can be set by
 FFDB_VERIFY_HASHSIZE

---
 filehash/ffdb_pagepool.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filehash/ffdb_pagepool.h b/filehash/ffdb_pagepool.h
index a218397..6bfa585 100644
--- a/filehash/ffdb_pagepool.h
+++ b/filehash/ffdb_pagepool.h
@@ -151,7 +151,11 @@
  * Inactive pages are threaded on a free chain.  Each reference to a memory
  * pool is handed an opaque MPOOL cookie which stores all of this information.
  */
+#ifdef FFDB_VERIFY_HASHSIZE
+#define	FFDB_HASHSIZE	FFDB_VERIFY_HASHSIZE
+#else
 #define	FFDB_HASHSIZE	16384
+#endif
 #define	FFDB_HASHKEY(pgno)	((pgno - 1 + FFDB_HASHSIZE) % FFDB_HASHSIZE)
 
 /**
-- 
2.43.0


From 04d63d78bf500ce4c4a135fe909407e6148e6f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:40 +0000
Subject: [PATCH 02/33] fix: a cursor walk that has ended keeps reporting
 not-found; walks over an empty database stay within its buckets

---
 filehash/ffdb_page.c | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 8d168b1..e57a244 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -2780,6 +2780,10 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
   unsigned char* ekdata;
   unsigned int   eksize;
 
+  /* A walk that has ended has no page to step from */
+  if ((flags == FFDB_NEXT || flags == FFDB_PREV) && !cursor->item.pagep)
+    return FFDB_NOT_FOUND;
+
   if (flags == FFDB_FIRST) {
     if (cursor->item.pagep) {
       /* need to release the previous page */
@@ -2796,11 +2800,15 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
       return -1;
     }
     /* Skip empty buckets */
-    while (NUM_ENT(cursor->item.pagep) == 0 && 
-	   bucket <= hashp->hdr.max_bucket) {
+    while (NUM_ENT(cursor->item.pagep) == 0) {
       ffdb_put_page (hashp, cursor->item.pagep, TYPE(cursor->item.pagep), 0);
       /* Get next bucket */
       cursor->item.pagep = 0;
+      if (bucket >= hashp->hdr.max_bucket) {
+	/* empty database */
+	cursor->item.status = ITEM_NO_MORE;
+	return FFDB_NOT_FOUND;
+      }
       bucket++;
 
       cursor->item.pagep = ffdb_get_page (hashp, bucket, HASH_BUCKET_PAGE, 
@@ -2812,13 +2820,6 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
 	return -1;
       }
     }
-    if (bucket > hashp->hdr.max_bucket) {
-      /* empty database */
-      ffdb_put_page (hashp, cursor->item.pagep, TYPE(cursor->item.pagep), 0);
-      cursor->item.status = ITEM_NO_MORE;
-      cursor->item.pagep = 0;
-      return FFDB_NOT_FOUND;
-    }
     cursor->item.bucket = bucket;
     cursor->item.pgno = tp;
     cursor->item.pgndx = 0;
@@ -2843,6 +2844,11 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
       ffdb_put_page (hashp, cursor->item.pagep, TYPE(cursor->item.pagep), 0);
       /* Get next bucket */
       cursor->item.pagep = 0;
+      if (bucket == 0) {
+	/* this is the last one and it is empty */
+	cursor->item.status = ITEM_NO_MORE;
+	return FFDB_NOT_FOUND;
+      }
       bucket--;
 
       cursor->item.pagep = ffdb_get_page (hashp, bucket, HASH_BUCKET_PAGE, 
@@ -2853,13 +2859,6 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
 	cursor->item.status = ITEM_ERROR;
 	return -1;
       }
-      if (bucket == 0 && NUM_ENT(cursor->item.pagep) == 0) {
-	/* this is the last one and it is empty */
-	ffdb_put_page (hashp, cursor->item.pagep, TYPE(cursor->item.pagep), 0);
-	cursor->item.status = ITEM_NO_MORE;
-	cursor->item.pagep = 0;
-	return FFDB_NOT_FOUND;
-      }
     }
 
     cursor->item.pgno = tp;
-- 
2.43.0


From a77f5147e35bf637667d3c6a00dcf5a12e6baa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:40 +0000
Subject: [PATCH 03/33] fix: storing a value whose tail nearly fills a page no
 longer reads past the caller's buffer

---
 filehash/ffdb_page.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index e57a244..f19f885 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -724,6 +724,8 @@ _ffdb_add_data (ffdb_htab_t *hashp, pgno_t key_page, pgno_t key_index,
 	FIRST_DATA_POS(currpagep) = 0; 
 	/* we copy most of the rest of page */
 	copylen = hashp->hdr.bsize - BIG_PAGE_OVERHEAD;
+	if (copylen > rlen)
+	  copylen = rlen;
       }
 
       /* where to start copy the data */
@@ -856,7 +858,7 @@ _ffdb_replace_data (ffdb_htab_t* hashp, const FFDB_DBT* val,
       }
 
       /* check whether data will fit this page */
-      if ((size_t)rlen <= hashp->hdr.bsize - BIG_PAGE_OVERHEAD - BIG_DATA_OVERHEAD) 
+      if ((size_t)rlen <= hashp->hdr.bsize - BIG_PAGE_OVERHEAD) 
 	copylen = rlen;
       else 
 	copylen = hashp->hdr.bsize - BIG_PAGE_OVERHEAD;
-- 
2.43.0


From d6bc63c453ee5b003a4a444983b66576395769cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:03 +0000
Subject: [PATCH 04/33] fix: a refused no-overwrite store releases the key's
 page, which was otherwise never written back

---
 filehash/ffdb_hash.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 5cb477b..51ea218 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -1318,6 +1318,7 @@ _ffdb_hash_put (const FFDB_DB* dbp, FFDB_DBT* key, const FFDB_DBT* data,
      * a replace flag
      */
     if (flag && flag == FFDB_NOOVERWRITE) {
+      ffdb_release_item (hashp, &item);
       FFDB_UNLOCK (hashp->lock);  
       return -1;
     }
-- 
2.43.0


From 47f31341d91904588143b5de0264cb99b88b824d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:03 +0000
Subject: [PATCH 05/33] fix: lookups of empty values and failed lookups release
 their pages, which were otherwise never written back

---
 filehash/ffdb_page.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index f19f885..d611f76 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -470,6 +470,7 @@ _ffdb_get_data (ffdb_htab_t* hashp, ffdb_hent_t* item,
     if (val->size < datalen) {
       fprintf (stderr, "Warning: application allocated space %ld < data size %ld\n",
 	       (long)val->size, datalen);
+      ffdb_put_page (hashp, pagep, HASH_DATA_PAGE, 0);
       return -1;
     }
     else
@@ -480,6 +481,7 @@ _ffdb_get_data (ffdb_htab_t* hashp, ffdb_hent_t* item,
     if (!val->data) {
       fprintf (stderr, "Cannot allocate space to get data back for size of %ld bytes. \n",
 	       datalen);
+      ffdb_put_page (hashp, pagep, HASH_DATA_PAGE, 0);
       return -1;
     }
     val->size = datalen;
@@ -490,6 +492,8 @@ _ffdb_get_data (ffdb_htab_t* hashp, ffdb_hent_t* item,
   rlen = val->size;
   start = roff + sizeof(ffdb_data_header_t);
   next = NEXT_PGNO(pagep);
+  if (rlen == 0) /* nothing to copy: release the page here */
+    ffdb_put_page (hashp, pagep, HASH_DATA_PAGE, 0);
   while (rlen > 0) {
     /* where copy starts in val->data */
     idx = val->size - rlen;
@@ -1552,6 +1556,8 @@ int ffdb_get_item (ffdb_htab_t* hashp,
   if (status != 0) {
     fprintf (stderr, "Cannot get data on page %d at offset %d\n",
 	     datap->first, datap->offset);
+    if (freepage)
+      ffdb_put_page (hashp, item->pagep, HASH_RAW_PAGE, 0);
     return status;
   }
 
-- 
2.43.0


From 511450b1fb91859bc4cb52ed5e5a3f1571a0c438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:03 +0000
Subject: [PATCH 06/33] fix: replacing a value longer than 4 GiB by a shorter
 one clears the high bits of its length

---
 filehash/ffdb_page.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index d611f76..5b2bf8c 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -1727,7 +1727,7 @@ _ffdb_replace_item_on_page (ffdb_htab_t* hashp,
   }
 
   /* Change data pointer value */
-  if (hashp->hdr.version > FFDB_VERSION_5 && IS_HUGE_DATA(val->size)) {
+  if (hashp->hdr.version > FFDB_VERSION_5) {
     /* insert ncessary length information to offset */
     INSERT_LEN_TO_PGOFFSET(val->size, datap->offset);
     datap->len = (unsigned int)val->size;
-- 
2.43.0


From 0984eabd457bc2ca4add76e4bc91b256421dbbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:18 +0000
Subject: [PATCH 07/33] fix: growing a database created with a single bucket
 splits that bucket

---
 filehash/ffdb_hash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 51ea218..770fde7 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -612,7 +612,7 @@ _ffdb_init_htab (ffdb_htab_t* hashp, int nb, FFDB_HASHINFO* info)
 
   /* high mask and low mask value */
   hashp->hdr.max_bucket = hashp->hdr.high_mask = nbuckets - 1;
-  hashp->hdr.low_mask = (nbuckets >> 1) - 1;
+  hashp->hdr.low_mask = (nbuckets > 1) ? (nbuckets >> 1) - 1 : 0;
 
   /* set hash version and flag */
   hashp->hdr.magic = FFDB_HASHMAGIC;
-- 
2.43.0


From df6d3948e864235574aa58dcaa3e87bbb39de3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:33 +0000
Subject: [PATCH 08/33] fix: keys too long to fit a bucket page with alignment
 are refused instead of being lost

---
 filehash/ffdb_page.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filehash/ffdb_page.h b/filehash/ffdb_page.h
index a36f79e..0d1a3b8 100644
--- a/filehash/ffdb_page.h
+++ b/filehash/ffdb_page.h
@@ -352,7 +352,7 @@ typedef struct _ffdb_data_header_
  * we are not dealing with the case that a single key cannot be fit
  * into a page
  */
-#define FFDB_MAX_KEYSIZE(h) ((h->hdr.bsize) - PAGE_OVERHEAD - PAIR_OVERHEAD - sizeof(ffdb_datap_t))
+#define FFDB_MAX_KEYSIZE(h) ((h->hdr.bsize) - PAGE_OVERHEAD - PAIR_OVERHEAD - sizeof(ffdb_datap_t) - (sizeof(int) - 1))
 
 #define PAIRFITS(P,K,D)	((PAIRSIZE((K),(D))) <= FREESPACE((P)))
 
-- 
2.43.0


From 85656b24705fbd637b5e6988f04a33323d0a7405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:11 +0000
Subject: [PATCH 09/33] fix: closing with page rearrangement right after the
 table doubled no longer moves pages that do not exist

---
 filehash/ffdb_page.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 5b2bf8c..6b82014 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -2385,6 +2385,10 @@ ffdb_rearrage_pages_on_close (ffdb_htab_t* hashp)
   if (num_unused == 0)
     return 0;
 
+  /* No data or overflow page has been used on this level yet */
+  if (hashp->hdr.spares[hashp->hdr.ovfl_point + 1] == 0)
+    return 0;
+
   /* First and last unused page */
   BUCKET_TO_PAGE(hashp->hdr.max_bucket + 1, funused);
   BUCKET_TO_PAGE(hashp->hdr.high_mask, lunused);
-- 
2.43.0


From a618bafdf60fbc00d89db9b0de458c4cc3df0bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:08 +0000
Subject: [PATCH 10/33] fix: a page held more than once stays pinned until its
 last holder puts it back

---
 filehash/ffdb_pagepool.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index 6fedcd1..b5b2725 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -1240,6 +1240,12 @@ ffdb_pagepool_put_page (ffdb_pagepool_t* pgp, void* mem,
    * Derefence the page
    */
   bp->ref--;
+  if (bp->ref > 0) {
+    /* I still hold this page (by a cursor, for example) */
+    FFDB_UNLOCK(pgp->lock);
+    return 0;
+  }
+
   /*
    * I am giving up the ownership
    */
-- 
2.43.0


From 838465e40c2e5cb393149e9d2cb396e0fe8f07c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:00 +0000
Subject: [PATCH 11/33] fix: failed page reads and writes are reported by
 lookups, sync and close instead of being ignored

---
 filehash/ffdb_hash.c     | 11 ++++++++---
 filehash/ffdb_pagepool.c | 18 +++++++++++++-----
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 770fde7..408139b 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -300,13 +300,15 @@ _ffdb_hdestroy (ffdb_htab_t* hashp)
   /* flush meta information header to disk */
   if (_ffdb_flush_meta (hashp) != 0)
     if (save_errno == 0)
-      save_errno = errno;
+      save_errno = errno ? errno : EIO;
 
   /* close the pagepool */
 #ifdef _FFDB_STATISTICS
   ffdb_pagepool_stat (hashp->mp);
 #endif
-  ffdb_pagepool_sync (hashp->mp);
+  if (ffdb_pagepool_sync (hashp->mp) != 0)
+    if (save_errno == 0)
+      save_errno = errno ? errno : EIO;
   ffdb_pagepool_close (hashp->mp);
 
   /* Reduce file size if possible */
@@ -1392,7 +1394,10 @@ _ffdb_hash_sync (const FFDB_DB *dbp, unsigned int flags)
     return -1;
   }
 
-  ffdb_pagepool_sync (hashp->mp);
+  if (ffdb_pagepool_sync (hashp->mp) != 0) {
+    FFDB_UNLOCK(hashp->lock);
+    return -1;
+  }
 
   FFDB_UNLOCK(hashp->lock);
   return 0;
diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index b5b2725..ac626ec 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -763,13 +763,20 @@ _ffdb_pagepool_load_new_page (ffdb_pagepool_t* pgp, pgno_t pageno,
    */
   off = (off_t)pgp->pagesize * (pageno);
   if (lseek (pgp->fd, off, SEEK_SET) != off) {
+    status = errno ? errno : EIO;
     fprintf (stderr, "ffdb_pagepool_load_new_page: cannot seek to a right position.\n");
-    return errno;
+    free (bp);
+    --pgp->curcache;
+    return status;
   }
   nbytes = read (pgp->fd, bp->page, pgp->pagesize);
-  if ((unsigned int)nbytes != pgp->pagesize && nbytes > 0) {
+  if ((unsigned int)nbytes != pgp->pagesize && nbytes != 0) {
+    /* an error, or only part of the page */
+    status = (nbytes < 0 && errno) ? errno : EIO;
     fprintf (stderr, "ffdb_pagepool_load_new_page: cannot read back end file\n");
-    return errno;
+    free (bp);
+    --pgp->curcache;
+    return status;
   }
   else if (nbytes == 0) 
     memset (bp->page, 0, pgp->pagesize);
@@ -1397,6 +1404,7 @@ static int
 _ffdb_pagepool_sync_i (ffdb_pagepool_t* pgp, unsigned int numpages)
 {
   unsigned int num;
+  int ret = 0;
   ffdb_bkt_t* bp;
   ffdb_sbkt_t* sbp;
   ffdb_sbkt_t* next;
@@ -1445,7 +1453,7 @@ _ffdb_pagepool_sync_i (ffdb_pagepool_t* pgp, unsigned int numpages)
       if (_ffdb_pagepool_write (pgp, sbp->bp) != 0) {
 	fprintf (stderr, "ffdb_pagepool_sync: writing page %d error.\n",
 		 sbp->bp->pgno);
-	return -1;
+	ret = -1;
       }
     }
 #ifdef _FFDB_STATISTICS
@@ -1457,7 +1465,7 @@ _ffdb_pagepool_sync_i (ffdb_pagepool_t* pgp, unsigned int numpages)
     sbp = next;
   }
 
-  return 0;
+  return ret;
 }
 
 
-- 
2.43.0


From a7aa6d9f9a9da0f405335b75cf1ef29d044949ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:00 +0000
Subject: [PATCH 12/33] fix: a store whose overflow page could not take the
 value reports the failure

---
 filehash/ffdb_page.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 6b82014..f86f502 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -1813,7 +1813,6 @@ int ffdb_add_ovflpage (ffdb_htab_t* hashp,
 #endif
   
   /* Set up page link */
-  NEXT_PGNO(item->pagep) = ovflpage;
   PREV_PGNO(opagep) = item->pgno;
 
   /* Add this pair to the new page */
@@ -1825,10 +1824,12 @@ int ffdb_add_ovflpage (ffdb_htab_t* hashp,
     ffdb_put_page (hashp, item->pagep, HASH_BUCKET_PAGE, 0);
   }
   else {
+    /* chain the overflow page only when it holds the item */
+    NEXT_PGNO(item->pagep) = ovflpage;
     ffdb_put_page (hashp, opagep, HASH_OVFL_PAGE, 1);
     ffdb_put_page (hashp, item->pagep, HASH_BUCKET_PAGE, 1);
   }
-  return 0;
+  return status;
 }
 
 /**
-- 
2.43.0


From e2ab614f2ad81d39823784ae5ca44b32f9ae1bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:56 +0000
Subject: [PATCH 13/33] fix: an item that cannot be moved while its bucket is
 split is not silently dropped

---
 filehash/ffdb_page.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index f86f502..be4bbac 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -1899,7 +1899,7 @@ _ffdb_add_key_datap_to_bucket (ffdb_htab_t* hashp, FFDB_DBT* key,
 {
   pgno_t page, ovflpage, nextpage, tp;
   void *pagep, *opagep, *npagep;
-  int needovfl, reuse;
+  int needovfl, reuse, status = 0;
 
   /* First grab a page related to this bucket */
   npagep = pagep = ffdb_get_page (hashp, bucket, HASH_BUCKET_PAGE, 
@@ -1915,7 +1915,7 @@ _ffdb_add_key_datap_to_bucket (ffdb_htab_t* hashp, FFDB_DBT* key,
     /* check whether this pair should fit on this page */
     /* the following macro does not care the data part */
     if (PAIRFITS (npagep, key, dumb)) {
-      _ffdb_write_key_datap_to_page (hashp, key, datap, pagep, page);
+      status = _ffdb_write_key_datap_to_page (hashp, key, datap, pagep, page);
       needovfl = 0;
       /* release this page */
       ffdb_put_page (hashp, pagep, HASH_BUCKET_PAGE, 1);
@@ -1980,12 +1980,12 @@ _ffdb_add_key_datap_to_bucket (ffdb_htab_t* hashp, FFDB_DBT* key,
     ffdb_put_page (hashp, pagep, TYPE(pagep), 1); 
 
     /* add key and data pointer to this page */
-    _ffdb_write_key_datap_to_page (hashp, key, datap, opagep, ovflpage);
+    status = _ffdb_write_key_datap_to_page (hashp, key, datap, opagep, ovflpage);
 
     /* release this page */
     ffdb_put_page (hashp, opagep, HASH_OVFL_PAGE, 1);
   }
-  return 0;
+  return status;
 }
 
 /**
@@ -2004,6 +2004,7 @@ ffdb_split_bucket (ffdb_htab_t* hashp, unsigned int oldbucket,
   unsigned char *kdata = 0;
   ffdb_datap_t* datap = 0;
   int base_page = 1;
+  int status;
 
   /* This page may not be in memory or in use so FFDB_CREATE flag has to be 
    * used
@@ -2034,9 +2035,15 @@ ffdb_split_bucket (ffdb_htab_t* hashp, unsigned int oldbucket,
       /* Now we need to put this key and data pointer pair */
       if (_ffdb_call_hash (hashp, key.data, key.size) == oldbucket) 
 	/* this stays with old page without changing data pointer value */
-	_ffdb_add_key_datap_to_bucket (hashp, &key, datap, oldbucket);
+	status = _ffdb_add_key_datap_to_bucket (hashp, &key, datap, oldbucket);
       else 
-	_ffdb_add_key_datap_to_bucket (hashp, &key, datap, newbucket);
+	status = _ffdb_add_key_datap_to_bucket (hashp, &key, datap, newbucket);
+
+      if (status != 0) {
+	/* this item is off its old page already: going on would lose it */
+	fprintf (stderr, "Cannot move an item of bucket %d while splitting it. Quit!\n", oldbucket);
+	exit (1);
+      }
     }
     
     /* get next page number */
@@ -2048,8 +2055,13 @@ ffdb_split_bucket (ffdb_htab_t* hashp, unsigned int oldbucket,
     else  /* free overflow page */ 
       ffdb_delete_page (hashp, temp_pagep, HASH_OVFL_PAGE, isdoubling);
     
-    if (nextpage != INVALID_PGNO) 
+    if (nextpage != INVALID_PGNO) {
       temp_pagep = ffdb_get_page (hashp, nextpage, HASH_OVFL_PAGE, 0, &tp);
+      if (!temp_pagep) {
+	fprintf (stderr, "Cannot get overflow page %d while splitting bucket %d. Quit!\n", nextpage, oldbucket);
+	exit (1);
+      }
+    }
     else
       break;
   }
-- 
2.43.0


From 32f04e3d97bf21ee560dbede4aaee20656318923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:12 +0000
Subject: [PATCH 14/33] fix: a page that cannot be moved while rearranging is
 reported instead of leaving a half-moved file behind silently

---
 filehash/ffdb_hash.c |  8 ++++--
 filehash/ffdb_page.c | 67 ++++++++++++++++++++++----------------------
 2 files changed, 39 insertions(+), 36 deletions(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 408139b..70d93f8 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -266,7 +266,8 @@ _ffdb_hdestroy (ffdb_htab_t* hashp)
   int save_errno = 0;
 
   if (hashp->rearrange_pages && hashp->save_file)
-    ffdb_rearrage_pages_on_close (hashp);
+    if (ffdb_rearrage_pages_on_close (hashp) != 0)
+      save_errno = errno ? errno : EIO;
 
 #ifdef _FFDB_STATISTICS
   { 
@@ -945,7 +946,10 @@ __ffdb_hash_open (const char* fname, int flags, int mode, const void* arg)
    * new insert is expected or some pages was moved previously
    */
   if (!new_table && hashp->save_file && (hashp->rearrange_pages || hashp->hdr.num_moved_pages > 0)) 
-    ffdb_rearrage_pages_on_open (hashp);
+    if (ffdb_rearrage_pages_on_open (hashp) != 0) {
+      fprintf (stderr, "Cannot move pages back to their original places. Quit!\n");
+      exit (1);
+    }
 
 
   /* Find out current data page which is the last data page we are using */
diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index be4bbac..b498857 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -2241,20 +2241,22 @@ static void _ffdb_remove_pages (ffdb_htab_t* hashp,
  * @param newfirst first page of new pages to move into
  * @param newlast last page of new pages to move into
  *
- * @return last page number on the linked list after successful move. 
- * If there is no data pages being moved, INVALID_PGNO is returned
+ * @param dlast set to last page number on the linked list after successful
+ * move. If there is no data pages being moved, it is set to INVALID_PGNO
+ *
+ * @return 0 on success, -1 if a page could not be moved
  */
-static pgno_t
+static int
 _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
 		  pgno_t oldfirst, pgno_t oldlast,
-		  pgno_t newfirst, pgno_t newlast)
+		  pgno_t newfirst, pgno_t newlast, pgno_t* dlast)
 {
-  pgno_t dlast, page, rpage, tp;
+  pgno_t page, rpage, tp;
   pgno_t prevp, nextp;
   unsigned int numpages, i;
   void *pagep, *prevpagep, *nextpagep;
 
-  dlast = INVALID_PGNO;
+  *dlast = INVALID_PGNO;
   /* Create page header array to keep track old page information */
   numpages = oldlast - oldfirst + 1;
 
@@ -2266,7 +2268,7 @@ _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
     if (!pagep) {
       fprintf (stderr, "Cannot grab old page %d to move to new page %d.\n",
 	       page, rpage);
-      return dlast;
+      return -1;
     }
 
     if (TYPE(pagep) != type) {
@@ -2289,7 +2291,7 @@ _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
 	if (!nextpagep) {
 	  fprintf (stderr, "Cannot get next page %d not in the moving list for page %d\n", nextp, page);
 	  ffdb_put_page (hashp, pagep, TYPE(pagep), 0);
-	  return dlast;
+	  return -1;
 	}
 
 	PREV_PGNO(nextpagep) = rpage;
@@ -2305,7 +2307,7 @@ _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
        * update last new location of this page
        */
       if (type == HASH_DATA_PAGE)
-	dlast = rpage;
+	*dlast = rpage;
     }
 
 
@@ -2318,7 +2320,7 @@ _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
 	if (!prevpagep) {
 	  fprintf (stderr, "Cannot get previous page %d not in the moving list for page %d\n", prevp, page);
 	  ffdb_put_page (hashp, pagep, TYPE(pagep), 0);
-	  return dlast;
+	  return -1;
 	}
 
 	NEXT_PGNO(prevpagep) = rpage;
@@ -2346,7 +2348,7 @@ _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
 					  newfirst, newlast) != 0) {
 	/* Release this page and update page number */
 	ffdb_put_page (hashp, pagep, HASH_DATA_PAGE, 0);
-	return dlast;
+	return -1;
       }
 #ifdef _FFDB_DEBUG
       fprintf (stderr, "Update primary page for data page %d %d page = %d page sign = 0x%x\n", page, rpage, CURR_PGNO(pagep), PAGE_SIGN(pagep));
@@ -2362,7 +2364,7 @@ _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
 					   newfirst, newlast) != 0) {
 	/* Release this page and update page number */
 	ffdb_put_page (hashp, pagep, HASH_DATA_PAGE, 0);
-	return dlast;
+	return -1;
       }
 #ifdef _FFDB_DEBUG
       fprintf (stderr, "Update data page for primary page %d %d page = %d page sign = 0x%x\n", page, rpage, CURR_PGNO(pagep), PAGE_SIGN(pagep));
@@ -2378,7 +2380,7 @@ _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
     page++;    
   }
     
-  return dlast;
+  return 0;
 }
 
 /**
@@ -2392,6 +2394,7 @@ ffdb_rearrage_pages_on_close (ffdb_htab_t* hashp)
   pgno_t dlast, dfirst;
   unsigned int num_unused, num_pages;
   unsigned int num_page_moved;
+  pgno_t lastdpage;
 
   /* Find out how many pages are not used by reguler hash pages */
   num_unused = hashp->hdr.high_mask - hashp->hdr.max_bucket;
@@ -2436,16 +2439,14 @@ ffdb_rearrage_pages_on_close (ffdb_htab_t* hashp)
   fprintf (stderr, "We are going to move %d pages from %d to %d to new pages from %d to %d\n", num_page_moved, dfirst, dlast, funused, lunused);
 #endif
 
-  /* move data pages first */
-  _ffdb_move_pages (hashp, HASH_DATA_PAGE, dfirst, dlast,
-		    funused, lunused);
-
-  /* move overflow page next */
-  _ffdb_move_pages (hashp, HASH_BUCKET_PAGE, dfirst, dlast,
-		    funused, lunused);
-
-  _ffdb_move_pages (hashp, HASH_FREE_PAGE, dfirst, dlast,
-		    funused, lunused);
+  /* move data pages first, overflow pages next */
+  if (_ffdb_move_pages (hashp, HASH_DATA_PAGE, dfirst, dlast,
+			funused, lunused, &lastdpage) != 0 ||
+      _ffdb_move_pages (hashp, HASH_BUCKET_PAGE, dfirst, dlast,
+			funused, lunused, &lastdpage) != 0 ||
+      _ffdb_move_pages (hashp, HASH_FREE_PAGE, dfirst, dlast,
+			funused, lunused, &lastdpage) != 0)
+    return -1;
 
   hashp->hdr.num_moved_pages = num_page_moved;
 
@@ -2461,7 +2462,7 @@ int
 ffdb_rearrage_pages_on_open (ffdb_htab_t* hashp)
 {
   pgno_t oldfirst, oldlast, newfirst, newlast;
-  pgno_t lastdpage;
+  pgno_t lastdpage, tp;
   unsigned int num_page_moved;
 
   /* Check whether any pages has been moved when the database is closed */
@@ -2492,16 +2493,14 @@ ffdb_rearrage_pages_on_open (ffdb_htab_t* hashp)
 #endif
 
 
-  /* Move data pages first */
-  lastdpage = _ffdb_move_pages (hashp, HASH_DATA_PAGE, oldfirst, oldlast,
-				newfirst, newlast);
-
-  /* move overflow page next */
-  _ffdb_move_pages (hashp, HASH_BUCKET_PAGE, oldfirst, oldlast,
-		    newfirst, newlast);
-  
-  _ffdb_move_pages (hashp, HASH_FREE_PAGE, oldfirst, oldlast,
-		    newfirst, newlast);
+  /* Move data pages first, overflow pages next */
+  if (_ffdb_move_pages (hashp, HASH_DATA_PAGE, oldfirst, oldlast,
+			newfirst, newlast, &lastdpage) != 0 ||
+      _ffdb_move_pages (hashp, HASH_BUCKET_PAGE, oldfirst, oldlast,
+			newfirst, newlast, &tp) != 0 ||
+      _ffdb_move_pages (hashp, HASH_FREE_PAGE, oldfirst, oldlast,
+			newfirst, newlast, &tp) != 0)
+    return -1;
 
   /* If there are no data pages moved, unlikely but possible */
   if (lastdpage == INVALID_PGNO) 
-- 
2.43.0


From 5be0d810f9e00b0212b3fb1c3cc2b5c45db2c9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:01 +0000
Subject: [PATCH 15/33] fix: opening fails cleanly when the user or
 configuration pages cannot be read

---
 filehash/ffdb_hash.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 70d93f8..2605d94 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -479,6 +479,8 @@ _ffdb_read_user_info (ffdb_htab_t *hashp)
   for (i = 0; i < npages; i++) {
     mem = ffdb_get_page (hashp, start + i, HASH_UINFO_PAGE,
 			 flags, &tpage);
+    if (!mem)
+      return -1;
     ffdb_put_page (hashp, mem, HASH_UINFO_PAGE, dirty);
   }
   return 0;
@@ -511,6 +513,8 @@ _ffdb_read_config_info (ffdb_htab_t *hashp)
   for (i = 0; i < npages; i++) {
     mem = ffdb_get_page (hashp, start + i, HASH_CONFIG_PAGE,
 			 flags, &tpage);
+    if (!mem)
+      return -1;
     ffdb_put_page (hashp, mem, HASH_CONFIG_PAGE, dirty);
   }
   return 0;
@@ -881,8 +885,17 @@ __ffdb_hash_open (const char* fname, int flags, int mode, const void* arg)
 
 
   /* always read in user information page and configuration page */
-  _ffdb_read_user_info (hashp);
-  _ffdb_read_config_info (hashp);
+  if (_ffdb_read_user_info (hashp) != 0 ||
+      _ffdb_read_config_info (hashp) != 0) {
+    fprintf (stderr, "Cannot read user or configuration information of %s\n", fname);
+    ffdb_pagepool_close (hashp->mp);
+    close (hashp->fp);
+    free (hashp->fname);
+    free (hashp->split_buf);
+    free (hashp);
+    errno = EIO;
+    return 0;
+  }
 
   if (!(dbp = (FFDB_DB *)malloc(sizeof(FFDB_DB)))) {
     ffdb_pagepool_close (hashp->mp);
-- 
2.43.0


From 61f68199ce6e704dc640cfe4bef4c7fbe8370a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:45 +0000
Subject: [PATCH 16/33] fix: writing a page of a file in the other byte order
 leaves the cached page in memory order

---
 filehash/ffdb_pagepool.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index ac626ec..abd19fc 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -265,23 +265,32 @@ _ffdb_pagepool_write(ffdb_pagepool_t* pgp,
   off_t offset;
   int nbytes;
   int ret = 0;
+  void* image = bp->page;
 
 #ifdef _FFDB_STATISTICS
   ++pgp->pagewrite;
 #endif
 
-  /* Run through the user's filter. */
-  if (pgp->pgout)
-    (pgp->pgout)(pgp->pgcookie, bp->pgno, bp->page);
+  /* Run a copy of the page through the user's filter: the page itself
+   * stays in the cache and has to keep its in-memory form 
+   */
+  if (pgp->pgout) {
+    if ((image = malloc (pgp->pagesize)) == 0)
+      return -1;
+    memcpy (image, bp->page, pgp->pagesize);
+    (pgp->pgout)(pgp->pgcookie, bp->pgno, image);
+  }
 
   offset =  (off_t)pgp->pagesize * bp->pgno;
 
   if (lseek(pgp->fd, offset, SEEK_SET) != offset) 
     ret = -1;
   else {
-    if ((unsigned int)(nbytes = write(pgp->fd, bp->page, pgp->pagesize)) != pgp->pagesize) 
+    if ((unsigned int)(nbytes = write(pgp->fd, image, pgp->pagesize)) != pgp->pagesize) 
       ret = -1;
   }
+  if (image != bp->page)
+    free (image);
 
   if (ret == 0)
     FFDB_FLAG_CLR(bp->flags, FFDB_PAGE_DIRTY);
-- 
2.43.0


From cfeeb7273022abc2365443147368a270c135c586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:34 +0000
Subject: [PATCH 17/33] fix: sync and close also write changed pages that an
 open cursor holds

---
 filehash/ffdb_pagepool.c | 19 +++++++++++--------
 filehash/ffdb_pagepool.h |  3 +--
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index abd19fc..714c952 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -1420,15 +1420,16 @@ _ffdb_pagepool_sync_i (ffdb_pagepool_t* pgp, unsigned int numpages)
   ffdb_slh_t slh;
   FFDB_SLIST_INIT (&slh);
 
-  /* Walk through every bucket and check whether it is pinned
-   * If it is not pinned and it is dirty, I will sort these pages
-   * according to page number
+  /* Walk through every bucket and check whether it is dirty
+   * I will sort these pages according to page number. A partial flush
+   * ignores pages in use, a full one (numpages == 0) must not: a page 
+   * may be held by a cursor for as long as the cursor is open
    */
   num = 0;
   FFDB_CIRCLEQ_FOREACH(bp, &pgp->lqh, lq){
-    if (!FFDB_FLAG_ISSET(bp->flags, FFDB_PAGE_PINNED) &&
-	bp->waiters == 0 && 
-	FFDB_FLAG_ISSET(bp->flags, FFDB_PAGE_DIRTY)) {
+    if (FFDB_FLAG_ISSET(bp->flags, FFDB_PAGE_DIRTY) &&
+	(numpages == 0 ||
+	 (!FFDB_FLAG_ISSET(bp->flags, FFDB_PAGE_PINNED) && bp->waiters == 0))) {
       /* insert this bucket into a single linked list */
       sbp = (ffdb_sbkt_t *)malloc(sizeof(ffdb_sbkt_t));
       if (!sbp) {
@@ -1464,6 +1465,9 @@ _ffdb_pagepool_sync_i (ffdb_pagepool_t* pgp, unsigned int numpages)
 		 sbp->bp->pgno);
 	ret = -1;
       }
+      /* the holder of a page may still be changing it */
+      if (FFDB_FLAG_ISSET(sbp->bp->flags, FFDB_PAGE_PINNED))
+	FFDB_FLAG_SET(sbp->bp->flags, FFDB_PAGE_DIRTY);
     }
 #ifdef _FFDB_STATISTICS
     ++pgp->pageflush;
@@ -1479,8 +1483,7 @@ _ffdb_pagepool_sync_i (ffdb_pagepool_t* pgp, unsigned int numpages)
 
 
 /**
- * Flush all dirty pages back to the back end file. However, if any modified 
- * pages are in use. They will be ignored
+ * Flush all dirty pages back to the back end file, including those in use
  *
  * @param  pgp cache page pool pointer
  */
diff --git a/filehash/ffdb_pagepool.h b/filehash/ffdb_pagepool.h
index 6bfa585..23f77db 100644
--- a/filehash/ffdb_pagepool.h
+++ b/filehash/ffdb_pagepool.h
@@ -379,8 +379,7 @@ ffdb_pagepool_change_page (ffdb_pagepool_t* pgp, void* mem,
 
 
 /**
- * Flush all dirty pages back to the back end file. However, if any modified 
- * pages are in use. They will be ignored
+ * Flush all dirty pages back to the back end file, including those in use
  *
  * @param  pgp cache page pool pointer
  */
-- 
2.43.0


From ba3c8c648c20e57ce19668a215b123b90e255537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:04 +0000
Subject: [PATCH 18/33] fix: a page whose signature is damaged is reported
 instead of being taken for an empty page

---
 filehash/ffdb_page.c | 43 ++++++++++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index b498857..72b44ca 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -256,11 +256,40 @@ ffdb_pgin_routine (void* arg, pgno_t pgno, void* page)
   ffdb_htab_t* hashp;
   unsigned int chksum = 0;
 
+  unsigned int sign, saved, i;
+
   hashp = (ffdb_htab_t *)arg;
 
   /* calculate checksum before byte swapped */
   chksum = _ffdb_page_checksum (hashp, page);
 
+  /* check the page before any of it is used */
+  sign = PAGE_SIGN(page);
+  saved = CHKSUM(page);
+  if (hashp->hdr.lorder != hashp->mborder) {
+    M_32_SWAP(sign);
+    M_32_SWAP(saved);
+  }
+  if (sign != FFDB_PAGE_MAGIC) {
+    /* Only an unintialized page has no signature: its header is clean, 
+     * except for the checksum if it has been flushed before
+     */
+    for (i = 0; i < PAGE_OVERHEAD; i++) {
+      if ((i < CHKSUM_POS || i >= CHKSUM_OFFSET) && ((unsigned char *)page)[i] != 0)
+	break;
+    }
+    if (i < PAGE_OVERHEAD || (saved != 0 && saved != chksum)) {
+      fprintf (stderr, "Reading page %d: bad page signature 0x%x\n", pgno, sign);
+      exit (123);
+    }
+    _ffdb_init_page (hashp, page, pgno, HASH_DELETED_PAGE);
+    return;
+  }
+  if (chksum != saved) {
+    fprintf (stderr, "Reading page %d checksum mismatch 0x%x (new) != 0x%x (on disk)\n", pgno, chksum, saved);
+    exit (123);
+  }
+
 #if 0
   /* First swap the header to disk */
   if (hashp->mborder == LITTLE_ENDIAN) 
@@ -277,19 +306,7 @@ ffdb_pgin_routine (void* arg, pgno_t pgno, void* page)
   fprintf (stderr, "Page Information: PGNO %d PREV PGNO %d NEXT PGNO %d PAGE SIGN 0x%x\n",
 	   CURR_PGNO(page), PREV_PGNO(page),NEXT_PGNO(page), PAGE_SIGN(page));
   fprintf (stderr, "Page TYPE 0x%x OFFSET %d\n", TYPE(page), OFFSET(page));
-#endif  
-  
-  if (PAGE_SIGN(page) != FFDB_PAGE_MAGIC) {
-    /* This is a unintialized page */
-    _ffdb_init_page (hashp, page, pgno, HASH_DELETED_PAGE);
-  }
-  else {
-    if (chksum != CHKSUM(page)) {
-      /* The check sum chould 0 because this page is empty page */
-      fprintf (stderr, "Reading page %d checksum mismatch 0x%x (new) != 0x%x (on disk)\n", pgno, chksum, CHKSUM(page));
-      exit (123);
-    }
-  }
+#endif
 }
 
 /**
-- 
2.43.0


From 79caad25727fbd2c601c157eefedb758167b8486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:56 +0000
Subject: [PATCH 19/33] fix: user information of several pages in the other
 byte order keeps its bytes

---
 filehash/ffdb_page.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 72b44ca..1b7b522 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -175,7 +175,9 @@ _ffdb_swap_page_metainfo_in (void *p)
       M_32_SWAP(FREE_PAGE(p, i));
     break;
   case HASH_UINFO_PAGE:
-    M_32_SWAP(USER_DATA_LEN(p));
+    /* Only the first page holds the length */
+    if (NUM_ENT(p) == 1)
+      M_32_SWAP(USER_DATA_LEN(p));
     break;
   case HASH_CONFIG_PAGE:
     for (i = 0; i < NUM_ENT(p); i++) 
@@ -369,7 +371,9 @@ _ffdb_swap_page_metainfo_out (void *p)
       M_32_SWAP(FREE_PAGE(p, i));
     break;
   case HASH_UINFO_PAGE:
-    M_32_SWAP(USER_DATA_LEN(p));
+    /* Only the first page holds the length */
+    if (num == 1)
+      M_32_SWAP(USER_DATA_LEN(p));
     break;
   case HASH_CONFIG_PAGE:
     for (i = 0; i < num; i++) 
-- 
2.43.0


From 8f374b5debe96ce625e45362f9ce9923b0eff3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:56 +0000
Subject: [PATCH 20/33] fix: asking for user information with too small a
 buffer releases the page

---
 filehash/ffdb_page.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 1b7b522..9af9419 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -2780,6 +2780,7 @@ ffdb_get_uinfo (ffdb_htab_t* hashp, unsigned char data[],
     if (i == 0) {
       if (*len < USER_DATA_LEN(pagep)) {
 	fprintf (stderr, "Error: provided user buffer size %d < stored data length %d.\n", *len, USER_DATA_LEN(pagep));
+	ffdb_put_page (hashp, pagep, TYPE(pagep), 0);
 	return -1;
       }
       *len = USER_DATA_LEN(pagep);
-- 
2.43.0


From 22e868576ac9ef6d6090037a70e6159791dc4b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:55 +0000
Subject: [PATCH 21/33] fix: getting a configuration record does not depend on
 what the result structure held before

---
 filehash/ffdb_hash.c | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 2605d94..c9b63be 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -1548,13 +1548,6 @@ ffdb_get_config (const FFDB_DB* db, unsigned int confignum,
 
   hashp = (ffdb_htab_t *)db->internal;
 
-  if (config->index >= hashp->hdr.cfig_npages || config->index < 0) {
-    fprintf (stderr, "ffdb_set_config provides a wrong configuration index number %d ( shoud be less than %d) \n",
-	     config->index, hashp->hdr.cfig_npages);
-    errno = EINVAL;
-    return -1;
-  }
-
   return ffdb_get_config_info (hashp, confignum, config);
 }
 
-- 
2.43.0


From 1e5a723e43b3b53e994e33a4201fca930f2f5ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:55 +0000
Subject: [PATCH 22/33] fix: setting user or configuration information through
 a read-only handle is refused

---
 filehash/ffdb_hash.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index c9b63be..851d6d7 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -1480,6 +1480,12 @@ ffdb_set_all_configs (FFDB_DB* db, ffdb_all_config_info_t* configs)
 
   hashp = (ffdb_htab_t *)db->internal;
 
+  /* check file permission, if this is a read only file, cannot do it */
+  if ((hashp->flags & O_ACCMODE) == O_RDONLY) {
+    errno = EPERM;
+    return -1;
+  }
+
   /* Check whether configs have the same number of configs the database
    * thinks it should have
    */
@@ -1529,6 +1535,12 @@ ffdb_set_config (FFDB_DB* db, ffdb_config_info_t* config)
 
   hashp = (ffdb_htab_t *)db->internal;
 
+  /* check file permission, if this is a read only file, cannot do it */
+  if ((hashp->flags & O_ACCMODE) == O_RDONLY) {
+    errno = EPERM;
+    return -1;
+  }
+
   if ((unsigned int)config->index >= hashp->hdr.num_cfigs || config->index < 0) {
     fprintf (stderr, "ffdb_set_config provides a wrong configuration index number %d ( shoud be less than %d) \n",
 	     config->index, hashp->hdr.cfig_npages);
@@ -1561,6 +1573,12 @@ ffdb_set_user_info (FFDB_DB* db, unsigned char* data, unsigned int len)
 
   hashp = (ffdb_htab_t *)db->internal;
 
+  /* check file permission, if this is a read only file, cannot do it */
+  if ((hashp->flags & O_ACCMODE) == O_RDONLY) {
+    errno = EPERM;
+    return -1;
+  }
+
   if (len > hashp->hdr.uinfolen) {
     fprintf (stderr, "%d exceeds maximum allowed user data is %d\n", 
 	     len, hashp->hdr.uinfolen);
-- 
2.43.0


From 6d1b8c508ab33b8fc27141c5289ed4981b198c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:05 +0000
Subject: [PATCH 23/33] fix: a thread waiting for a page is signalled before it
 can free its condition variable

---
 filehash/ffdb_pagepool.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index 714c952..4f1d0d6 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -1275,16 +1275,15 @@ ffdb_pagepool_put_page (ffdb_pagepool_t* pgp, void* mem,
   if (bp->waiters > 0) {
     sleeper = FFDB_CIRCLEQ_LAST(&bp->wqh);
     sleeper->wakeup = 0xdeafbeaf;
-  }
-
-  FFDB_UNLOCK(pgp->lock);
-
-  /* bp->waiters will not be changed until other threads are waken up */
 #if 0
-  fprintf (stderr, "Signaling page %d free \n", bp->pgno);
+    fprintf (stderr, "Signaling page %d free \n", bp->pgno);
 #endif
-  if (sleeper)
+    /* signal while holding the lock: once the lock is released the waiter 
+     * may wake up by itself and free its condition variable */
     FFDB_COND_SIGNAL(sleeper->cv);
+  }
+
+  FFDB_UNLOCK(pgp->lock);
   return 0;
 }
 
-- 
2.43.0


From a389b8e0600d1556f388f824580980e3e6ba5299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:05 +0000
Subject: [PATCH 24/33] fix: concurrent stores no longer deadlock when one of
 them splits a bucket another one is looking at

---
 filehash/ffdb_hash.c | 12 ++++++++----
 filehash/ffdb_page.c |  2 --
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 851d6d7..ce29277 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -1279,6 +1279,11 @@ _ffdb_hash_put (const FFDB_DB* dbp, FFDB_DBT* key, const FFDB_DBT* data,
   /* Calculate the hash item size */
   item.seek_size = PAIRSIZE(key, data);
 
+  /* Stores are done one at a time: the bucket must not be split after it
+   * is calculated, and a thread splitting buckets must never wait for a 
+   * page held by another one waiting for the lock */
+  FFDB_LOCK(hashp->lock);
+
   /* calculate hash value for this key */
   bucket = _ffdb_call_hash (hashp, key->data, (unsigned int)key->size);
   item.bucket = bucket;
@@ -1288,13 +1293,12 @@ _ffdb_hash_put (const FFDB_DB* dbp, FFDB_DBT* key, const FFDB_DBT* data,
 #endif
 
   /* Now I need find a page on which this key may reside */
-  /* Find item is thread safe */
   status = ffdb_find_item (hashp, key, (FFDB_DBT *)data, &item);
-  if (status != 0)  /* Something is really wrong */
+  if (status != 0) { /* Something is really wrong */
+    FFDB_UNLOCK(hashp->lock);
     return status;
+  }
 
-
-  FFDB_LOCK(hashp->lock);
   if (item.status == ITEM_NO_MORE) {
     /* There is no item found, we need to insert this item */
     /* Find out whether there is space on this page to fit this pair */
diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 9af9419..c6c6900 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -1467,9 +1467,7 @@ int ffdb_find_item (ffdb_htab_t* hashp,
   }
 
 #ifdef _FFDB_STATISTICS
-  FFDB_LOCK (hashp->lock);
   hash_collisions++;
-  FFDB_UNLOCK (hashp->lock);
 #endif
 
   /* set item page number information */
-- 
2.43.0


From a001178be34da37ee56c47da5e90dcc513db59de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:42 +0000
Subject: [PATCH 25/33] fix: VFloatData loses the value of every float that is
 not a small integer

The bit pattern of each float is now written in network order; it was
converted to int and back to float. The pad field was written uninitialised
and a buffer shorter than the header was read past its end.
---
 src/VFloatData.cpp | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/VFloatData.cpp b/src/VFloatData.cpp
index 0fd00ee..ac924e7 100644
--- a/src/VFloatData.cpp
+++ b/src/VFloatData.cpp
@@ -123,18 +123,21 @@ namespace FILEDB
   void 
   VFloatData::writeObject (std::string& output) const noexcept (false)
   {
-    float* vcfbuf;
+    unsigned int* vcfbuf;
     unsigned short id;
-    unsigned short pad;
+    unsigned short pad = 0;
     unsigned int   num;
 
     num = hton_int(data_.size ());
     id = hton_short(serialID());
-    vcfbuf = new float[data_.size()];
+    vcfbuf = new unsigned int[data_.size()];
 
-    // assign complex data values to the array
-    for (std::size_t i = 0; i < data_.size(); i++) 
-      vcfbuf[i] = hton_int((int)data_[i]);
+    // put the bit pattern of each value into the array in network order
+    for (std::size_t i = 0; i < data_.size(); i++) {
+      unsigned int bits;
+      ::memcpy (&bits, &data_[i], sizeof(bits));
+      vcfbuf[i] = hton_int(bits);
+    }
 
     // output stream
     ostringstream ostrm;
@@ -167,12 +170,15 @@ namespace FILEDB
   void 
   VFloatData::readObject (const std::string& input)  noexcept (false)
   {
-    float* vcfbuf;
+    unsigned int* vcfbuf;
     unsigned short id;
     unsigned int   num;
     unsigned int hlen = 2 * sizeof(unsigned short) + sizeof(unsigned int);
     unsigned int idlen = sizeof(unsigned short);
     
+    if (input.length() < hlen)
+      throw SerializeException ("VFloatData", "Serial Binary Data Size error");
+
     const char* buf = input.data();
     ::memcpy (&id, buf, idlen);
     ::memcpy (&num, &buf[2*idlen], sizeof(unsigned int));
@@ -187,15 +193,17 @@ namespace FILEDB
       throw SerializeException ("VFloatData", "Serial Binary Data Size error");
 
     // copy all float values
-    vcfbuf = new float[num];
+    vcfbuf = new unsigned int[num];
     ::memcpy (vcfbuf, &buf[hlen], input.length() - hlen);
 
     // resize this vector
     data_.resize(num);
 
     // assign vector elements
-    for (unsigned int i = 0; i < num; i++) 
-      data_[i] = ntoh_int((int)vcfbuf[i]);
+    for (unsigned int i = 0; i < num; i++) {
+      unsigned int bits = ntoh_int(vcfbuf[i]);
+      ::memcpy (&data_[i], &bits, sizeof(bits));
+    }
 
     delete []vcfbuf;
   }
-- 
2.43.0


From 57c069f021c1142e29f7cfcb3f2fa153f77d8a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:24 +0000
Subject: [PATCH 26/33] fix: ConfDataStoreDB::exist dereferences a null handle
 when the store is not open

---
 src/ConfDataStoreDB.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ConfDataStoreDB.h b/src/ConfDataStoreDB.h
index a89ef45..941f2c9 100644
--- a/src/ConfDataStoreDB.h
+++ b/src/ConfDataStoreDB.h
@@ -419,6 +419,9 @@ namespace FILEDB
      */
     virtual bool exist(const K& key)
     {
+      if (!db->dbh_)
+        return false;
+
       int ret;
 
       try {
-- 
2.43.0


From de0ca226e2bbdd918dd2c11f56ef4dec97112870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:57 +0000
Subject: [PATCH 27/33] fix: AllConfStoreDB::setConfigInfo stores an
 uninitialised type and file names without a terminator

---
 src/AllConfStoreDB.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/AllConfStoreDB.h b/src/AllConfStoreDB.h
index f82db84..51f7e8a 100644
--- a/src/AllConfStoreDB.h
+++ b/src/AllConfStoreDB.h
@@ -170,9 +170,11 @@ namespace FILEDB
       for (std::size_t i = 0; i < names.size(); i++) {
 	if (names[i] == "N/A")
 	  allcfgs_->allconfigs[i].fname[0] = '\0';
-	else
+	else {
 	  strncpy (allcfgs_->allconfigs[i].fname, names[i].c_str(), 
 		   _FFDB_MAX_FNAME);
+	  allcfgs_->allconfigs[i].fname[_FFDB_MAX_FNAME - 1] = '\0';
+	}
       }
     }
       
@@ -729,8 +731,10 @@ namespace FILEDB
       info.config = config.configNumber();
       info.index = config.index();
       info.inserted = config.inserted ();
+      info.type = config.type ();
       info.mtime = config.modifiedTime();
       strncpy (info.fname, config.urlname().c_str(), _FFDB_MAX_FNAME);
+      info.fname[_FFDB_MAX_FNAME - 1] = '\0';
 
       return ffdb_set_config (this->db->dbh_, &info);
     }
-- 
2.43.0


From 2213034c1eacaa75e71df531449a281b3fa11e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:57 +0000
Subject: [PATCH 28/33] fix: AllConfStoreDB::update writes outside the record
 for a bad index and discards the other configurations of a key inserted in
 the same session

---
 src/AllConfStoreDB.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/AllConfStoreDB.h b/src/AllConfStoreDB.h
index 51f7e8a..10947ab 100644
--- a/src/AllConfStoreDB.h
+++ b/src/AllConfStoreDB.h
@@ -537,7 +537,12 @@ namespace FILEDB
       (void)config;
       int ret = 0;
 
-      if (empty_) {
+      if (index < 0 || index >= nbin_) {
+	std::cerr << "Update index " << index << " is not within the number of configurations " << nbin_ << std::endl;
+	return -1;
+      }
+
+      if (empty_ && !this->exist (key)) {
 	std::vector < D > thr;
 	thr.resize (nbin_);
 	thr[index] = v;
-- 
2.43.0


From fe06ae6db0da7536ab09ecfcf64e92c4ae47a55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:35 +0000
Subject: [PATCH 29/33] fix: AllConfStoreDB stores a vector whose elements
 differ in size, which cannot be told apart when read back

---
 src/AllConfStoreDB.h | 63 +++++++++++++++++++++++---------------------
 1 file changed, 33 insertions(+), 30 deletions(-)

diff --git a/src/AllConfStoreDB.h b/src/AllConfStoreDB.h
index 10947ab..396844e 100644
--- a/src/AllConfStoreDB.h
+++ b/src/AllConfStoreDB.h
@@ -397,19 +397,9 @@ namespace FILEDB
 	::exit (1);
       }
 
-      // if bytesize_ is not set, we set it now
-      if (bytesize_ == 0) {
-	std::string tmpstr;
-	try {
-	  v[0].writeObject (tmpstr);
-	}
-	catch (SerializeException& e) {
-	  std::cerr << "Serialize the first element in insert error: " << e.what () 
-		    << std::endl;
-	  return -1;
-	}
-	bytesize_ = tmpstr.size();
-      }
+      // all elements have the same size: if bytesize_ is not set, it is
+      // the size of the first element
+      std::size_t esize = bytesize_;
 
       // combine every element in the array into a string
       std::string dstr;
@@ -422,6 +412,12 @@ namespace FILEDB
 	  std::cerr << "Serialize insert individual element error: " << e.what() << std::endl;
 	  return -1;
 	}
+	if (i == 0 && esize == 0)
+	  esize = elem.size();
+	if (elem.size() != esize) {
+	  std::cerr << "Insert individual element has length " << elem.size() << " not equal to the length of the other " << esize << std::endl;
+	  return -1;
+	}
 	dstr.append (elem);
       }
 
@@ -433,6 +429,8 @@ namespace FILEDB
 	std::cerr << "InsertData key and string error: " << e.what () << std::endl;
 	::exit (1);
       }
+      if (ret == 0)
+	bytesize_ = esize;
       return ret;
     }
 
@@ -451,19 +449,9 @@ namespace FILEDB
 	::exit (1);
       }
 
-      // if bytesize_ is not set, we set it now
-      if (bytesize_ == 0) {
-	std::string tmpstr;
-	try {
-	  v[0].writeObject (tmpstr);
-	}
-	catch (SerializeException& e) {
-	  std::cerr << "Serialize the first element in insert error: " << e.what () 
-		    << std::endl;
-	  return -1;
-	}
-	bytesize_ = tmpstr.size();
-      }
+      // all elements have the same size: if bytesize_ is not set, it is
+      // the size of the first element
+      std::size_t esize = bytesize_;
 
       // combine every element in the array into a string
       std::string dstr;
@@ -476,6 +464,12 @@ namespace FILEDB
 	  std::cerr << "Serialize insert individual element error: " << e.what() << std::endl;
 	  return -1;
 	}
+	if (i == 0 && esize == 0)
+	  esize = elem.size();
+	if (elem.size() != esize) {
+	  std::cerr << "Insert individual element has length " << elem.size() << " not equal to the length of the other " << esize << std::endl;
+	  return -1;
+	}
 	dstr.append (elem);
       }
 
@@ -487,6 +481,8 @@ namespace FILEDB
 	std::cerr << "InsertData key and string error: " << e.what () << std::endl;
 	::exit (1);
       }
+      if (ret == 0)
+	bytesize_ = esize;
       return ret;
     }
 
@@ -506,19 +502,26 @@ namespace FILEDB
 	::exit (1);
       }
 
-      // if bytesize_ is not set, we set it now
-      if (bytesize_ == 0) 
-	bytesize_ = v[0].size();
+      // all elements have the same size: if bytesize_ is not set, it is
+      // the size of the first element
+      std::size_t esize = bytesize_ != 0 ? bytesize_ : v[0].size();
 
       // combine the vector of string into one big string
       std::string dstr;
-      for (unsigned int i = 0; i < v.size(); i++) 
+      for (unsigned int i = 0; i < v.size(); i++) {
+	if (v[i].size() != esize) {
+	  std::cerr << "Insert individual element has length " << v[i].size() << " not equal to the length of the other " << esize << std::endl;
+	  return -1;
+	}
 	dstr.append (v[i]);
+      }
 
       ret = this->insertBinary (key, dstr);
       if (ret != 0) {
 	std::cerr << __FILE__ << "cannot insert binary data" << std::endl;
       }
+      else
+	bytesize_ = esize;
       return ret;
     }
 
-- 
2.43.0


From 425915954b76ca3d1067e7933ed2c1a4bf214e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:29 +0000
Subject: [PATCH 30/33] fix: ConfDataDBMerger gives a configuration without
 database the file of the one before it, or shifts the records behind it

---
 src/ConfDataDBMerger.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ConfDataDBMerger.h b/src/ConfDataDBMerger.h
index 416c877..feac280 100644
--- a/src/ConfDataDBMerger.h
+++ b/src/ConfDataDBMerger.h
@@ -118,7 +118,8 @@ namespace FILEDB
 #endif
 	std::vector< std::string > thr;
 	
-	thr.resize (numconfigs);
+	// a configuration without database keeps an empty slot of the same size
+	thr.resize (numconfigs, std::string (data[i].size(), '\0'));
 
 	if (bag.find (keys[i])  != bag.end()) {
 	  std::cerr << "Cannot be right, this key should not be here" 
@@ -324,6 +325,8 @@ namespace FILEDB
 	  info.type (0);
 	  if ((*site) != "N/A")
 	    info.urlname (*site);
+	  else
+	    info.urlname ("");
 	  configs_.push_back (info);
 	  
 	  site++;
-- 
2.43.0


From 617469b080ab75379f4073c3b9b1a109b7b41922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:29 +0000
Subject: [PATCH 31/33] fix: ConfDataDBMerger divides by zero when one element
 of all configurations exceeds the memory limit

---
 src/ConfDataDBMerger.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ConfDataDBMerger.h b/src/ConfDataDBMerger.h
index feac280..d3ee316 100644
--- a/src/ConfDataDBMerger.h
+++ b/src/ConfDataDBMerger.h
@@ -257,6 +257,10 @@ namespace FILEDB
       // number of elements each iteration to use
       chunk = max_memory/asize > numelems ? numelems : max_memory/asize;
 
+      // at least one element, however small the memory limit
+      if (chunk < 1)
+	chunk = 1;
+
       // calculate cachesize for each single database
       cachesize = chunk * (key.length() + data.length());
       
-- 
2.43.0


From 7ca67b8c703ea01211bb8101b590706877bb20d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:23 +0000
Subject: [PATCH 32/33] fix: fileExists of the multi-file stores ignores the
 files it is given before open

---
 src/AllConfStoreMultipleDB.h  | 6 +++---
 src/ConfDataStoreMultipleDB.h | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/AllConfStoreMultipleDB.h b/src/AllConfStoreMultipleDB.h
index af1f74d..a24eea7 100644
--- a/src/AllConfStoreMultipleDB.h
+++ b/src/AllConfStoreMultipleDB.h
@@ -100,10 +100,10 @@ namespace FILEDB
      */
     virtual bool fileExists (const std::vector<std::string>& files) const
     {
-      int ret = true;
-      for(int i=0; i < dbs_.size(); ++i)
+      bool ret = true;
+      for(std::size_t i=0; i < files.size(); ++i)
       {
-	ret = dbs_[i].fileExists(files[i]);
+	ret = FILEDB::fileExists(files[i]);
 	if (! ret)
 	  return ret;
       }
diff --git a/src/ConfDataStoreMultipleDB.h b/src/ConfDataStoreMultipleDB.h
index 9ef3bb5..7332069 100644
--- a/src/ConfDataStoreMultipleDB.h
+++ b/src/ConfDataStoreMultipleDB.h
@@ -114,10 +114,10 @@ namespace FILEDB
      */
     virtual bool fileExists (const std::vector<std::string>& files) const
     {
-      int ret = false;
-      for(int i=0; i < dbs_.size(); ++i)
+      bool ret = false;
+      for(std::size_t i=0; i < files.size(); ++i)
       {
-	ret = dbs_[i].fileExists(files[i]);
+	ret = FILEDB::fileExists(files[i]);
 	if (! ret)
 	  return ret;
       }
-- 
2.43.0


From dff866338402c323a9a3731e9a40212779055266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:32 +0000
Subject: [PATCH 33/33] fix: backward cursor step reports a page that cannot be
 read instead of using it

---
 filehash/ffdb_page.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index c6c6900..2b12ed0 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -3002,6 +3002,12 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
 	cursor->item.pagep = ffdb_get_page (hashp, cursor->item.bucket,
 					    HASH_BUCKET_PAGE, 0, &tp);
 
+	if (!(cursor->item.pagep)) {
+	  fprintf (stderr, "Cannot get page for bucket %d for cursor.\n",
+		   cursor->item.bucket);
+	  cursor->item.status = ITEM_ERROR;
+	  return -1;
+	}
 
 	/* Skip empty buckets */
 	while (NUM_ENT(cursor->item.pagep) == 0) {
-- 
2.43.0

