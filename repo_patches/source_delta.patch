From 49d8c7dccbc4f71cd7cf286a601029d4e30d4e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:22 +0000
Subject: [PATCH 01/60] fix: sblist_free_values must free the stored pointers,
 not the slots holding them

---
 src/sblist/sblist_free_values.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sblist/sblist_free_values.c b/src/sblist/sblist_free_values.c
index 6b07e37..d8592fc 100644
--- a/src/sblist/sblist_free_values.c
+++ b/src/sblist/sblist_free_values.c
@@ -4,5 +4,5 @@
 void sblist_free_values(sblist *l) {
 	size_t i;
 	for(i=0; i<sblist_getsize(l); i++)
-		free(sblist_get(l, i));
+		free(*(void**)sblist_get(l, i));
 }
-- 
2.43.0


From 3641fec382469686ae31a49d2bd22a44ae802350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:22 +0000
Subject: [PATCH 02/60] fix: sblist with blockitems 0 must actually grow
 (wrapped data, items larger than a page)

---
 src/sblist/sblist.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sblist/sblist.c b/src/sblist/sblist.c
index 4e1860f..bd0d259 100644
--- a/src/sblist/sblist.c
+++ b/src/sblist/sblist.c
@@ -58,9 +58,11 @@ int sblist_set(sblist* l, void* item, size_t pos) {
 int sblist_grow_if_needed(sblist* l) {
 	char* temp;
 	if(l->count == l->capa) {
-		temp = realloc(l->items, (l->capa + l->blockitems) * l->itemsize);
+		size_t grow = l->blockitems ? l->blockitems : MY_PAGE_SIZE / l->itemsize;
+		if(!grow) grow = 1;
+		temp = realloc(l->items, (l->capa + grow) * l->itemsize);
 		if(!temp) return 0;
-		l->capa += l->blockitems;
+		l->capa += grow;
 		l->items = temp;
 	}
 	return 1;
-- 
2.43.0


From e1067a944d3737ca6453e7074caba118b235cf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:22 +0000
Subject: [PATCH 03/60] fix: sblist_insert must reject positions beyond the end
 of the list

---
 src/sblist/sblist_insert.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sblist/sblist_insert.c b/src/sblist/sblist_insert.c
index 12fa07a..1a38d26 100644
--- a/src/sblist/sblist_insert.c
+++ b/src/sblist/sblist_insert.c
@@ -2,6 +2,7 @@
 #include <string.h>
 
 int sblist_insert(sblist* l, void* item, size_t pos) {
+	if(pos > sblist_getsize(l)) return 0;
 	if(!sblist_grow_if_needed(l)) return 0;
 	memmove(sblist_item_from_index(l, pos + 1), sblist_item_from_index(l, pos), (sblist_getsize(l) - pos) * l->itemsize);
 	l->count++;
-- 
2.43.0


From fe8fdd5ff2b606c1aec4be8065f5254799f2a4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:56 +0000
Subject: [PATCH 04/60] fix: tlist_get must return NULL for an index outside
 the list

---
 src/tlist/tlist.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tlist/tlist.c b/src/tlist/tlist.c
index 1ac4c09..379c723 100644
--- a/src/tlist/tlist.c
+++ b/src/tlist/tlist.c
@@ -126,6 +126,7 @@ size_t tlist_getsize(struct tlist* t) {
 }
 
 void* tlist_get(struct tlist* t, size_t idx) {
+	if(idx >= cnt (t->root)) return 0;
 	return data(getitem(t->root, idx, 0));
 }
 
-- 
2.43.0


From 0513a122e57c9d1949b84cd71b670baa03df49de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:56 +0000
Subject: [PATCH 05/60] fix: tlist _deep functions must free the stored
 pointer, not the node's payload

---
 src/tlist/tlist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tlist/tlist.c b/src/tlist/tlist.c
index 379c723..a24e3a2 100644
--- a/src/tlist/tlist.c
+++ b/src/tlist/tlist.c
@@ -145,7 +145,7 @@ int tlist_append(struct tlist* t, void *value) {
 static int tlist_delete_impl(struct tlist *t, size_t idx, int deep) {
 	if(idx >= cnt (t->root)) return 0;
 	pitem it = getitem(t->root, idx, 0);
-	if(deep) free(data(it));
+	if(deep) free(*(void**)data(it));
 	remove(&t->root, idx, 0);
 	free(it);
 	return 1;
-- 
2.43.0


From 6e596a13c83ccb822a5ef416d87ee4bde141e3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:11 +0000
Subject: [PATCH 06/60] fix: bmap_delete/hbmap_delete must evaluate the
 position only once

---
 include/bmap.h  | 6 +++---
 include/hbmap.h | 3 ++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/bmap.h b/include/bmap.h
index 86da54a..a4c73d3 100644
--- a/include/bmap.h
+++ b/include/bmap.h
@@ -141,9 +141,9 @@ static inline void* bmap_new(bmap_compare_func fn) {
 	)
 
 #define bmap_delete(X, POS) ( \
-	(X)->tmp.ss = POS, \
-	tglist_delete(&(X)->keys, POS), \
-	bmap_cat(VAL_LIST_TYPE, _delete)(&(X)->values, POS) \
+	(X)->tmp.ss = (POS), \
+	tglist_delete(&(X)->keys, (X)->tmp.ss), \
+	bmap_cat(VAL_LIST_TYPE, _delete)(&(X)->values, (X)->tmp.ss) \
 	)
 
 static ssize_t bmap_find_impl(void* bm, const void* key, size_t keysize) {
diff --git a/include/hbmap.h b/include/hbmap.h
index 6f01369..541cff2 100644
--- a/include/hbmap.h
+++ b/include/hbmap.h
@@ -167,6 +167,7 @@ static hbmap_iter hbmap_next_valid_impl(void *h, hbmap_iter iter, size_t nbucks)
 	)
 
 #define hbmap_delete(X, ITER) ( \
-	bmap_delete(&(X)->buckets[hbmap_iter_bucket(ITER)], hbmap_iter_index(ITER)), 1)
+	((X)->tmp.it = (ITER)), \
+	bmap_delete(&(X)->buckets[hbmap_iter_bucket((X)->tmp.it)], hbmap_iter_index((X)->tmp.it)), 1)
 
 #endif
-- 
2.43.0


From 4b8e791ceab6e8ec37c806de9101f06b65327461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:11 +0000
Subject: [PATCH 07/60] fix: bmap_insert must return -1 when storing the value
 fails

---
 include/bmap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bmap.h b/include/bmap.h
index a4c73d3..0e16311 100644
--- a/include/bmap.h
+++ b/include/bmap.h
@@ -137,7 +137,7 @@ static inline void* bmap_new(bmap_compare_func fn) {
 #define bmap_insert(X, KEY, VAL) ( \
 		( (X)->tmp.ss = bmap_find(X, KEY) ) \
 		== (ssize_t) -1 ? bmap_insert_nocheck(X, KEY, VAL) : \
-		bmap_cat(VAL_LIST_TYPE, _set)(&(X)->values, VAL, (X)->tmp.ss), (X)->tmp.ss \
+		( bmap_cat(VAL_LIST_TYPE, _set)(&(X)->values, VAL, (X)->tmp.ss), (X)->tmp.ss ) \
 	)
 
 #define bmap_delete(X, POS) ( \
-- 
2.43.0


From 46f6f3fea7ddf3cffda438df5512e192276656d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:26 +0000
Subject: [PATCH 08/60] fix: hashlist_add must return -1 when growing the
 bucket fails

---
 src/hashlist/hashlist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashlist/hashlist.c b/src/hashlist/hashlist.c
index 1129353..990bc8c 100644
--- a/src/hashlist/hashlist.c
+++ b/src/hashlist/hashlist.c
@@ -21,7 +21,7 @@ int hashlist_add(hashlist* h, uint32_t hash, void* value) {
 		h->buckets[dstbkt] = sblist_new(h->datasize, 8);
 		if(!h->buckets[dstbkt]) return -1;
 	}
-	return !sblist_add(h->buckets[dstbkt], value);
+	return sblist_add(h->buckets[dstbkt], value) ? 0 : -1;
 }
 
 /* return a sblist containing all values matching the hash, or NULL if not found */
-- 
2.43.0


From d723102317d511e0566b284f579da34b859dfdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:26 +0000
Subject: [PATCH 09/60] fix: hashlist_next must not stop at a bucket whose list
 became empty

---
 src/hashlist/hashlist_iterator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashlist/hashlist_iterator.c b/src/hashlist/hashlist_iterator.c
index 0edfa5f..5e28c01 100644
--- a/src/hashlist/hashlist_iterator.c
+++ b/src/hashlist/hashlist_iterator.c
@@ -19,7 +19,7 @@ void hashlist_iterator_init(hashlist_iterator* iter) {
 void* hashlist_next(hashlist* h, hashlist_iterator* iter) {
 	if(iter->bucket_iter.pos >= (ssize_t) h->bucketcount) return NULL;
 	iter->pos++;
-	if(iter->bucket_iter.pos == -1 || (size_t) iter->pos >= sblist_getsize(h->buckets[iter->bucket_iter.pos])) {
+	while(iter->bucket_iter.pos == -1 || (size_t) iter->pos >= sblist_getsize(h->buckets[iter->bucket_iter.pos])) {
 		iter->pos = 0;
 		if(!hashlist_bucket_next(h, &iter->bucket_iter)) return NULL;
 	}
-- 
2.43.0


From f0cae9dc29689b914b024d31bf97778def824b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:44 +0000
Subject: [PATCH 10/60] fix: ssalloc pools of fewer than 8 elements must reuse
 freed elements

---
 include/ssalloc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ssalloc.c b/include/ssalloc.c
index 455631d..2030c47 100644
--- a/include/ssalloc.c
+++ b/include/ssalloc.c
@@ -83,9 +83,9 @@ static void* ssa_alloc(ssa_pool* p, size_t size) {
 		return ssa_set(p, p->top - 1);
 	}
 	if(p->avail) {
-		for(b = 0; b < SSA_MAXELEM / TYPEBITS(SSA_COMPARETYPE); b++) {
+		for(b = 0; b < (SSA_MAXELEM + TYPEBITS(SSA_COMPARETYPE) - 1) / TYPEBITS(SSA_COMPARETYPE); b++) {
 			if(*((SSA_COMPARETYPE*)(p->used + (sizeof(SSA_COMPARETYPE) * b))) != SSA_COMPARETYPE_ALL_BITS_SET)
-				for(i = TYPEBITS(SSA_COMPARETYPE) * b; i < TYPEBITS(SSA_COMPARETYPE) * (b + 1); i++)
+				for(i = TYPEBITS(SSA_COMPARETYPE) * b; i < TYPEBITS(SSA_COMPARETYPE) * (b + 1) && i < SSA_MAXELEM; i++)
 					if(!BA_GET(p->used, i))
 						return ssa_set(p, i);
 		}
-- 
2.43.0


From 722bc4f2b9463e8c7d3e47caa0e1a2b5766bac58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:44 +0000
Subject: [PATCH 11/60] fix: ssa_free must ignore pointers below the pool

---
 include/ssalloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ssalloc.c b/include/ssalloc.c
index 2030c47..669db0c 100644
--- a/include/ssalloc.c
+++ b/include/ssalloc.c
@@ -95,7 +95,7 @@ static void* ssa_alloc(ssa_pool* p, size_t size) {
 
 static void ssa_free(ssa_pool* p, void* ptr) {
 	ssize_t idx;
-	if((idx = ssa_getidx(p, ptr)) == -1 || idx >= SSA_MAXELEM || !BA_GET(p->used, idx))
+	if((idx = ssa_getidx(p, ptr)) < 0 || idx >= SSA_MAXELEM || !BA_GET(p->used, idx))
 #ifdef DEBUG
 		abort();
 #else
-- 
2.43.0


From cc2a918c5506cb2ea1bff012222eef29302158f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:44 +0000
Subject: [PATCH 12/60] fix: guard_alloc must not map an extra page that
 guard_free never returns, nor wrap on huge sizes

---
 include/guard_alloc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/guard_alloc.c b/include/guard_alloc.c
index 49c91d8..62fe91a 100644
--- a/include/guard_alloc.c
+++ b/include/guard_alloc.c
@@ -13,7 +13,8 @@
 static const size_t guard_alloc_pagesize = PAGE_SIZE;
 
 static void *guard_alloc(size_t n) {
-	size_t ps = guard_alloc_pagesize, pages = 1+n/ps;
+	size_t ps = guard_alloc_pagesize, pages = n/ps + !!(n%ps);
+	if(n > SIZE_MAX - 2*ps) return 0;
 	char *mem = mmap(0, (pages+1)*ps, PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
 	if(mem == MAP_FAILED) return 0;
 	if(mprotect(mem + pages*ps, ps, PROT_NONE)) {
-- 
2.43.0


From 1a1e6b3ad8d79755f10d29e21a2dd6ff1b2da704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:01 +0000
Subject: [PATCH 13/60] fix: utoa must handle values above INT_MAX

---
 src/strlib/utoa.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/strlib/utoa.c b/src/strlib/utoa.c
index 036984d..a1b1f91 100644
--- a/src/strlib/utoa.c
+++ b/src/strlib/utoa.c
@@ -9,7 +9,8 @@
   because it was written for agscc originally. */
 
 char *utoa(unsigned number, char* buffer) {
-	int lentest, len = 0, i, start = 0;
+	unsigned lentest;
+	int len = 0, i, start = 0;
 
 	lentest = number;
 	do {
-- 
2.43.0


From 7cd0dca468b4c9e9e549a01a4ad8c1337247e7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:05 +0000
Subject: [PATCH 14/60] fix: itoa must handle INT_MIN

---
 src/strlib/itoa.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/strlib/itoa.c b/src/strlib/itoa.c
index 45e2014..028cdff 100644
--- a/src/strlib/itoa.c
+++ b/src/strlib/itoa.c
@@ -8,11 +8,12 @@
   this function deliberately doesn't use pointer arithmetic
   because it was written for agscc originally. */
 
-char *itoa(int number, char* buffer) {
-	int lentest, len = 0, i, start;
+char *itoa(int num, char* buffer) {
+	unsigned lentest, number = num;
+	int len = 0, i, start;
 
-	if(number >> 31) {
-		number = number * -1;
+	if(num < 0) {
+		number = -number;
 		buffer[0] = '-';
 		start = 1;
 	} else
-- 
2.43.0


From f39483ee760b569e58e13c18e0288115c9833e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:10 +0000
Subject: [PATCH 15/60] fix: numberToString must strip leading zeros unless
 NTS_PAD is given, whatever the other flags

---
 src/strlib/numberToString.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/strlib/numberToString.c b/src/strlib/numberToString.c
index a8e6689..5361a7f 100644
--- a/src/strlib/numberToString.c
+++ b/src/strlib/numberToString.c
@@ -37,7 +37,7 @@ char* numberToString(uint64_t number, unsigned base, char* buffer, size_t maxlen
 	for(i = 0; i < len; i++) result[i] = '0';
 	result[len] = 0;
 	if(!number) {
-		if(!flags & NTS_PAD) result += len - 1;
+		if(!(flags & NTS_PAD)) result += len - 1;
 		return result;
 	}
 
@@ -52,8 +52,8 @@ char* numberToString(uint64_t number, unsigned base, char* buffer, size_t maxlen
 		len -= 1;
 		number /= base;
 	}
-	if (!flags & NTS_PAD) {
-		for (i = 0; i < tmp; i++) {
+	if (!(flags & NTS_PAD)) {
+		for (i = 0; i + 1 < tmp; i++) {
 			if (result[i] == '0') shr ++;
 			else break;
 		}
-- 
2.43.0


From 5b79efa5aaf0de3a71af30f10383428f30da813a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:15 +0000
Subject: [PATCH 16/60] fix: numberToString must return NULL for base 0

---
 src/strlib/numberToString.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/strlib/numberToString.c b/src/strlib/numberToString.c
index 5361a7f..4bdda59 100644
--- a/src/strlib/numberToString.c
+++ b/src/strlib/numberToString.c
@@ -16,7 +16,7 @@ char* numberToString(uint64_t number, unsigned base, char* buffer, size_t maxlen
 	size_t tmp, len = 0, i;
 	int shr = 0;
 	
-	if(base % 2 || base > conv_cypher_len) return NULL;
+	if(!base || base % 2 || base > conv_cypher_len) return NULL;
 	
 	int hasSign = (flags & NTS_SIGNED_TYPE) && number >> 63 == 1;
 	if(hasSign) number = ~number + 1;
-- 
2.43.0


From 808d30b0c42392f05816f2d853b9058e6318950f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:13 +0000
Subject: [PATCH 17/60] fix: ulz_vsnprintf must not write anything when
 destsize is 0

---
 src/format/ulz_vsnprintf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/format/ulz_vsnprintf.c b/src/format/ulz_vsnprintf.c
index 0c34258..10d661d 100644
--- a/src/format/ulz_vsnprintf.c
+++ b/src/format/ulz_vsnprintf.c
@@ -7,7 +7,7 @@
 // destsize is treated like in the original. it will leave space for a trailing 0,
 // if NULL is passed as dest it will return the number of bytes it would haven written if a sufficiently large buffer was provided.
 ssize_t ulz_vsnprintf(char* dest, size_t destsize, const char* format, va_list ap) {
-	char *ins, *a, *o = dest, *omax = dest ? dest + destsize - 1: NULL;
+	char *ins, *a, *o = dest, *omax = dest && destsize ? dest + destsize - 1: dest;
 	char cbuf[32];
 	uint64_t inn;
 	size_t i,j, width = 0;
@@ -106,6 +106,6 @@ ssize_t ulz_vsnprintf(char* dest, size_t destsize, const char* format, va_list a
 			} else if(!o) res++;
 		}
 	}
-	if(o) o[0] = 0;
+	if(o && destsize) o[0] = 0;
 	return res;
 }
-- 
2.43.0


From 9bb6ebc78594ccf95925e7204427b50d11655d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:18 +0000
Subject: [PATCH 18/60] fix: ulz_vsnprintf must not sign-extend the argument of
 %x

---
 src/format/ulz_vsnprintf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/format/ulz_vsnprintf.c b/src/format/ulz_vsnprintf.c
index 10d661d..1b52bcd 100644
--- a/src/format/ulz_vsnprintf.c
+++ b/src/format/ulz_vsnprintf.c
@@ -54,7 +54,6 @@ ssize_t ulz_vsnprintf(char* dest, size_t destsize, const char* format, va_list a
 					goto strmove;
 				case 'd':
 					nflags = NTS_SIGNED_TYPE;
-					intstart:
 					inn = va_arg(ap, int);
 					nconv:
 					if(width) nflags |= NTS_PAD;
@@ -93,7 +92,8 @@ ssize_t ulz_vsnprintf(char* dest, size_t destsize, const char* format, va_list a
 				case 'x': case 'X':
 					base = 16;
 					nflags = (*a == 'x') ? NTS_LOWERCASE_CHARS : 0;
-					goto intstart;
+					inn = va_arg(ap, unsigned);
+					goto nconv;
 				default:
 					goto fail;
 			}
-- 
2.43.0


From 9474f2245104e8576727026bf0171134e84fb11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:23 +0000
Subject: [PATCH 19/60] fix: ulz_vsnprintf must treat %.N as the minimum digit
 count, for any N

---
 src/format/ulz_vsnprintf.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/format/ulz_vsnprintf.c b/src/format/ulz_vsnprintf.c
index 1b52bcd..9fb86fb 100644
--- a/src/format/ulz_vsnprintf.c
+++ b/src/format/ulz_vsnprintf.c
@@ -31,7 +31,7 @@ ssize_t ulz_vsnprintf(char* dest, size_t destsize, const char* format, va_list a
 						return -1;
 					}
 					width = 0;
-					for(j = 0; j < i; j++) width += (a[j] - '0') * (j ? (10 * (i - 1 - j)) : 1);
+					for(j = 0; j < i; j++) width = width * 10 + (a[j] - '0');
 					a += i - 1;
 					goto checkmod;
 				case 's':
@@ -56,8 +56,24 @@ ssize_t ulz_vsnprintf(char* dest, size_t destsize, const char* format, va_list a
 					nflags = NTS_SIGNED_TYPE;
 					inn = va_arg(ap, int);
 					nconv:
-					if(width) nflags |= NTS_PAD;
-					ins = numberToString(inn, base, cbuf, width, nflags);
+					ins = numberToString(inn, base, cbuf, 0, nflags);
+					i = strlen(ins);
+					if(*ins == '-') {
+						i--;
+						if(o < omax) {
+							*o = *ins;
+							o++;
+							res++;
+						} else if(!o) res++;
+						ins++;
+					}
+					for(; i < width; i++) {
+						if(o < omax) {
+							*o = '0';
+							o++;
+							res++;
+						} else if(!o) res++;
+					}
 					width = 0;
 					base = 10;
 					goto strmove;
-- 
2.43.0


From 1a60bc495afb579087f846875327c4fa1bbb10e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:30 +0000
Subject: [PATCH 20/60] fix: ulz_printf/ulz_fprintf must print nothing when the
 format is rejected

---
 src/format/ulz_fprintf.c | 2 +-
 src/format/ulz_printf.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/format/ulz_fprintf.c b/src/format/ulz_fprintf.c
index ae605f7..708e68e 100644
--- a/src/format/ulz_fprintf.c
+++ b/src/format/ulz_fprintf.c
@@ -9,7 +9,7 @@ void ulz_fprintf(int fd, const char* fmt, ...) {
 	va_start(ap, fmt);
 	ssize_t result = ulz_vsnprintf(dest, sizeof(dest), fmt, ap);
 	va_end(ap);
-	if(result) {
+	if(result > 0) {
 		write(fd, dest, result);
 	}
 }
diff --git a/src/format/ulz_printf.c b/src/format/ulz_printf.c
index bc3f342..0b1c5dd 100644
--- a/src/format/ulz_printf.c
+++ b/src/format/ulz_printf.c
@@ -9,7 +9,7 @@ void ulz_printf(const char* fmt, ...) {
 	va_start(ap, fmt);
 	ssize_t result = ulz_vsnprintf(dest, sizeof(dest), fmt, ap);
 	va_end(ap);
-	if(result) {
+	if(result > 0) {
 		write(1, dest, result);
 	}
 }
-- 
2.43.0


From 62b82d1f39a179ff6b4d9be3f889a8e1660c5f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:36 +0000
Subject: [PATCH 21/60] fix: stringptr_format must fail on a rejected format
 instead of returning size -1, and not leak on a NULL format

---
 src/stringptr/stringptr_format.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/stringptr/stringptr_format.c b/src/stringptr/stringptr_format.c
index 42293a5..58bd814 100644
--- a/src/stringptr/stringptr_format.c
+++ b/src/stringptr/stringptr_format.c
@@ -5,11 +5,17 @@
 
 stringptr* stringptr_format(char* fmt, ...) {
 	const size_t BUF_SIZE = 1000;
-	stringptr* result = stringptr_new(BUF_SIZE);
-	if(!result || !fmt) return NULL;
+	stringptr* result;
+	ssize_t size;
+	if(!fmt || !(result = stringptr_new(BUF_SIZE))) return NULL;
 	va_list ap;
 	va_start(ap, fmt);
-	result->size = ulz_vsnprintf(result->ptr, BUF_SIZE, fmt, ap);
+	size = ulz_vsnprintf(result->ptr, BUF_SIZE, fmt, ap);
 	va_end(ap);
+	if(size < 0) {
+		stringptr_free(result);
+		return NULL;
+	}
+	result->size = size;
 	return result;
 }
-- 
2.43.0


From 6422f5e682ab8b776a6ab974d67601e270bc6b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:44 +0000
Subject: [PATCH 22/60] fix: stdio-repl puts must append a newline

---
 include/stdio-repl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdio-repl.h b/include/stdio-repl.h
index 029dac2..80abdd7 100644
--- a/include/stdio-repl.h
+++ b/include/stdio-repl.h
@@ -44,6 +44,6 @@
 #define dprintf(...) ulz_fprintf(__VA_ARGS__)
 
 #define perror(x) log_puterror(2, x)
-#define puts(x) log_putc(1, x)
+#define puts(x) (log_putc(1, x), log_putln(1))
 
 #endif
-- 
2.43.0


From 535e40d979177458a13f1ca2bbfb14bef244f43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:47 +0000
Subject: [PATCH 23/60] fix: findword must not take the middle of a word for
 its start

---
 src/strlib/findword.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/strlib/findword.c b/src/strlib/findword.c
index 00e0806..4b584e1 100644
--- a/src/strlib/findword.c
+++ b/src/strlib/findword.c
@@ -21,9 +21,9 @@ static inline int isTrailingWhitespace(char c) {
 }
 
 char* findword(char* buf, char* word_uc, size_t word_len) {
-	char* res = buf;
+	char *res = buf, *start = buf;
 	while(*res && (res = strstr_uc(buf, word_uc, word_len))) {
-		if((res == buf || isLeadingWhitespace(res[-1])) &&
+		if((res == start || isLeadingWhitespace(res[-1])) &&
 		   (res[word_len] == 0 || isTrailingWhitespace(res[word_len])))
 			return res;
 		else buf = res + 1;
-- 
2.43.0


From 264403db776311ad75c1654a12642ec267d05621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:51 +0000
Subject: [PATCH 24/60] fix: strstr_uc and strstar must resume right after the
 failed start position

---
 src/strlib/strstar.c   | 2 +-
 src/strlib/strstr_uc.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/strlib/strstar.c b/src/strlib/strstar.c
index 6b5165d..dfda983 100644
--- a/src/strlib/strstar.c
+++ b/src/strlib/strstar.c
@@ -13,7 +13,7 @@ char* strstar(const char* haystack, const char* needle, size_t needlesize) {
 		}
 		return save;
 		next:
-		haystack++;
+		haystack = save + 1;
 	}
 	return NULL;
 }
diff --git a/src/strlib/strstr_uc.c b/src/strlib/strstr_uc.c
index 37e2d76..667fb48 100644
--- a/src/strlib/strstr_uc.c
+++ b/src/strlib/strstr_uc.c
@@ -18,7 +18,7 @@ char* strstr_uc(char* haystack, char* needle, size_t needlesize) {
 		}
 		return save;
 		next:
-		haystack++;
+		haystack = save + 1;
 	}
 	return NULL;
 }
-- 
2.43.0


From cfa22a56e2a952b8a634ff8c77b32cabe8e92473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:58 +0000
Subject: [PATCH 25/60] fix: strdup_n must terminate the copy and not read
 beyond the given length

---
 src/strlib/strdup_n.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/strlib/strdup_n.c b/src/strlib/strdup_n.c
index 5aa6e96..058f84a 100644
--- a/src/strlib/strdup_n.c
+++ b/src/strlib/strdup_n.c
@@ -5,8 +5,10 @@
 char* strdup_n(char* str, size_t len) {
 	if (!str || !len) return NULL;
 	char * res;
-	if((res = malloc(len + 1)))
-		memcpy(res, str, len + 1);
+	if((res = malloc(len + 1))) {
+		memcpy(res, str, len);
+		res[len] = 0;
+	}
 	return res;
 }
 
-- 
2.43.0


From afee349d6efa329312b809ed338fa911b059c0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:04 +0000
Subject: [PATCH 26/60] fix: isnumericipv4 must reject a trailing dot and
 numbers above 255

---
 src/strlib/isnumericipv4.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/strlib/isnumericipv4.c b/src/strlib/isnumericipv4.c
index c6280d4..f3b1b2e 100644
--- a/src/strlib/isnumericipv4.c
+++ b/src/strlib/isnumericipv4.c
@@ -2,19 +2,22 @@
 
 int isnumericipv4(const char* ipstring) {
 	size_t x = 0, n = 0, d = 0;
-	int wasdot = 0;
+	int wasdot = 1, v = 0;
 	while(1) {
 		switch(ipstring[x]) {
 			case 0: goto done;
 			case '.': 
-				if(!n || wasdot) return 0;
+				if(wasdot) return 0;
 				d++; 
 				wasdot = 1;
+				v = 0;
 				break;
 			case '0': case '1': case '2': case '3': case '4':
 			case '5': case '6': case '7': case '8': case '9':
 				n++; 
 				wasdot = 0;
+				v = v * 10 + (ipstring[x] - '0');
+				if(v > 255) return 0;
 				break;
 			default:
 				return 0;
@@ -22,7 +25,7 @@ int isnumericipv4(const char* ipstring) {
 		x++;
 	}
 	done:
-	if(d == 3 && n >= 4 && n <= 12) return 1;
+	if(d == 3 && !wasdot && n <= 12) return 1;
 	return 0;
 }
 
-- 
2.43.0


From 6a7b63361fa13943c9c0e7b3a3b6d5b604981d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:07 +0000
Subject: [PATCH 27/60] fix: stringptr_here must not read outside the string
 for positions beyond its end

---
 src/stringptr/stringptr_here.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stringptr/stringptr_here.c b/src/stringptr/stringptr_here.c
index 557bc7f..007adf3 100644
--- a/src/stringptr/stringptr_here.c
+++ b/src/stringptr/stringptr_here.c
@@ -2,7 +2,7 @@
 #include <string.h>
 
 int stringptr_here(stringptr* haystack, size_t bufpos, stringptr* needle) {
-	if(needle->size <= haystack->size - bufpos) {
+	if(bufpos <= haystack->size && needle->size <= haystack->size - bufpos) {
 		if(!memcmp(needle->ptr, haystack->ptr + bufpos, needle->size))
 			return 1;
 	}
-- 
2.43.0


From e167db834df14f99f9ec112a2df86b799633603d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:14 +0000
Subject: [PATCH 28/60] fix: stringptr_rchr must find bytes above 127

---
 src/stringptr/stringptr_rchr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stringptr/stringptr_rchr.c b/src/stringptr/stringptr_rchr.c
index c55fb1a..8662baf 100644
--- a/src/stringptr/stringptr_rchr.c
+++ b/src/stringptr/stringptr_rchr.c
@@ -5,7 +5,7 @@ char* stringptr_rchr(stringptr* haystack, int needle) {
 	ssize_t i;
 	if(!haystack || !haystack->size) return NULL;
 	for(i = haystack->size - 1; i >= 0; i--) {
-		if(haystack->ptr[i] == needle)
+		if(haystack->ptr[i] == (char) needle)
 			return haystack->ptr + i;
 	}
 	return NULL;
-- 
2.43.0


From b60c027a1cfd32e278b00a6550549252f7ffd867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:20 +0000
Subject: [PATCH 29/60] fix: read_stdin_line must only chomp a newline

---
 src/stringptr/read_stdin_line.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stringptr/read_stdin_line.c b/src/stringptr/read_stdin_line.c
index 0fb4baa..011e138 100644
--- a/src/stringptr/read_stdin_line.c
+++ b/src/stringptr/read_stdin_line.c
@@ -9,7 +9,7 @@ stringptr read_stdin_line(char* buf, size_t bufsize, int chomp) {
 	if((fgets_result = fgets(buf, bufsize, stdin))) {
 		stringptr line;
 		stringptr_fromchar(fgets_result, &line);
-		if(chomp) 
+		if(chomp && line.size && line.ptr[line.size - 1] == '\n')
 			stringptr_shiftleft(&line, 1); // remove trailing \n
 		return line;
 	}
-- 
2.43.0


From 74a8e0b405d51b942cae7551993a05e78dd8f935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:33 +0000
Subject: [PATCH 30/60] fix: stringptr_splitc must split at bytes above 127

---
 src/stringptrlist/stringptr_splitc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stringptrlist/stringptr_splitc.c b/src/stringptrlist/stringptr_splitc.c
index 1d1f2b8..d65c1c6 100644
--- a/src/stringptrlist/stringptr_splitc.c
+++ b/src/stringptrlist/stringptr_splitc.c
@@ -11,7 +11,7 @@ stringptrlist* stringptr_splitc(stringptr* buf, int delim) {
 	if(!result) return NULL;
 
 	for(i=0;i<=buf->size;i++) {
-		if(i == buf->size || buf->ptr[i] == delim) {
+		if(i == buf->size || buf->ptr[i] == (char) delim) {
 			stringptrlist_add(result, buf->ptr + linestart, i - linestart);
 			linestart = i+1;
 			buf->ptr[i] = 0;
-- 
2.43.0


From b3ca37f6204f3e31d8683a785c254e16cabc7814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:33 +0000
Subject: [PATCH 31/60] fix: stringptr_splits must not loop forever on an empty
 delimiter

---
 src/stringptrlist/stringptr_splits.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stringptrlist/stringptr_splits.c b/src/stringptrlist/stringptr_splits.c
index 024bb1b..04c6ccf 100644
--- a/src/stringptrlist/stringptr_splits.c
+++ b/src/stringptrlist/stringptr_splits.c
@@ -12,11 +12,11 @@ stringptrlist* stringptr_splits(stringptr* buf, stringptr* delim) {
 	if(!result) return NULL;
 	i = 0;
 	while(i<=buf->size) {
-		if(i == buf->size || stringptr_here(buf, i, delim)) {
+		if(i == buf->size || (delim->size && stringptr_here(buf, i, delim))) {
 			stringptrlist_add(result, buf->ptr + linestart, i - linestart);
 			linestart = i + delim->size;
 			buf->ptr[i] = 0;
-			i += delim->size;
+			i += delim->size ? delim->size : 1;
 		} else
 			i++;
 	}
-- 
2.43.0


From 043989f7cab4cd00ca42196726e6fa55aef371a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:39 +0000
Subject: [PATCH 32/60] fix: stringptr_replace must free the whole temporary
 list

---
 src/stringptrlist/stringptr_replace.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/stringptrlist/stringptr_replace.c b/src/stringptrlist/stringptr_replace.c
index e72bc08..6cf48ea 100644
--- a/src/stringptrlist/stringptr_replace.c
+++ b/src/stringptrlist/stringptr_replace.c
@@ -7,7 +7,10 @@ stringptr* stringptr_replace(stringptr* buf, stringptr* what, stringptr* whit) {
 	size_t i, w;
 	if((l = stringptr_splits(buf, what))) {
 		result = stringptr_new(buf->size - ((stringptrlist_getsize(l) - 1) * what->size) + ((stringptrlist_getsize(l) - 1) * whit->size));
-		if(!result) return NULL;
+		if(!result) {
+			stringptrlist_free(l);
+			return NULL;
+		}
 		w = 0;
 		for(i = 0; i < stringptrlist_getsize(l); i++) {
 			if((temp = stringptrlist_get(l, i))) {
@@ -21,7 +24,7 @@ stringptr* stringptr_replace(stringptr* buf, stringptr* what, stringptr* whit) {
 				}
 			}
 		}
-		free(l);
+		stringptrlist_free(l);
 	}
 	return result;
 }
-- 
2.43.0


From bae65b45ba510bcc2ef408b5916d4af286c395e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:37 +0000
Subject: [PATCH 33/60] fix: stringptr_fromfile must fail instead of looping
 forever when the file gets shorter

---
 src/stringptr/stringptr_fromfile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stringptr/stringptr_fromfile.c b/src/stringptr/stringptr_fromfile.c
index 32a7f4a..ebfbac8 100644
--- a/src/stringptr/stringptr_fromfile.c
+++ b/src/stringptr/stringptr_fromfile.c
@@ -24,7 +24,7 @@ stringptr* stringptr_fromfile(char* filename) {
 
 	while(bufpos < size) {
 		bytesleft = size - bufpos;
-		if((bread = read(f, buf->ptr + bufpos, bytesleft > 64*1024 ? 64*1024 : bytesleft)) < 0) {
+		if((bread = read(f, buf->ptr + bufpos, bytesleft > 64*1024 ? 64*1024 : bytesleft)) <= 0) {
 			stringptr_free(buf);
 			buf = NULL;
 			goto FEXIT;
-- 
2.43.0


From f8e417f051dcecc1ae48036e8ecd4085b227020d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:53 +0000
Subject: [PATCH 34/60] fix: stringptrlist_fromfile must not stop at blank
 lines nor report success before the end of the file

---
 src/stringptrlist/stringptrlist_fromfile.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/stringptrlist/stringptrlist_fromfile.c b/src/stringptrlist/stringptrlist_fromfile.c
index 9614b87..d4eb0c6 100644
--- a/src/stringptrlist/stringptrlist_fromfile.c
+++ b/src/stringptrlist/stringptrlist_fromfile.c
@@ -4,12 +4,12 @@
 int stringptrlist_fromfile(stringptrlist* l, const char* fn) {
 	fileparser f;
 	stringptr line;
-	int success = 0;
+	int ret, success = 0;
 	if(fileparser_open(&f, fn)) goto err;
-	while(!fileparser_readline(&f) && !fileparser_getline(&f, &line) && line.size) {
+	while(!(ret = fileparser_readline(&f)) && !fileparser_getline(&f, &line)) {
 		if(!stringptrlist_add_strdup(l, &line)) goto ferr;
 	}
-	success = 1;
+	success = (ret == -2); // end of file
 	ferr:
 	fileparser_close(&f);
 	err:
-- 
2.43.0


From 445a8650e140489a75d1b716c4e22ea14d8fc6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:11 +0000
Subject: [PATCH 35/60] fix: fileparser_readline_userbuf must not take a short
 read for the end of the file

---
 src/fileparser/fileparser_readline_userbuf.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/fileparser/fileparser_readline_userbuf.c b/src/fileparser/fileparser_readline_userbuf.c
index 9596076..10ff60d 100644
--- a/src/fileparser/fileparser_readline_userbuf.c
+++ b/src/fileparser/fileparser_readline_userbuf.c
@@ -3,11 +3,21 @@
 int fileparser_readline_userbuf(fileparser* parser, char* buf, size_t bufsize) {
 	size_t i;
 	size_t found = 0;
+	size_t got = 0;
 	ssize_t ret;
+	int err;
 	if(!parser || !parser->file) return -1;
-	if(!(ret = read(parser->file, buf, bufsize))) return -2;
-	if(ret == -1) return errno;
-	parser->len = (size_t) ret;
+	/* a short read is not necessarily the end of the file */
+	while(got < bufsize && (ret = read(parser->file, buf + got, bufsize - got))) {
+		if(ret == -1) {
+			err = errno;
+			if(got) lseek(parser->file, (off_t) parser->fpos, SEEK_SET);
+			return err;
+		}
+		got += (size_t) ret;
+	}
+	if(!got) return -2;
+	parser->len = got;
 	for(i = 0; i < parser->len; i++) {
 		if(buf[i] == '\n') {
 			found = 1;
-- 
2.43.0


From be34379e5951d1d02e3da58ec1079d2dd851062b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:09 +0000
Subject: [PATCH 36/60] fix: fileparser_getnextlinelength must restore the
 position on failure too

---
 src/fileparser/fileparser_getnextlinelength.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fileparser/fileparser_getnextlinelength.c b/src/fileparser/fileparser_getnextlinelength.c
index 497316a..9c16cd9 100644
--- a/src/fileparser/fileparser_getnextlinelength.c
+++ b/src/fileparser/fileparser_getnextlinelength.c
@@ -7,12 +7,12 @@ ssize_t fileparser_getnextlinelength(fileparser* parser) {
 	while((ret = fileparser_readline(parser)) == -3) {
 		res += sizeof(parser->buf);
 		parser->fpos += sizeof(parser->buf);
-		if(lseek(parser->file, (off_t) parser->fpos, SEEK_SET) == -1) return -1;
+		if(lseek(parser->file, (off_t) parser->fpos, SEEK_SET) == -1) break;
 	}
-	if(ret != 0) return -1;
-	res += parser->len;
+	if(ret == 0) res += parser->len;
 	parser->fpos = store_fpos;
 	if(lseek(parser->file, (off_t) parser->fpos, SEEK_SET) == -1) return -1;
+	if(ret != 0) return -1;
 	return res;
 }
 
-- 
2.43.0


From 2ef7266d31884e6f5544ef0b98dc6a23381d4cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:31 +0000
Subject: [PATCH 37/60] fix: fileparser_getnextlinelength must return the
 length of an unterminated last line filling the buffer

---
 src/fileparser/fileparser_getnextlinelength.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fileparser/fileparser_getnextlinelength.c b/src/fileparser/fileparser_getnextlinelength.c
index 9c16cd9..f76713d 100644
--- a/src/fileparser/fileparser_getnextlinelength.c
+++ b/src/fileparser/fileparser_getnextlinelength.c
@@ -12,6 +12,8 @@ ssize_t fileparser_getnextlinelength(fileparser* parser) {
 	if(ret == 0) res += parser->len;
 	parser->fpos = store_fpos;
 	if(lseek(parser->file, (off_t) parser->fpos, SEEK_SET) == -1) return -1;
+	/* a last line of exactly n buffers, not terminated by a newline */
+	if(ret == -2 && res) ret = 0;
 	if(ret != 0) return -1;
 	return res;
 }
-- 
2.43.0


From 439e9d30bfdf4845bd8762ddc7f0364326a9f34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:04 +0000
Subject: [PATCH 38/60] fix: filelist_search must escape backslashes in the
 directory name

---
 src/filelist/filelist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filelist/filelist.c b/src/filelist/filelist.c
index d0de34c..5232fab 100644
--- a/src/filelist/filelist.c
+++ b/src/filelist/filelist.c
@@ -13,7 +13,7 @@ static size_t cpystr_escape(char *out, const char *in, size_t in_size)
 {
 	size_t out_size = 0;
 	while(in_size && out_size + 2 < PATH_MAX) {
-		if(*in == '[' || *in == '?' || *in == '*') {
+		if(*in == '[' || *in == '?' || *in == '*' || *in == '\\') {
 			*(out++) = '\\';
 			out_size++;
 		}
-- 
2.43.0


From 3f8cd508315161518fbcd788834dc0371d682e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:25 +0000
Subject: [PATCH 39/60] fix: filelist_search must not use the default directory
 after its lifetime

---
 src/filelist/filelist.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filelist/filelist.c b/src/filelist/filelist.c
index 5232fab..1cdfc11 100644
--- a/src/filelist/filelist.c
+++ b/src/filelist/filelist.c
@@ -36,10 +36,11 @@ int filelist_search(filelist* l, stringptr* dir, stringptr* mask, int flags) {
 	int ret;
 	size_t i;
 	stringptr temp, *s = &temp;
+	stringptr localdir = SPINITIALIZER("./");
 	int isdir;
 	int defaultflags = (flags & FLF_INCLUDE_HIDDEN) ? GLOB_PERIOD : 0;
 
-	if(!dir || !dir->size) dir = SPL("./");
+	if(!dir || !dir->size) dir = &localdir;
 
 	if(!l || !mask || !mask->size || mask->size + dir->size + (dir->ptr[dir->size -1] != '/') + 1U > sizeof(buf)) return -1;
 	i = cpystr_escape(buf, dir->ptr, dir->size);
-- 
2.43.0


From 85fc252442aa8c1c32ac031a99215459cf52aff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:58 +0000
Subject: [PATCH 40/60] fix: normalizepath must not write beyond its buffer for
 paths longer than PATH_MAX

---
 src/filelib/normalizepath.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/filelib/normalizepath.c b/src/filelib/normalizepath.c
index 1858e0e..94b1bc6 100644
--- a/src/filelib/normalizepath.c
+++ b/src/filelib/normalizepath.c
@@ -55,6 +55,7 @@ int normalizepath(stringptr* path) {
 				break;
 			default:
 				copy:
+				if(out.size + 1 >= sizeof buf) goto fail;
 				out.ptr[out.size++] = path->ptr[i];
 				break;
 		}
-- 
2.43.0


From 12c6b1ef89e34d44ea186bf9599dfc95f2cfd579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:06 +0000
Subject: [PATCH 41/60] fix: getpathdiff must fail when one of the paths cannot
 be normalized

---
 src/filelib/getpathdiff.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/filelib/getpathdiff.c b/src/filelib/getpathdiff.c
index 8ac70ed..534ea2d 100644
--- a/src/filelib/getpathdiff.c
+++ b/src/filelib/getpathdiff.c
@@ -8,8 +8,7 @@
 // workbuf should be at least as big as path2, but not longer than PATH_MAX.
 // all returned results start with /
 ssize_t getpathdiff(stringptr* path1, stringptr* path2, char* workbuf) {
-	normalizepath(path1);
-	normalizepath(path2);
+	if(!normalizepath(path1) || !normalizepath(path2)) return -1;
 	// special case : / is the only case where the end of the string is /
 	int isRoot = 0;
 	if(path1->size == 1) {
-- 
2.43.0


From fcd75bda15d7c20a4803a83ff3315522f3e959e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:14 +0000
Subject: [PATCH 42/60] fix: getpathdiff must not take a name with the same
 beginning for a child path

---
 src/filelib/getpathdiff.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filelib/getpathdiff.c b/src/filelib/getpathdiff.c
index 534ea2d..351b064 100644
--- a/src/filelib/getpathdiff.c
+++ b/src/filelib/getpathdiff.c
@@ -18,7 +18,7 @@ ssize_t getpathdiff(stringptr* path1, stringptr* path2, char* workbuf) {
 	ssize_t result = path2->size - path1->size;
 	if(result < 0) return -1;
 	if(result) {
-		if(memcmp(path1->ptr, path2->ptr, path1->size)) return -1;
+		if(memcmp(path1->ptr, path2->ptr, path1->size) || path2->ptr[path1->size] != '/') return -1;
 		memcpy(workbuf, path2->ptr + path1->size, result);
 	}
 	workbuf[result] = 0;
-- 
2.43.0


From 14c003e40322025274715495bcdd259fb3989d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:23 +0000
Subject: [PATCH 43/60] fix: getFileExt must return NULL when there is no dot

---
 src/filelib/getfileext.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filelib/getfileext.c b/src/filelib/getfileext.c
index de63e9f..783dc3b 100644
--- a/src/filelib/getfileext.c
+++ b/src/filelib/getfileext.c
@@ -2,7 +2,7 @@
 
 char* getFileExt(const char* filename, size_t fnlen) {
 	char* p = (char*) filename + fnlen;
-	while(p - 1 > filename && p[-1] != '.') p--;
+	while(p > filename && p[-1] != '.') p--;
 	if(p > filename) return p;
 	else return NULL;
 }
-- 
2.43.0


From 27aedc2ee89b1c28e4c6c6168b8825767e1ba817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:41 +0000
Subject: [PATCH 44/60] fix: getpathdiff must fail on different paths of the
 same length

---
 src/filelib/getpathdiff.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filelib/getpathdiff.c b/src/filelib/getpathdiff.c
index 351b064..2e976be 100644
--- a/src/filelib/getpathdiff.c
+++ b/src/filelib/getpathdiff.c
@@ -17,8 +17,9 @@ ssize_t getpathdiff(stringptr* path1, stringptr* path2, char* workbuf) {
 	}
 	ssize_t result = path2->size - path1->size;
 	if(result < 0) return -1;
+	if(memcmp(path1->ptr, path2->ptr, path1->size)) return -1;
 	if(result) {
-		if(memcmp(path1->ptr, path2->ptr, path1->size) || path2->ptr[path1->size] != '/') return -1;
+		if(path2->ptr[path1->size] != '/') return -1;
 		memcpy(workbuf, path2->ptr + path1->size, result);
 	}
 	workbuf[result] = 0;
-- 
2.43.0


From 16f88ae332edea4bb38a80482659a3d947c181c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:29 +0000
Subject: [PATCH 45/60] fix: process_open must not leak the pipes into other
 child processes

---
 src/proclib/process.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/proclib/process.c b/src/proclib/process.c
index e471ea9..d87bef3 100644
--- a/src/proclib/process.c
+++ b/src/proclib/process.c
@@ -16,7 +16,11 @@ int process_open(struct process *p, char* const argv[]) {
 		if(errno) goto spawn_error;
 	}
 
-	for(i=0; i<3; ++i) if(pipe(pipes[i])) goto spawn_error;
+	for(i=0; i<3; ++i) {
+		if(pipe(pipes[i])) goto spawn_error;
+		/* other children must not keep our ends of the pipes open */
+		for(j=0; j<2; ++j) fcntl(pipes[i][j], F_SETFD, FD_CLOEXEC);
+	}
 
 	static const unsigned char pipeends[3] = {0,1,1};
 
-- 
2.43.0


From aeeff08a0d1fe650d145cb6bf6d3dee87e8ac8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:36 +0000
Subject: [PATCH 46/60] fix: process_close must wait again when interrupted by
 a signal

---
 src/proclib/process.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proclib/process.c b/src/proclib/process.c
index d87bef3..54cb7b7 100644
--- a/src/proclib/process.c
+++ b/src/proclib/process.c
@@ -54,7 +54,7 @@ int process_open(struct process *p, char* const argv[]) {
 int process_close(struct process *p) {
 	int i, retval;
 	for(i=0; i<3; ++i) close(p->fds[i]);
-	waitpid(p->pid, &retval, 0);
+	while(waitpid(p->pid, &retval, 0) == -1 && errno == EINTR);
 	posix_spawn_file_actions_destroy(&p->fa);
 	return WEXITSTATUS(retval);
 }
-- 
2.43.0


From f14dc933646c7e08cb34195c82538d8d45c691a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:43 +0000
Subject: [PATCH 47/60] fix: stringptr_copy must return NULL when out of memory

---
 src/stringptr/stringptr_copy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stringptr/stringptr_copy.c b/src/stringptr/stringptr_copy.c
index c019525..ca2552b 100644
--- a/src/stringptr/stringptr_copy.c
+++ b/src/stringptr/stringptr_copy.c
@@ -4,6 +4,6 @@
 stringptr* stringptr_copy(stringptr* s) {
 	if(!s) return NULL;
 	stringptr* result = stringptr_new(s->size);
-	memcpy(result->ptr, s->ptr, s->size);
+	if(result) memcpy(result->ptr, s->ptr, s->size);
 	return result;
 }
-- 
2.43.0


From 8183033f055cb0bfea05b11f8be2b6a996fff174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:02 +0000
Subject: [PATCH 48/60] fix: stringptrlist_add_strdup must not leak the copy
 when the list cannot grow

---
 src/stringptrlist/stringptrlist_add_strdup.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stringptrlist/stringptrlist_add_strdup.c b/src/stringptrlist/stringptrlist_add_strdup.c
index 3fc57a7..c926d5f 100644
--- a/src/stringptrlist/stringptrlist_add_strdup.c
+++ b/src/stringptrlist/stringptrlist_add_strdup.c
@@ -3,5 +3,7 @@
 int stringptrlist_add_strdup(stringptrlist* l, stringptr* s) {
 	char* nu = stringptr_strdup(s);
 	if(!nu) return 0;
-	return stringptrlist_add(l, nu, stringptr_getsize(s));
+	if(stringptrlist_add(l, nu, stringptr_getsize(s))) return 1;
+	free(nu);
+	return 0;
 }
-- 
2.43.0


From c39eca1c5700597307e50641b3a756e2d23c6197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:22 +0000
Subject: [PATCH 49/60] fix: stringptr_splitc must fail when the list cannot
 grow

---
 src/stringptrlist/stringptr_splitc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/stringptrlist/stringptr_splitc.c b/src/stringptrlist/stringptr_splitc.c
index d65c1c6..4b9dd5e 100644
--- a/src/stringptrlist/stringptr_splitc.c
+++ b/src/stringptrlist/stringptr_splitc.c
@@ -12,7 +12,10 @@ stringptrlist* stringptr_splitc(stringptr* buf, int delim) {
 
 	for(i=0;i<=buf->size;i++) {
 		if(i == buf->size || buf->ptr[i] == (char) delim) {
-			stringptrlist_add(result, buf->ptr + linestart, i - linestart);
+			if(!stringptrlist_add(result, buf->ptr + linestart, i - linestart)) {
+				stringptrlist_free(result);
+				return NULL;
+			}
 			linestart = i+1;
 			buf->ptr[i] = 0;
 		}
-- 
2.43.0


From 19042d61c02bf9b16ac56a94e9f89596dbab852e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:39 +0000
Subject: [PATCH 50/60] fix: stringptr_splits must fail when the list cannot
 grow

---
 src/stringptrlist/stringptr_splits.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/stringptrlist/stringptr_splits.c b/src/stringptrlist/stringptr_splits.c
index 04c6ccf..642125c 100644
--- a/src/stringptrlist/stringptr_splits.c
+++ b/src/stringptrlist/stringptr_splits.c
@@ -13,7 +13,10 @@ stringptrlist* stringptr_splits(stringptr* buf, stringptr* delim) {
 	i = 0;
 	while(i<=buf->size) {
 		if(i == buf->size || (delim->size && stringptr_here(buf, i, delim))) {
-			stringptrlist_add(result, buf->ptr + linestart, i - linestart);
+			if(!stringptrlist_add(result, buf->ptr + linestart, i - linestart)) {
+				stringptrlist_free(result);
+				return NULL;
+			}
 			linestart = i + delim->size;
 			buf->ptr[i] = 0;
 			i += delim->size ? delim->size : 1;
-- 
2.43.0


From da805b65b4682d214e4996e5958e890223bb29aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:07 +0000
Subject: [PATCH 51/60] fix: filelist_search must free the whole list when it
 fails

---
 src/filelist/filelist.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/filelist/filelist.c b/src/filelist/filelist.c
index 1cdfc11..280c2c7 100644
--- a/src/filelist/filelist.c
+++ b/src/filelist/filelist.c
@@ -56,6 +56,8 @@ int filelist_search(filelist* l, stringptr* dir, stringptr* mask, int flags) {
 	if((ret = glob(buf, defaultflags | GLOB_MARK, NULL, &l->pglob))) return ret;
 	if(!(l->files = stringptrlist_new(l->pglob.gl_pathc))) {
 		err:
+		stringptrlist_free(l->files);
+		l->files = NULL;
 		globfree(&l->pglob);
 		return -1;
 	}
@@ -104,10 +106,7 @@ int filelist_search(filelist* l, stringptr* dir, stringptr* mask, int flags) {
 				) continue;
 			}
 		}
-		if(!stringptrlist_add(l->files, s->ptr, s->size)) {
-			free(l->files);
-			goto err;
-		}
+		if(!stringptrlist_add(l->files, s->ptr, s->size)) goto err;
 	}
 	return 0;
 }
-- 
2.43.0


From c05b2f03030969f995d8107306424ca8f1292ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:25 +0000
Subject: [PATCH 52/60] fix: filelist_search must fail when the dot entries
 cannot be added

---
 src/filelist/filelist.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filelist/filelist.c b/src/filelist/filelist.c
index 280c2c7..707b0b6 100644
--- a/src/filelist/filelist.c
+++ b/src/filelist/filelist.c
@@ -64,8 +64,8 @@ int filelist_search(filelist* l, stringptr* dir, stringptr* mask, int flags) {
 	if(!(flags & FLF_INCLUDE_HIDDEN)) {
 		// the strings in the filelist are managed by glob, we dont free them ourselves.
 		// so its save to add string literals.
-		if(flags & FLF_INCLUDE_DOT) stringptrlist_add(l->files, "./", 2);
-		if(flags & FLF_INCLUDE_DOT_DOT) stringptrlist_add(l->files, "../", 3);
+		if((flags & FLF_INCLUDE_DOT) && !stringptrlist_add(l->files, "./", 2)) goto err;
+		if((flags & FLF_INCLUDE_DOT_DOT) && !stringptrlist_add(l->files, "../", 3)) goto err;
 	}
 	for(i = 0; i < l->pglob.gl_pathc; i++) {
 		s->ptr = l->pglob.gl_pathv[i];
-- 
2.43.0


From d3c7d7b765d7d3f4a4ec38c6e12a5cb9733591a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:57 +0000
Subject: [PATCH 53/60] fix: log_putspace also works when the short stringptr
 macros are disabled

---
 include/logger.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/logger.h b/include/logger.h
index 29ab14d..ae2600e 100644
--- a/include/logger.h
+++ b/include/logger.h
@@ -18,7 +18,7 @@ void log_puterror(int fd, const char* err);
 void log_timestamp(int fd);
 
 #define log_perror(E) log_puterror(2, (E))
-#define log_putspace(X) log_puts(X, SPL(" "))
+#define log_putspace(X) log_puts(X, SPLITERAL(" "))
 
 #pragma RcB2 DEP "../src/logger/*.c"
 
-- 
2.43.0


From c88417294fa399e0e57731ddd8ae3ba0be12f454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:57 +0000
Subject: [PATCH 54/60] fix: parenthesise the argument of the base64 size
 macros

---
 include/strlib.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strlib.h b/include/strlib.h
index 8e2f6ca..db15416 100644
--- a/include/strlib.h
+++ b/include/strlib.h
@@ -80,13 +80,13 @@ extern const size_t conv_cypher_len;
 extern const char base64_tbl[64];
 
 /* calculates number of bytes base64-encoded stream of N bytes will take. */
-#define BASE64ENC_BYTES(N) (((N+2)/3)*4)
+#define BASE64ENC_BYTES(N) ((((N)+2)/3)*4)
 /* calculates the required output buffer size to base64-encode
  * N bytes (equals BASE64ENC_BYTES + 1 byte for the zero terminator) */
 #define BASE64ENC_BUFSIZE(N) (1+BASE64ENC_BYTES(N))
 /* calculates number of bytes base64-decoding of a string of N bytes will
    take. */
-#define BASE64DEC_BYTES(N) ((N/4)*3)
+#define BASE64DEC_BYTES(N) (((N)/4)*3)
 /* bytes required for base64 decoded output from an input string of length N */
 #define BASE64DEC_BUFSIZE(N) (1+BASE64DEC_BYTES(N))
 
-- 
2.43.0


From 47ad83041a60026f93c702c6f945ef971e4a2887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:38 +0000
Subject: [PATCH 55/60] fix: stringlist.h does not depend on what was included
 before it

---
 include/stringlist.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/stringlist.h b/include/stringlist.h
index 3c1fff3..cd4ede1 100644
--- a/include/stringlist.h
+++ b/include/stringlist.h
@@ -2,7 +2,7 @@
 #define STRINGLIST_H
 
 #include "sblist.h"
-#define _GNU_SOURCE
+#include <stdlib.h>
 #include <string.h>
 
 #define stringlist sblist
@@ -22,8 +22,10 @@ static inline char* stringlist_get(stringlist *sl, size_t idx) {
 // returns 1 on success, 0 on OOM
 #define stringlist_add(SL, S) sblist_add(SL, &(S))
 static inline int stringlist_add_dup(stringlist *sl, char* s) {
-	char *x = strdup(s);
+	size_t l = strlen(s) + 1;
+	char *x = malloc(l);
 	if(x) {
+		memcpy(x, s, l);
 		if(!sblist_add(sl, &x)) { free(x); return 0; }
 		return 1;
 	}
-- 
2.43.0


From 77a563aab3346b7927b2948262c399003ab34345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:39 +0000
Subject: [PATCH 56/60] fix: parenthesise the flags argument of bmap_fini

---
 include/bmap.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bmap.h b/include/bmap.h
index 0e16311..67987ee 100644
--- a/include/bmap.h
+++ b/include/bmap.h
@@ -94,8 +94,8 @@ static inline void* bmap_new(bmap_compare_func fn) {
   3: 0+free both
 */
 #define bmap_fini(X, FREEFLAGS) do { \
-	if(FREEFLAGS & 1) {tglist_free_values(&(X)->keys);} \
-	if(FREEFLAGS & 2) {bmap_cat(VAL_LIST_TYPE, _free_values)(&(X)->values);} \
+	if((FREEFLAGS) & 1) {tglist_free_values(&(X)->keys);} \
+	if((FREEFLAGS) & 2) {bmap_cat(VAL_LIST_TYPE, _free_values)(&(X)->values);} \
 	tglist_free_items(&(X)->keys); \
 	bmap_cat(VAL_LIST_TYPE, _free_items)(&(X)->values); \
 } while(0)
-- 
2.43.0


From fbe459b96b56f1f626be297ef97d2a6e5bce2702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:39 +0000
Subject: [PATCH 57/60] fix: the result of stringptrlist_insert can be used in
 an expression

---
 include/stringptrlist.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stringptrlist.h b/include/stringptrlist.h
index ae2e46a..5ac14b5 100644
--- a/include/stringptrlist.h
+++ b/include/stringptrlist.h
@@ -33,11 +33,11 @@ int stringptrlist_add_strdup(stringptrlist* l, stringptr* s);
 #define stringptrlist_empty(X) sblist_empty(X)
 
 #define stringptrlist_insert(list, pos, charptr, len) \
-        sblist_insert(list, SPMAKE((charptr), (len)), pos);
+        sblist_insert(list, SPMAKE((charptr), (len)), pos)
 /* insert element into presorted list, returns listindex of new entry or -1 */
 /* cmp is a comparefunc using the same signature as the one used by qsort */
 #define stringptrlist_insert_sorted(list, charptr, len, cmp) \
-        sblist_insert_sorted(list, SPMAKE((charptr), (len)), cmp);
+        sblist_insert_sorted(list, SPMAKE((charptr), (len)), cmp)
 
 
 /* parses lines of a stringptr.
-- 
2.43.0


From 405244f4f984409e71327ccbc3f4e361fbca2400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:39 +0000
Subject: [PATCH 58/60] fix: parenthesise the arguments of BYTEM and BYTEL

---
 include/bitarray.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bitarray.h b/include/bitarray.h
index 7c0ec85..33b69b4 100644
--- a/include/bitarray.h
+++ b/include/bitarray.h
@@ -13,8 +13,8 @@
 #include <stddef.h>
 #include <limits.h>
 
-#define BYTEM(msb, b6, b5, b4, b3, b2, b1, lsb) ((unsigned char)(lsb | b1 << 1 | b2 << 2 | b3 << 3 | b4 << 4 | b5 << 5 | b6 << 6 | msb << 7))
-#define BYTEL(lsb, b1, b2, b3, b4, b5, b6, msb) ((unsigned char)(lsb | b1 << 1 | b2 << 2 | b3 << 3 | b4 << 4 | b5 << 5 | b6 << 6 | msb << 7))
+#define BYTEM(msb, b6, b5, b4, b3, b2, b1, lsb) ((unsigned char)((lsb) | (b1) << 1 | (b2) << 2 | (b3) << 3 | (b4) << 4 | (b5) << 5 | (b6) << 6 | (msb) << 7))
+#define BYTEL(lsb, b1, b2, b3, b4, b5, b6, msb) ((unsigned char)((lsb) | (b1) << 1 | (b2) << 2 | (b3) << 3 | (b4) << 4 | (b5) << 5 | (b6) << 6 | (msb) << 7))
 
 #define BA_SIZE_REQUIRED(X) (((X) / CHAR_BIT) + !!((X) % CHAR_BIT))
 #define BA_TARGET_BYTE(X, Y) ((X) + ((Y) / CHAR_BIT))
-- 
2.43.0


From 26a948c0fe38e7066b8979f26d039c5ca9729b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:40 +0000
Subject: [PATCH 59/60] fix: compare option names by length in op_get

---
 src/optparser/op_get.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optparser/op_get.c b/src/optparser/op_get.c
index f813fc7..cdceb06 100644
--- a/src/optparser/op_get.c
+++ b/src/optparser/op_get.c
@@ -22,7 +22,7 @@ char* op_get(op_state* p, stringptr* arg) {
 			l = strleneq(s);
 			if(l == arg->size && !memcmp(arg->ptr, s, l))
 				return s + l + 1;
-			else if(!l && !strcmp(arg->ptr, s) && i+1 < p->argc)
+			else if(!l && strlen(s) == arg->size && !memcmp(arg->ptr, s, arg->size) && i+1 < p->argc)
 				return p->argv[i+1];
 		}
 	}
-- 
2.43.0


From 6b2ecc1764a6576effecb5893b9ad4322d0d3cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:30 +0000
Subject: [PATCH 60/60] fix: let the type-independent list code alias every
 list type

The helpers and macros behind tglist, bmap and hbmap read and write a
list through tglist_proto, bmap_proto or hbmap_proto, while the caller
accesses it as its own struct. Once inlined, an optimising compiler may
keep a stale count: hbmap_foreach(m, i) with the documented
while(hbmap_iter_index_valid(m, i)) hbmap_delete(m, i); did not end or
crashed with gcc -O2.
---
 include/bmap.h   |  2 +-
 include/hbmap.h  |  2 +-
 include/tglist.h | 10 +++++++++-
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/bmap.h b/include/bmap.h
index 67987ee..096d73e 100644
--- a/include/bmap.h
+++ b/include/bmap.h
@@ -71,7 +71,7 @@ struct NAME { \
 
 #define bmap(KEYTYPE, VALTYPE) bmap_impl(, KEYTYPE, VALTYPE)
 #define bmap_decl(ID, KEYTYPE, VALTYPE) bmap_impl(bmap_ ## ID, KEYTYPE, VALTYPE)
-#define bmap_proto bmap_impl(, void*, void*)
+#define bmap_proto bmap_impl(, void*, void*) tglist_may_alias
 
 /* initialization */
 /* bmap_compare_func is a typical compare function used for qsort, etc such as strcmp
diff --git a/include/hbmap.h b/include/hbmap.h
index 541cff2..f0b8d61 100644
--- a/include/hbmap.h
+++ b/include/hbmap.h
@@ -40,7 +40,7 @@ struct NAME { \
 	hbmap_impl(hbmap_ ## ID, KEYTYPE, VALTYPE, NUMBUCKETS)
 
 #define hbmap_proto(NUMBUCKETS) \
-	hbmap_impl(, void*, void*, NUMBUCKETS)
+	hbmap_impl(, void*, void*, NUMBUCKETS) tglist_may_alias
 
 #define hbmap_getbucketcount(X) ARRAY_SIZE((X)->buckets)
 
diff --git a/include/tglist.h b/include/tglist.h
index ae777ad..09b1783 100644
--- a/include/tglist.h
+++ b/include/tglist.h
@@ -61,7 +61,15 @@ extern "C" {
 #define tglist(TYPE) tglist_impl(, TYPE)
 /* use tglist_decl if you need a named struct, e.g. to put in a header */
 #define tglist_decl(ID, TYPE) tglist_impl(tglist_ ## ID, TYPE)
-#define tglist_proto tglist_impl(, void*)
+/* the type-independent code below accesses lists of any item type as
+   tglist_proto, so the compiler must not assume that these differ */
+#ifdef __GNUC__
+#define tglist_may_alias __attribute__((__may_alias__))
+#else
+#define tglist_may_alias
+#endif
+
+#define tglist_proto tglist_impl(, void*) tglist_may_alias
 
 #define tglist_getsize(X) ((X)->count)
 #define tglist_get_count(X) ((X)->count)
-- 
2.43.0

