From 7a341ecfe76ac185500874569a11384904f68871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 001/108] fix: reject rows which do not fit a heap page

A row larger than a heap page was placed across the end of the page and
the page size accounting underflowed for all later allocations.
---
 amelie/db/heap/heap.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/amelie/db/heap/heap.c b/amelie/db/heap/heap.c
index 4dc8868..efc37ef 100644
--- a/amelie/db/heap/heap.c
+++ b/amelie/db/heap/heap.c
@@ -194,8 +194,13 @@ heap_add(Heap* self, int size)
 	else
 		heap = self;
 
-	// match bucket by size
-	auto bucket = heap_bucket_of(heap, sizeof(HeapChunk) + size);
+	// match bucket by size (chunk must fit into a single page)
+	auto size_max = heap->page_mgr.page_size - (int)sizeof(PageHeader);
+	HeapBucket* bucket = NULL;
+	if (likely(size <= size_max - (int)sizeof(HeapChunk)))
+		bucket = heap_bucket_of(heap, sizeof(HeapChunk) + size);
+	if (unlikely(!bucket || (int)bucket->size > size_max))
+		error("row size exceeds the page size");
 
 	// get chunk from the free list
 	HeapChunk* chunk;
-- 
2.43.0


From 88c301c3f223763cbed2fbc1d2849a840d605e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 002/108] fix: account rows added during a heap snapshot to the
 shadow heap

heap_add() counted shadow rows in the main heap header, which is being
written and checksummed by the running snapshot, and counted them again
when the rows are copied back.
---
 amelie/db/heap/heap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amelie/db/heap/heap.c b/amelie/db/heap/heap.c
index efc37ef..b6efd2f 100644
--- a/amelie/db/heap/heap.c
+++ b/amelie/db/heap/heap.c
@@ -260,8 +260,8 @@ heap_add(Heap* self, int size)
 	chunk->is_shadow_free = false;
 
 	// update total used metrics
-	self->header->count_used++;
-	self->header->size_used += bucket->size;
+	heap->header->count_used++;
+	heap->header->size_used += bucket->size;
 
 	// support lru (place chunk on top of the list)
 	if (self->lru)
-- 
2.43.0


From 5e87d20bd4a07ca97efb1c10caefad998135cf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:50 +0000
Subject: [PATCH 003/108] fix: remove incomplete record from the log on open

---
 amelie/db/wal/wal.c | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/amelie/db/wal/wal.c b/amelie/db/wal/wal.c
index 019f238..f81fadc 100644
--- a/amelie/db/wal/wal.c
+++ b/amelie/db/wal/wal.c
@@ -250,6 +250,32 @@ wal_truncate(Wal* self, uint64_t lsn)
 	info("");
 }
 
+static void
+wal_open_repair(Wal* self)
+{
+	// remove incomplete record from the end of the last wal file (a write
+	// interrupted by a crash), otherwise the records written after it will
+	// never be read
+	auto file = self->current;
+
+	Buf buf;
+	buf_init(&buf);
+	defer_buf(&buf);
+
+	uint64_t offset = 0;
+	while (wal_file_pread(file, offset, &buf))
+	{
+		offset += ((Record*)buf.start)->size;
+		buf_reset(&buf);
+	}
+	if (offset == file->file.size)
+		return;
+
+	info("wal: %" PRIu64 " (incomplete record, truncated to %" PRIu64 " bytes)",
+	     file->id, offset);
+	wal_file_truncate(file, offset);
+}
+
 void
 wal_open(Wal* self)
 {
@@ -280,6 +306,7 @@ reopen:
 	uint64_t last = id_mgr_max(&self->list);
 	self->current = wal_file_allocate(last);
 	wal_file_open(self->current);
+	wal_open_repair(self);
 	file_seek_to_end(&self->current->file);
 }
 
-- 
2.43.0


From e1da914192cd13088178d41236b20d015f4c8631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:49 +0000
Subject: [PATCH 004/108] fix: skip log commands by their size, not every
 command holds rows

---
 amelie/db/transaction/record.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/amelie/db/transaction/record.h b/amelie/db/transaction/record.h
index c23bef4..670bce8 100644
--- a/amelie/db/transaction/record.h
+++ b/amelie/db/transaction/record.h
@@ -56,9 +56,7 @@ record_data(Record* self)
 static inline void
 record_cmd_skip(RecordCmd* self, uint8_t** pos)
 {
-	auto end = *pos + self->size;
-	while (*pos < end)
-		*pos += row_size((Row*)*pos);
+	*pos += self->size;
 }
 
 static inline bool
-- 
2.43.0


From 0af8139556a51d28fa42ed60f5b8e33ab6898501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 005/108] fix: keep log files needed by the slots on cleanup

---
 amelie/db/wal/wal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/db/wal/wal.c b/amelie/db/wal/wal.c
index f81fadc..280fba4 100644
--- a/amelie/db/wal/wal.c
+++ b/amelie/db/wal/wal.c
@@ -50,7 +50,7 @@ wal_slots(Wal* self, uint64_t* min)
 	{
 		auto slot = list_at(WalSlot, link);
 		uint64_t lsn = atomic_u64_of(&slot->lsn);
-		if (*min < lsn)
+		if (*min > lsn)
 			*min = lsn;
 	}
 	mutex_unlock(&self->lock);
-- 
2.43.0


From d20a399405e0a0149c6e3953d7252fc6323dd31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 006/108] fix: do not read outside of a damaged log record

---
 amelie/db/transaction/record.h | 3 +++
 amelie/db/wal/wal_file.h       | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/amelie/db/transaction/record.h b/amelie/db/transaction/record.h
index 670bce8..81084c9 100644
--- a/amelie/db/transaction/record.h
+++ b/amelie/db/transaction/record.h
@@ -68,7 +68,10 @@ record_cmd_is_dml(RecordCmd* self)
 static inline bool
 record_validate(Record* self)
 {
+	// commands must be inside of the record
 	auto size = self->count * sizeof(RecordCmd);
+	if (sizeof(*self) + size > self->size)
+		return false;
 	auto crc  = runtime()->crc(0, (uint8_t*)self + sizeof(*self), size);
 	crc = runtime()->crc(crc, &self->lsn, sizeof(*self) - sizeof(self->crc));
 	return crc == self->crc;
diff --git a/amelie/db/wal/wal_file.h b/amelie/db/wal/wal_file.h
index 47d183e..7e6ff59 100644
--- a/amelie/db/wal/wal_file.h
+++ b/amelie/db/wal/wal_file.h
@@ -79,7 +79,7 @@ wal_file_write(WalFile* self, Iov* iov)
 }
 
 static inline bool
-wal_file_eof(WalFile* self, uint32_t offset, uint32_t size)
+wal_file_eof(WalFile* self, uint64_t offset, uint64_t size)
 {
 	return (offset + size) > self->file.size;
 }
@@ -97,6 +97,9 @@ wal_file_pread(WalFile* self, uint64_t offset, Buf* buf)
 	file_pread_buf(&self->file, buf, size_header, offset);
 	uint32_t size = ((Record*)(buf->start + start))->size;
 
+	if (unlikely(size < size_header))
+		error("wal/%" PRIu64 " (invalid record size)", self->id);
+
 	// check for eof
 	if (wal_file_eof(self, offset, size))
 	{
-- 
2.43.0


From 138a3e80c9017de557dc2df78770b093971cae80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:52 +0000
Subject: [PATCH 007/108] fix: search past deleted positions of the hash index
 and reuse them

---
 amelie/db/index/hash_store.h | 57 ++++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 18 deletions(-)

diff --git a/amelie/db/index/hash_store.h b/amelie/db/index/hash_store.h
index 8fea624..7767882 100644
--- a/amelie/db/index/hash_store.h
+++ b/amelie/db/index/hash_store.h
@@ -64,27 +64,40 @@ hash_store_set(HashStore* self, Row* key)
 {
 	uint64_t start = row_hash(key, self->keys) % self->size;
 	uint64_t pos   = start;
+	uint64_t empty = UINT64_MAX;
 	do
 	{
 		auto ref = self->rows[pos];
-		if (!ref || ref == HT_DELETED)
+		if (ref == HT_DELETED)
 		{
-			self->rows[pos] = key;
-			self->count++;
-			return NULL;
-		}
-
-		if (! compare(self->keys, ref, key))
+			// remember first deleted position, the key still can be found after it
+			if (empty == UINT64_MAX)
+				empty = pos;
+		} else
 		{
-			self->rows[pos] = key;
-			return ref;
+			if (! ref)
+			{
+				if (empty == UINT64_MAX)
+					empty = pos;
+				break;
+			}
+
+			if (! compare(self->keys, ref, key))
+			{
+				self->rows[pos] = key;
+				return ref;
+			}
 		}
 
 		pos = (pos + 1) % self->size;
 	} while (start != pos);
 
-	error("hashtable overflow");
-	return false;
+	if (unlikely(empty == UINT64_MAX))
+		error("hashtable overflow");
+
+	self->rows[empty] = key;
+	self->count++;
+	return NULL;
 }
 
 hot static inline Row*
@@ -119,19 +132,24 @@ hash_store_get(HashStore* self, Row* key, uint64_t* at)
 {
 	uint64_t start = row_hash(key, self->keys) % self->size;
 	uint64_t pos   = start;
+	uint64_t empty = UINT64_MAX;
 	do
 	{
 		auto ref = self->rows[pos];
-		if (! ref)
-		{
-			*at = pos;
-			return NULL;
-		}
 		if (ref == HT_DELETED)
 		{
-			*at = pos;
+			// remember first deleted position, the key still can be found after it
+			if (empty == UINT64_MAX)
+				empty = pos;
 		} else
 		{
+			if (! ref)
+			{
+				if (empty == UINT64_MAX)
+					empty = pos;
+				break;
+			}
+
 			if (! compare(self->keys, ref, key))
 			{
 				*at = pos;
@@ -142,7 +160,10 @@ hash_store_get(HashStore* self, Row* key, uint64_t* at)
 		pos = (pos + 1) % self->size;
 	} while (start != pos);
 
-	error("hashtable overflow");
+	if (unlikely(empty == UINT64_MAX))
+		error("hashtable overflow");
+
+	*at = empty;
 	return NULL;
 }
 
-- 
2.43.0


From 84bb7ae5f10828662a4c8eaddc1d42a7d2308aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:52 +0000
Subject: [PATCH 008/108] fix: keep probing order of the previous hash table
 during rehash

---
 amelie/db/index/hash.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amelie/db/index/hash.h b/amelie/db/index/hash.h
index 3802f17..1366370 100644
--- a/amelie/db/index/hash.h
+++ b/amelie/db/index/hash.h
@@ -78,7 +78,7 @@ hash_rehash(Hash* self)
 			continue;
 		}
 		hash_store_set(self->current, ref);
-		prev->rows[self->rehashing_pos] = NULL;
+		prev->rows[self->rehashing_pos] = HT_DELETED;
 		prev->count--;
 
 		self->rehashing_pos++;
@@ -131,7 +131,7 @@ hash_get_or_set(Hash* self, Row* key, uint64_t* pos)
 			{
 				// move to the current
 				self->current->rows[current_pos] = prev;
-				self->prev->rows[prev_pos] = NULL;
+				self->prev->rows[prev_pos] = HT_DELETED;
 				self->prev->count--;
 				self->current->count++;
 			}
-- 
2.43.0


From 9bfc60ef378db2956a7f25acc94b757aa210fab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:52 +0000
Subject: [PATCH 009/108] fix: upsert position in the hash index when rehash
 starts

---
 amelie/db/index/hash.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/amelie/db/index/hash.h b/amelie/db/index/hash.h
index 1366370..af296b4 100644
--- a/amelie/db/index/hash.h
+++ b/amelie/db/index/hash.h
@@ -117,6 +117,10 @@ hash_set(Hash* self, Row* key)
 hot static inline bool
 hash_get_or_set(Hash* self, Row* key, uint64_t* pos)
 {
+	// start rehash before the position is chosen
+	if (!self->rehashing && hash_store_is_full(self->current))
+		hash_rehash_start(self);
+
 	Row* prev = NULL;
 	if (self->rehashing)
 	{
@@ -157,11 +161,6 @@ hash_get_or_set(Hash* self, Row* key, uint64_t* pos)
 		}
 
 		*pos = current_pos;
-		if (hash_store_is_full(self->current))
-		{
-			hash_rehash_start(self);
-			hash_rehash(self);
-		}
 	}
 
 	return prev != NULL;
-- 
2.43.0


From 3190ebd0114eaa7512f3f26ff4e8ecc3600adc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 010/108] fix: open the tree iterator at the next page when the
 key is past the last row of its page

---
 amelie/db/index/tree_iterator.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/amelie/db/index/tree_iterator.h b/amelie/db/index/tree_iterator.h
index 1fdf396..2001f2c 100644
--- a/amelie/db/index/tree_iterator.h
+++ b/amelie/db/index/tree_iterator.h
@@ -38,9 +38,14 @@ tree_iterator_open(TreeIterator* self, Row* key)
 	self->page_pos = pos.page_pos;
 	if (self->page_pos >= self->page->keys_count)
 	{
+		// key is greater than the last row of the page, position to the
+		// next page, if any
+		auto next = rbtree_next(&self->tree->tree, &self->page->node);
 		self->page     = NULL;
 		self->page_pos = 0;
-		return false;
+		if (next == NULL)
+			return false;
+		self->page = container_of(next, TreePage, node);
 	}
 	self->current = self->page->rows[self->page_pos];
 	return match;
-- 
2.43.0


From cc7822a4df8bec0dc9826394aac663291497f2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:49 +0000
Subject: [PATCH 011/108] fix: string comparison returns -1, 0 or 1 as the tree
 index and the merge expect

---
 amelie/runtime/base/str.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/runtime/base/str.h b/amelie/runtime/base/str.h
index daf5f98..e9f9805 100644
--- a/amelie/runtime/base/str.h
+++ b/amelie/runtime/base/str.h
@@ -178,7 +178,7 @@ str_compare_fn(const Str* a, const Str* b)
 		size = b_size;
 	auto rc = memcmp(a->pos, b->pos, size);
 	if (rc != 0)
-		return rc;
+		return (rc > 0) - (rc < 0);
 	return (a_size > b_size) - (a_size < b_size);
 }
 
-- 
2.43.0


From b371bc4914a2830fceb10d27d314e574aefa8161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:13 +0000
Subject: [PATCH 012/108] fix: continue merged hash scan with the next
 partitions

---
 amelie/db/index/index_hash_merge.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/db/index/index_hash_merge.h b/amelie/db/index/index_hash_merge.h
index 4d65070..c4b2adc 100644
--- a/amelie/db/index/index_hash_merge.h
+++ b/amelie/db/index/index_hash_merge.h
@@ -81,7 +81,7 @@ index_hash_merge_next(Iterator* arg)
 	for (;;)
 	{
 		self->current_it_order++;
-		if (self->current_it_order < self->list_count)
+		if (self->current_it_order >= self->list_count)
 			break;
 		auto at = &list[self->current_it_order];
 		if (hash_iterator_has(at))
-- 
2.43.0


From 8b8515c14331cda8485777d8ba0861a9d0b723e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:23 +0000
Subject: [PATCH 013/108] fix: sorted heap iterator returns no row at its end

---
 amelie/db/heap/heap_index_iterator.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amelie/db/heap/heap_index_iterator.h b/amelie/db/heap/heap_index_iterator.h
index 936878c..541d9f8 100644
--- a/amelie/db/heap/heap_index_iterator.h
+++ b/amelie/db/heap/heap_index_iterator.h
@@ -41,6 +41,8 @@ heap_index_iterator_has(HeapIndexIterator* self)
 static inline Row*
 heap_index_iterator_at(HeapIndexIterator* self)
 {
+	if (unlikely(! self->current))
+		return NULL;
 	return *self->current;
 }
 
-- 
2.43.0


From ce7d84a850c63f32b3b2613f6ca493a83e1cb55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:36 +0000
Subject: [PATCH 014/108] fix: recognise incomplete and snapshot partition
 files without a version

---
 amelie/db/storage/id.h | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/amelie/db/storage/id.h b/amelie/db/storage/id.h
index 3f58677..d2283cb 100644
--- a/amelie/db/storage/id.h
+++ b/amelie/db/storage/id.h
@@ -79,15 +79,10 @@ id_of(const char* name, int64_t* id, int64_t* version)
 	if (! *name)
 		return STATE_COMPLETE;
 
-	// .
-	name++;
-	if (unlikely(! *name))
-		return -1;
-
-	// <version>[.]
-	if (isdigit(*name))
+	// .<version>[.]
+	if (isdigit(name[1]))
 	{
-		name = id_of_next(name, version);
+		name = id_of_next(name + 1, version);
 		if (! name)
 			return -1;
 	}
-- 
2.43.0


From ab6c506e0763b2916f8687cfab8ac81f84dfa5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:41 +0000
Subject: [PATCH 015/108] fix: report unexpected size of decompressed data

---
 amelie/runtime/lib/codec_compression.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amelie/runtime/lib/codec_compression.c b/amelie/runtime/lib/codec_compression.c
index c2b3f4a..f49eb8b 100644
--- a/amelie/runtime/lib/codec_compression.c
+++ b/amelie/runtime/lib/codec_compression.c
@@ -137,7 +137,8 @@ codec_zstd_decode(Codec*   codec,
 	int rc = ZSTD_decompress(dst, dst_size, src, src_size);
 	if (unlikely(ZSTD_isError(rc)))
 		error("zstd: decode failed: %s", ZSTD_getErrorName(rc));
-	assert(rc == dst_size);
+	if (unlikely(rc != dst_size))
+		error("zstd: decode failed: unexpected data size");
 }
 
 static CodecIf codec_zstd =
-- 
2.43.0


From 33083d3dd9bb9347ea22513a8e84c19c1da20ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:41 +0000
Subject: [PATCH 016/108] fix: validate page headers of a partition file on
 open

---
 amelie/db/heap/heap_file.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/amelie/db/heap/heap_file.c b/amelie/db/heap/heap_file.c
index c927390..9ff999c 100644
--- a/amelie/db/heap/heap_file.c
+++ b/amelie/db/heap/heap_file.c
@@ -109,6 +109,14 @@ heap_open(Heap* self, Id* id, int state)
 		file_read(&file, page->pointer, sizeof(PageHeader));
 		auto page_header = (PageHeader*)page->pointer;
 
+		// validate page header
+		if (page_header->order != i ||
+		    page_header->size < sizeof(PageHeader) + sizeof(HeapChunk) ||
+		    page_header->size > (uint32_t)page_mgr->page_size ||
+		    page_header->size_compressed > file.size)
+			error("heap: file '%s' has invalid page header",
+			      str_of(&file.path));
+
 		// decode page or read page as is
 		if (encoder_active(&ec))
 		{
@@ -146,6 +154,18 @@ heap_open(Heap* self, Id* id, int state)
 					      str_of(&file.path));
 			}
 		}
+
+		// validate last chunk position
+		auto last = (uint64_t)page_header->last;
+		if (last + sizeof(HeapChunk) <= page_header->size)
+		{
+			auto chunk = heap_chunk_at(self, i, last);
+			if (chunk->offset == last && chunk->is_last &&
+			    last + self->buckets[chunk->bucket].size == page_header->size)
+				continue;
+		}
+		error("heap: file '%s' has invalid page header",
+		      str_of(&file.path));
 	}
 
 	// restore last page position
-- 
2.43.0


From fc74d9bdd7b91bca9d6a2e91f8d2cff3651e7aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:07 +0000
Subject: [PATCH 017/108] fix: open tier objects before adding them to the tier

---
 amelie/db/tier/tier.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/amelie/db/tier/tier.c b/amelie/db/tier/tier.c
index f542478..b1df730 100644
--- a/amelie/db/tier/tier.c
+++ b/amelie/db/tier/tier.c
@@ -171,13 +171,14 @@ tier_open_volume(Tier* self, Volume* volume)
 		switch (state) {
 		case STATE_COMPLETE:
 		{
-			// add object to the tier
 			auto object = object_allocate(&id);
-			tier_add(self, object);
+			errdefer(object_free, object);
 
 			// recover branches
 			object_open(object, STATE_COMPLETE);
 
+			// add object to the tier
+			tier_add(self, object);
 			break;
 		}
 		case STATE_INCOMPLETE:
-- 
2.43.0


From 3f4340c38c9e8b9de34f314d1b346a4ff14adf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:20 +0000
Subject: [PATCH 018/108] fix: order tier objects by their range, keep objects
 without rows out

---
 amelie/db/object/mapping.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/amelie/db/object/mapping.h b/amelie/db/object/mapping.h
index b9a1873..cf5b7a5 100644
--- a/amelie/db/object/mapping.h
+++ b/amelie/db/object/mapping.h
@@ -55,8 +55,6 @@ mapping_max(Mapping* self)
 hot always_inline static inline int
 mapping_compare(Mapping* self, Object* object, Row* key)
 {
-	if (self->tree_count == 1)
-		return 0;
 	return compare(self->keys, branch_min(object->root), key);
 }
 
@@ -66,9 +64,12 @@ rbtree_get(mapping_find, mapping_compare(arg, mapping_of(n), key))
 static inline void
 mapping_add(Mapping* self, Object* object)
 {
+	// object without rows has no range
 	const auto key = branch_min(object->root);
+	if (! key)
+		return;
 	RbtreeNode* node;
-	auto rc = mapping_find(&self->tree, NULL, key, &node);
+	auto rc = mapping_find(&self->tree, self, key, &node);
 	if (rc == 0 && node)
 		assert(0);
 	rbtree_set(&self->tree, node, rc, &object->link_mapping);
@@ -78,6 +79,8 @@ mapping_add(Mapping* self, Object* object)
 static inline void
 mapping_remove(Mapping* self, Object* object)
 {
+	if (! branch_min(object->root))
+		return;
 	rbtree_remove(&self->tree, &object->link_mapping);
 	self->tree_count--;
 	assert(self->tree_count >= 0);
@@ -111,6 +114,8 @@ hot static inline Object*
 mapping_map(Mapping* self, Row* key)
 {
 	// part[n].min >= key && key < part[n + 1].min
+	if (unlikely(!self->tree_count || !key))
+		return mapping_min(self);
 	RbtreeNode* node = NULL;
 	int rc = mapping_find(&self->tree, self, key, &node);
 	assert(node != NULL);
-- 
2.43.0


From d7169058a9c95c93bd2e9fcca5620ddb3b93d1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:20 +0000
Subject: [PATCH 019/108] fix: tier_mgr_created() is true when a table has
 tiers

---
 amelie/db/tier/tier_mgr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/db/tier/tier_mgr.h b/amelie/db/tier/tier_mgr.h
index ab307b0..8a21775 100644
--- a/amelie/db/tier/tier_mgr.h
+++ b/amelie/db/tier/tier_mgr.h
@@ -37,7 +37,7 @@ Buf*    tier_mgr_list(TierMgr*, Str*, int);
 static inline bool
 tier_mgr_created(TierMgr* self)
 {
-	return !self->list_count;
+	return self->list_count > 0;
 }
 
 static inline Tier*
-- 
2.43.0


From f7028af5050b86f7afebf088a6064b4da917aa37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:20 +0000
Subject: [PATCH 020/108] fix: visit every branch of a tier object, skip tiers
 without objects in cursors

---
 amelie/db/part/cursor.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/amelie/db/part/cursor.c b/amelie/db/part/cursor.c
index aa96196..8ed42ee 100644
--- a/amelie/db/part/cursor.c
+++ b/amelie/db/part/cursor.c
@@ -47,6 +47,8 @@ cursor_lookup(PartMgr*     self,
 	{
 		auto tier = list_at(Tier, link);
 		auto object = mapping_map(&tier->mapping, key);
+		if (! object)
+			continue;
 
 		// iterate branches (from hot to cold)
 		auto branch = object->branches;
@@ -58,6 +60,7 @@ cursor_lookup(PartMgr*     self,
 				iterator_close(it);
 				return &branch_it->it;
 			}
+			branch = branch->next;
 		}
 	}
 
@@ -96,6 +99,8 @@ cursor_scan(PartMgr*     self,
 		// todo: switch to tier iterator
 		// match object
 		auto object = mapping_map(&tier->mapping, key);
+		if (! object)
+			continue;
 
 		// add branches (from hot to cold)
 		auto branch = object->branches;
@@ -104,6 +109,7 @@ cursor_scan(PartMgr*     self,
 			auto branch_it = branch_iterator_allocate();
 			merge_iterator_add(merge_it, &branch_it->it);
 			branch_iterator_open(branch_it, &config->keys, branch, key);
+			branch = branch->next;
 		}
 	}
 
@@ -146,6 +152,8 @@ cursor_scan_cross(PartMgr*     self,
 		// todo: switch to tier iterator
 		// match object
 		auto object = mapping_map(&tier->mapping, key);
+		if (! object)
+			continue;
 
 		// add branches (from hot to cold)
 		auto branch = object->branches;
@@ -154,6 +162,7 @@ cursor_scan_cross(PartMgr*     self,
 			auto branch_it = branch_iterator_allocate();
 			merge_iterator_add(merge_it, &branch_it->it);
 			branch_iterator_open(branch_it, &config->keys, branch, key);
+			branch = branch->next;
 		}
 	}
 
-- 
2.43.0


From 6518c92754af1947019f11e95e6f7e8190d15843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:21 +0000
Subject: [PATCH 021/108] fix: account for every part of not compressed object
 data in its sizes

---
 amelie/db/object/meta_writer.h | 4 ++--
 amelie/db/storage/encoder.h    | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/amelie/db/object/meta_writer.h b/amelie/db/object/meta_writer.h
index ad30d9e..9fab4a7 100644
--- a/amelie/db/object/meta_writer.h
+++ b/amelie/db/object/meta_writer.h
@@ -90,7 +90,7 @@ meta_writer_stop(MetaWriter* self)
 	meta->magic             = META_MAGIC;
 	meta->version           = META_VERSION;
 	meta->size_origin       = meta->size;
-	meta->size              = encoder_iov(encoder)->iov_len;
+	meta->size              = encoder_iov_size(encoder);
 	meta->size_total        =
 		meta->size_regions + meta->size + sizeof(Meta);
 	meta->size_total_origin =
@@ -109,7 +109,7 @@ meta_writer_add(MetaWriter*   self,
 	assert(region->rows > 0);
 
 	// get region size
-	uint32_t size = encoder_iov(&region_writer->encoder)->iov_len;
+	uint32_t size = encoder_iov_size(&region_writer->encoder);
 
 	// calculate region crc
 	uint32_t crc = 0;
diff --git a/amelie/db/storage/encoder.h b/amelie/db/storage/encoder.h
index 1a120a6..b65508d 100644
--- a/amelie/db/storage/encoder.h
+++ b/amelie/db/storage/encoder.h
@@ -114,6 +114,12 @@ encoder_iov_count(Encoder* self)
 	return self->iov.iov_count;
 }
 
+static inline int
+encoder_iov_size(Encoder* self)
+{
+	return self->iov.size;
+}
+
 static inline uint32_t
 encoder_iov_crc(Encoder* self)
 {
-- 
2.43.0


From 2446b67251759659640a032b735109b058c58566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:21 +0000
Subject: [PATCH 022/108] fix: validate crc of the compressed object index

---
 amelie/db/object/object.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/amelie/db/object/object.c b/amelie/db/object/object.c
index 552f5ca..fce8321 100644
--- a/amelie/db/object/object.c
+++ b/amelie/db/object/object.c
@@ -46,9 +46,9 @@ object_free(Object* self)
 }
 
 static void
-object_validate_index(Object* self, Branch* branch)
+object_validate_index(Object* self, Branch* branch, Buf* data)
 {
-	uint32_t crc = runtime()->crc(0, branch->meta_data.start, buf_size(&branch->meta_data));
+	uint32_t crc = runtime()->crc(0, data->start, buf_size(data));
 	if (crc != branch->meta.crc_data)
 		error("object: file meta data '%s' crc mismatch",
 		      str_of(&self->file.path));
@@ -73,7 +73,7 @@ object_read_index(Object* self, Branch* branch, size_t offset)
 	if (! encoder_active(&encoder))
 	{
 		file_pread_buf(file, meta_data, meta->size, offset);
-		object_validate_index(self, branch);
+		object_validate_index(self, branch, meta_data);
 		return;
 	}
 
@@ -81,7 +81,7 @@ object_read_index(Object* self, Branch* branch, size_t offset)
 	auto buf = buf_create();
 	defer_buf(buf);
 	file_pread_buf(file, buf, meta->size, offset);
-	object_validate_index(self, branch);
+	object_validate_index(self, branch, buf);
 
 	// decompress index
 	buf_emplace(meta_data, meta->size_origin);
-- 
2.43.0


From 9d0f3f360caadd312468535697e25360d74d3673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:21 +0000
Subject: [PATCH 023/108] fix: cut only object branches which are not
 represented in its version

---
 amelie/db/object/object.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/db/object/object.c b/amelie/db/object/object.c
index fce8321..5c0b165 100644
--- a/amelie/db/object/object.c
+++ b/amelie/db/object/object.c
@@ -150,7 +150,7 @@ object_open(Object* self, int state)
 
 	// cut branches that are not represented in its versions id
 	// (compaction crash)
-	if (offset == self->file.size)
+	if (offset < self->file.size)
 	{
 		file_truncate(&self->file, offset);
 		if (opt_int_of(&config()->storage_sync))
-- 
2.43.0


From 822a065be7581ea760f6cf11f05e7770a00bb5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:21 +0000
Subject: [PATCH 024/108] fix: reset the read buffer before reading a next
 object region

---
 amelie/db/object/reader.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amelie/db/object/reader.h b/amelie/db/object/reader.h
index 9aedfb7..e0bfcc4 100644
--- a/amelie/db/object/reader.h
+++ b/amelie/db/object/reader.h
@@ -60,6 +60,7 @@ reader_execute(Reader* self, MetaRegion* meta_region)
 	auto branch  = self->branch;
 	auto encoder = &self->encoder;
 	encoder_reset(encoder);
+	buf_reset(&self->buf_read);
 
 	// read region data from file
 	file_pread_buf(branch->object_file, &self->buf_read, meta_region->size,
-- 
2.43.0


From 9bd798ecab86191d3c23ea8391908e94a172f826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:44 +0000
Subject: [PATCH 025/108] fix: remove objects from volumes when a tier is
 closed

---
 amelie/db/tier/tier.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amelie/db/tier/tier.c b/amelie/db/tier/tier.c
index b1df730..a28ee77 100644
--- a/amelie/db/tier/tier.c
+++ b/amelie/db/tier/tier.c
@@ -35,6 +35,7 @@ tier_free(Tier* self)
 	list_foreach_safe(&self->list)
 	{
 		auto object = list_at(Object, link);
+		tier_remove(self, object);
 		object_free(object);
 	}
 	am_free(self);
-- 
2.43.0


From eca5b2f357cc4e76b080e0f5078df797491e7438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:10 +0000
Subject: [PATCH 026/108] fix: remove partitions from volumes when a table is
 closed

---
 amelie/db/part/part_mgr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amelie/db/part/part_mgr.c b/amelie/db/part/part_mgr.c
index 080dbf3..b742e3a 100644
--- a/amelie/db/part/part_mgr.c
+++ b/amelie/db/part/part_mgr.c
@@ -45,6 +45,7 @@ part_mgr_free(PartMgr* self)
 	list_foreach_safe(&self->list)
 	{
 		auto part = list_at(Part, link);
+		part_mgr_remove(self, part);
 		part_free(part);
 	}
 	part_mapping_free(&self->mapping);
-- 
2.43.0


From 5f66db4f1ab62ae5e214472949c2a16b9b088339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:28 +0000
Subject: [PATCH 027/108] fix: release storages of a table which failed to
 create its partitions

---
 amelie/db/part/part_mgr.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/amelie/db/part/part_mgr.c b/amelie/db/part/part_mgr.c
index b742e3a..2a87a70 100644
--- a/amelie/db/part/part_mgr.c
+++ b/amelie/db/part/part_mgr.c
@@ -97,9 +97,6 @@ part_mgr_close(PartMgr* self)
 void
 part_mgr_drop(PartMgr* self)
 {
-	if (! self->list_count)
-		return;
-
 	list_foreach_safe(&self->list)
 	{
 		auto part = list_at(Part, link);
-- 
2.43.0


From 0d949fa1f14c20b072a0f98cb3b09fafaccb21a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:39 +0000
Subject: [PATCH 028/108] fix: log the created index instead of the libc
 index() function

---
 amelie/db/catalog/table_index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/db/catalog/table_index.c b/amelie/db/catalog/table_index.c
index 52cc877..1c28362 100644
--- a/amelie/db/catalog/table_index.c
+++ b/amelie/db/catalog/table_index.c
@@ -62,7 +62,7 @@ table_index_add(Table* self, Tr* tr, IndexConfig* config)
 	table_config_index_add(self->config, config);
 
 	// update table
-	log_relation(&tr->log, &add_if, index, &self->rel);
+	log_relation(&tr->log, &add_if, config, &self->rel);
 
 	// use separate log command for create
 	// index processing
-- 
2.43.0


From c95bc803cef601d964f47e270e03caf0d51f4a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:39 +0000
Subject: [PATCH 029/108] fix: do not drop the primary index of a table

---
 amelie/db/catalog/table_index.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/amelie/db/catalog/table_index.c b/amelie/db/catalog/table_index.c
index 1c28362..f494536 100644
--- a/amelie/db/catalog/table_index.c
+++ b/amelie/db/catalog/table_index.c
@@ -109,6 +109,14 @@ table_index_drop(Table* self,
 		return false;
 	}
 
+	// primary index cannot be dropped
+	if (index->primary)
+		error("table '%.*s' index '%.*s': cannot drop primary index",
+		      str_size(&self->config->name),
+		      str_of(&self->config->name),
+		      str_size(name),
+		      str_of(name));
+
 	// update table
 	log_relation(&tr->log, &drop_if, index, &self->rel);
 	return true;
-- 
2.43.0


From 8ea8aa40c9f8c111067fc24a200819c7894b1f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:39 +0000
Subject: [PATCH 030/108] fix: restore the previous unlogged setting of a table
 on rollback

---
 amelie/db/catalog/table_mgr_alter.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/amelie/db/catalog/table_mgr_alter.c b/amelie/db/catalog/table_mgr_alter.c
index da57bc7..958dd8d 100644
--- a/amelie/db/catalog/table_mgr_alter.c
+++ b/amelie/db/catalog/table_mgr_alter.c
@@ -152,7 +152,10 @@ set_unlogged_if_abort(Log* self, LogOp* op)
 {
 	auto relation = log_relation_of(self, op);
 	auto table = table_of(relation->relation);
-	table_set_unlogged(table, !table->config->unlogged);
+	uint8_t* pos = relation->data;
+	bool value;
+	json_read_bool(&pos, &value);
+	table_set_unlogged(table, value);
 }
 
 static LogIf set_unlogged_if =
@@ -181,6 +184,9 @@ table_mgr_set_unlogged(TableMgr* self,
 	// update table
 	log_relation(&tr->log, &set_unlogged_if, NULL, &table->rel);
 
+	// save previous value
+	encode_bool(&tr->log.data, table->config->unlogged);
+
 	// set table and partitions as unlogged
 	table_set_unlogged(table, value);
 	return true;
-- 
2.43.0


From 42ad034821ac1c598fc1eb79dd890f0498153398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 031/108] fix: dropping an empty tier storage keeps objects of
 other storages

---
 amelie/db/catalog/table_tier.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/amelie/db/catalog/table_tier.c b/amelie/db/catalog/table_tier.c
index 7c49393..bf6e085 100644
--- a/amelie/db/catalog/table_tier.c
+++ b/amelie/db/catalog/table_tier.c
@@ -308,7 +308,6 @@ storage_drop_if_commit(Log* self, LogOp* op)
 
 	auto volume = volume_mgr_find(&tier->config->volumes, &storage_name);
 	assert(volume);
-	tier_truncate(tier);
 	error_catch (
 		volume_rmdir(volume);
 	);
-- 
2.43.0


From 59d50f8602f718e68784d3c0915b60472cbe6a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:31 +0000
Subject: [PATCH 032/108] fix: keep dropped columns dropped when a table config
 is copied

---
 amelie/db/row/column.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amelie/db/row/column.h b/amelie/db/row/column.h
index ceefd95..bf25ce2 100644
--- a/amelie/db/row/column.h
+++ b/amelie/db/row/column.h
@@ -77,6 +77,7 @@ column_copy(Column* self)
 	auto copy = column_allocate();
 	column_set_name(copy, &self->name);
 	column_set_type(copy, self->type, self->type_size);
+	copy->dropped = self->dropped;
 	constraints_copy(&self->constraints, &copy->constraints);
 	return copy;
 }
-- 
2.43.0


From 3d7a1fc5273a7acaee7ecdaa58acd8d4d7e6a70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:27 +0000
Subject: [PATCH 033/108] fix: replace the state file atomically

---
 amelie/runtime/runtime/state.c | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/amelie/runtime/runtime/state.c b/amelie/runtime/runtime/state.c
index ec5d5ac..3c39b0e 100644
--- a/amelie/runtime/runtime/state.c
+++ b/amelie/runtime/runtime/state.c
@@ -74,35 +74,23 @@ state_save_to(State* self, const char* path)
 	uint8_t* pos = buf->start;
 	json_export_pretty(&text, NULL, &pos);
 
-	// create state file
+	// create and sync state file
 	File file;
 	file_init(&file);
 	defer(file_close, &file);
-	file_open_as(&file, path, O_CREAT|O_RDWR, 0600);
+	file_open_as(&file, path, O_CREAT|O_TRUNC|O_RDWR, 0600);
 	file_write_buf(&file, &text);
+	file_sync(&file);
 }
 
 void
 state_save(State* self, const char* path)
 {
-	if (! fs_exists("%s", path))
-	{
-		state_save_to(self, path);
-		return;
-	}
-
-	// remove old saved state, if exists
-	if (fs_exists("%s.old", path))
-		fs_unlink("%s.old", path);
-
-	// save existing state as a old
-	fs_rename(path, "%s.old", path);
-
-	// create state file
-	state_save_to(self, path);
-
-	// remove old state file
-	fs_unlink("%s.old", path);
+	// create <path>.incomplete and replace the existing state file
+	char path_incomplete[PATH_MAX];
+	sfmt(path_incomplete, sizeof(path_incomplete), "%s.incomplete", path);
+	state_save_to(self, path_incomplete);
+	fs_rename(path_incomplete, "%s", path);
 }
 
 void
-- 
2.43.0


From 2d6974421771bd235dfedc85c2f3576e259fe6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:27 +0000
Subject: [PATCH 034/108] fix: replace the config file atomically

---
 amelie/runtime/runtime/config.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/amelie/runtime/runtime/config.c b/amelie/runtime/runtime/config.c
index 14b83ba..9e94308 100644
--- a/amelie/runtime/runtime/config.c
+++ b/amelie/runtime/runtime/config.c
@@ -94,12 +94,18 @@ config_save(Config* self, const char* path)
 	uint8_t* pos = buf->start;
 	json_export_pretty(&text, NULL, &pos);
 
-	// create config file
+	// create and sync <path>.incomplete
+	char path_incomplete[PATH_MAX];
+	sfmt(path_incomplete, sizeof(path_incomplete), "%s.incomplete", path);
 	File file;
 	file_init(&file);
 	defer(file_close, &file);
-	file_open_as(&file, path, O_CREAT|O_RDWR, 0644);
+	file_open_as(&file, path_incomplete, O_CREAT|O_TRUNC|O_RDWR, 0644);
 	file_write_buf(&file, &text);
+	file_sync(&file);
+
+	// replace existing config file
+	fs_rename(path_incomplete, "%s", path);
 }
 
 void
-- 
2.43.0


From cf0e5c6161e8937923706a0eef59779f6d3b9976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:25 +0000
Subject: [PATCH 035/108] fix: update the timer time after the poller wait

---
 amelie/runtime/base/task.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amelie/runtime/base/task.c b/amelie/runtime/base/task.c
index 26d4a85..9e3d60b 100644
--- a/amelie/runtime/base/task.c
+++ b/amelie/runtime/base/task.c
@@ -144,6 +144,9 @@ mainloop(Task* self)
 		}
 		poller_step(poller, timeout);
 		bus_set_sleep(bus, false);
+
+		// time has passed while waiting
+		timer_mgr_reset(timer_mgr);
 	}
 }
 
-- 
2.43.0


From 6abecf164040087255b26bedb292196e97f014e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:25 +0000
Subject: [PATCH 036/108] fix: do not report a timeout for an event which has
 been signalled

---
 amelie/runtime/base/wait.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amelie/runtime/base/wait.h b/amelie/runtime/base/wait.h
index aba9402..f4b509a 100644
--- a/amelie/runtime/base/wait.h
+++ b/amelie/runtime/base/wait.h
@@ -65,7 +65,8 @@ wait_event_time(Event* event, TimerMgr* timer_mgr, Coroutine* coro, int time_ms)
 	coroutine_suspend(coro);
 	event->wait = NULL;
 
-	bool timedout = time_ms > 0 && !timer.active;
+	// signal which came together with the timer is not lost
+	bool timedout = time_ms > 0 && !timer.active && !event->signal;
 	if (unlikely(timer.active))
 		timer_stop(&timer);
 
-- 
2.43.0


From f04d857ccd7a97b3ba93c6d160c51b4e185e1877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:25 +0000
Subject: [PATCH 037/108] fix: reject bytes outside of the base64 tables

---
 amelie/runtime/lib/base64.c    | 2 ++
 amelie/runtime/lib/base64url.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/amelie/runtime/lib/base64.c b/amelie/runtime/lib/base64.c
index 6cf47fb..214d95d 100644
--- a/amelie/runtime/lib/base64.c
+++ b/amelie/runtime/lib/base64.c
@@ -105,6 +105,8 @@ base64_decode(Buf* self, Str* str)
 		if (*pos == '=')
 			break;
 
+		if (unlikely(*pos >= sizeof(base64_decode_table)))
+			goto error;
 		auto c = base64_decode_table[*pos];
 		if (unlikely(c == 255))
 			goto error;
diff --git a/amelie/runtime/lib/base64url.c b/amelie/runtime/lib/base64url.c
index 5d4d5e3..5ab824f 100644
--- a/amelie/runtime/lib/base64url.c
+++ b/amelie/runtime/lib/base64url.c
@@ -130,6 +130,8 @@ base64url_decode(Buf* self, Str* str)
 	auto end       = (uint8_t*)str->end;
 	for (auto pos = str_u8(str); pos < end; pos++)
 	{
+		if (unlikely(*pos >= sizeof(base64url_decode_table)))
+			goto error;
 		auto c = base64url_decode_table[*pos];
 		if (unlikely(c == 255))
 			goto error;
-- 
2.43.0


From 35d07283d1f94bdf94881fecf0fe3ab8c2968f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:25 +0000
Subject: [PATCH 038/108] fix: identify cached authentication by the whole
 token

---
 amelie/server/auth/auth.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/amelie/server/auth/auth.c b/amelie/server/auth/auth.c
index 5487726..d08e329 100644
--- a/amelie/server/auth/auth.c
+++ b/amelie/server/auth/auth.c
@@ -49,8 +49,12 @@ auth_run(Auth* self, Str* token)
 
 	int64_t now = time_ms() / 1000;
 
-	// check auth cache, if the digest is already authenticated
-	auto user_ref = auth_cache_find(&self->cache, &jwt->digest);
+	// check auth cache, if the token is already authenticated
+	// (digest alone does not identify the header and payload)
+	Str token_ref;
+	str_set(&token_ref, jwt->digest_origin.pos,
+	        jwt->digest.end - jwt->digest_origin.pos);
+	auto user_ref = auth_cache_find(&self->cache, &token_ref);
 	if (user_ref)
 	{
 		// ensure cached token has not expired
@@ -94,8 +98,8 @@ auth_run(Auth* self, Str* token)
 	// validate digest using user secret
 	jwt_decode_validate(jwt, &user->config->secret);
 
-	// add user and token digest to the cache
-	auth_cache_add(&self->cache, user, &jwt->digest, exp);
+	// add user and token to the cache
+	auth_cache_add(&self->cache, user, &token_ref, exp);
 	return user;
 }
 
-- 
2.43.0


From 98b093daeb3f63f16b1fa4cf1792d6178e6827fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:25 +0000
Subject: [PATCH 039/108] fix: do not authenticate users without secret

---
 amelie/server/auth/auth.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/amelie/server/auth/auth.c b/amelie/server/auth/auth.c
index d08e329..905b1dc 100644
--- a/amelie/server/auth/auth.c
+++ b/amelie/server/auth/auth.c
@@ -95,6 +95,11 @@ auth_run(Auth* self, Str* token)
 		error("auth: user '%.*s' not found", str_size(&sub),
 		      str_of(&sub));
 
+	// user without secret cannot be authenticated
+	if (str_empty(&user->config->secret))
+		error("auth: user '%.*s' has no secret", str_size(&sub),
+		      str_of(&sub));
+
 	// validate digest using user secret
 	jwt_decode_validate(jwt, &user->config->secret);
 
-- 
2.43.0


From 99f067e7633e78b54bbb66ba39140a70183b14d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:31 +0000
Subject: [PATCH 040/108] fix: recognize block keywords next to symbols and if
 blocks with not or exists when splitting statements

---
 amelie/runtime/lib/separator.h | 44 +++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/amelie/runtime/lib/separator.h b/amelie/runtime/lib/separator.h
index 4339cba..5459f40 100644
--- a/amelie/runtime/lib/separator.h
+++ b/amelie/runtime/lib/separator.h
@@ -115,12 +115,19 @@ separator_skip_string(Separator* self)
 	return self->pos == self->end;
 }
 
+static inline bool
+separator_is_name(char chr)
+{
+	// part of a name
+	return isalnum((unsigned char)chr) || chr == '_' || chr == '$' ||
+	       chr == '.' || chr == '`';
+}
+
 static inline bool
 separator_match(Separator* self, char* with, int size)
 {
-	// <ws | ;> keyword <ws | ;>
-	if (self->pos != (char*)self->buf.start && self->pos[-1] != ';' &&
-	    !isspace(self->pos[-1]))
+	// keyword must not be a part of a name
+	if (self->pos != (char*)self->buf.start && separator_is_name(self->pos[-1]))
 		return false;
 
 	if ((self->end - self->pos) < (size + 1))
@@ -129,13 +136,32 @@ separator_match(Separator* self, char* with, int size)
 		return false;
 	if (self->pos == self->end)
 		return false;
-	// ws | symbol
-	if (!isspace(self->pos[size]) && self->pos[size] != ';')
+	if (separator_is_name(self->pos[size]))
 		return false;
 	self->pos += size;
 	return true;
 }
 
+static inline bool
+separator_match_if_exists(Separator* self)
+{
+	// [NOT] EXISTS name
+	auto pos = self->pos;
+	if (separator_match(self, "not", 3))
+	{
+		if (separator_skip(self))
+			return false;
+	}
+	if (separator_match(self, "exists", 6))
+	{
+		// EXISTS (expr)
+		if (separator_skip(self) || *self->pos != '(')
+			return true;
+	}
+	self->pos = pos;
+	return false;
+}
+
 static inline SeparatorToken
 separator_next(Separator* self)
 {
@@ -162,13 +188,9 @@ separator_next(Separator* self)
 				// if ;
 				if (*self->pos == ';')
 					continue;
-				// if exists
-				// if not
-				if (separator_match(self, "exists", 6))
+				// if [not] exists name
+				if (separator_match_if_exists(self))
 					continue;
-				if (separator_match(self, "not", 3))
-					continue;
-
 				return SEPARATOR_IF;
 			}
 			break;
-- 
2.43.0


From 7a2d18a0e274f7c73f9891da6a3ee6b3616bff46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:47 +0000
Subject: [PATCH 041/108] fix: free rows of truncated partitions

---
 amelie/db/part/part.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/amelie/db/part/part.c b/amelie/db/part/part.c
index 428027f..a15c586 100644
--- a/amelie/db/part/part.c
+++ b/amelie/db/part/part.c
@@ -84,6 +84,13 @@ part_open(Part* self)
 void
 part_truncate(Part* self)
 {
+	// free rows
+	auto it = index_iterator(part_primary(self));
+	defer(iterator_close, it);
+	iterator_open(it, NULL);
+	for (; iterator_has(it); iterator_next(it))
+		row_free(self->heap, iterator_at(it));
+
 	for (auto index = self->indexes; index; index = index->next)
 		index_truncate(index);
 }
-- 
2.43.0


From 51dc083f9f0835fd31b996efd8242d9476edc1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:09 +0000
Subject: [PATCH 042/108] fix: read JSON numbers within the text, accept
 INT64_MIN and reject numbers without digits

---
 amelie/runtime/json/json_parser.c | 33 ++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/amelie/runtime/json/json_parser.c b/amelie/runtime/json/json_parser.c
index 32c72de..5e5d837 100644
--- a/amelie/runtime/json/json_parser.c
+++ b/amelie/runtime/json/json_parser.c
@@ -145,6 +145,7 @@ json_integer_read(Json* self, int64_t* value, double* real)
 		self->pos++;
 	}
 	auto start = self->pos;
+	bool overflow = false;
 	while (self->pos < self->end)
 	{
 		if (*self->pos == '.' ||
@@ -156,21 +157,39 @@ json_integer_read(Json* self, int64_t* value, double* real)
 		}
 		if (! isdigit(*self->pos))
 			break;
-		if (unlikely(int64_mul_add_overflow(value, *value, 10, *self->pos - '0')))
-			error("JSON int overflow");
+		// negative numbers are accumulated as negative to fit INT64_MIN
+		int64_t digit = *self->pos - '0';
+		if (unlikely(int64_mul_add_overflow(value, *value, 10, minus ? -digit : digit)))
+			overflow = true;
 		self->pos++;
 	}
-	if (minus)
-		*value = -(*value);
+	if (unlikely(overflow))
+		error("JSON int overflow");
+	if (unlikely(self->pos == start))
+		error("bad JSON number");
 	return true;
 
-read_as_double:
+read_as_double:;
+	// string might not be null-terminated
+	Buf number;
+	buf_init(&number);
+	defer_buf(&number);
+	auto pos = start;
+	while (pos < self->end && (isdigit(*pos) || *pos == '.' ||
+	       *pos == 'e' || *pos == 'E' ||
+	       *pos == '+' || *pos == '-'))
+		pos++;
+	buf_write(&number, start, pos - start);
+	buf_write(&number, "\0", 1);
+
 	errno = 0;
 	char* end = NULL;
-	*real = strtod(start, &end);
+	*real = strtod(buf_cstr(&number), &end);
 	if (errno == ERANGE)
 		error("bad JSON float number");
-	self->pos = end;
+	if (unlikely(end == buf_cstr(&number)))
+		error("bad JSON number");
+	self->pos = start + (end - buf_cstr(&number));
 	if (minus)
 		*real = -(*real);
 	return false;
-- 
2.43.0


From 4dd0306daad36a73e9b1e32f2d9d5720a622b1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:09 +0000
Subject: [PATCH 043/108] fix: store JSON reals as float only when exact

---
 amelie/runtime/json/json.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/amelie/runtime/json/json.h b/amelie/runtime/json/json.h
index f2430c6..e278552 100644
--- a/amelie/runtime/json/json.h
+++ b/amelie/runtime/json/json.h
@@ -400,10 +400,17 @@ json_is_bool(uint8_t* data)
 }
 
 // real
+always_inline hot static inline bool
+json_is_real32(double value)
+{
+	// value does not lose precision as float
+	return value >= FLT_MIN && value <= FLT_MAX && (float)value == value;
+}
+
 always_inline hot static inline int
 json_size_real(double value)
 {
-	if (value >= FLT_MIN && value <= FLT_MAX)
+	if (json_is_real32(value))
 		return json_size_type() + sizeof(float);
 	return json_size_type() + sizeof(double);
 }
@@ -437,7 +444,7 @@ always_inline hot static inline void
 json_write_real(uint8_t** pos, double value)
 {
 	uint8_t* data = *pos;
-	if (value >= FLT_MIN && value <= FLT_MAX)
+	if (json_is_real32(value))
 	{
 		*data = JSON_REAL32;
 		*(float*)(data + json_size_type()) = value;
-- 
2.43.0


From c3b3112292070c29f44df57caf767b5a4141f5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:09 +0000
Subject: [PATCH 044/108] fix: print JSON reals with the digits needed to read
 them back

---
 amelie/runtime/json/json_export.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/amelie/runtime/json/json_export.c b/amelie/runtime/json/json_export.c
index 1322f72..a5f032c 100644
--- a/amelie/runtime/json/json_export.c
+++ b/amelie/runtime/json/json_export.c
@@ -39,7 +39,14 @@ json_export_as(Buf* data, Timezone* timezone, bool pretty, int deep, uint8_t** p
 	{
 		double value;
 		json_read_real(pos, &value);
-		buf_printf(data, "%g", value);
+		// use as many digits as necessary to read the same value
+		char number[32];
+		int  size;
+		int  digits = 6;
+		do {
+			size = snprintf(number, sizeof(number), "%.*g", digits, value);
+		} while (digits++ < 17 && strtod(number, NULL) != value);
+		buf_write(data, number, size);
 		break;
 	}
 	case JSON_INTV0 ... JSON_INT64:
-- 
2.43.0


From 646bf690ba5bc6c34e42ab66a5c850744e611d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:10 +0000
Subject: [PATCH 045/108] fix: check types of decoded real and null values

---
 amelie/runtime/json/decode.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amelie/runtime/json/decode.h b/amelie/runtime/json/decode.h
index 1d8cc15..e7f51db 100644
--- a/amelie/runtime/json/decode.h
+++ b/amelie/runtime/json/decode.h
@@ -103,7 +103,7 @@ decode_obj(Decode* self, const char* context, uint8_t** pos)
 			}
 			case DECODE_REAL:
 			{
-				if (unlikely(! json_is_bool(*pos)))
+				if (unlikely(! json_is_real(*pos)))
 					error("%s: real expected for '%s'", context,
 					      ref->key);
 				auto value = (double*)ref->value;
@@ -112,7 +112,7 @@ decode_obj(Decode* self, const char* context, uint8_t** pos)
 			}
 			case DECODE_NULL:
 			{
-				if (unlikely(! json_is_bool(*pos)))
+				if (unlikely(! json_is_null(*pos)))
 					error("%s: null expected for '%s'", context,
 					      ref->key);
 				json_read_null(pos);
-- 
2.43.0


From 7eab0d3026094d0f1f32dfe3fcdea62e0b3032aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:10 +0000
Subject: [PATCH 046/108] fix: decode unicode and other escapes in JSON strings

---
 amelie/runtime/json/escape.h | 79 ++++++++++++++++++++++++++++++++++++
 1 file changed, 79 insertions(+)

diff --git a/amelie/runtime/json/escape.h b/amelie/runtime/json/escape.h
index 521db14..8df465b 100644
--- a/amelie/runtime/json/escape.h
+++ b/amelie/runtime/json/escape.h
@@ -11,6 +11,77 @@
 // AGPL-3.0 Licensed.
 //
 
+static inline int
+unescape_hex(char* pos, char* end)
+{
+	// XXXX
+	if ((end - pos) < 4)
+		return -1;
+	int value = 0;
+	for (int i = 0; i < 4; i++)
+	{
+		auto chr = pos[i];
+		int digit;
+		if (chr >= '0' && chr <= '9')
+			digit = chr - '0';
+		else
+		if (chr >= 'a' && chr <= 'f')
+			digit = chr - 'a' + 10;
+		else
+		if (chr >= 'A' && chr <= 'F')
+			digit = chr - 'A' + 10;
+		else
+			return -1;
+		value = value * 16 + digit;
+	}
+	return value;
+}
+
+static inline uint8_t*
+unescape_unicode(uint8_t* result, char** pos, char* end)
+{
+	// uXXXX[\uXXXX]
+	auto code = unescape_hex(*pos + 1, end);
+	if (code >= 0xD800 && code <= 0xDBFF)
+	{
+		// surrogate pair
+		int low = -1;
+		if ((end - *pos) >= 11 && (*pos)[5] == '\\' && (*pos)[6] == 'u')
+			low = unescape_hex(*pos + 7, end);
+		if (low < 0xDC00 || low > 0xDFFF)
+			error("invalid unicode escape sequence");
+		code = 0x10000 + ((code - 0xD800) << 10) + (low - 0xDC00);
+		*pos += 6;
+	} else
+	if (code == -1 || (code >= 0xDC00 && code <= 0xDFFF))
+		error("invalid unicode escape sequence");
+	*pos += 4;
+
+	// utf8
+	if (code < 0x80)
+	{
+		*result++ = code;
+	} else
+	if (code < 0x800)
+	{
+		*result++ = 0xC0 | (code >> 6);
+		*result++ = 0x80 | (code & 0x3F);
+	} else
+	if (code < 0x10000)
+	{
+		*result++ = 0xE0 | (code >> 12);
+		*result++ = 0x80 | ((code >> 6) & 0x3F);
+		*result++ = 0x80 | (code & 0x3F);
+	} else
+	{
+		*result++ = 0xF0 | (code >> 18);
+		*result++ = 0x80 | ((code >> 12) & 0x3F);
+		*result++ = 0x80 | ((code >> 6) & 0x3F);
+		*result++ = 0x80 | (code & 0x3F);
+	}
+	return result;
+}
+
 hot static inline void
 unescape_str(Buf* self, Str* string)
 {
@@ -61,6 +132,14 @@ unescape_str(Buf* self, Str* string)
 		case 'v':
 			*result = '\v';
 			break;
+		case 'u':
+			result = unescape_unicode(result, &pos, end);
+			slash  = false;
+			continue;
+		default:
+			// \' \/
+			*result = *pos;
+			break;
 		}
 		slash = false;
 		result++;
-- 
2.43.0


From 23b76f99706f004f104b318a6e4f9da9cbe1397a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:06 +0000
Subject: [PATCH 047/108] fix: find a timezone offset by the last transition
 before the time

---
 amelie/runtime/lib/timezone.c | 36 ++++++++++-------------------------
 amelie/runtime/lib/timezone.h |  2 +-
 2 files changed, 11 insertions(+), 27 deletions(-)

diff --git a/amelie/runtime/lib/timezone.c b/amelie/runtime/lib/timezone.c
index 8b1b88a..f7fedce 100644
--- a/amelie/runtime/lib/timezone.c
+++ b/amelie/runtime/lib/timezone.c
@@ -123,38 +123,22 @@ timezone_match(Timezone* self, time_t time)
 	if (self->header.timecnt == 0)
 		return &self->times[0];
 
-	int min = 1;
+	// find the last transition which is not after the time
+	int min = 0;
 	int max = self->header.timecnt;
-	int mid = (min + max) / 2;
-	while (mid > min)
+	while (min < max)
 	{
-		if (min >= (int)self->header.timecnt)
-		{
-			mid = self->header.timecnt;
-			break;
-		}
-		if (min == mid)
-			break;
-
-		if (self->transition_times[mid] == time)
-		{
-			mid++;
-			break;
-		}
-		if (self->transition_times[mid] < time)
+		int mid = min + (max - min) / 2;
+		if (self->transition_times[mid] <= time)
 			min = mid + 1;
 		else
-			max = mid - 1;
-
-		mid = (min + max) / 2;
+			max = mid;
 	}
 
-	if (mid > (int)self->header.timecnt)
-		mid = self->header.timecnt;
-
-	if (time > self->transition_times[mid])
-		mid++;
+	// before the first transition
+	if (min == 0)
+		return &self->times[0];
 
-	auto type = self->transition_types[mid - 1];
+	auto type = self->transition_types[min - 1];
 	return &self->times[type];
 }
diff --git a/amelie/runtime/lib/timezone.h b/amelie/runtime/lib/timezone.h
index 571c402..c175d59 100644
--- a/amelie/runtime/lib/timezone.h
+++ b/amelie/runtime/lib/timezone.h
@@ -39,7 +39,7 @@ struct Timezone
 {
 	Str            name;
 	TimezoneHeader header;
-	uint32_t*      transition_times;
+	int32_t*       transition_times;
 	uint8_t*       transition_types;
 	TimezoneTime*  times;
 	HashtableNode  node;
-- 
2.43.0


From d6f56ad6af7a848f2b5cd41de39f76446032140c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:06 +0000
Subject: [PATCH 048/108] fix: reject dates which do not exist

---
 amelie/runtime/lib/date.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/amelie/runtime/lib/date.c b/amelie/runtime/lib/date.c
index 2981142..801a5a3 100644
--- a/amelie/runtime/lib/date.c
+++ b/amelie/runtime/lib/date.c
@@ -72,7 +72,20 @@ date_set(Str* str)
 		goto error;
 	int day = date_parse_part(str, pos, pos_end);
 
-	return date_set_gregorian(year, month, day);
+	// month
+	if (unlikely(month < 1 || month > 12))
+		goto error;
+
+	// day
+	auto julian_day = date_set_gregorian(year, month, day);
+	int result_year;
+	int result_month;
+	int result_day;
+	date_get_gregorian(julian_day, &result_year, &result_month, &result_day);
+	if (unlikely(result_month != month || result_day != day))
+		goto error;
+
+	return julian_day;
 
 error:
 	date_error_str(str);
-- 
2.43.0


From c3636ddbb569c8d714b07084a899b059c2666a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:06 +0000
Subject: [PATCH 049/108] fix: do not read past an empty field name

---
 amelie/runtime/lib/interval.c  | 2 ++
 amelie/runtime/lib/timestamp.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/amelie/runtime/lib/interval.c b/amelie/runtime/lib/interval.c
index ea50232..756f688 100644
--- a/amelie/runtime/lib/interval.c
+++ b/amelie/runtime/lib/interval.c
@@ -337,6 +337,8 @@ typedef enum
 static inline int
 interval_read_field(Str* type)
 {
+	if (unlikely(str_empty(type)))
+		return -1;
 	switch (*str_of(type)) {
 	case 'm':
 		// minute
diff --git a/amelie/runtime/lib/timestamp.c b/amelie/runtime/lib/timestamp.c
index ed805c7..084647a 100644
--- a/amelie/runtime/lib/timestamp.c
+++ b/amelie/runtime/lib/timestamp.c
@@ -481,6 +481,8 @@ typedef enum
 static inline int
 timestamp_read_field(Str* type)
 {
+	if (unlikely(str_empty(type)))
+		return -1;
 	switch (*str_of(type)) {
 	case 'm':
 		// minute
-- 
2.43.0


From 5e36050d4cf5fe13057881cf2de87d1b8850fd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:06 +0000
Subject: [PATCH 050/108] fix: print and read seconds of a timezone offset,
 reject offset minutes above 59

---
 amelie/runtime/lib/timestamp.c | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/amelie/runtime/lib/timestamp.c b/amelie/runtime/lib/timestamp.c
index 084647a..effcf6f 100644
--- a/amelie/runtime/lib/timestamp.c
+++ b/amelie/runtime/lib/timestamp.c
@@ -170,13 +170,30 @@ timestamp_parse(Timestamp* self, Str* str)
 		if (*pos == ':')
 			pos++;
 		pos_end = pos + 2;
-		if (unlikely(pos_end != end))
+		if (unlikely(pos_end > end))
 			goto error;
 		mm = timestamp_parse_part(str, pos, pos_end);
+		if (unlikely(mm > 59))
+			goto error;
+		pos = pos_end;
+	}
+
+	// [:]ss
+	int ss = 0;
+	if (pos != end)
+	{
+		if (*pos == ':')
+			pos++;
+		pos_end = pos + 2;
+		if (unlikely(pos_end != end))
+			goto error;
+		ss = timestamp_parse_part(str, pos, pos_end);
+		if (unlikely(ss > 59))
+			goto error;
 	}
 
 	// store timezone offset in seconds
-	self->zone = hh * 60 * 60 + mm * 60;
+	self->zone = hh * 60 * 60 + mm * 60 + ss;
 	if (negative)
 		self->zone = -self->zone;
 
@@ -335,6 +352,11 @@ timestamp_get(int64_t value, Timezone* timezone, char* str, int str_size)
 		int offset = tztime->utoff * sign;
 		int hr     =  offset / 3600;
 		int min    = (offset - (3600 * hr)) / 60;
+		int sec    = offset % 60;
+		if (sec != 0)
+			sfmt(timezone_sz, sizeof(timezone_sz), "%c%02d:%02d:%02d",
+			     sign > 0 ? '+' : '-', hr, min, sec);
+		else
 		if (min != 0)
 			sfmt(timezone_sz, sizeof(timezone_sz), "%c%02d:%02d",
 			     sign > 0 ? '+' : '-', hr, min);
-- 
2.43.0


From 48e44c3367b3501ff66060e8b0502c2c7d787d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:06 +0000
Subject: [PATCH 051/108] fix: check the size of a timestamp text after the
 white space

---
 amelie/runtime/lib/timestamp.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/amelie/runtime/lib/timestamp.c b/amelie/runtime/lib/timestamp.c
index effcf6f..dfbdf91 100644
--- a/amelie/runtime/lib/timestamp.c
+++ b/amelie/runtime/lib/timestamp.c
@@ -48,14 +48,12 @@ timestamp_parse(Timestamp* self, Str* str)
 	auto pos = str->pos;
 	auto end = str->end;
 
-	// yyyy-mm-dd hh:mm:ss (minimum allowed)
-	if (unlikely(str_size(str) < 19))
-		goto error;
-
 	// whitespace
 	while (pos < end && isspace(*pos))
 		pos++;
-	if (pos == end)
+
+	// yyyy-mm-dd hh:mm:ss (minimum allowed)
+	if (unlikely(end - pos < 19))
 		goto error;
 
 	// year
-- 
2.43.0


From bdab0f5c4cb5189248e9387891cecab2471b3c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:07 +0000
Subject: [PATCH 052/108] fix: reject timestamps with a day, hour, minute or
 second which does not exist

---
 amelie/runtime/lib/timestamp.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/amelie/runtime/lib/timestamp.c b/amelie/runtime/lib/timestamp.c
index dfbdf91..1f6afcb 100644
--- a/amelie/runtime/lib/timestamp.c
+++ b/amelie/runtime/lib/timestamp.c
@@ -216,7 +216,19 @@ timestamp_validate(Timestamp* self, Str* str)
 		goto error;
 
 	// day
-	if (! (self->time.tm_mday >= 1 && self->time.tm_mday <= 31))
+	static const int month_days[] =
+	{
+		31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31
+	};
+	auto year = self->time.tm_year;
+	auto days = month_days[self->time.tm_mon - 1];
+	if (self->time.tm_mon == 2 && ((year % 4 == 0 && year % 100 != 0) || year % 400 == 0))
+		days++;
+	if (! (self->time.tm_mday >= 1 && self->time.tm_mday <= days))
+		goto error;
+
+	// time (including leap second)
+	if (self->time.tm_hour > 23 || self->time.tm_min > 59 || self->time.tm_sec > 60)
 		goto error;
 
 	// zone
-- 
2.43.0


From e608bea37ee01334dabad6768f8edd679220967d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:07 +0000
Subject: [PATCH 053/108] fix: carry microseconds before the conversion of a
 timestamp

---
 amelie/runtime/lib/timestamp.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/amelie/runtime/lib/timestamp.c b/amelie/runtime/lib/timestamp.c
index 1f6afcb..328193d 100644
--- a/amelie/runtime/lib/timestamp.c
+++ b/amelie/runtime/lib/timestamp.c
@@ -299,6 +299,15 @@ timestamp_set_unixtime(Timestamp* self, int64_t value)
 hot int64_t
 timestamp_get_unixtime(Timestamp* self, Timezone* timezone)
 {
+	// carry microseconds
+	self->time.tm_sec += self->us / 1000000;
+	self->us %= 1000000;
+	if (self->us < 0)
+	{
+		self->time.tm_sec--;
+		self->us += 1000000;
+	}
+
 	// mktime
 	self->time.tm_isdst = -1;	
 	int64_t time = mktime(&self->time);
-- 
2.43.0


From bbeebad983336738b117a88c011feec24f3db51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:07 +0000
Subject: [PATCH 054/108] fix: use the offset in force at the local time

---
 amelie/runtime/lib/timestamp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amelie/runtime/lib/timestamp.c b/amelie/runtime/lib/timestamp.c
index 328193d..d09b34f 100644
--- a/amelie/runtime/lib/timestamp.c
+++ b/amelie/runtime/lib/timestamp.c
@@ -321,6 +321,9 @@ timestamp_get_unixtime(Timestamp* self, Timezone* timezone)
 		{
 			auto tztime = timezone_match(timezone, time);
 			assert(tztime);
+			// local time, offset of the time before the adjustment
+			// might belong to the other side of a transition
+			tztime = timezone_match(timezone, time - tztime->utoff);
 			time -= tztime->utoff;
 		}
 	} else
-- 
2.43.0


From 25194a3e7f7efab1e057776310420c27c9ff4edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:15 +0000
Subject: [PATCH 055/108] fix: truncate and extract fields of negative
 intervals

---
 amelie/runtime/lib/interval.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/amelie/runtime/lib/interval.c b/amelie/runtime/lib/interval.c
index 756f688..e45b4c3 100644
--- a/amelie/runtime/lib/interval.c
+++ b/amelie/runtime/lib/interval.c
@@ -420,31 +420,31 @@ interval_trunc(Interval* self, Str* field)
 		break;
 	case INTERVAL_DAY:
 	{
-		const auto hour = 24ULL * 60 * 60 * 1000 * 1000;
+		const auto hour = 24LL * 60 * 60 * 1000 * 1000;
 		self->us = (self->us / hour) * hour;
 		break;
 	}
 	case INTERVAL_HOUR:
 	{
-		const auto min = 60ULL * 60 * 1000 * 1000;
+		const auto min = 60LL * 60 * 1000 * 1000;
 		self->us = (self->us / min) * min;
 		break;
 	}
 	case INTERVAL_MINUTE:
 	{
-		const auto sec = 60ULL * 1000 * 1000;
+		const auto sec = 60LL * 1000 * 1000;
 		self->us = (self->us / sec) * sec;
 		break;
 	}
 	case INTERVAL_SECOND:
 	{
-		const auto sec = 1000ULL * 1000;
+		const auto sec = 1000LL * 1000;
 		self->us = (self->us / sec) * sec;
 		break;
 	}
 	case INTERVAL_MILLISECOND:
 	{
-		const auto ms = 1000ULL;
+		const auto ms = 1000LL;
 		self->us = (self->us / ms) * ms;
 		break;
 	}
@@ -472,16 +472,16 @@ interval_extract(Interval* self, Str* field)
 		result = self->d;
 		break;
 	case INTERVAL_HOUR:
-		result = (self->us / (60ULL * 60 * 1000 * 1000));
+		result = (self->us / (60LL * 60 * 1000 * 1000));
 		break;
 	case INTERVAL_MINUTE:
-		result = (self->us % (60ULL * 60 * 1000 * 1000)) / (60ULL * 1000 * 1000);
+		result = (self->us % (60LL * 60 * 1000 * 1000)) / (60LL * 1000 * 1000);
 		break;
 	case INTERVAL_SECOND:
-		result = (self->us % (60ULL * 1000 * 1000)) / (1000ULL * 1000);
+		result = (self->us % (60LL * 1000 * 1000)) / (1000LL * 1000);
 		break;
 	case INTERVAL_MILLISECOND:
-		result = (self->us % (1000ULL * 1000)) / (1000ULL);
+		result = (self->us % (1000LL * 1000)) / (1000LL);
 		break;
 	case INTERVAL_MICROSECOND:
 		result = (self->us % (1000));
-- 
2.43.0


From 17326829c4ac192ef0c9f5ca6693b5c529a46a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:15 +0000
Subject: [PATCH 056/108] fix: reject intervals without a number or out of
 range

---
 amelie/runtime/lib/interval.c | 46 +++++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 10 deletions(-)

diff --git a/amelie/runtime/lib/interval.c b/amelie/runtime/lib/interval.c
index e45b4c3..3eee090 100644
--- a/amelie/runtime/lib/interval.c
+++ b/amelie/runtime/lib/interval.c
@@ -32,6 +32,30 @@ interval_error_field(Str* str)
 	error("invalid interval field '%.*s'", str_size(str), str_of(str));
 }
 
+static inline void
+interval_overflow(void)
+{
+	error("interval overflow");
+}
+
+static inline int64_t
+interval_add_us(int64_t part, int64_t value, int64_t unit)
+{
+	int64_t result;
+	if (unlikely(int64_mul_add_overflow(&result, value, unit, part)))
+		interval_overflow();
+	return result;
+}
+
+static inline int32_t
+interval_add_part(int32_t part, int64_t value, int64_t unit)
+{
+	auto result = interval_add_us(part, value, unit);
+	if (unlikely(result < INT32_MIN || result > INT32_MAX))
+		interval_overflow();
+	return result;
+}
+
 static inline void
 interval_read_type(Interval* self, Str* type, int64_t value)
 {
@@ -46,7 +70,7 @@ interval_read_type(Interval* self, Str* type, int64_t value)
 		    str_is(type, "minutes", 7) ||
 		    str_is(type, "minute", 6))
 		{
-			self->us += value * 60LL * 1000 * 1000;
+			self->us = interval_add_us(self->us, value, 60LL * 1000 * 1000);
 			return;
 		}
 
@@ -55,7 +79,7 @@ interval_read_type(Interval* self, Str* type, int64_t value)
 		if (str_is(type, "months", 6) ||
 		    str_is(type, "month", 5))
 		{
-			self->m += value;
+			self->m = interval_add_part(self->m, value, 1);
 			return;
 		}
 
@@ -66,7 +90,7 @@ interval_read_type(Interval* self, Str* type, int64_t value)
 		    str_is(type, "milliseconds", 12) ||
 		    str_is(type, "millisecond", 11))
 		{
-			self->us += value * 1000LL;
+			self->us = interval_add_us(self->us, value, 1000LL);
 			return;
 		}
 
@@ -75,7 +99,7 @@ interval_read_type(Interval* self, Str* type, int64_t value)
 		if (str_is(type, "microseconds", 12) ||
 		    str_is(type, "microsecond", 11))
 		{
-			self->us += value;
+			self->us = interval_add_us(self->us, value, 1);
 			return;
 		}
 		break;
@@ -83,7 +107,7 @@ interval_read_type(Interval* self, Str* type, int64_t value)
 		// us
 		if (str_is(type, "us", 2))
 		{
-			self->us += value;
+			self->us = interval_add_us(self->us, value, 1);
 			return;
 		}
 		break;
@@ -97,7 +121,7 @@ interval_read_type(Interval* self, Str* type, int64_t value)
 		    str_is(type, "seconds", 7) ||
 		    str_is(type, "second", 6))
 		{
-			self->us += value * 1000LL * 1000;
+			self->us = interval_add_us(self->us, value, 1000LL * 1000);
 			return;
 		}
 		break;
@@ -111,7 +135,7 @@ interval_read_type(Interval* self, Str* type, int64_t value)
 		    str_is(type, "hours", 5) ||
 		    str_is(type, "hour", 4))
 		{
-			self->us += value * 60LL * 60 * 1000 * 1000;
+			self->us = interval_add_us(self->us, value, 60LL * 60 * 1000 * 1000);
 			return;
 		}
 		break;
@@ -121,7 +145,7 @@ interval_read_type(Interval* self, Str* type, int64_t value)
 		if (str_is(type, "days", 4) ||
 		    str_is(type, "day", 3))
 		{
-			self->d += value;
+			self->d = interval_add_part(self->d, value, 1);
 			return;
 		}
 		break;
@@ -131,7 +155,7 @@ interval_read_type(Interval* self, Str* type, int64_t value)
 		if (str_is(type, "weeks", 5) ||
 		    str_is(type, "week", 4))
 		{
-			self->d += value * 7;
+			self->d = interval_add_part(self->d, value, 7);
 			return;
 		}
 		break;
@@ -141,7 +165,7 @@ interval_read_type(Interval* self, Str* type, int64_t value)
 		if (str_is(type, "years", 5) ||
 		    str_is(type, "year", 4))
 		{
-			self->m += value * 12;
+			self->m = interval_add_part(self->m, value, 12);
 			return;
 		}
 		break;
@@ -175,6 +199,8 @@ interval_set(Interval* self, Str* str)
 
 		// cardinal
 		int64_t cardinal = 0;
+		if (pos == end || !isdigit(*pos))
+			goto error;
 		while (pos < end && isdigit(*pos))
 		{
 			if (unlikely(int64_mul_add_overflow(&cardinal, cardinal, 10, *pos - '0')))
-- 
2.43.0


From c6c3403e3d7746bb4a6701707a62ee30a410a54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:15 +0000
Subject: [PATCH 057/108] fix: reject text after an UUID

---
 amelie/runtime/lib/uuid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/runtime/lib/uuid.c b/amelie/runtime/lib/uuid.c
index 243bb77..e684f51 100644
--- a/amelie/runtime/lib/uuid.c
+++ b/amelie/runtime/lib/uuid.c
@@ -29,7 +29,7 @@ struct uuid_bits
 int
 uuid_set_nothrow(Uuid* self, Str* src)
 {
-	if (unlikely(str_size(src) < (UUID_SZ - 1)))
+	if (unlikely(str_size(src) != (UUID_SZ - 1)))
 		return -1;
 
 	auto string = str_of(src);
-- 
2.43.0


From a050fc54bb085f29d1b4d9f9382c5ee8ec69b541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:15 +0000
Subject: [PATCH 058/108] fix: reject incomplete base64 values and text after
 the padding

---
 amelie/runtime/lib/base64.c    | 10 ++++++++++
 amelie/runtime/lib/base64url.c |  4 ++++
 2 files changed, 14 insertions(+)

diff --git a/amelie/runtime/lib/base64.c b/amelie/runtime/lib/base64.c
index 214d95d..025ddb5 100644
--- a/amelie/runtime/lib/base64.c
+++ b/amelie/runtime/lib/base64.c
@@ -102,8 +102,14 @@ base64_decode(Buf* self, Str* str)
 	auto end       = (uint8_t*)str->end;
 	for (auto pos = str_u8(str); pos < end; pos++)
 	{
+		// padding up to the end
 		if (*pos == '=')
+		{
+			auto padding = end - pos;
+			if (unlikely(padding > 2 || pos[padding - 1] != '='))
+				goto error;
 			break;
+		}
 
 		if (unlikely(*pos >= sizeof(base64_decode_table)))
 			goto error;
@@ -130,6 +136,10 @@ base64_decode(Buf* self, Str* str)
 		order++;
 	}
 
+	// incomplete value
+	if (unlikely((order & 0x03) == 1))
+		goto error;
+
 	buf_advance(self, out_order);
 	return;
 error:
diff --git a/amelie/runtime/lib/base64url.c b/amelie/runtime/lib/base64url.c
index 5ab824f..172f3a8 100644
--- a/amelie/runtime/lib/base64url.c
+++ b/amelie/runtime/lib/base64url.c
@@ -154,6 +154,10 @@ base64url_decode(Buf* self, Str* str)
 		order++;
 	}
 
+	// incomplete value
+	if (unlikely((order & 0x03) == 1))
+		goto error;
+
 	buf_advance(self, out_order);
 	return;
 error:
-- 
2.43.0


From e4a8d720dd2411c1302f0fd6fad0c6f2569208f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:05 +0000
Subject: [PATCH 059/108] fix: apply the HTTP header size limit to the header,
 not to what was read

---
 amelie/server/http/http.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amelie/server/http/http.c b/amelie/server/http/http.c
index 5d77933..14df756 100644
--- a/amelie/server/http/http.c
+++ b/amelie/server/http/http.c
@@ -103,6 +103,8 @@ http_read_header(Http* self, Readahead* readahead)
 		uint8_t* end = memmem(start, buf_size(&self->raw), "\r\n\r\n", 4);
 		if (end)
 		{
+			if (unlikely(end + 4 - start > 512))
+				error("HTTP header size limit exceeded");
 			int before_truncate = buf_size(&self->raw);
 			self->raw.position = end + 4;
 
-- 
2.43.0


From 821753d5ced87f61957d2fcc9b53d84d09592805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:05 +0000
Subject: [PATCH 060/108] fix: reject HTTP first lines and header names which
 span lines

---
 amelie/server/http/http.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/amelie/server/http/http.c b/amelie/server/http/http.c
index 14df756..1031ab5 100644
--- a/amelie/server/http/http.c
+++ b/amelie/server/http/http.c
@@ -147,9 +147,9 @@ http_read(Http* self, Readahead* readahead, bool request)
 	}
 
 	// a
-	while (pos < end && *pos != ' ')
+	while (pos < end && *pos != ' ' && *pos != '\r')
 		pos++;
-	if (unlikely(pos == end))
+	if (unlikely(pos == end || *pos != ' '))
 		goto error;
 	str_set_u8(a, start, pos - start);
 	pos++;
@@ -158,9 +158,9 @@ http_read(Http* self, Readahead* readahead, bool request)
 
 	// b
 	start = pos;
-	while (pos < end && *pos != ' ')
+	while (pos < end && *pos != ' ' && *pos != '\r')
 		pos++;
-	if (unlikely(pos == end))
+	if (unlikely(pos == end || *pos != ' '))
 		goto error;
 	str_set_u8(b, start, pos - start);
 	pos++;
@@ -196,11 +196,13 @@ http_read(Http* self, Readahead* readahead, bool request)
 
 		// <name>: value\r\n
 		start = pos;
-		while (pos < end && *pos != ':')
+		while (pos < end && *pos != ':' && *pos != '\r')
 			pos++;
-		if (unlikely(pos == end))
+		if (unlikely(pos == end || *pos != ':'))
 			goto error;
 		str_set_u8(&header->name, start, pos - start);
+		if (unlikely(str_empty(&header->name)))
+			goto error;
 		pos++;
 
 		// ' '
-- 
2.43.0


From d785f78626335064683d4e484e8892b8843a2a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:05 +0000
Subject: [PATCH 061/108] fix: reject empty and too large HTTP content lengths

---
 amelie/server/http/http.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/amelie/server/http/http.c b/amelie/server/http/http.c
index 1031ab5..42419c9 100644
--- a/amelie/server/http/http.c
+++ b/amelie/server/http/http.c
@@ -237,12 +237,16 @@ http_read_content_limit(Http* self, Readahead* readahead, Buf* content,
 		return false;
 
 	int64_t len;
-	if (unlikely(str_toint(&content_len->value, &len) == -1))
+	if (unlikely(str_empty(&content_len->value) ||
+	             str_toint(&content_len->value, &len) == -1))
 		error("failed to parse HTTP request");
 
 	if (unlikely((uint64_t)len >= limit))
 		return true;
 
+	if (unlikely(len >= INT32_MAX))
+		error("HTTP content size limit exceeded");
+
 	buf_reserve(content, len + 1);
 	for (;;)
 	{
-- 
2.43.0


From 03865fa15176e22e0249e4483fd9177270926dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:11 +0000
Subject: [PATCH 062/108] fix: attach the lock event before the waiter becomes
 visible

---
 amelie/runtime/runtime/lock_mgr.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/amelie/runtime/runtime/lock_mgr.h b/amelie/runtime/runtime/lock_mgr.h
index 4ed464b..d51f517 100644
--- a/amelie/runtime/runtime/lock_mgr.h
+++ b/amelie/runtime/runtime/lock_mgr.h
@@ -102,6 +102,7 @@ lock_mgr_lock_of(LockMgr* self, Lock* lock)
 	{
 		// add lock to the relation wait list
 		lock->waiting = true;
+		event_attach(&lock->event);
 		list_append(&rel->lock_wait, &lock->link);
 		rel->lock_wait_count++;
 	}
@@ -111,9 +112,7 @@ lock_mgr_lock_of(LockMgr* self, Lock* lock)
 	// wait for the lock
 	if (unlikely(! pass))
 	{
-		auto event = &lock->event;
-		event_attach(event);
-		event_wait(event, -1);
+		event_wait(&lock->event, -1);
 	}
 }
 
-- 
2.43.0


From d25f4b32480447650220788b4d6c41b07c75a40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:11 +0000
Subject: [PATCH 063/108] fix: remove a cancelled waiter from the lock

---
 amelie/runtime/runtime/lock_mgr.h | 66 ++++++++++++++++++++++++-------
 1 file changed, 51 insertions(+), 15 deletions(-)

diff --git a/amelie/runtime/runtime/lock_mgr.h b/amelie/runtime/runtime/lock_mgr.h
index d51f517..6b8d03c 100644
--- a/amelie/runtime/runtime/lock_mgr.h
+++ b/amelie/runtime/runtime/lock_mgr.h
@@ -81,6 +81,51 @@ lock_resolve(Relation* rel, LockId lock)
 	return false;
 }
 
+hot static inline void
+lock_mgr_wakeup(Relation* rel)
+{
+	while (rel->lock_wait_count > 0)
+	{
+		auto lock = container_of(list_first(&rel->lock_wait), Lock, link);
+		if (lock_resolve(lock->rel, lock->rel_lock))
+		{
+			rel->lock_set[lock->rel_lock]++;
+			rel->lock_wait_count--;
+			lock->waiting = false;
+			list_unlink(&lock->link);
+			event_signal(&lock->event);
+			continue;
+		}
+		break;
+	}
+}
+
+static inline void
+lock_mgr_cancel(LockMgr* self, Lock* lock)
+{
+	// cancelled while waiting for the lock
+	auto rel = lock->rel;
+	spinlock_lock(&rel->lock);
+	auto granted = !lock->waiting;
+	if (granted)
+	{
+		rel->lock_set[lock->rel_lock]--;
+	} else
+	{
+		list_unlink(&lock->link);
+		rel->lock_wait_count--;
+	}
+	lock_mgr_remove(self, lock);
+	lock_mgr_wakeup(rel);
+	spinlock_unlock(&rel->lock);
+
+	// the lock event must be received before the lock can be freed
+	while (granted && atomic_u32_of(&lock->event.ipc.refs) > 0)
+		wait_event(&lock->event, am_self());
+
+	lock_free(lock);
+}
+
 hot static inline void
 lock_mgr_lock_of(LockMgr* self, Lock* lock)
 {
@@ -112,7 +157,11 @@ lock_mgr_lock_of(LockMgr* self, Lock* lock)
 	// wait for the lock
 	if (unlikely(! pass))
 	{
-		event_wait(&lock->event, -1);
+		if (error_catch( event_wait(&lock->event, -1) ))
+		{
+			lock_mgr_cancel(self, lock);
+			rethrow();
+		}
 	}
 }
 
@@ -201,20 +250,7 @@ lock_mgr_unlock(LockMgr* self, Lock* lock)
 	lock_mgr_remove(self, lock);
 
 	// batch wakeup non-conflicting waiters
-	while (rel->lock_wait_count > 0)
-	{
-		auto lock = container_of(list_first(&rel->lock_wait), Lock, link);
-		if (lock_resolve(lock->rel, lock->rel_lock))
-		{
-			rel->lock_set[lock->rel_lock]++;
-			rel->lock_wait_count--;
-			lock->waiting = false;
-			list_unlink(&lock->link);
-			event_signal(&lock->event);
-			continue;
-		}
-		break;
-	}
+	lock_mgr_wakeup(rel);
 
 	spinlock_unlock(&lock->rel->lock);
 
-- 
2.43.0


From 88811c1f6bc8d341907adadf87056e64eacc517e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:11 +0000
Subject: [PATCH 064/108] fix: unlock_all releases reentrant locks

---
 amelie/runtime/runtime/global.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/amelie/runtime/runtime/global.h b/amelie/runtime/runtime/global.h
index 88eaf5a..ac44046 100644
--- a/amelie/runtime/runtime/global.h
+++ b/amelie/runtime/runtime/global.h
@@ -174,6 +174,11 @@ unlock_all(void)
 	// unlock all locks taken by the coroutine
 	auto locks = &am_self()->locks;
 	list_foreach_reverse_safe(locks)
-		unlock(list_at(Lock, link));
+	{
+		auto ref = list_at(Lock, link);
+		// including reentrant
+		ref->refs = 1;
+		unlock(ref);
+	}
 	list_init(locks);
 }
-- 
2.43.0


From 77119b5634093c1a638270c30e1dcb10fe45c08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:38 +0000
Subject: [PATCH 065/108] fix: a negative identity value does not advance the
 sequence

---
 amelie/db/row/sequence.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/amelie/db/row/sequence.h b/amelie/db/row/sequence.h
index 0966637..d76a1b6 100644
--- a/amelie/db/row/sequence.h
+++ b/amelie/db/row/sequence.h
@@ -57,10 +57,13 @@ sequence_get(Sequence* self)
 }
 
 static inline void
-sequence_sync(Sequence* self, uint64_t value)
+sequence_sync(Sequence* self, int64_t value)
 {
+	// negative values are never generated
+	if (value < 0)
+		return;
 	spinlock_lock(&self->lock);
-	auto next = value + 1;
+	auto next = (uint64_t)value + 1;
 	if (self->value < next)
 		self->value = next;
 	spinlock_unlock(&self->lock);
-- 
2.43.0


From 8b02209147d2a4bee80fd6a310b920bbf539ac41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:01 +0000
Subject: [PATCH 066/108] fix: sequence_sync does not race with sequence_next

---
 amelie/db/row/sequence.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/amelie/db/row/sequence.h b/amelie/db/row/sequence.h
index d76a1b6..2e5f33c 100644
--- a/amelie/db/row/sequence.h
+++ b/amelie/db/row/sequence.h
@@ -16,20 +16,18 @@ typedef struct Sequence Sequence;
 struct Sequence
 {
 	atomic_u64 value;
-	Spinlock   lock;
 };
 
 static inline void
 sequence_init(Sequence* self)
 {
 	self->value = 0;
-	spinlock_init(&self->lock);
 }
 
 static inline void
 sequence_free(Sequence* self)
 {
-	spinlock_free(&self->lock);
+	unused(self);
 }
 
 static inline void
@@ -62,9 +60,14 @@ sequence_sync(Sequence* self, int64_t value)
 	// negative values are never generated
 	if (value < 0)
 		return;
-	spinlock_lock(&self->lock);
+	// concurrent with sequence_next()
 	auto next = (uint64_t)value + 1;
-	if (self->value < next)
-		self->value = next;
-	spinlock_unlock(&self->lock);
+	auto current = sequence_get(self);
+	while (current < next)
+	{
+		auto prev = __sync_val_compare_and_swap(&self->value, current, next);
+		if (prev == current)
+			break;
+		current = prev;
+	}
 }
-- 
2.43.0


From 5dc1a0a68f1a672dc9f4b5c1de0f54d7fb4e787c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:26 +0000
Subject: [PATCH 067/108] fix: opt_int_follow advances atomically

---
 amelie/runtime/runtime/opt.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/amelie/runtime/runtime/opt.h b/amelie/runtime/runtime/opt.h
index 40d8e1f..ec94d19 100644
--- a/amelie/runtime/runtime/opt.h
+++ b/amelie/runtime/runtime/opt.h
@@ -105,9 +105,14 @@ static inline void
 opt_int_follow(Opt* self, uint64_t value)
 {
 	assert(self->type == OPT_INT || self->type == OPT_BOOL);
-	// todo: cas loop
-	if (value > atomic_u64_of(&self->integer))
-		atomic_u64_set(&self->integer, value);
+	auto current = atomic_u64_of(&self->integer);
+	while (value > current)
+	{
+		auto prev = __sync_val_compare_and_swap(&self->integer, current, value);
+		if (prev == current)
+			break;
+		current = prev;
+	}
 }
 
 static inline uint64_t
-- 
2.43.0


From 211bb0d3c8a250935ea51712cf91460c92610503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:02 +0000
Subject: [PATCH 068/108] fix: random_generate is safe to use from several
 threads

---
 amelie/runtime/lib/random.c | 11 +++++++----
 amelie/runtime/lib/random.h |  3 ++-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/amelie/runtime/lib/random.c b/amelie/runtime/lib/random.c
index 63ac1b3..a73fb33 100644
--- a/amelie/runtime/lib/random.c
+++ b/amelie/runtime/lib/random.c
@@ -19,6 +19,7 @@ random_init(Random* self)
 {
 	self->seed[0] = 0;
 	self->seed[1] = 0;
+	spinlock_init(&self->lock);
 }
 
 void
@@ -50,13 +51,15 @@ hot uint64_t
 random_generate(Random* self)
 {
 	// xorshift128plus
+	spinlock_lock(&self->lock);
 	auto seed = self->seed;
-	uint64_t a = atomic_u64_of(&seed[0]);
-	uint64_t b = atomic_u64_of(&seed[1]);
-	atomic_u64_set(&seed[0], b);
+	uint64_t a = seed[0];
+	uint64_t b = seed[1];
+	seed[0] = b;
 	a ^= a << 23;
 	uint64_t c = a ^ b ^ (a >> 17) ^ (b >> 26);
-	atomic_u64_set(&seed[1], c);
+	seed[1] = c;
+	spinlock_unlock(&self->lock);
 	return c + b;
 }
 
diff --git a/amelie/runtime/lib/random.h b/amelie/runtime/lib/random.h
index 649a6ae..dd820ad 100644
--- a/amelie/runtime/lib/random.h
+++ b/amelie/runtime/lib/random.h
@@ -15,7 +15,8 @@ typedef struct Random Random;
 
 struct Random
 {
-	atomic_u64 seed[2];
+	uint64_t seed[2];
+	Spinlock lock;
 };
 
 void     random_init(Random*);
-- 
2.43.0


From 682c07e61ca22d7bc17c64ac2228acd702474871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:06 +0000
Subject: [PATCH 069/108] fix: uri: export secret instead of user name twice

---
 amelie/server/http/uri.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/server/http/uri.c b/amelie/server/http/uri.c
index bbf8c3e..e5c7d63 100644
--- a/amelie/server/http/uri.c
+++ b/amelie/server/http/uri.c
@@ -448,7 +448,7 @@ uri_export(Endpoint* self, Buf* buf)
 		if (! opt_string_empty(&self->secret))
 		{
 			buf_write(buf, ":", 1);
-			buf_write_str(buf, &self->user.string);
+			buf_write_str(buf, &self->secret.string);
 		}
 		buf_write(buf, "@", 1);
 	}
-- 
2.43.0


From 59d82402ac0cadbe08518ec638ea2ac91a6d11ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:06 +0000
Subject: [PATCH 070/108] fix: uri: reject uri argument, which frees the text
 being parsed

---
 amelie/server/http/uri.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/server/http/uri.c b/amelie/server/http/uri.c
index e5c7d63..11a55b3 100644
--- a/amelie/server/http/uri.c
+++ b/amelie/server/http/uri.c
@@ -249,7 +249,7 @@ uri_parse_args_set(Uri* self, Buf* buf, int name_size, int value_size)
 
 	// find and set endpoint option
 	auto opt = opts_find(&self->endpoint->opts, &name);
-	if (! opt)
+	if (!opt || opt == &self->endpoint->uri)
 		error("unknown uri argument '%.*s'", str_size(&name),
 		      str_of(&name));
 
-- 
2.43.0


From d5d450088772bc3935c6c13fcf00da5052b5f884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:06 +0000
Subject: [PATCH 071/108] fix: uri: look for protocol and user only before path
 and arguments

---
 amelie/server/http/uri.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/amelie/server/http/uri.c b/amelie/server/http/uri.c
index 11a55b3..e4d87e2 100644
--- a/amelie/server/http/uri.c
+++ b/amelie/server/http/uri.c
@@ -47,9 +47,9 @@ uri_parse_protocol(Uri* self)
 		self->pos += 9;
 	} else
 	{
-		// unsupported protocol
-		char *protocol = strstr(self->pos, "://");
-		if (protocol)
+		// unsupported protocol (before path or arguments)
+		char* protocol = strstr(self->pos, "://");
+		if (protocol && protocol < self->pos + strcspn(self->pos, "/?"))
 			uri_error();
 	}
 }
@@ -57,8 +57,8 @@ uri_parse_protocol(Uri* self)
 static inline void
 uri_parse_user(Uri* self)
 {
-	// [user[:password]@]
-	char* at = strstr(self->pos, "@");
+	// [user[:password]@] (before path or arguments)
+	char* at = memchr(self->pos, '@', strcspn(self->pos, "/?"));
 	if (! at)
 		return;
 	if (unlikely(at == self->pos))
-- 
2.43.0


From a42ae6f1c1d60dfa8c3cfe3535072e45ab3ff608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:06 +0000
Subject: [PATCH 072/108] fix: uri: reject port above 65535

---
 amelie/server/http/uri.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/server/http/uri.c b/amelie/server/http/uri.c
index e4d87e2..9b3477c 100644
--- a/amelie/server/http/uri.c
+++ b/amelie/server/http/uri.c
@@ -129,7 +129,7 @@ uri_parse_host(Uri* self)
 				uri_error();
 			self->pos++;
 		}
-		if (start == self->pos)
+		if (start == self->pos || port > UINT16_MAX)
 			uri_error();
 
 		// set port
-- 
2.43.0


From e9098e282742e6a932aacaaf26f9162d6e279492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:06 +0000
Subject: [PATCH 073/108] fix: uri: export ipv6 host in brackets

---
 amelie/server/http/uri.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/amelie/server/http/uri.c b/amelie/server/http/uri.c
index 9b3477c..74eef28 100644
--- a/amelie/server/http/uri.c
+++ b/amelie/server/http/uri.c
@@ -458,7 +458,12 @@ uri_export(Endpoint* self, Buf* buf)
 	{
 		if (! opt_string_empty(&self->host))
 		{
-			buf_write_str(buf, &self->host.string);
+			// [host] (ipv6)
+			auto host = &self->host.string;
+			if (memchr(str_of(host), ':', str_size(host)))
+				buf_printf(buf, "[%.*s]", str_size(host), str_of(host));
+			else
+				buf_write_str(buf, host);
 			buf_write(buf, ":", 1);
 			buf_printf(buf, "%d", (int)self->port.integer);
 		}
-- 
2.43.0


From 2b8e7e4ae191a1278905854072cf40bbee34dd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:06 +0000
Subject: [PATCH 074/108] fix: uri: export tls, accept and content type
 arguments for every protocol

---
 amelie/server/http/uri.c | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/amelie/server/http/uri.c b/amelie/server/http/uri.c
index 74eef28..10fa5d4 100644
--- a/amelie/server/http/uri.c
+++ b/amelie/server/http/uri.c
@@ -485,16 +485,13 @@ uri_export(Endpoint* self, Buf* buf)
 
 	// arguments
 	bool first = true;
-	if (proto == PROTO_AMELIE)
-	{
-		uri_export_arg(&self->content_type, buf, &first);
-		uri_export_arg(&self->accept, buf, &first);
-		uri_export_arg(&self->tls_capath, buf, &first);
-		uri_export_arg(&self->tls_ca, buf, &first);
-		uri_export_arg(&self->tls_cert, buf, &first);
-		uri_export_arg(&self->tls_key, buf, &first);
-		uri_export_arg(&self->tls_server, buf, &first);
-	}
+	uri_export_arg(&self->content_type, buf, &first);
+	uri_export_arg(&self->accept, buf, &first);
+	uri_export_arg(&self->tls_capath, buf, &first);
+	uri_export_arg(&self->tls_ca, buf, &first);
+	uri_export_arg(&self->tls_cert, buf, &first);
+	uri_export_arg(&self->tls_key, buf, &first);
+	uri_export_arg(&self->tls_server, buf, &first);
 	uri_export_arg(&self->columns, buf, &first);
 	uri_export_arg(&self->timezone, buf, &first);
 	uri_export_arg(&self->format, buf, &first);
-- 
2.43.0


From f19fdc6fae2fc307aeabf238aaf722e3f8f940b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:06 +0000
Subject: [PATCH 075/108] fix: uri: percent-encoding in user, secret, db and
 relation, encode on export

---
 amelie/server/http/http.c |  4 ++--
 amelie/server/http/uri.c  | 49 +++++++++++++++++++++++++++++----------
 amelie/server/http/uri.h  |  1 +
 3 files changed, 40 insertions(+), 14 deletions(-)

diff --git a/amelie/server/http/http.c b/amelie/server/http/http.c
index 42419c9..7d06b7b 100644
--- a/amelie/server/http/http.c
+++ b/amelie/server/http/http.c
@@ -296,11 +296,11 @@ http_begin_request(Http* self, Endpoint* endpoint, uint64_t size)
 	if (! str_empty(db))
 	{
 		buf_write(buf, "v1/db/", 6);
-		buf_write_str(buf, db);
+		uri_export_str(db, buf);
 		if (! str_empty(relation))
 		{
 			buf_write(buf, "/", 1);
-			buf_write_str(buf, relation);
+			uri_export_str(relation, buf);
 		}
 	}
 
diff --git a/amelie/server/http/uri.c b/amelie/server/http/uri.c
index 10fa5d4..4b81024 100644
--- a/amelie/server/http/uri.c
+++ b/amelie/server/http/uri.c
@@ -28,6 +28,8 @@ uri_error(void)
 	error("failed to parse uri");
 }
 
+static void uri_set(Opt*, char*, int);
+
 static inline void
 uri_parse_protocol(Uri* self)
 {
@@ -69,13 +71,13 @@ uri_parse_user(Uri* self)
 	if (sep)
 	{
 		// user:password
-		opt_string_set_raw(&endpoint->user, self->pos, sep - self->pos);
+		uri_set(&endpoint->user, self->pos, sep - self->pos);
 		sep++;
-		opt_string_set_raw(&endpoint->secret, sep, at - sep);
+		uri_set(&endpoint->secret, sep, at - sep);
 	} else
 	{
 		// user
-		opt_string_set_raw(&endpoint->user, self->pos, at - self->pos);
+		uri_set(&endpoint->user, self->pos, at - self->pos);
 	}
 	self->pos = at + 1;
 }
@@ -174,7 +176,7 @@ uri_parse_path(Uri* self)
 	uri_parse_path_next(self, &name);
 	if (str_empty(&name))
 		return;
-	opt_string_set(&self->endpoint->db, &name);
+	uri_set(&self->endpoint->db, str_of(&name), str_size(&name));
 
 	// db?
 	if (!*self->pos || *self->pos == '?')
@@ -191,7 +193,7 @@ uri_parse_path(Uri* self)
 	uri_parse_path_next(self, &name);
 	if (str_empty(&name))
 		uri_error();
-	opt_string_set(&self->endpoint->relation, &name);
+	uri_set(&self->endpoint->relation, str_of(&name), str_size(&name));
 
 	// relation?
 	if (!*self->pos || *self->pos == '?')
@@ -239,6 +241,16 @@ decode(Buf* buf, char* data, int data_size)
 	}
 }
 
+static void
+uri_set(Opt* opt, char* data, int data_size)
+{
+	// set percent-encoded value
+	auto buf = buf_create();
+	defer_buf(buf);
+	decode(buf, data, data_size);
+	opt_string_set_raw(opt, buf_cstr(buf), buf_size(buf));
+}
+
 static inline void
 uri_parse_args_set(Uri* self, Buf* buf, int name_size, int value_size)
 {
@@ -410,15 +422,28 @@ uri_parse_endpoint(Endpoint* endpoint, Str* spec)
 	uri_parse_args(&self);
 }
 
+void
+uri_export_str(Str* str, Buf* buf)
+{
+	// percent-encode reserved characters
+	for (auto pos = str->pos; pos < str->end; pos++)
+	{
+		uint8_t chr = *pos;
+		if (chr && (isalnum(chr) || strchr("-._~,", chr)))
+			buf_write(buf, pos, 1);
+		else
+			buf_printf(buf, "%%%02X", chr);
+	}
+}
+
 void
 uri_export_arg(Opt* opt, Buf* buf, bool* first)
 {
 	if (opt_string_empty(opt))
 		return;
 	// [?|&]name=value
-	buf_printf(buf, "%c%s=%.*s", *first? '?': '&',
-	           str_of(&opt->name),
-	           str_size(&opt->string), str_of(&opt->string));
+	buf_printf(buf, "%c%s=", *first? '?': '&', str_of(&opt->name));
+	uri_export_str(&opt->string, buf);
 	*first = false;
 }
 
@@ -444,11 +469,11 @@ uri_export(Endpoint* self, Buf* buf)
 	// [user[:password]@]
 	if (! opt_string_empty(&self->user))
 	{
-		buf_write_str(buf, &self->user.string);
+		uri_export_str(&self->user.string, buf);
 		if (! opt_string_empty(&self->secret))
 		{
 			buf_write(buf, ":", 1);
-			buf_write_str(buf, &self->secret.string);
+			uri_export_str(&self->secret.string, buf);
 		}
 		buf_write(buf, "@", 1);
 	}
@@ -473,13 +498,13 @@ uri_export(Endpoint* self, Buf* buf)
 	// [db[/relation]]
 	if (! opt_string_empty(&self->db))
 	{
-		buf_write_str(buf, &self->db.string);
+		uri_export_str(&self->db.string, buf);
 
 		// relation
 		if (! opt_string_empty(&self->relation))
 		{
 			buf_write(buf, "/", 1);
-			buf_write_str(buf, &self->relation.string);
+			uri_export_str(&self->relation.string, buf);
 		}
 	}
 
diff --git a/amelie/server/http/uri.h b/amelie/server/http/uri.h
index 1afc482..49c6e2f 100644
--- a/amelie/server/http/uri.h
+++ b/amelie/server/http/uri.h
@@ -14,4 +14,5 @@
 void uri_parse(Endpoint*, Str*);
 void uri_parse_endpoint(Endpoint*, Str*);
 void uri_export(Endpoint*, Buf*);
+void uri_export_str(Str*, Buf*);
 void uri_export_arg(Opt*, Buf*, bool*);
-- 
2.43.0


From 4250f3d885d7f800cba864014f52ce76ad370edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:06 +0000
Subject: [PATCH 076/108] fix: uri: reject empty uri

---
 amelie/server/http/uri.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amelie/server/http/uri.c b/amelie/server/http/uri.c
index 4b81024..87d104a 100644
--- a/amelie/server/http/uri.c
+++ b/amelie/server/http/uri.c
@@ -360,6 +360,9 @@ uri_parse_args(Uri* self)
 void
 uri_parse(Endpoint* endpoint, Str* spec)
 {
+	if (str_empty(spec))
+		uri_error();
+
 	// set uri
 	opt_string_set(&endpoint->uri, spec);
 	Uri self = {
-- 
2.43.0


From 8fd64760f94c33c817c74392a8dcb1656dd721b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:06 +0000
Subject: [PATCH 077/108] fix: wal: worker drops sync and shutdown requests
 together with a create

---
 amelie/db/wal/wal_worker.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amelie/db/wal/wal_worker.c b/amelie/db/wal/wal_worker.c
index d3e40c5..60383a8 100644
--- a/amelie/db/wal/wal_worker.c
+++ b/amelie/db/wal/wal_worker.c
@@ -35,9 +35,10 @@ wal_worker_main(void* arg)
 		self->pending = 0;
 		mutex_unlock(&self->lock);
 
+		// skip only creation, if wal was already created
 		if (events & WAL_CREATE)
 			if (! wal_overflow(self->wal))
-				continue;
+				events &= ~(WAL_CREATE|WAL_SYNC_CREATE);
 
 		// process events
 		error_catch
-- 
2.43.0


From d623e34db543292547320441ba62c231b9fa6459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:06 +0000
Subject: [PATCH 078/108] fix: wal: cursor skips records written between its
 last read and rotation

---
 amelie/db/wal/wal_cursor.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amelie/db/wal/wal_cursor.c b/amelie/db/wal/wal_cursor.c
index 7c31223..ccbeaf2 100644
--- a/amelie/db/wal/wal_cursor.c
+++ b/amelie/db/wal/wal_cursor.c
@@ -132,6 +132,10 @@ wal_cursor_read(WalCursor* self)
 		if (id == UINT64_MAX)
 			break;
 
+		// retry read if the file was updated before it was closed
+		if (file_update_size(&file->file))
+			continue;
+
 		// close previous file
 		wal_file_close(file);
 		wal_file_free(file);
-- 
2.43.0


From 63340a5e26b82882cea3d5d3461ae074263dd047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:06 +0000
Subject: [PATCH 079/108] fix: wal: rotation races with concurrent writes and
 syncs

---
 amelie/db/wal/wal.c        | 64 +++++++++++++++++++++++++++++++-------
 amelie/db/wal/wal.h        |  2 +-
 amelie/db/wal/wal_file.h   |  4 ++-
 amelie/db/wal/wal_mgr.c    |  2 +-
 amelie/db/wal/wal_worker.c |  2 +-
 5 files changed, 58 insertions(+), 16 deletions(-)

diff --git a/amelie/db/wal/wal.c b/amelie/db/wal/wal.c
index 280fba4..6b25068 100644
--- a/amelie/db/wal/wal.c
+++ b/amelie/db/wal/wal.c
@@ -67,18 +67,52 @@ wal_overflow(Wal* self)
 	return self->current->file.size >= opt_int_of(&config()->wal_size);
 }
 
+static void
+wal_unref(Wal* self, WalFile* file)
+{
+	// close file after the last use
+	mutex_lock(&self->lock);
+	bool last = --file->refs == 0;
+	mutex_unlock(&self->lock);
+	if (! last)
+		return;
+	error_catch (
+		wal_file_close(file);
+	);
+	wal_file_free(file);
+}
+
 void
-wal_create(Wal* self, uint64_t lsn)
+wal_create(Wal* self)
 {
+	// exclude writers, every record up to the current lsn must be in the
+	// previous file and every next record in the new one
+	mutex_lock(&self->lock);
+	auto file_prev = self->current;
+	uint64_t lsn = file_prev? state_lsn() + 1: 1;
+
+	// already created
+	if (file_prev && file_prev->id == lsn)
+	{
+		mutex_unlock(&self->lock);
+		return;
+	}
+
 	// create new wal file
 	WalFile* file = NULL;
 	auto on_error = error_catch
 	(
+		// sync records written since the last sync
+		if (file_prev && (opt_int_of(&config()->wal_sync_on_write) ||
+		                  opt_int_of(&config()->wal_sync_on_close)))
+			wal_file_sync(file_prev);
+
 		file = wal_file_allocate(lsn);
 		wal_file_create(file);
 	);
 	if (on_error)
 	{
+		mutex_unlock(&self->lock);
 		if (file)
 		{
 			wal_file_close(file);
@@ -86,21 +120,15 @@ wal_create(Wal* self, uint64_t lsn)
 		}
 		rethrow();
 	}
-	id_mgr_add(&self->list, lsn);
 
 	// add to the list and set as current
-	mutex_lock(&self->lock);
-	auto file_prev = self->current;
+	id_mgr_add(&self->list, lsn);
 	self->current = file;
 	mutex_unlock(&self->lock);
 
 	// close prev file
-	if (! file_prev)
-		return;
-	error_catch (
-		wal_file_close(file_prev);
-	);
-	wal_file_free(file_prev);
+	if (file_prev)
+		wal_unref(self, file_prev);
 }
 
 void
@@ -286,7 +314,7 @@ reopen:
 	// create new wal file
 	if (! self->list.list_count)
 	{
-		wal_create(self, 1);
+		wal_create(self);
 		if (opt_int_of(&config()->wal_sync_on_create))
 			wal_sync(self, true);
 		return;
@@ -394,7 +422,19 @@ wal_write(Wal* self, WriteList* list)
 hot void
 wal_sync(Wal* self, bool sync_dir)
 {
-	wal_file_sync(self->current);
+	// file can be replaced and closed by another thread during sync
+	mutex_lock(&self->lock);
+	auto file = self->current;
+	file->refs++;
+	mutex_unlock(&self->lock);
+
+	auto on_error = error_catch(
+		wal_file_sync(file)
+	);
+	wal_unref(self, file);
+	if (unlikely(on_error))
+		rethrow();
+
 	if (! sync_dir)
 		return;
 	auto rc = vfs_fsync(self->dirfd);
diff --git a/amelie/db/wal/wal.h b/amelie/db/wal/wal.h
index 8c36053..59fa6f7 100644
--- a/amelie/db/wal/wal.h
+++ b/amelie/db/wal/wal.h
@@ -29,7 +29,7 @@ void     wal_free(Wal*);
 void     wal_open(Wal*);
 void     wal_close(Wal*);
 bool     wal_overflow(Wal*);
-void     wal_create(Wal*, uint64_t);
+void     wal_create(Wal*);
 void     wal_gc(Wal*, uint64_t);
 void     wal_sync(Wal*, bool);
 bool     wal_write(Wal*, WriteList*);
diff --git a/amelie/db/wal/wal_file.h b/amelie/db/wal/wal_file.h
index 7e6ff59..36ba819 100644
--- a/amelie/db/wal/wal_file.h
+++ b/amelie/db/wal/wal_file.h
@@ -16,6 +16,7 @@ typedef struct WalFile WalFile;
 struct WalFile
 {
 	uint64_t id;
+	int      refs;
 	File     file;
 };
 
@@ -23,7 +24,8 @@ static inline WalFile*
 wal_file_allocate(uint64_t id)
 {
 	WalFile* self = am_malloc(sizeof(WalFile));
-	self->id = id;
+	self->id   = id;
+	self->refs = 1;
 	file_init(&self->file);
 	return self;
 }
diff --git a/amelie/db/wal/wal_mgr.c b/amelie/db/wal/wal_mgr.c
index f0da7e3..852f847 100644
--- a/amelie/db/wal/wal_mgr.c
+++ b/amelie/db/wal/wal_mgr.c
@@ -94,7 +94,7 @@ wal_mgr_create(WalMgr* self)
 	{
 		if (opt_int_of(&config()->wal_sync_on_close))
 			wal_sync(&self->wal, false);
-		wal_create(&self->wal, state_lsn() + 1);
+		wal_create(&self->wal);
 		if (opt_int_of(&config()->wal_sync_on_create))
 			wal_sync(&self->wal, true);
 	}
diff --git a/amelie/db/wal/wal_worker.c b/amelie/db/wal/wal_worker.c
index 60383a8..f353563 100644
--- a/amelie/db/wal/wal_worker.c
+++ b/amelie/db/wal/wal_worker.c
@@ -49,7 +49,7 @@ wal_worker_main(void* arg)
 
 			// create new wal
 			if (events & WAL_CREATE)
-				wal_create(self->wal, state_lsn() + 1);
+				wal_create(self->wal);
 
 			// sync new wal and the directory
 			if (events & WAL_SYNC_CREATE)
-- 
2.43.0


From d016f2bc941dcb324d9d90446e83e34bc16a8cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:06 +0000
Subject: [PATCH 080/108] fix: wal: readahead returns records which are still
 being written

---
 amelie/db/wal/wal_cursor.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/amelie/db/wal/wal_cursor.c b/amelie/db/wal/wal_cursor.c
index ccbeaf2..f8b77cc 100644
--- a/amelie/db/wal/wal_cursor.c
+++ b/amelie/db/wal/wal_cursor.c
@@ -168,6 +168,14 @@ wal_cursor_readahead(WalCursor* self, int size,
 		auto record = wal_cursor_read(self);
 		if (! record)
 			break;
+
+		// record write is not completed yet
+		if (record->lsn > lsn_max)
+		{
+			self->file_offset -= record->size;
+			buf_truncate(&self->buf, record->size);
+			break;
+		}
 		*lsn = record->lsn;
 		collected += record->size;
 		if (record->lsn == lsn_max)
-- 
2.43.0


From 5435317cc63f183f65abfa0ab916380a6ac85fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:06 +0000
Subject: [PATCH 081/108] fix: wal: gc removes files listed by a concurrent
 snapshot

---
 amelie/db/wal/wal.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/amelie/db/wal/wal.c b/amelie/db/wal/wal.c
index 6b25068..546a2d3 100644
--- a/amelie/db/wal/wal.c
+++ b/amelie/db/wal/wal.c
@@ -44,7 +44,6 @@ wal_free(Wal* self)
 static int
 wal_slots(Wal* self, uint64_t* min)
 {
-	mutex_lock(&self->lock);
 	int count = self->slots_count;
 	list_foreach(&self->slots)
 	{
@@ -53,7 +52,6 @@ wal_slots(Wal* self, uint64_t* min)
 		if (*min > lsn)
 			*min = lsn;
 	}
-	mutex_unlock(&self->lock);
 	return count;
 }
 
@@ -134,15 +132,17 @@ wal_create(Wal* self)
 void
 wal_gc(Wal* self, uint64_t min)
 {
-	wal_slots(self, &min);
-
 	// remove wal files < min
 	Buf list;
 	buf_init(&list);
 	defer_buf(&list);
 
+	// exclude new slots
+	mutex_lock(&self->lock);
+	wal_slots(self, &min);
 	int list_count;
 	list_count = id_mgr_gc_between(&self->list, &list, min);
+	mutex_unlock(&self->lock);
 	if (list_count > 0)
 	{
 		size_t size  = 0;
@@ -530,7 +530,9 @@ wal_status(Wal* self)
 
 	uint64_t slots_min = UINT64_MAX;
 	int      slots_count;
+	mutex_lock(&self->lock);
 	slots_count = wal_slots(self, &slots_min);
+	mutex_unlock(&self->lock);
 
 	// obj
 	auto buf = buf_create();
-- 
2.43.0


From 6a0f0424b9f88ee100ce102e6fa039f0350b1558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:32 +0000
Subject: [PATCH 082/108] fix: file: reading or writing zero bytes fails

---
 amelie/runtime/os/vfs.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/amelie/runtime/os/vfs.c b/amelie/runtime/os/vfs.c
index f7b2ebe..ce555a4 100644
--- a/amelie/runtime/os/vfs.c
+++ b/amelie/runtime/os/vfs.c
@@ -126,7 +126,7 @@ int64_t
 vfs_read(int fd, void* buf, uint64_t size)
 {
 	uint64_t n = 0;
-	do {
+	while (n != size) {
 		int r;
 		do {
 			r = read(fd, (char*)buf + n, size - n);
@@ -134,7 +134,7 @@ vfs_read(int fd, void* buf, uint64_t size)
 		if (r <= 0)
 			return -1;
 		n += r;
-	} while (n != size);
+	}
 
 	return n;
 }
@@ -143,7 +143,7 @@ int64_t
 vfs_pread(int fd, uint64_t off, void* buf, uint64_t size)
 {
 	uint64_t n = 0;
-	do {
+	while (n != size) {
 		int r;
 		do {
 			r = pread(fd, (char*)buf + n, size - n, off + n);
@@ -151,7 +151,7 @@ vfs_pread(int fd, uint64_t off, void* buf, uint64_t size)
 		if (r <= 0)
 			return -1;
 		n += r;
-	} while (n != size);
+	}
 
 	return n;
 }
@@ -160,7 +160,7 @@ int64_t
 vfs_write(int fd, void* buf, uint64_t size)
 {
 	uint64_t n = 0;
-	do {
+	while (n != size) {
 		int r;
 		do {
 			r = write(fd, (char*)buf + n, size - n);
@@ -168,7 +168,7 @@ vfs_write(int fd, void* buf, uint64_t size)
 		if (r <= 0)
 			return -1;
 		n += r;
-	} while (n != size);
+	}
 
 	return n;
 }
@@ -177,7 +177,7 @@ int64_t
 vfs_pwrite(int fd, void* buf, uint64_t size, uint64_t offset)
 {
 	uint64_t n = 0;
-	do {
+	while (n != size) {
 		int r;
 		do {
 			r = pwrite(fd, (char*)buf + n, size - n, offset + n);
@@ -185,7 +185,7 @@ vfs_pwrite(int fd, void* buf, uint64_t size, uint64_t offset)
 		if (r <= 0)
 			return -1;
 		n += r;
-	} while (n != size);
+	}
 
 	return n;
 }
-- 
2.43.0


From b8ce4d82442758864a81667a3f6fe2bd92b17bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:32 +0000
Subject: [PATCH 083/108] fix: tcp: interrupted read is taken for the end of
 the connection

---
 amelie/runtime/os/tcp.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/amelie/runtime/os/tcp.c b/amelie/runtime/os/tcp.c
index 2873e7b..3f04800 100644
--- a/amelie/runtime/os/tcp.c
+++ b/amelie/runtime/os/tcp.c
@@ -257,12 +257,10 @@ tcp_read_socket(Tcp* self, Buf* buf, int size)
 	rc = socket_read(self->fd.fd, buf->position, size);
 	if (rc == -1)
 	{
-#if 0
-		if (! (errno == EAGAIN || errno == EWOULDBLOCK || errno == EINTR))
-			error_system();
 		// retry
-		return -1;
-#endif
+		if (errno == EAGAIN || errno == EWOULDBLOCK || errno == EINTR)
+			return -1;
+
 		// treat socket errors as eof
 		return 0;
 	}
@@ -295,7 +293,8 @@ tcp_read(Tcp* self, Buf* buf, int size)
 		self->eof = true;
 
 	// update stats
-	atomic_u64_add(self->stat_recv, rc);
+	if (rc > 0)
+		atomic_u64_add(self->stat_recv, rc);
 	return rc;
 }
 
-- 
2.43.0


From 01127987c9e1ae682bfcc7c738feecb7bc6ae54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:32 +0000
Subject: [PATCH 084/108] fix: poll: cancelled wait leaves its event registered

---
 amelie/runtime/os/poll.h | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/amelie/runtime/os/poll.h b/amelie/runtime/os/poll.h
index 065cab9..2b44b23 100644
--- a/amelie/runtime/os/poll.h
+++ b/amelie/runtime/os/poll.h
@@ -42,10 +42,10 @@ poll_read(Fd* fd, int time_ms)
 	Event on_read;
 	event_init(&on_read);
 	poll_read_start(fd, &on_read);
-	event_wait(&on_read, time_ms);
-	poll_read_stop(fd);
 
-	cancellation_point();
+	// stop waiting on cancel as well
+	defer(poll_read_stop, fd);
+	event_wait(&on_read, time_ms);
 }
 
 static inline void
@@ -56,19 +56,31 @@ poll_on_write_event(Fd* fd)
 }
 
 static inline void
-poll_write(Fd* fd, int time_ms)
+poll_write_start(Fd* fd, Event* on_write)
 {
-	cancellation_point();
-
 	auto poller = &am_task->poller;
-	Event on_write;
-	event_init(&on_write);
-	int rc;
-	rc = poller_write(poller, fd, poll_on_write_event, &on_write);
+	auto rc = poller_write(poller, fd, poll_on_write_event, on_write);
 	if (unlikely(rc == -1))
 		error_system();
-	event_wait(&on_write, time_ms);
+}
+
+static inline void
+poll_write_stop(Fd* fd)
+{
+	auto poller = &am_task->poller;
 	poller_write(poller, fd, NULL, NULL);
+}
 
+static inline void
+poll_write(Fd* fd, int time_ms)
+{
 	cancellation_point();
+
+	Event on_write;
+	event_init(&on_write);
+	poll_write_start(fd, &on_write);
+
+	// stop waiting on cancel as well
+	defer(poll_write_stop, fd);
+	event_wait(&on_write, time_ms);
 }
-- 
2.43.0


From 799931e189a8f85fdb2838df0a35213cf3b89805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:32 +0000
Subject: [PATCH 085/108] fix: object: region crc is never verified

---
 amelie/db/object/reader.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/amelie/db/object/reader.h b/amelie/db/object/reader.h
index e0bfcc4..88634d6 100644
--- a/amelie/db/object/reader.h
+++ b/amelie/db/object/reader.h
@@ -66,6 +66,15 @@ reader_execute(Reader* self, MetaRegion* meta_region)
 	file_pread_buf(branch->object_file, &self->buf_read, meta_region->size,
 	               meta_region->offset);
 
+	// region crc check (not calculated if it is disabled)
+	if (meta_region->crc)
+	{
+		auto buf = &self->buf_read;
+		uint32_t crc = runtime()->crc(0, buf->start, buf_size(buf));
+		if (crc != meta_region->crc)
+			error("object: region crc mismatch");
+	}
+
 	// decrypt/decompress or read raw
 	Region* region = NULL;
 	if (encoder_active(&self->encoder))
-- 
2.43.0


From e138eb0d9474e6241c5a44e73410d15ee1e39773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:32 +0000
Subject: [PATCH 086/108] fix: tls: reader spins while a record is incomplete

---
 amelie/runtime/os/tls.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amelie/runtime/os/tls.c b/amelie/runtime/os/tls.c
index 2023804..38f413c 100644
--- a/amelie/runtime/os/tls.c
+++ b/amelie/runtime/os/tls.c
@@ -263,7 +263,8 @@ tls_handshake(Tls* self)
 bool
 tls_read_pending(Tls* self)
 {
-	return SSL_has_pending(self->ssl);
+	// a part of a record does not count, the rest has to be waited for
+	return SSL_pending(self->ssl) > 0;
 }
 
 int
-- 
2.43.0


From a3822cd96588dd5595442f5bd6cce0d4dc258eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:46 +0000
Subject: [PATCH 087/108] fix: tls: context that failed to configure is used as
 a created one

---
 amelie/runtime/os/tls_context.c | 37 +++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/amelie/runtime/os/tls_context.c b/amelie/runtime/os/tls_context.c
index ac61f4e..c3c3916 100644
--- a/amelie/runtime/os/tls_context.c
+++ b/amelie/runtime/os/tls_context.c
@@ -63,20 +63,9 @@ tls_context_created(TlsContext* self)
 	return self->ctx != NULL;
 }
 
-void
-tls_context_create(TlsContext* self)
+static void
+tls_context_configure(TlsContext* self, SSL_CTX* ctx)
 {
-	SSL_CTX* ctx = NULL;
-	SSL_METHOD* method = NULL;
-	if (self->client)
-		method = (SSL_METHOD *)SSLv23_client_method();
-	else
-		method = (SSL_METHOD *)SSLv23_server_method();
-	ctx = SSL_CTX_new(method);
-	if (ctx == NULL)
-		error("%s", "SSL_CTX_NEW() failed");
-	self->ctx = ctx;
-
 	SSL_CTX_set_options(ctx, SSL_OP_NO_SSLv2);
 	SSL_CTX_set_options(ctx, SSL_OP_NO_SSLv3);
 	SSL_CTX_set_mode(ctx, SSL_MODE_ENABLE_PARTIAL_WRITE);
@@ -129,3 +118,25 @@ tls_context_create(TlsContext* self)
 	if (rc != 1)
 		tls_lib_error(0, "SSL_CTX_set_cipher_list()");
 }
+
+void
+tls_context_create(TlsContext* self)
+{
+	SSL_CTX* ctx = NULL;
+	SSL_METHOD* method = NULL;
+	if (self->client)
+		method = (SSL_METHOD *)SSLv23_client_method();
+	else
+		method = (SSL_METHOD *)SSLv23_server_method();
+	ctx = SSL_CTX_new(method);
+	if (ctx == NULL)
+		error("%s", "SSL_CTX_NEW() failed");
+
+	// context becomes created only if it is completely configured
+	if (error_catch( tls_context_configure(self, ctx) ))
+	{
+		SSL_CTX_free(ctx);
+		rethrow();
+	}
+	self->ctx = ctx;
+}
-- 
2.43.0


From 86e6c292bab10b77a1ad1d52fe7b3a85d5d3b250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:17 +0000
Subject: [PATCH 088/108] fix: tls: stale errors of the thread fail other
 connections

---
 amelie/runtime/os/tls.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amelie/runtime/os/tls.c b/amelie/runtime/os/tls.c
index 38f413c..15b79e8 100644
--- a/amelie/runtime/os/tls.c
+++ b/amelie/runtime/os/tls.c
@@ -106,6 +106,7 @@ tls_connect(Tls* self)
 {
 	for (;;)
 	{
+		ERR_clear_error();
 		int rc = SSL_connect(self->ssl);
 		if (rc <= 0)
 		{
@@ -128,6 +129,7 @@ tls_accept(Tls* self)
 {
 	for (;;)
 	{
+		ERR_clear_error();
 		int rc = SSL_accept(self->ssl);
 		if (rc <= 0)
 		{
@@ -271,6 +273,7 @@ int
 tls_read(Tls* self, void* buf, int size)
 {
 	errno = 0;
+	ERR_clear_error();
 	int rc = SSL_read(self->ssl, buf, size);
 	if (rc > 0) {
 		// might have data buffered
@@ -295,6 +298,7 @@ int
 tls_write(Tls* self, void* buf, int size)
 {
 	errno = 0;
+	ERR_clear_error();
 	int rc = SSL_write(self->ssl, buf, size);
 	if (rc > 0)
 		return rc;
-- 
2.43.0


From a80f1b4b1df4c11008badd024047cae486ffb5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:53 +0000
Subject: [PATCH 089/108] fix: tls: certificate name with a zero byte matches
 its prefix

---
 amelie/runtime/os/tls.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/amelie/runtime/os/tls.c b/amelie/runtime/os/tls.c
index 15b79e8..e1d7f2e 100644
--- a/amelie/runtime/os/tls.c
+++ b/amelie/runtime/os/tls.c
@@ -221,8 +221,12 @@ tls_verify_common_name(Tls* self, const char* name)
 			tls_error(self, 0, "X509_get_subject_name()");
 
 		char common_name[256];
-		X509_NAME_get_text_by_NID(subject_name, NID_commonName, common_name, sizeof(common_name));
-		if (! tls_verify_name(common_name, name))
+		int rc;
+		rc = X509_NAME_get_text_by_NID(subject_name, NID_commonName, common_name, sizeof(common_name));
+		if (rc < 0)
+			tls_error(self, 0, "certificate has no common name (expected %s)", name);
+		// the name must not have zeros inside
+		if (strlen(common_name) != (size_t)rc || !tls_verify_name(common_name, name))
 			tls_error(self, 0, "bad common name: %s (expected %s)",
 			          common_name, name);
 	);
-- 
2.43.0


From 1f07deaf6927e4c65e88aa3b913e3365078b714f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:13 +0000
Subject: [PATCH 090/108] fix: client: reconnect to an encrypted endpoint is in
 clear text

---
 amelie/server/client/client.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/server/client/client.c b/amelie/server/client/client.c
index 81c3847..4a782a2 100644
--- a/amelie/server/client/client.c
+++ b/amelie/server/client/client.c
@@ -152,8 +152,8 @@ client_connect_to(Client* self, Str* host, int port)
 			                opt_string_of(&endpoint->tls_capath),
 			                opt_string_of(&endpoint->tls_server));
 			tls_context_create(&self->tls_context);
-			tcp_set_tls(&self->tcp, &self->tls_context);
 		}
+		tcp_set_tls(&self->tcp, &self->tls_context);
 	}
 
 	// connect
-- 
2.43.0


From 7bdf99b6da530e834a60fda31b9e0651418db070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:28 +0000
Subject: [PATCH 091/108] fix: tcp: immediate connect skips the handshake

---
 amelie/runtime/os/tcp.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/amelie/runtime/os/tcp.c b/amelie/runtime/os/tcp.c
index 3f04800..395a7a1 100644
--- a/amelie/runtime/os/tcp.c
+++ b/amelie/runtime/os/tcp.c
@@ -215,9 +215,11 @@ void
 tcp_connect(Tcp* self, struct sockaddr *addr)
 {
 	tcp_connect_begin(self, addr);
-	if (self->connected)
-		return;
-	poll_write(&self->fd, -1);
+	if (! self->connected)
+		poll_write(&self->fd, -1);
+
+	// the connection is established only after the handshake
+	self->connected = false;
 	tcp_connect_complete(self);
 }
 
-- 
2.43.0


From 68ab67d6616fd2cbbd2d32e4591900ef51fed916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:44 +0000
Subject: [PATCH 092/108] fix: executor: abort transactions which follow an
 aborted one

---
 amelie/db/transaction/track.h     | 21 ++++++++++++---------
 amelie/system/backend/pod.c       |  4 ++--
 amelie/vm/executor/batch.h        | 25 +++++++++++++++----------
 amelie/vm/executor/dispatch_mgr.h |  2 ++
 amelie/vm/executor/executor.h     |  5 +++++
 amelie/vm/executor/ltr.h          |  3 +++
 6 files changed, 39 insertions(+), 21 deletions(-)

diff --git a/amelie/db/transaction/track.h b/amelie/db/transaction/track.h
index eae2a3f..cfd1e6d 100644
--- a/amelie/db/transaction/track.h
+++ b/amelie/db/transaction/track.h
@@ -100,19 +100,22 @@ track_sync(Track* self, Consensus* consensus)
 {
 	auto consensus_pod = &self->consensus_pod;
 
-	// commit all transactions <= abort
-	auto id = consensus->abort;
-	if (unlikely(id > consensus_pod->abort))
-	{
-		tr_abort_list(&self->prepared, &self->cache, id);
-		consensus_pod->abort = id;
-	}
-
 	// commit all transactions <= commit
-	id = consensus->commit;
+	//
+	// must be done first, since transactions <= abort include
+	// the ones which were committed before
+	auto id = consensus->commit;
 	if (id > consensus_pod->commit)
 	{
 		tr_commit_list(&self->prepared, &self->cache, id);
 		consensus_pod->commit = id;
 	}
+
+	// abort all transactions <= abort
+	id = consensus->abort;
+	if (unlikely(id > consensus_pod->abort))
+	{
+		tr_abort_list(&self->prepared, &self->cache, id);
+		consensus_pod->abort = id;
+	}
 }
diff --git a/amelie/system/backend/pod.c b/amelie/system/backend/pod.c
index f9a023f..9a35fba 100644
--- a/amelie/system/backend/pod.c
+++ b/amelie/system/backend/pod.c
@@ -71,7 +71,7 @@ pod_request(Pod* self, Ltr* ltr, Req* req)
 			auto track = self->track;
 			auto tr = tr_create(&track->cache);
 			tr_begin(tr);
-			tr_set_id(tr, track->seq++);
+			tr_set_id(tr, ltr->id);
 			tr_set_limit(tr, &dtr->limit);
 			tr_list_add(&track->prepared, tr);
 			ltr->tr = tr;
@@ -108,7 +108,7 @@ pod_request(Pod* self, Ltr* ltr, Req* req)
 			auto track = self->track;
 			auto tr = tr_create(&track->cache);
 			tr_begin(tr);
-			tr_set_id(tr, track->seq++);
+			tr_set_id(tr, ltr->id);
 			tr_set_limit(tr, &dtr->limit);
 			tr_list_add(&track->prepared, tr);
 			ltr->tr = tr;
diff --git a/amelie/vm/executor/batch.h b/amelie/vm/executor/batch.h
index 9359045..7d38a3f 100644
--- a/amelie/vm/executor/batch.h
+++ b/amelie/vm/executor/batch.h
@@ -90,17 +90,17 @@ batch_process(Batch* self)
 			auto tr  = ltr->tr;
 			if (! tr)
 				continue;
-			assert(tr->active);
 
 			// collect unique partitions across batch
 			batch_add_partition(self, ltr);
 
 			// abort transaction if its partition transaction id lower then
-			// the partition abort id
+			// the partition abort id, or if it follows a transaction
+			// aborted by this batch
 			auto track   = &ltr->part->track;
 			auto pending = &track->pending_consensus;
 			auto last    = &track->consensus;
-			if (pending->abort >= tr->id || last->abort >= tr->id)
+			if (pending->abort > last->abort || last->abort >= ltr->id)
 				dtr_set_abort(dtr);
 		}
 
@@ -114,20 +114,21 @@ batch_process(Batch* self)
 			auto tr  = ltr->tr;
 			if (! tr)
 				continue;
-			assert(tr->active);
 
 			// sync metrics
 			auto pending = &ltr->part->track.pending_consensus;
 			if (dtr->abort)
 			{
 				// sync abort id
-				if (tr->id > pending->abort)
-					pending->abort = tr->id;
+				if (ltr->id > pending->abort)
+					pending->abort = ltr->id;
 			} else
 			{
+				assert(tr->active);
+
 				// sync commit id
-				if (tr->id > pending->commit)
-					pending->commit = tr->id;
+				if (ltr->id > pending->commit)
+					pending->commit = ltr->id;
 
 				// add to the wal write list
 				if (tr_persists(tr))
@@ -158,10 +159,14 @@ batch_abort(Batch* self)
 			if (! tr)
 				continue;
 			auto pending = &ltr->part->track.pending_consensus;
-			if (tr->id > pending->abort)
-				pending->abort = tr->id;
+			if (ltr->id > pending->abort)
+				pending->abort = ltr->id;
 		}
 	}
+
+	// revert commit ids
+	for (auto ref = self->pending; ref; ref = ref->pending_link)
+		ref->pending_consensus.commit = ref->consensus.commit;
 	write_list_reset(&self->write);
 }
 
diff --git a/amelie/vm/executor/dispatch_mgr.h b/amelie/vm/executor/dispatch_mgr.h
index 5bec455..08a90d7 100644
--- a/amelie/vm/executor/dispatch_mgr.h
+++ b/amelie/vm/executor/dispatch_mgr.h
@@ -166,6 +166,7 @@ dispatch_mgr_send(DispatchMgr* self, Dispatch* dispatch)
 		{
 			auto ltr   = list_at(Ltr, link);
 			auto track = &ltr->part->track;
+			ltr->id = track->seq++;
 			ltr->consensus = track->consensus;
 			track_send(track, &ltr->msg);
 		}
@@ -188,6 +189,7 @@ dispatch_mgr_send(DispatchMgr* self, Dispatch* dispatch)
 		{
 			assert(self->list_count == 1);
 			ltr = ltr_create(&self->cache_ltr, req->part, self->dtr, &self->complete);
+			ltr->id = track->seq++;
 			ltr->consensus = track->consensus;
 			list_append(&self->ltrs, &ltr->link);
 			self->ltrs_count++;
diff --git a/amelie/vm/executor/executor.h b/amelie/vm/executor/executor.h
index 492f163..bb3f996 100644
--- a/amelie/vm/executor/executor.h
+++ b/amelie/vm/executor/executor.h
@@ -123,6 +123,11 @@ executor_detach(Executor* self, Batch* batch)
 	{
 		auto next = ref->pending_link;
 		track_lsn_follow(ref, lsn);
+
+		// abort all transactions which are already registered on the
+		// partition, they are executed before the abort is applied
+		if (ref->pending_consensus.abort > ref->consensus.abort)
+			ref->pending_consensus.abort = ref->seq - 1;
 		ref->consensus    = ref->pending_consensus;
 		ref->pending      = false;
 		ref->pending_link = NULL;
diff --git a/amelie/vm/executor/ltr.h b/amelie/vm/executor/ltr.h
index 38367eb..64e9368 100644
--- a/amelie/vm/executor/ltr.h
+++ b/amelie/vm/executor/ltr.h
@@ -17,6 +17,7 @@ typedef struct Dtr Dtr;
 struct Ltr
 {
 	Msg       msg;
+	uint64_t  id;
 	Dtr*      dtr;
 	Tr*       tr;
 	Mailbox   queue;
@@ -33,6 +34,7 @@ static inline Ltr*
 ltr_allocate(Dtr* dtr, Complete* complete)
 {
 	auto self = (Ltr*)am_malloc(sizeof(Ltr));
+	self->id       = 0;
 	self->dtr      = dtr;
 	self->tr       = NULL;
 	self->error    = NULL;
@@ -56,6 +58,7 @@ ltr_free(Ltr* self)
 static inline void
 ltr_reset(Ltr* self)
 {
+	self->id     = 0;
 	self->tr     = NULL;
 	self->error  = NULL;
 	self->part   = NULL;
-- 
2.43.0


From dde5f50bbffa27b1d61e66dba8095aedd3ba58fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:44 +0000
Subject: [PATCH 093/108] fix: executor: order of a transaction is unique in
 its group

---
 amelie/vm/executor/executor.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/amelie/vm/executor/executor.h b/amelie/vm/executor/executor.h
index bb3f996..73dfb3d 100644
--- a/amelie/vm/executor/executor.h
+++ b/amelie/vm/executor/executor.h
@@ -55,6 +55,18 @@ executor_attach(Executor* self, Dtr* dtr, Dispatch* dispatch)
 		if (overlaps)
 		{
 			dtr->group = ref->group;
+			break;
+		}
+	}
+
+	// follow the last transaction of the group
+	if (dtr->group)
+	{
+		list_foreach_reverse(&self->list)
+		{
+			auto ref = list_at(Dtr, link);
+			if (ref->group != dtr->group)
+				continue;
 			dtr->group_order = ref->group_order + 1;
 			break;
 		}
-- 
2.43.0


From 2194d024008bc5cfa4c2fc4a46b5f0ab3a3ca912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:44 +0000
Subject: [PATCH 094/108] fix: executor: group with running transactions is
 removed from the commit queue

---
 amelie/vm/executor/executor.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/amelie/vm/executor/executor.h b/amelie/vm/executor/executor.h
index 73dfb3d..1b9ac66 100644
--- a/amelie/vm/executor/executor.h
+++ b/amelie/vm/executor/executor.h
@@ -155,8 +155,12 @@ executor_detach(Executor* self, Batch* batch)
 
 	// get min group as oldest transaction group id
 	uint64_t group_min = UINT64_MAX;
-	if (! list_empty(&self->list))
-		group_min = container_of(list_first(&self->list), Dtr, link)->group;
+	list_foreach(&self->list)
+	{
+		auto dtr = list_at(Dtr, link);
+		if (dtr->group < group_min)
+			group_min = dtr->group;
+	}
 
 	spinlock_unlock(&self->lock);
 	return group_min;
-- 
2.43.0


From 7aeb29c88f9e781e2986549810868b7f37b89401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:44 +0000
Subject: [PATCH 095/108] fix: executor: transaction which overlaps with two
 groups commits before its predecessors

---
 amelie/db/transaction/track.h  |  2 ++
 amelie/vm/executor/commit.c    |  7 ++-----
 amelie/vm/executor/dtr_queue.h | 36 ++++++++++++++++++++++++++++++++--
 3 files changed, 38 insertions(+), 7 deletions(-)

diff --git a/amelie/db/transaction/track.h b/amelie/db/transaction/track.h
index cfd1e6d..ac14479 100644
--- a/amelie/db/transaction/track.h
+++ b/amelie/db/transaction/track.h
@@ -17,6 +17,7 @@ struct Track
 {
 	Mailbox    queue;
 	uint64_t   seq;
+	uint64_t   seq_complete;
 	TrList     prepared;
 	TrCache    cache;
 	Consensus  consensus_pod;
@@ -32,6 +33,7 @@ static inline void
 track_init(Track* self)
 {
 	self->seq          = 1;
+	self->seq_complete = 0;
 	self->lsn          = 0;
 	self->pending      = false;
 	self->pending_link = NULL;
diff --git a/amelie/vm/executor/commit.c b/amelie/vm/executor/commit.c
index bb7ff51..51d6dab 100644
--- a/amelie/vm/executor/commit.c
+++ b/amelie/vm/executor/commit.c
@@ -21,12 +21,9 @@
 hot static inline void
 commit_add(DtrQueue* queue, Batch* batch, Dtr* dtr)
 {
-	auto group = dtr_queue_add(queue, dtr);
-	while (dtr_group_pending(group))
-	{
-		auto dtr = dtr_group_pop(group);
+	dtr_queue_add(queue, dtr);
+	while ((dtr = dtr_queue_pop(queue)))
 		batch_add(batch, dtr);
-	}
 }
 
 static void
diff --git a/amelie/vm/executor/dtr_queue.h b/amelie/vm/executor/dtr_queue.h
index 2e8632f..a7dfb1e 100644
--- a/amelie/vm/executor/dtr_queue.h
+++ b/amelie/vm/executor/dtr_queue.h
@@ -28,6 +28,39 @@ dtr_queue_init(DtrQueue* self)
 	list_init(&self->cache);
 }
 
+static inline bool
+dtr_queue_ready(Dtr* dtr)
+{
+	// transaction can be completed only after all previous transactions
+	// on each of its partitions, those might belong to other groups
+	list_foreach(&dtr->dispatch_mgr.ltrs)
+	{
+		auto ltr = list_at(Ltr, link);
+		if (ltr->id != ltr->part->track.seq_complete + 1)
+			return false;
+	}
+	return true;
+}
+
+hot static inline Dtr*
+dtr_queue_pop(DtrQueue* self)
+{
+	list_foreach(&self->list)
+	{
+		auto group = list_at(DtrGroup, link);
+		if (!dtr_group_pending(group) || !dtr_queue_ready(group->list))
+			continue;
+		auto dtr = dtr_group_pop(group);
+		list_foreach(&dtr->dispatch_mgr.ltrs)
+		{
+			auto ltr = list_at(Ltr, link);
+			ltr->part->track.seq_complete = ltr->id;
+		}
+		return dtr;
+	}
+	return NULL;
+}
+
 static inline void
 dtr_queue_free(DtrQueue* self)
 {
@@ -67,7 +100,7 @@ dtr_queue_find(DtrQueue* self, uint64_t id)
 	return NULL;
 }
 
-hot static inline DtrGroup*
+hot static inline void
 dtr_queue_add(DtrQueue* self, Dtr* dtr)
 {
 	// find or create new group
@@ -88,5 +121,4 @@ dtr_queue_add(DtrQueue* self, Dtr* dtr)
 	}
 
 	dtr_group_add(group, dtr);
-	return group;
 }
-- 
2.43.0


From b3b6f3cb5edbab8579f5eacdea299e8708ba7d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:29 +0000
Subject: [PATCH 096/108] fix: recover TRUNCATE for each partition by the table
 id

---
 amelie/db/catalog/catalog.c       |  8 +++++++-
 amelie/db/catalog/table_mgr.c     |  7 +++++++
 amelie/db/db/recover.c            | 30 ++++++++++++++++++++++++++++++
 amelie/db/service/op.c            |  2 +-
 amelie/db/transaction/log.h       |  6 +++---
 amelie/db/transaction/write_log.h |  7 +++++--
 6 files changed, 53 insertions(+), 7 deletions(-)

diff --git a/amelie/db/catalog/catalog.c b/amelie/db/catalog/catalog.c
index f1849a9..f286605 100644
--- a/amelie/db/catalog/catalog.c
+++ b/amelie/db/catalog/catalog.c
@@ -169,6 +169,7 @@ catalog_execute(Catalog* self, Tr* tr, uint8_t* op, int flags)
 	// [op, ...]
 	auto cmd = ddl_of(op);
 	bool write = false;
+	Uuid* id = NULL;
 	switch (cmd) {
 	case DDL_STORAGE_CREATE:
 	{
@@ -276,6 +277,11 @@ catalog_execute(Catalog* self, Tr* tr, uint8_t* op, int flags)
 
 		auto if_exists = ddl_if_exists(flags);
 		write = table_mgr_truncate(&self->table_mgr, tr, &db, &name, if_exists);
+
+		// partitions are recovered by the table id
+		auto table = table_mgr_find(&self->table_mgr, &db, &name, false);
+		if (table)
+			id = &table->config->id;
 		break;
 	}
 	case DDL_TABLE_SET_IDENTITY:
@@ -606,7 +612,7 @@ catalog_execute(Catalog* self, Tr* tr, uint8_t* op, int flags)
 
 	if (write)
 	{
-		log_persist_relation(&tr->log, op);
+		log_persist_relation(&tr->log, id, op);
 		return true;
 	}
 	return false;
diff --git a/amelie/db/catalog/table_mgr.c b/amelie/db/catalog/table_mgr.c
index 883475e..7aaf701 100644
--- a/amelie/db/catalog/table_mgr.c
+++ b/amelie/db/catalog/table_mgr.c
@@ -99,6 +99,13 @@ truncate_if_commit(Log* self, LogOp* op)
 	// truncate all objects and partitions
 	tier_mgr_truncate(&table->tier_mgr);
 	part_mgr_truncate(&table->part_mgr);
+
+	// partitions files are behind the truncate now
+	list_foreach(&table->part_mgr.list)
+	{
+		auto part = list_at(Part, link);
+		track_lsn_follow(&part->track, state_lsn());
+	}
 }
 
 static void
diff --git a/amelie/db/db/recover.c b/amelie/db/db/recover.c
index 85ee628..b06fa5e 100644
--- a/amelie/db/db/recover.c
+++ b/amelie/db/db/recover.c
@@ -71,6 +71,23 @@ recover_map(Recover* self, Record* record, RecordCmd* cmd, Row* row)
 	return part;
 }
 
+static inline void
+recover_truncate(Recover* self, Record* record, Table* table)
+{
+	// truncate only partitions which do not include lsn
+	list_foreach(&table->part_mgr.list)
+	{
+		auto part = list_at(Part, link);
+		track_lsn_follow(&part->track, record->lsn);
+		if (record->lsn > part->heap->header->lsn)
+			part_truncate(part);
+	}
+
+	// tiers are a part of the catalog
+	if (record->lsn > state_catalog())
+		tier_mgr_truncate(&table->tier_mgr);
+}
+
 hot static void
 recover_cmd(Recover* self, Record* record, RecordCmd* cmd, uint8_t** pos)
 {
@@ -116,6 +133,19 @@ recover_cmd(Recover* self, Record* record, RecordCmd* cmd, uint8_t** pos)
 	case CMD_DDL:
 	case CMD_DDL_CREATE_INDEX:
 	{
+		// truncate partitions, which can be ahead or behind of the
+		// catalog (the table can have a different name by now)
+		if (!self->write_wal && !uuid_empty(&cmd->id))
+		{
+			auto table = table_mgr_find_by(&db->catalog.table_mgr, &cmd->id, false);
+			if (table)
+				recover_truncate(self, record, table);
+			if (record->lsn > state_catalog())
+				opt_int_set(&state()->catalog_pending, record->lsn);
+			record_cmd_skip(cmd, pos);
+			break;
+		}
+
 		// skip ddl commands before the last catalog lsn
 		if (record->lsn <= state_catalog())
 		{
diff --git a/amelie/db/service/op.c b/amelie/db/service/op.c
index a98d22a..3a438f4 100644
--- a/amelie/db/service/op.c
+++ b/amelie/db/service/op.c
@@ -183,5 +183,5 @@ service_create_index(Service* self, Tr* tr, uint8_t* op, int flags)
 
 	// attach index to the table
 	table_index_add(table, tr, config);
-	log_persist_relation(&tr->log, op);
+	log_persist_relation(&tr->log, NULL, op);
 }
diff --git a/amelie/db/transaction/log.h b/amelie/db/transaction/log.h
index d492252..5944191 100644
--- a/amelie/db/transaction/log.h
+++ b/amelie/db/transaction/log.h
@@ -176,9 +176,9 @@ log_relation(Log*   self,
 }
 
 hot static inline void
-log_persist_relation(Log* self, uint8_t* data)
+log_persist_relation(Log* self, Uuid* id, uint8_t* data)
 {
-	// [cmd, data]
+	// [cmd, id, data]
 	auto op = log_last(self);
-	write_log_add_op(&self->write_log, op->cmd, data);
+	write_log_add_op(&self->write_log, op->cmd, id, data);
 }
diff --git a/amelie/db/transaction/write_log.h b/amelie/db/transaction/write_log.h
index ba93632..3f2478f 100644
--- a/amelie/db/transaction/write_log.h
+++ b/amelie/db/transaction/write_log.h
@@ -79,14 +79,17 @@ write_log_add(WriteLog* self, int cmd, Uuid* id, Row* row)
 }
 
 hot static inline void
-write_log_add_op(WriteLog* self, int cmd, uint8_t* op)
+write_log_add_op(WriteLog* self, int cmd, Uuid* id, uint8_t* op)
 {
 	// prepare command header
 	auto hdr = (RecordCmd*)buf_emplace(&self->meta, sizeof(RecordCmd));
 	hdr->cmd  = cmd;
 	hdr->size = json_sizeof(op);
 	hdr->crc  = 0;
-	uuid_init(&hdr->id);
+	if (id)
+		hdr->id = *id;
+	else
+		uuid_init(&hdr->id);
 
 	// op
 	iov_add(&self->iov, op, hdr->size);
-- 
2.43.0


From 006f87d199adb3f81cd6f1a742ccc16ef355052a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:29 +0000
Subject: [PATCH 097/108] fix: keep the files of a snapshot which fails to be
 removed

---
 amelie/db/catalog/catalog_snapshot.c | 31 ++++++++++------------------
 amelie/db/catalog/catalog_snapshot.h |  2 +-
 amelie/db/db/snapshot_mgr.c          |  9 ++++----
 amelie/db/db/snapshot_mgr.h          |  1 +
 4 files changed, 17 insertions(+), 26 deletions(-)

diff --git a/amelie/db/catalog/catalog_snapshot.c b/amelie/db/catalog/catalog_snapshot.c
index 268e93b..edefdc6 100644
--- a/amelie/db/catalog/catalog_snapshot.c
+++ b/amelie/db/catalog/catalog_snapshot.c
@@ -22,7 +22,7 @@
 #include <amelie_catalog.h>
 
 void
-catalog_snapshot(Catalog* self, Buf* data)
+catalog_snapshot(Catalog* self, Buf* data, Buf* files)
 {
 	// catalog
 	encode_raw(data, "catalog", 7);
@@ -46,10 +46,6 @@ catalog_snapshot(Catalog* self, Buf* data)
 	}
 	encode_array_end(data);
 
-	// files
-	encode_raw(data, "files", 5);
-	encode_array(data);
-
 	// create snapshot files (hard links)
 	list_foreach(&self->table_mgr.mgr.list)
 	{
@@ -62,7 +58,7 @@ catalog_snapshot(Catalog* self, Buf* data)
 		{
 			auto part = list_at(Part, link);
 			id_snapshot(&part->id, STATE_COMPLETE, STATE_SNAPSHOT);
-			id_encode(&part->id, STATE_SNAPSHOT, data);
+			id_encode(&part->id, STATE_SNAPSHOT, files);
 		}
 
 		// objects
@@ -73,34 +69,29 @@ catalog_snapshot(Catalog* self, Buf* data)
 			{
 				auto object = list_at(Object, link);
 				id_snapshot(&object->id, STATE_COMPLETE, STATE_SNAPSHOT);
-				id_encode(&object->id, STATE_SNAPSHOT, data);
+				id_encode(&object->id, STATE_SNAPSHOT, files);
 			}
 		}
 	}
 
+	// files
+	encode_raw(data, "files", 5);
+	encode_array(data);
+	buf_write_buf(data, files);
 	encode_array_end(data);
 }
 
 void
-catalog_snapshot_cleanup(Buf* data)
+catalog_snapshot_cleanup(Buf* files)
 {
-	auto pos = data->start;
-	uint8_t* pos_files = NULL;
-	Decode obj[] =
-	{
-		{ DECODE_ARRAY, "files", &pos_files },
-		{ 0,             NULL,    NULL      },
-	};
-	decode_obj(obj, "snapshot", &pos);
-
 	// drop snapshots files (hard links)
-	json_read_array(&pos_files);
-	while (! json_read_array_end(&pos_files))
+	auto pos = files->start;
+	while (pos < files->position)
 	{
 		Str     path_relative;
 		int64_t size;
 		int64_t mode;
-		decode_basefile(&pos_files, &path_relative, &size, &mode);
+		decode_basefile(&pos, &path_relative, &size, &mode);
 		if (! fs_exists("%s/%.*s", state_directory(), str_size(&path_relative),
 		                str_of(&path_relative)))
 			continue;
diff --git a/amelie/db/catalog/catalog_snapshot.h b/amelie/db/catalog/catalog_snapshot.h
index 773fdbf..57d8ef1 100644
--- a/amelie/db/catalog/catalog_snapshot.h
+++ b/amelie/db/catalog/catalog_snapshot.h
@@ -11,5 +11,5 @@
 // AGPL-3.0 Licensed.
 //
 
-void catalog_snapshot(Catalog*, Buf*);
+void catalog_snapshot(Catalog*, Buf*, Buf*);
 void catalog_snapshot_cleanup(Buf*);
diff --git a/amelie/db/db/snapshot_mgr.c b/amelie/db/db/snapshot_mgr.c
index 0974fb9..8828907 100644
--- a/amelie/db/db/snapshot_mgr.c
+++ b/amelie/db/db/snapshot_mgr.c
@@ -29,6 +29,7 @@ snapshot_allocate(void)
 {
 	auto self = (Snapshot*)am_malloc(sizeof(Snapshot));
 	buf_init(&self->data);
+	buf_init(&self->files);
 	wal_slot_init(&self->wal_snapshot);
 	list_init(&self->link);
 	return self;
@@ -38,6 +39,7 @@ static inline void
 snapshot_free(Snapshot* self)
 {
 	buf_free(&self->data);
+	buf_free(&self->files);
 	am_free(self);
 }
 
@@ -97,7 +99,7 @@ snapshot_mgr_create(SnapshotMgr* self)
 		// create catalog dump and take partitions snapshots
 		//
 		// catalog, storage, partitions
-		catalog_snapshot(self->catalog, data);
+		catalog_snapshot(self->catalog, data, &snapshot->files);
 
 		// create wal list and take the wal snapshot
 		//
@@ -123,10 +125,7 @@ snapshot_mgr_gc(SnapshotMgr* self)
 	list_foreach_safe(&self->list_gc)
 	{
 		auto snapshot = list_at(Snapshot, link);
-		auto data = &snapshot->data;
-		if (! buf_empty(data)) {
-			error_catch ( catalog_snapshot_cleanup(data) );
-		}
+		error_catch ( catalog_snapshot_cleanup(&snapshot->files) );
 		snapshot_free(snapshot);
 	}
 	list_init(&self->list_gc);
diff --git a/amelie/db/db/snapshot_mgr.h b/amelie/db/db/snapshot_mgr.h
index 7baedfc..a445131 100644
--- a/amelie/db/db/snapshot_mgr.h
+++ b/amelie/db/db/snapshot_mgr.h
@@ -17,6 +17,7 @@ typedef struct SnapshotMgr SnapshotMgr;
 struct Snapshot
 {
 	Buf     data;
+	Buf     files;
 	WalSlot wal_snapshot;
 	List    link;
 };
-- 
2.43.0


From a27e4378b0f4a9e849a308809582025ee4065453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:29 +0000
Subject: [PATCH 098/108] fix: allow a backup while another one is active

---
 amelie/db/storage/id.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/amelie/db/storage/id.h b/amelie/db/storage/id.h
index d2283cb..a2b02aa 100644
--- a/amelie/db/storage/id.h
+++ b/amelie/db/storage/id.h
@@ -174,9 +174,10 @@ id_snapshot(Id* self, int state, int state_snapshot)
 	char path_snapshot[PATH_MAX];
 	id_path(self, path_snapshot, state_snapshot, false);
 
-	// hard link
+	// hard link (an existing one belongs to a snapshot which is still active,
+	// its file is removed and its wal files are kept until no snapshots left)
 	auto rc = link(path, path_snapshot);
-	if (rc == -1)
+	if (rc == -1 && errno != EEXIST)
 		error_system();
 }
 
-- 
2.43.0


From 6cc15f69f818882abb40ae1cdae853fa63c7855a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:11 +0000
Subject: [PATCH 099/108] fix: keep the catalog locked while rows are replayed
 after a schema change

---
 amelie/system/session/session_replay.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/amelie/system/session/session_replay.c b/amelie/system/session/session_replay.c
index 76ead35..4537204 100644
--- a/amelie/system/session/session_replay.c
+++ b/amelie/system/session/session_replay.c
@@ -20,11 +20,17 @@
 #include <amelie_backend.h>
 #include <amelie_session.h>
 
+static inline void
+session_replay_unlock(Lock** lock)
+{
+	unlock(*lock);
+}
+
 void
 session_execute_replay(Session* self, Primary* primary, Buf* data)
 {
 	auto lock = lock_system(REL_CATALOG, LOCK_SHARED);
-	defer(unlock, lock);
+	defer(session_replay_unlock, &lock);
 
 	// validate request fields and check current replication state
 
@@ -63,20 +69,29 @@ session_execute_replay(Session* self, Primary* primary, Buf* data)
 		{
 			// upgrade to the exclusive lock
 			unlock(lock);
+			lock = NULL;
 
 			// (unlocked by recover commit)
-			lock_system(REL_CATALOG, LOCK_EXCLUSIVE);
+			lock = lock_system(REL_CATALOG, LOCK_EXCLUSIVE);
 
 			// execute DDL
 			recover_next(primary->recover, record);
+
+			// following writes require the shared lock
+			lock = NULL;
+			lock = lock_system(REL_CATALOG, LOCK_SHARED);
 			break;
 		}
 		case CMD_DDL_CREATE_INDEX:
 		{
 			unlock(lock);
+			lock = NULL;
 
 			// execute CREATE INDEX
 			recover_next(primary->recover, record);
+
+			// following writes require the shared lock
+			lock = lock_system(REL_CATALOG, LOCK_SHARED);
 			break;
 		}
 		}
-- 
2.43.0


From 5ed5038352078d59bc5c402a82fbdd31467c58f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:15 +0000
Subject: [PATCH 100/108] fix: patch stop conditions only of tree indexes

---
 amelie/compiler/compiler/scan.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/amelie/compiler/compiler/scan.c b/amelie/compiler/compiler/scan.c
index 933408a..0b8f9ca 100644
--- a/amelie/compiler/compiler/scan.c
+++ b/amelie/compiler/compiler/scan.c
@@ -183,8 +183,11 @@ scan_table(Scan* self, Target* target)
 	code_at(cp->code, _open)->c = _eof;
 
 	// set scan stop jntr to eof
-	for (auto order = 0; order < path->match_stop; order++)
-		code_at(cp->code, scan_stop_jntr[order])->a = _eof;
+	if (index->type == INDEX_TREE)
+	{
+		for (auto order = 0; order < path->match_stop; order++)
+			code_at(cp->code, scan_stop_jntr[order])->a = _eof;
+	}
 
 	// resolve outer target break/continue
 	if (! target->prev)
-- 
2.43.0


From 567a1abf2ca43eec68dd23d4e38dcf929e0c492a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:41 +0000
Subject: [PATCH 101/108] fix: allow an insert of an empty set

---
 amelie/vm/executor/dispatch.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/amelie/vm/executor/dispatch.h b/amelie/vm/executor/dispatch.h
index 3b7fead..16ace47 100644
--- a/amelie/vm/executor/dispatch.h
+++ b/amelie/vm/executor/dispatch.h
@@ -75,7 +75,6 @@ dispatch_set_close(Dispatch* self)
 static inline void
 dispatch_prepare(Dispatch* self)
 {
-	assert(self->list_count > 0);
 	complete_prepare(&self->complete, self->list_count);
 }
 
@@ -115,6 +114,11 @@ dispatch_wait(Dispatch* self)
 {
 	// wait for dispatch completion
 	assert(self->returning);
+
+	// nothing to send (insert of an empty set)
+	if (! self->list_count)
+		return;
+
 	complete_wait(&self->complete);
 }
 
-- 
2.43.0


From c3c2dfdb920df60ac44a659e0b5a92c90f8604fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:03 +0000
Subject: [PATCH 102/108] fix: keep the rows of an insert until it is executed

---
 amelie/vm/executor/dispatch.h | 3 +++
 amelie/vm/vm/command.c        | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/amelie/vm/executor/dispatch.h b/amelie/vm/executor/dispatch.h
index 16ace47..9b66708 100644
--- a/amelie/vm/executor/dispatch.h
+++ b/amelie/vm/executor/dispatch.h
@@ -21,6 +21,7 @@ struct Dispatch
 	Complete complete;
 	bool     close;
 	bool     returning;
+	Value    store;
 	List     link;
 };
 
@@ -32,6 +33,7 @@ dispatch_allocate(void)
 	self->list_count = 0;
 	self->returning  = false;
 	self->close      = false;
+	value_init(&self->store);
 	list_init(&self->list);
 	list_init(&self->link);
 	complete_init(&self->complete);
@@ -57,6 +59,7 @@ dispatch_reset(Dispatch* self, ReqCache* cache)
 	self->list_count = 0;
 	self->returning  = false;
 	self->close      = false;
+	value_free(&self->store);
 	complete_reset(&self->complete);
 }
 
diff --git a/amelie/vm/vm/command.c b/amelie/vm/vm/command.c
index 3c1d16e..c822eab 100644
--- a/amelie/vm/vm/command.c
+++ b/amelie/vm/vm/command.c
@@ -96,7 +96,10 @@ csend_shard(Vm* self, Op* op)
 	}
 	if (op->c > 0)
 		stack_popn(&self->stack, op->c);
-	value_free(reg_at(&self->r, op->b));
+
+	// keep the rows until the end of the transaction, requests are
+	// using them
+	value_move(&dispatch->store, reg_at(&self->r, op->b));
 
 	// execute
 	executor_send(share()->executor, dtr, dispatch);
-- 
2.43.0


From 7b9741049e2228e74bc1fcd991848b4471ff0b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:50 +0000
Subject: [PATCH 103/108] fix: apply finished transactions of a partition
 before its truncate

---
 amelie/db/part/part.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amelie/db/part/part.c b/amelie/db/part/part.c
index a15c586..fae7082 100644
--- a/amelie/db/part/part.c
+++ b/amelie/db/part/part.c
@@ -84,6 +84,9 @@ part_open(Part* self)
 void
 part_truncate(Part* self)
 {
+	// abort and commit previously prepared transactions
+	track_sync(&self->track, &self->track.consensus);
+
 	// free rows
 	auto it = index_iterator(part_primary(self));
 	defer(iterator_close, it);
-- 
2.43.0


From ff7a39b56db193caf6950419438f763a10d71a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:35 +0000
Subject: [PATCH 104/108] fix: use the primary index for UPDATE and DELETE

---
 amelie/compiler/parser/parse_delete.c | 1 +
 amelie/compiler/parser/parse_update.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/amelie/compiler/parser/parse_delete.c b/amelie/compiler/parser/parse_delete.c
index 02e50db..3e0e94a 100644
--- a/amelie/compiler/parser/parse_delete.c
+++ b/amelie/compiler/parser/parse_delete.c
@@ -43,6 +43,7 @@ parse_delete(Stmt* self)
 	if (target->from_index)
 		if (table_primary(stmt->table) != target->from_index)
 			stmt_error(self, from, "DELETE supports only primary index");
+	target->from_index = table_primary(stmt->table);
 
 	// [WHERE]
 	if (stmt_if(self, KWHERE))
diff --git a/amelie/compiler/parser/parse_update.c b/amelie/compiler/parser/parse_update.c
index d029f08..9fab19f 100644
--- a/amelie/compiler/parser/parse_update.c
+++ b/amelie/compiler/parser/parse_update.c
@@ -167,6 +167,7 @@ parse_update(Stmt* self)
 	if (target->from_index)
 		if (table_primary(stmt->table) != target->from_index)
 			stmt_error(self, NULL, "UPDATE supports only primary index");
+	target->from_index = table_primary(stmt->table);
 
 	// SET column = expr [, ... ]
 	stmt->expr_update = parse_update_expr(self);
-- 
2.43.0


From 7be2e54c877b57161f072c71817d03e2ab1b37cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:31 +0000
Subject: [PATCH 105/108] fix: reject unknown columns of table targets without
 reading its register

---
 amelie/compiler/compiler/emit_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amelie/compiler/compiler/emit_expr.c b/amelie/compiler/compiler/emit_expr.c
index 3121a79..6f4bd0f 100644
--- a/amelie/compiler/compiler/emit_expr.c
+++ b/amelie/compiler/compiler/emit_expr.c
@@ -401,7 +401,7 @@ emit_name_compound(Compiler* self, From* from, Ast* ast)
 		           str_size(&name), str_of(&name));
 
 	// target.path
-	if (rtype(self, target->r) != TYPE_JSON)
+	if (target->r == -1 || rtype(self, target->r) != TYPE_JSON)
 		stmt_error(self->current, ast, "column %.*s.%.*s not found",
 		           str_size(&target->name), str_of(&target->name),
 		           str_size(&name), str_of(&name));
-- 
2.43.0


From fc7b6aa0098567c5fc343dbe6f0f2d28c4d718a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:04 +0000
Subject: [PATCH 106/108] fix: count FROM (SELECT) as a sending statement

---
 amelie/compiler/parser/parse_from.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amelie/compiler/parser/parse_from.c b/amelie/compiler/parser/parse_from.c
index cc3a8ef..46fef28 100644
--- a/amelie/compiler/parser/parse_from.c
+++ b/amelie/compiler/parser/parse_from.c
@@ -51,6 +51,8 @@ parse_from_target(Stmt* self, From* from, LockId lock, bool subquery)
 				stmt_expect(self, ')');
 				stmt->ast = &select->ast;
 				stmt->ret = &select->ret;
+				if (select->pushdown)
+					self->block->stmts.last_send = stmt;
 				parse_select_resolve(stmt);
 
 				target->type      = TARGET_STMT;
-- 
2.43.0


From 3df4012c506913358422bddc61619fe328425818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:04 +0000
Subject: [PATCH 107/108] fix: inherit the snapshot of a called function

---
 amelie/compiler/parser/parse_expr.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amelie/compiler/parser/parse_expr.c b/amelie/compiler/parser/parse_expr.c
index 61dd346..57c63ad 100644
--- a/amelie/compiler/parser/parse_expr.c
+++ b/amelie/compiler/parser/parse_expr.c
@@ -356,6 +356,10 @@ expr_func(Stmt* self, Expr* expr, Ast* name, bool with_args)
 		auto access_udf = &((Program*)func->udf->data)->access;
 		access_merge(access, access_udf);
 
+		// inherit snapshot, the udf can access relations more than once
+		if (((Program*)func->udf->data)->snapshot)
+			self->parser->program->snapshot = true;
+
 		// mark stmt as having udf call and if the udf access other relations
 		// (requiring close)
 		self->udfs = true;
-- 
2.43.0


From 00893099c4308e8d354930641c5e1258baee3aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:04 +0000
Subject: [PATCH 108/108] fix: receive the statements of a nested block which
 ends by RETURN

---
 amelie/compiler/compiler/compiler.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/amelie/compiler/compiler/compiler.c b/amelie/compiler/compiler/compiler.c
index f6297d7..a4bf87f 100644
--- a/amelie/compiler/compiler/compiler.c
+++ b/amelie/compiler/compiler/compiler.c
@@ -843,8 +843,10 @@ emit_block(Compiler* self, Block* block)
 	// cleanup block (not main)
 	if (block != compiler_main(self))
 	{
+		// (after RETURN too, statements of the block must not be received
+		// by the outer block)
 		auto last = block->stmts.list_tail;
-		if (last && !last->is_return && !last->is_break)
+		if (last && !last->is_break)
 			emit_end(self, block);
 	}
 
-- 
2.43.0

