// C09: the real row store against a reference list of live rows.
#include "am.h"

enum { MAXROWS = 16 };

typedef struct
{
	uint8_t* ptr;
	int      size;
	uint8_t  pat;
	bool     frozen;     // row of the running snapshot
	bool     removed;    // removed while the snapshot runs
} RefRow;

typedef struct
{
	Heap*    heap;
	Heap*    shadow;
	RefRow   rows[MAXROWS];
	int      count;
	uint8_t  next;
	HeapHeader header_copy;
	uint8_t  buckets_copy[sizeof(HeapBucket) * 385];
	uint64_t live_hash;
} Ref;

static void
fill(RefRow* r)
{
	memset(r->ptr, r->pat, r->size);
}

static bool
intact(RefRow* r)
{
	if (r->size <= 4096) {
		for (int i = 0; i < r->size; i++)
			if (r->ptr[i] != r->pat)
				return false;
		return true;
	}
	return r->ptr[0] == r->pat && r->ptr[r->size - 1] == r->pat &&
	       memcmp(r->ptr, r->ptr + 1, r->size - 1) == 0;
}

static bool
inside(Heap* heap, uint8_t* ptr, int size)
{
	for (int i = 0; i < heap->page_mgr.list_count; i++) {
		auto page = page_mgr_at(&heap->page_mgr, i);
		if (ptr >= page->pointer + sizeof(PageHeader) + sizeof(HeapChunk) &&
		    ptr + size <= page->pointer + heap->page_mgr.page_size)
			return true;
	}
	return false;
}

static uint64_t
space(Heap* heap)
{
	uint64_t total = 0;
	for (int i = 0; i < heap->page_mgr.list_count; i++)
		total += ((PageHeader*)page_mgr_at(&heap->page_mgr, i)->pointer)->size;
	return total;
}

static void
verify_iterate(Ref* self, Heap* heap, bool in_shadow)
{
	// iteration returns exactly the live rows of that heap, once each
	bool seen[MAXROWS] = {0};
	HeapIterator it;
	heap_iterator_init(&it);
	heap_iterator_open(&it, heap, NULL);
	int n = 0;
	for (; heap_iterator_has(&it); heap_iterator_next(&it)) {
		auto chunk = heap_iterator_at_chunk(&it);
		uint8_t* at = (uint8_t*)heap_iterator_at(&it);
		if (chunk->is_shadow_free) {
			mc_check(in_shadow, "iterate-marker", "removal marker found in the main heap");
			continue;
		}
		int found = -1;
		for (int i = 0; i < self->count; i++)
			if (self->rows[i].ptr == at)
				found = i;
		mc_check(found >= 0, "iterate-ghost", "iteration returned a row which is not live");
		mc_check(!seen[found], "iterate-dup", "iteration returned a row twice");
		seen[found] = true;
		mc_check(++n <= MAXROWS, "iterate-loop", "iteration does not end");
	}
	for (int i = 0; i < self->count; i++) {
		auto r = &self->rows[i];
		bool mine = self->shadow ? (r->frozen != in_shadow) : true;
		if (mine)
			mc_check(seen[i], "iterate-lost", "iteration did not return a live row (row %d size %d)", i, r->size);
		else
			mc_check(!seen[i], "iterate-wrong-heap", "row found in the wrong heap");
	}
}

static void
verify(Ref* self)
{
	int live = 0;
	uint64_t used = 0;
	for (int i = 0; i < self->count; i++) {
		auto r = &self->rows[i];
		mc_check(intact(r), "content", "row %d (size %d) changed its content", i, r->size);
		if (! r->removed) {
			live++;
			Heap* h = (self->shadow && !r->frozen) ? self->shadow : self->heap;
			used += h->buckets[heap_chunk_of(r->ptr)->bucket].size;
		}
	}
	if (self->shadow) {
		// the running snapshot reads the heap header and pages: both are stable
		mc_check(memcmp(&self->header_copy, self->heap->header, sizeof(HeapHeader)) == 0,
		         "snapshot-header", "heap header changed while a snapshot of it is running (used rows %d, was %d)",
		         self->heap->header->count_used, self->header_copy.count_used);
		mc_check(memcmp(self->buckets_copy, self->heap->buckets, sizeof(self->buckets_copy)) == 0,
		         "snapshot-buckets", "heap free lists changed while a snapshot is running");
		verify_iterate(self, self->heap, false);
		verify_iterate(self, self->shadow, true);
	} else {
		verify_iterate(self, self->heap, false);
		mc_check((int)self->heap->header->count_used == live, "count-used",
		         "used row counter is %d with %d live rows", self->heap->header->count_used, live);
		mc_check(self->heap->header->size_used == used, "size-used",
		         "used size counter is %lu, live rows use %lu", (uint64_t)self->heap->header->size_used, used);
	}
}

static void
add(Ref* self, int size)
{
	auto target = self->shadow ? self->shadow : self->heap;
	// is there released space of that class?
	auto before = space(target);
	bool free_space = false;
	int need = size + (int)sizeof(HeapChunk);
	for (int i = 0; i < 385; i++) {
		auto b = &target->buckets[i];
		if ((int)b->size > need) {
			// the smallest class which holds the row
			free_space = b->list_count > 0;
			break;
		}
	}
	auto r = &self->rows[self->count];
	r->ptr  = heap_add(target == self->shadow ? self->heap : target, size);
	r->size = size;
	r->pat  = ++self->next;
	r->frozen  = false;
	r->removed = false;
	mc_check(inside(target, r->ptr, size), "outside", "row of size %d is outside of the pages", size);
	mc_check(((uintptr_t)r->ptr & 7) == 0, "align", "row is not aligned");
	for (int i = 0; i < self->count; i++) {
		auto o = &self->rows[i];
		mc_check(r->ptr + size <= o->ptr - sizeof(HeapChunk) || o->ptr + o->size <= r->ptr - sizeof(HeapChunk),
		         "overlap", "rows %d (size %d) and %d (size %d) overlap", i, o->size, self->count, size);
	}
	self->count++;
	fill(r);
	if (free_space)
		mc_check(space(target) == before, "reuse", "released space of the size class is not reused (row size %d)", size);
}

static void
drop(Ref* self, int i)
{
	auto r = &self->rows[i];
	heap_remove(self->heap, r->ptr);
	if (self->shadow && r->frozen) {
		r->removed = true;
		return;
	}
	self->rows[i] = self->rows[--self->count];
}

static void
snapshot_begin(Ref* self)
{
	self->shadow = heap_allocate(false);
	heap_snapshot(self->heap, self->shadow, true);
	for (int i = 0; i < self->count; i++)
		self->rows[i].frozen = true;
	self->header_copy = *self->heap->header;
	memcpy(self->buckets_copy, self->heap->buckets, sizeof(self->buckets_copy));
}

static void
snapshot_end(Ref* self)
{
	// same steps as a checkpoint end: drop the delayed removals, copy new rows
	heap_snapshot(self->heap, NULL, false);
	auto shadow = self->shadow;
	self->shadow = NULL;
	HeapIterator it;
	heap_iterator_init(&it);
	heap_iterator_open(&it, shadow, NULL);
	for (; heap_iterator_has(&it); heap_iterator_next(&it)) {
		auto chunk = heap_iterator_at_chunk(&it);
		if (chunk->is_shadow_free) {
			uint8_t* ptr = *(uint8_t**)chunk->data;
			int found = -1;
			for (int i = 0; i < self->count; i++)
				if (self->rows[i].ptr == ptr && self->rows[i].removed)
					found = i;
			mc_check(found >= 0, "marker", "removal marker does not match a removed row");
			heap_remove(self->heap, ptr);
			self->rows[found] = self->rows[--self->count];
			continue;
		}
		uint8_t* at = (uint8_t*)heap_iterator_at(&it);
		int found = -1;
		for (int i = 0; i < self->count; i++)
			if (self->rows[i].ptr == at)
				found = i;
		mc_check(found >= 0, "iterate-ghost", "iteration returned a row which is not live");
		auto r = &self->rows[found];
		uint8_t* copy = heap_add(self->heap, r->size);
		memcpy(copy, at, r->size);
		r->ptr = copy;
	}
	for (int i = 0; i < self->count; i++)
		mc_check(! self->rows[i].removed, "marker-lost", "removal during the snapshot was lost");
	heap_free(shadow);
}

// same steps as a flush end: rows of the snapshot move away, the shadow heap
// with the newer rows is the row store from now on
static void
snapshot_switch(Ref* self)
{
	heap_snapshot(self->heap, NULL, false);
	auto shadow = self->shadow;
	self->shadow = NULL;
	uint8_t* markers[MAXROWS];
	int      nmarkers = 0;
	HeapIterator it;
	heap_iterator_init(&it);
	heap_iterator_open(&it, shadow, NULL);
	for (; heap_iterator_has(&it); heap_iterator_next(&it)) {
		auto chunk = heap_iterator_at_chunk(&it);
		chunk->is_shadow = false;
		if (chunk->is_shadow_free) {
			markers[nmarkers++] = chunk->data;
			continue;
		}
	}
	for (int i = 0; i < nmarkers; i++)
		heap_remove(shadow, markers[i]);
	int count = 0;
	for (int i = 0; i < self->count; i++)
		if (! self->rows[i].frozen)
			self->rows[count++] = self->rows[i];
	self->count = count;
	heap_free(self->heap);
	self->heap = shadow;
}

static uint64_t
state_hash(Ref* self, int depth)
{
	uint64_t h = depth;
	for (int i = 0; i < self->count; i++) {
		auto r = &self->rows[i];
		int at[4] = { r->size, heap_chunk_of(r->ptr)->offset, heap_page_of(heap_chunk_of(r->ptr))->order,
		              r->frozen * 2 + r->removed };
		h = mc_hash(h, at, sizeof(at));
	}
	h = mc_hash(h, self->heap->header, sizeof(HeapHeader) + sizeof(HeapBucket) * 385);
	// marks of every chunk, free ones included
	for (int i = 0; i < self->heap->page_mgr.list_count; i++) {
		auto page = (PageHeader*)page_mgr_at(&self->heap->page_mgr, i)->pointer;
		for (uint32_t at = sizeof(PageHeader); at < page->size;) {
			auto chunk = (HeapChunk*)((uint8_t*)page + at);
			int marks = chunk->is_free | chunk->is_shadow << 1 | chunk->is_shadow_free << 2;
			h = mc_hash(h, &marks, sizeof(marks));
			at += self->heap->buckets[chunk->bucket].size;
		}
	}
	if (self->shadow)
		h = mc_hash(h, self->shadow->header, sizeof(HeapHeader) + sizeof(HeapBucket) * 385);
	return h;
}

static const int sizes[] = { 8, 24, 100, 1000, 200000, 487, 300000 };

static void
run_ops(int depth, int nsizes, int maxlive, bool snapshots)
{
	Ref ref = {0};
	ref.heap = heap_allocate(false);
	int removes = 0, snaps = 0;
	for (int step = 0; step < depth; step++) {
		int nadd = ref.count < maxlive ? nsizes : 0;
		int alive[MAXROWS], nalive = 0;
		for (int i = 0; i < ref.count; i++)
			if (! ref.rows[i].removed)
				alive[nalive++] = i;
		int op = mc_choose(nadd + nalive + (snapshots ? 1 + (ref.shadow != NULL) : 0));
		if (mc_pruned())
			break;
		if (op < nadd) {
			mc_log("add %d", sizes[op]);
			add(&ref, sizes[op]);
		} else if (op < nadd + nalive) {
			mc_log("remove row#%d size %d", alive[op - nadd], ref.rows[alive[op - nadd]].size);
			drop(&ref, alive[op - nadd]);
			removes++;
		} else if (op == nadd + nalive + 1) {
			mc_log("snapshot switch");
			snapshot_switch(&ref);
			snaps++;
		} else if (ref.shadow) {
			mc_log("snapshot end");
			snapshot_end(&ref);
			snaps++;
		} else {
			mc_log("snapshot begin");
			snapshot_begin(&ref);
		}
		mc_step(1);
		verify(&ref);
		auto h = state_hash(&ref, step);
		if (! mc_visit(h))
			break;
	}
	if (removes && (! snapshots || snaps))
		mc_nontrivial();
	mc_outcome(state_hash(&ref, 0));
	if (ref.shadow)
		heap_free(ref.shadow);
	heap_free(ref.heap);
}

static void ops_plain(void)    { run_ops(mc_q(6, 8), 4, 5, false); }
static void ops_pages(void)    { run_ops(mc_q(6, 8), 7, 6, false); }
static void ops_snapshot(void) { run_ops(mc_q(7, 9), 3, 4, true); }

// every size class at its smallest and largest row: two neighbours, release, reuse
static void
size_classes(void)
{
	auto probe = heap_allocate(false);
	int bucket = mc_choose(385);
	int at = mc_choose(3);
	int next = mc_choose(3);
	if (mc_pruned()) {
		heap_free(probe);
		return;
	}
	int max = (int)probe->buckets[bucket].size - 1;
	int min = bucket ? (int)probe->buckets[bucket - 1].size : 0;
	int total = at == 0 ? min : at == 1 ? max : (min + max) / 2;
	if (bucket == 384)
		total = max + 1;
	int page_size = probe->page_mgr.page_size;
	heap_free(probe);
	int size = total - (int)sizeof(HeapChunk);
	if (size <= 0)
		return;
	mc_nontrivial();
	mc_log("row size %d", size);
	Ref ref = {0};
	ref.heap = heap_allocate(false);
	if (size > page_size / 2) {
		// a row which does not fit a page is rejected, never placed outside
		auto on_error = error_catch( add(&ref, size); );
		if (on_error) {
			mc_check(total + (int)sizeof(PageHeader) > page_size - 8192, "reject", "row of size %d which fits a page is rejected", size);
			verify(&ref);
			add(&ref, 100);
			verify(&ref);
			heap_free(ref.heap);
			return;
		}
	} else
		add(&ref, size);
	int other = next == 0 ? size : next == 1 ? 8 : 5000;
	add(&ref, other);
	verify(&ref);
	add(&ref, size);
	verify(&ref);
	drop(&ref, 0);
	verify(&ref);
	add(&ref, size);
	verify(&ref);
	while (ref.count) {
		drop(&ref, 0);
		verify(&ref);
	}
	add(&ref, size);
	add(&ref, other);
	verify(&ref);
	mc_step(8);
	heap_free(ref.heap);
}

// fill pages completely with one class, release a chosen pattern, refill
static void
fill_pages(void)
{
	static const int fs[] = { 60000, 100000, 131000, 260000 };
	int size = fs[mc_choose(4)];
	int pattern = mc_choose(256);
	int second = fs[mc_choose(4)];
	if (mc_pruned())
		return;
	mc_log("rows of %d, release pattern %02x, refill with %d", size, pattern, second);
	mc_nontrivial();
	Ref ref = {0};
	ref.heap = heap_allocate(false);
	for (int i = 0; i < 8; i++)
		add(&ref, size);
	verify(&ref);
	int gone = 0;
	for (int i = 7; i >= 0; i--)
		if (pattern & (1 << i)) {
			drop(&ref, i);
			gone++;
		}
	verify(&ref);
	for (int i = 0; i < gone; i++)
		add(&ref, second);
	verify(&ref);
	while (ref.count)
		drop(&ref, ref.count - 1);
	verify(&ref);
	mc_step(8 + gone * 2);
	heap_free(ref.heap);
}

// recency list order
static void
lru(void)
{
	int depth = mc_q(7, 8);
	auto heap = heap_allocate(true);
	uint8_t* order[16];
	int count = 0;
	for (int step = 0; step < depth; step++) {
		int nadd = count < 4 ? 2 : 0;
		int op = mc_choose(nadd + count * 2);
		if (mc_pruned())
			break;
		if (op < nadd) {
			mc_log("add");
			uint8_t* p = heap_add(heap, op ? 300000 : 8);
			memmove(order + 1, order, sizeof(order[0]) * count);
			order[0] = p;
			count++;
		} else if (op < nadd + count) {
			int i = op - nadd;
			mc_log("remove %d", i);
			heap_remove(heap, order[i]);
			memmove(order + i, order + i + 1, sizeof(order[0]) * (count - i - 1));
			count--;
			mc_nontrivial();
		} else {
			int i = op - nadd - count;
			mc_log("touch %d", i);
			auto p = order[i];
			heap_up(heap, p);
			memmove(order + 1, order, sizeof(order[0]) * i);
			order[0] = p;
		}
		mc_step(1);
		// both directions
		int at = heap->header->lru, off = heap->header->lru_offset, n = 0;
		while (off) {
			auto c = heap_chunk_at(heap, at, off);
			mc_check(n < count && c->data == order[n], "lru-forward", "recency list differs at %d of %d", n, count);
			n++;
			at = c->next;
			off = c->next_offset;
		}
		mc_check(n == count, "lru-forward", "recency list has %d of %d rows", n, count);
		at = heap->header->lru_tail, off = heap->header->lru_tail_offset, n = count;
		while (off) {
			auto c = heap_chunk_at(heap, at, off);
			n--;
			mc_check(n >= 0 && c->data == order[n], "lru-backward", "recency list differs backwards at %d", n);
			at = c->prev;
			off = c->prev_offset;
		}
		mc_check(n == 0, "lru-backward", "recency list misses rows backwards");
	}
	heap_free(heap);
}

McScenario mc_scenarios[] = {
	{ "size_classes", size_classes },
	{ "fill_pages", fill_pages },
	{ "lru", lru },
	{ "ops_snapshot", ops_snapshot },
	{ "ops_plain", ops_plain },
	{ "ops_pages", ops_pages },
	{ NULL }
};
