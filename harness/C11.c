/* C11: the memory pool is a malloc: disjoint aligned blocks inside its memory, contents kept, freed memory reusable, accounting conserved. */
#include "pbt.h"
#include <sys/mman.h>
#include "allocators/mempool/mempool.h"

char const *const PROPERTY = "C11";
char const *const RULE = "Histories of 1..200 alloc/free/realloc/cleanup calls (frees in any order, of neighbours whose span is then requested, of NULL and foreign pointers) on one pool of 64..6000 bytes (own memory or a caller's buffer) with sizes crossing the small-block classes; every live block carries its own pattern, checked after each call; "
	"at the end all is freed and the remaining memory must be what it was at the start. Non-trivial: at least two blocks that are neighbours were freed and memory was handed out again afterwards. Rarely, pools of up to 1 MB with up to 3000 blocks a round, freed in any order.";
unsigned const QUICK_CASES = 1200000, THOROUGH_CASES = 30000000;
struct Known const KNOWN[] = { {0} };
typedef struct { uint8_t *p; size_t n; uint8_t tag; } Blk;
static Blk B[300]; static size_t nb; static uint8_t tagc, *mem; static size_t size; static struct HarbolMemPool P;

static void intact(char const *op) { for( size_t i=0; i < nb; i++ ) for( size_t j=0; j < B[i].n; j++ ) CHECK(B[i].p[j]==(uint8_t)(B[i].tag + j), "after %s: byte %zu of a live block of %zu bytes was overwritten", op, j, B[i].n); }
static void legal(uint8_t *p, size_t n, size_t skip, char const *op) {
	CHECK((uintptr_t)p % sizeof(void *)==0, "%s gave a misaligned block", op);
	CHECK(p >= mem && n <= size && (size_t)(p - mem) <= size - n, "%s gave a block at %td..%td outside of the pool of %zu bytes", op, p - mem, p - mem + (ssize_t)n, size);
	for( size_t i=0; i < nb; i++ ) if( i != skip ) CHECK(p + n <= B[i].p || B[i].p + B[i].n <= p, "%s gave a block that overlaps a live block of %zu bytes", op, B[i].n);
}
static void fill(Blk *b) { tagc = b->tag = (uint8_t)(tagc * 7 + 13); for( size_t j=0; j < b->n; j++ ) b->p[j] = (uint8_t)(b->tag + j); }
static size_t request(void) { switch( g_pick(4, 8u, 4u, 2u, 1u) ) { case 0: return 1 + g_u(64); case 1: return 1 + g_u(300); case 2: return 1 + g_u(size); default: return g_p(1,2) ? 0 : SIZE_MAX - g_u(64); } }
static void degenerate(void) { /* pools that cannot be made */ bool r = true; uint8_t small[64]; size_t n = g_u(sizeof(struct HarbolMemNode) + 1); P = harbol_mempool_make(0, &r); CHECK(!r && harbol_mempool_mem_remaining(&P)==0 && !harbol_mempool_alloc(&P, 1), "a pool of 0 bytes was made"); P = (struct HarbolMemPool){0}; CHECK(!harbol_mempool_init(&P, 0), "a pool of 0 bytes was made"); P = harbol_mempool_make_from_buffer(small, n, &r); CHECK(!r && !harbol_mempool_alloc(&P, 1), "a pool was made from %zu bytes", n); CLASSIFY("no pool"); }
static void history(void) {
	if( g_p(1,500) ) { degenerate(); return; }
	nb = 0; tagc = (uint8_t)g_u(256); bool own = g_p(2,3), r = false, deep = false; unsigned neigh = 0; uint8_t *buf = NULL;
	size = g_p(1,2) ? 64 + 8 * g_len(200) : 64 + g_len(5900); LOG("pool of %zu bytes, %s\n", size, own ? "own memory" : "caller's buffer");
	size_t fixed = g_p(1,3) ? 1 + g_u(120) : 0; bool nothing_freed = true;
	if( own ) { if( g_p(1,2) ) P = harbol_mempool_make(size, &r); else r = harbol_mempool_init(&P, size); } else { buf = g_buf(size); if( g_p(1,2) ) P = harbol_mempool_make_from_buffer(buf, size, &r); else r = harbol_mempool_init_from_buffer(&P, buf, size); }
	CHECK(r, "construction failed"); mem = P.stack.mem; CHECK(own || mem==buf, "the caller's buffer is not used");
	size_t start = harbol_mempool_mem_remaining(&P); CHECK(start <= size && start + 16 > size, "a fresh pool of %zu bytes has %zu left", size, start);
	for( int k=0; k < 200 && g_more(30); k++ ) {
		char op[100] = "?"; size_t before = harbol_mempool_mem_remaining(&P), after;
		switch( g_u(15) ) {
			case 14: { /* neighbours that are both large, or of the same size, can be had as one block once both are free */
				size_t const H = sizeof(struct HarbolMemNode); size_t i = SIZE_MAX, j = SIZE_MAX, from = nb ? g_u(nb) : 0;
				for( size_t k=0; k < nb && i==SIZE_MAX; k++ ) { Blk a = B[(from + k) % nb]; size_t an = (a.n + H + 7) & ~(size_t)7; bool lowest = true; for( size_t l=0; l < nb; l++ ) lowest &= B[l].p >= a.p; if( lowest ) continue;
					for( size_t l=0; l < nb; l++ ) if( B[l].p==a.p + an ) { size_t bn = (B[l].n + H + 7) & ~(size_t)7; bool exact = false; for( size_t m=0; m < nb; m++ ) exact |= B[m].p==B[l].p + bn; if( (an >= 256 && bn >= 256) || (an==bn && exact) ) { i = (from + k) % nb; j = l; } } }
				if( i==SIZE_MAX ) break;
				Blk a = B[i], b = B[j]; size_t n = (size_t)(b.p - a.p) + b.n; snprintf(op, sizeof op, "free of the neighbours %zu and %zu of %zu and %zu bytes", i, j, a.n, b.n); LOG("%s\n", op); bool first = g_p(1,2);
				nothing_freed = false; CHECK(harbol_mempool_free(&P, first ? a.p : b.p), "%s was refused", op); CHECK(harbol_mempool_free(&P, first ? b.p : a.p), "%s was refused", op); neigh++;
				memmove(&B[i], &B[i+1], (nb - i - 1) * sizeof *B); nb--; if( j > i ) j--; memmove(&B[j], &B[j+1], (nb - j - 1) * sizeof *B); nb--; intact(op);
				uint8_t *p = harbol_mempool_alloc(&P, n); CHECK(p, "%s: a request of the %zu bytes they span is refused", op, n); legal(p, n, SIZE_MAX, "alloc after freeing neighbours");
				for( size_t l=0; l < n; l++ ) CHECK(p[l]==0, "alloc after freeing neighbours gave a block that is not zeroed"); deep = true; CLASSIFY("neighbours merged");
				B[nb] = (Blk){ p, n, 0 }; fill(&B[nb++]); break; }
			case 0: case 1: case 2: case 3: case 4: case 5: {
				size_t n = fixed ? fixed : request(); snprintf(op, sizeof op, "alloc(%zu)", n); LOG("%s\n", op); if( nb >= 300 ) break;
				uint8_t *p = harbol_mempool_alloc(&P, n); after = harbol_mempool_mem_remaining(&P);
				if( !p ) { CHECK(after==before, "a refused request changed the remaining memory from %zu to %zu", before, after); CHECK(!(nothing_freed && n && n < before && before - n > 64), "%s refused by a pool with %zu left in one piece", op, before); CLASSIFY("refused"); break; }
				CHECK(n != 0, "alloc(0) gave a block"); legal(p, n, SIZE_MAX, op);
				for( size_t j=0; j < n; j++ ) CHECK(p[j]==0, "%s gave a block that is not zeroed", op);
				CHECK(after <= before - n && before >= n, "%s changed the remaining memory from %zu to %zu", op, before, after);
				if( neigh ) deep = true; B[nb] = (Blk){ p, n, 0 }; fill(&B[nb++]); break; }
			case 6: case 7: case 8: case 9: {
				if( !nb ) break;
				size_t i = g_p(1,3) ? nb - 1 : g_u(nb); Blk b = B[i]; snprintf(op, sizeof op, "free(block %zu of %zu bytes)", i, b.n); LOG("%s\n", op);
				for( size_t j=0; j < nb; j++ ) if( j != i && (size_t)(B[j].p > b.p ? B[j].p - b.p : b.p - B[j].p) <= (B[j].p > b.p ? b.n : B[j].n) + 40 ) { neigh++; break; }
				nothing_freed = false; if( g_p(1,2) ) CHECK(harbol_mempool_free(&P, b.p), "%s was refused", op); else { void *z = b.p; CHECK(harbol_mempool_cleanup(&P, &z), "%s was refused", op); CHECK(z==NULL, "reference not cleared"); }
				memmove(&B[i], &B[i+1], (nb - i - 1) * sizeof *B); nb--; after = harbol_mempool_mem_remaining(&P);
				CHECK(after >= before + b.n && after <= start, "%s changed the remaining memory from %zu to %zu", op, before, after);
				intact(op);
				if( g_p(1,4) ) { /* what was just freed can be had again */
					uint8_t *p = harbol_mempool_alloc(&P, b.n); LOG("alloc(%zu) again\n", b.n); CHECK(p, "a block of %zu bytes was freed but the same request is refused", b.n); legal(p, b.n, SIZE_MAX, "alloc after free");
					for( size_t j=0; j < b.n; j++ ) CHECK(p[j]==0, "alloc after free gave a block that is not zeroed");
					B[nb] = (Blk){ p, b.n, 0 }; fill(&B[nb++]); CLASSIFY("same size again");
				} break; }
			case 10: case 11: {
				if( !nb ) break;
				size_t i = g_u(nb), n = request(); if( n==0 ) break; snprintf(op, sizeof op, "realloc(block %zu of %zu bytes,%zu)", i, B[i].n, n); LOG("%s\n", op);
				uint8_t *p = harbol_mempool_realloc(&P, B[i].p, n); if( !p ) { CHECK(!(nothing_freed && n < before && before - n > 64), "%s refused by a pool with %zu left in one piece", op, before); CLASSIFY("realloc refused"); break; }
				nothing_freed = false; 				legal(p, n, i, op); for( size_t j=0; j < n && j < B[i].n; j++ ) CHECK(p[j]==(uint8_t)(B[i].tag + j), "%s lost byte %zu of the contents", op, j);
				B[i].p = p; B[i].n = n; fill(&B[i]); CLASSIFY("realloc"); break; }
			case 12: { size_t n = 1 + g_u(60); if( nb >= 300 ) break; snprintf(op, sizeof op, "realloc(NULL,%zu)", n); LOG("%s\n", op); uint8_t *p = harbol_mempool_realloc(&P, NULL, n); if( !p ) { CHECK(!(nothing_freed && n < before && before - n > 64), "%s refused by a pool with %zu left in one piece", op, before); break; } legal(p, n, SIZE_MAX, op); B[nb] = (Blk){ p, n, 0 }; fill(&B[nb++]); break; }
			default: { snprintf(op, sizeof op, "free of a foreign pointer"); LOG("%s\n", op); uint8_t *f = NULL; if( g_p(2,3) ) f = (uint8_t *)g_zbuf(64) + (g_p(1,2) ? 32 : 0); CHECK(!harbol_mempool_free(&P, f), "%s was accepted", op); { void *z = f; CHECK(!harbol_mempool_cleanup(&P, &z) && !z, "cleanup of a foreign pointer was accepted, or keeps the reference"); } if( f ) CHECK(!harbol_mempool_realloc(&P, f < mem ? f : mem - 1, 8), "realloc of a pointer below the pool was accepted"); CHECK(harbol_mempool_mem_remaining(&P)==before, "%s changed the remaining memory", op); }
		}
		intact(op);
	}
	if( deep ) g_nontrivial();
	while( nb ) { size_t i = g_u(nb); CHECK(harbol_mempool_free(&P, B[i].p), "final free refused"); B[i] = B[--nb]; intact("final free"); }
	CHECK(harbol_mempool_mem_remaining(&P)==start, "all was freed but %zu of %zu bytes remain", harbol_mempool_mem_remaining(&P), start);
	if( own ) { harbol_mempool_clear(&P); CHECK(harbol_mempool_mem_remaining(&P)==0 && harbol_mempool_alloc(&P, 1)==NULL, "a cleared pool still hands out memory"); }
}
/* pools of up to a megabyte with thousands of blocks, freed in generated orders */
static int by_place(void const *a, void const *b) { uint8_t *x = ((Blk const *)a)->p, *y = ((Blk const *)b)->p; return (x > y) - (x < y); }
static void many(void) {
	size_t N = 50 + g_u(g_p(1,4) ? 3000 : 400), cap = 4 * N + 100, mode = g_u(4), one = 1 + g_u(500); Blk *b = g_buf(cap * sizeof *b), *c = g_buf(cap * sizeof *c); size_t m = 0; bool r; size = 1000 + g_u(g_p(1,2) ? 1u << 20 : 60000); LOG("pool of %zu bytes, about %zu blocks\n", size, N); g_nontrivial();
	P = harbol_mempool_make(size, &r); CHECK(r, "construction failed"); mem = P.stack.mem; size_t start = harbol_mempool_mem_remaining(&P);
	for( int round=0; round < 4 && (round==0 || g_more(2)); round++ ) {
		for( size_t k=0; k < N && m < cap; k++ ) {
			size_t n = mode==0 ? one : mode==1 ? 1 + g_u(64) : mode==2 ? 1 + g_u(g_p(1,9) ? 5000 : 300) : 100 + g_u(1000), before = harbol_mempool_mem_remaining(&P); uint8_t *p = harbol_mempool_alloc(&P, n); if( !p ) { CHECK(!(m==0 && round==0 && n + 64 < start), "refused by a fresh pool"); continue; }
			CHECK((uintptr_t)p % sizeof(void *)==0 && p >= mem && (size_t)(p - mem) <= size - n && n <= size, "a block outside of the pool"); for( size_t j=0; j < n; j++ ) CHECK(p[j]==0, "a block that is not zeroed"); CHECK(harbol_mempool_mem_remaining(&P) <= before - n, "the remaining memory did not shrink");
			b[m] = (Blk){ p, n, 0 }; fill(&b[m++]);
		}
		memcpy(c, b, m * sizeof *b); qsort(c, m, sizeof *c, by_place); for( size_t i=0; i + 1 < m; i++ ) CHECK(c[i].p + c[i].n <= c[i+1].p, "two live blocks of %zu and %zu bytes overlap", c[i].n, c[i+1].n);
		for( size_t i=0; i < m; i++ ) for( size_t j=0; j < b[i].n; j++ ) CHECK(b[i].p[j]==(uint8_t)(b[i].tag + j), "byte %zu of live block %zu of %zu was overwritten", j, i, m);
		if( m && g_p(1,3) ) { size_t i = g_u(m), n = mode==3 || (mode==0 && one >= 256) ? 100 + g_u(2000) : 1 + g_u(2000); uint8_t *p = harbol_mempool_realloc(&P, b[i].p, n); if( p ) { for( size_t j=0; j < n && j < b[i].n; j++ ) CHECK(p[j]==(uint8_t)(b[i].tag + j), "realloc lost byte %zu", j); b[i].p = p; b[i].n = n; fill(&b[i]); CLASSIFY("realloc among many"); } }
		/* frees: in address order, backwards, every second one first, or any */
		unsigned how = (unsigned)g_u(4); size_t drop = g_p(1,2) ? m : g_u(m + 1), freed = 0; if( how < 3 ) { qsort(b, m, sizeof *b, by_place); if( how==1 ) for( size_t i=0; i < m / 2; i++ ) { Blk t = b[i]; b[i] = b[m-1-i]; b[m-1-i] = t; } }
		size_t live = m;
		for( size_t pass=0; pass < 2 && live && freed < drop; pass++ ) for( size_t i=0; i < m && freed < drop; i++ ) { size_t k = i; if( how==3 ) { k = g_u(m); } if( !b[k].p || (how==2 && pass==0 && k % 2) ) continue;
			size_t before = harbol_mempool_mem_remaining(&P); CHECK(harbol_mempool_free(&P, b[k].p), "a free was refused"); CHECK(harbol_mempool_mem_remaining(&P) >= before + b[k].n, "a free gave back too little"); b[k].p = NULL; freed++; live--; }
		size_t w = 0; for( size_t i=0; i < m; i++ ) if( b[i].p ) b[w++] = b[i]; m = w;
	}
	for( size_t i=0; i < m; i++ ) for( size_t j=0; j < b[i].n; j++ ) CHECK(b[i].p[j]==(uint8_t)(b[i].tag + j), "byte %zu of a live block was overwritten by frees", j);
	while( m ) CHECK(harbol_mempool_free(&P, b[--m].p), "a final free was refused");
	CHECK(harbol_mempool_mem_remaining(&P)==start, "all was freed but %zu of %zu bytes remain", harbol_mempool_mem_remaining(&P), start);
	if( mode==3 || (mode==0 && one >= 256) ) { CLASSIFY("all merged again"); size_t half = start / 2 - 64; CHECK(harbol_mempool_alloc(&P, half), "all was freed but a request of %zu of %zu bytes is refused", half, start); } /* only large blocks: what is free is at most two pieces */
	harbol_mempool_clear(&P);
}
/* the lists of free blocks: their links in both directions */
static void nodes(void) {
	struct HarbolMemNode N[20], *order[20]; bool in[20] = {0}; size_t n = 1; struct HarbolFreeList l = {0}; memset(N, 0, sizeof N); l.head = l.tail = &N[0]; l.len = 1; order[0] = &N[0]; in[0] = true;
	for( int k=0; k < 40 && g_more(12); k++ ) {
		size_t i = g_u(20); unsigned op = (unsigned)g_u(3);
		if( op==0 && !in[i] && n ) { size_t at = g_u(n); LOG("insert %zu before place %zu\n", i, at); harbol_freelist_insert_before(&l, order[at], &N[i]); l.len = n + 1; memmove(order + at + 1, order + at, (n - at) * sizeof *order); order[at] = &N[i]; n++; in[i] = true; }
		else if( op==1 && n > 1 ) { size_t at = g_u(n); LOG("remove place %zu\n", at); CHECK(harbol_freelist_remove(&l, order[at])==order[at], "another node was removed"); in[order[at] - N] = false; memmove(order + at, order + at + 1, (n - at - 1) * sizeof *order); n--; CHECK(l.len==n, "the list counts %zu nodes, expected %zu", l.len, n); }
		else if( op==2 && !in[i] && n > 2 ) { size_t at = 1 + g_u(n - 2); LOG("replace place %zu by %zu\n", at, i); harbol_memnode_replace(order[at], &N[i]); in[order[at] - N] = false; order[at] = &N[i]; in[i] = true; }
		struct HarbolMemNode *p = l.head, *before = NULL; for( size_t j=0; j < n; j++ ) { CHECK(p==order[j] && p->prev==before, "node %zu of %zu is linked wrongly", j, n); before = p; p = p->next; } CHECK(!p && l.tail==before, "the end of the list"); if( n > 3 ) g_nontrivial();
	}
}
/* memory beyond 4 GB, hardly any of it touched */
static void giant(void) {
	size_t n = ((size_t)4 << 30) + 8 * g_u(1u << 24), m = 1 + g_u(8); uint8_t *buf = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0), *b[8]; if( buf==MAP_FAILED ) return; size_t sz[8]; bool r = false; CLASSIFY("beyond 4 GB"); LOG("pool of %zu bytes\n", n);
	struct HarbolMemPool p = harbol_mempool_make_from_buffer(buf, n, &r); CHECK(r, "construction failed"); size_t start = harbol_mempool_mem_remaining(&p); CHECK(start <= n && start + 64 > n, "%zu of %zu bytes remain", start, n);
	for( size_t i=0; i < m; i++ ) { sz[i] = 1 + g_u(5000); b[i] = harbol_mempool_alloc(&p, sz[i]); CHECK(b[i] && b[i] >= buf && b[i] + sz[i] <= buf + n, "a block of %zu bytes", sz[i]); for( size_t j=0; j < i; j++ ) CHECK(b[j] + sz[j] <= b[i] || b[i] + sz[i] <= b[j], "blocks overlap"); memset(b[i], 7, sz[i]); }
	CHECK(!harbol_mempool_alloc(&p, start), "more than there is"); while( m ) { size_t i = g_u(m); CHECK(harbol_mempool_free(&p, b[i]), "a free was refused"); b[i] = b[--m]; } CHECK(harbol_mempool_mem_remaining(&p)==start, "all was freed but %zu of %zu bytes remain", harbol_mempool_mem_remaining(&p), start); munmap(buf, n);
}
struct Target const TARGETS[] = { { "history", history, 2000 }, { "many", many, 1 }, { "nodes", nodes, 40 }, { "giant", giant, 1 }, {0} };
