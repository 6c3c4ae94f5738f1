/* C10: an object pool hands out each of its objects to one owner at a time. */
#include "pbt.h"
#include "allocators/objpool/objpool.h"

char const *const PROPERTY = "C10";
char const *const RULE = "Histories of 1..200 (rarely up to 3000) alloc/free/cleanup calls (frees in any order, of NULL, of foreign pointers and of pointers inside or just past an object) on one pool of 1..40 (rarely up to 1000) objects of 1..100 (rarely 600, or pools of up to 40 MB of objects of up to 3 MB) bytes (own memory or a caller's buffer); every live object carries its own pattern. "
	"Non-trivial: an object was freed and handed out again while others were live.";
unsigned const QUICK_CASES = 3000000, THOROUGH_CASES = 40000000;
struct Known const KNOWN[] = { {0} };
typedef struct { uint8_t *p, tag; } Obj;

static void history(void) {
	bool big = g_p(1,300); size_t n = 1 + g_len(big ? 999 : 39), sz = 1 + g_len(big ? 600 : 99), stride, live = 0; bool own = g_p(2,3), r = false, deep = false, freed = false; static Obj O[1000]; uint8_t tagc = (uint8_t)g_u(256);
	if( g_p(1,30) ) { struct HarbolObjPool f; memset(&f, 0, sizeof f); vf_fail_after(0); if( g_p(1,2) ) f = harbol_objpool_make(sz, n, &r); else r = harbol_objpool_init(&f, sz, n); vf_fail_off(); CHECK(!r && harbol_objpool_alloc(&f)==NULL, "a pool was made without memory"); CLASSIFY("no memory for the pool"); }
	struct HarbolObjPool p; uint8_t *buf = NULL; if( !own && g_p(3,4) ) sz = (sz + 7) / 8 * 8;
	LOG("%zu objects of %zu bytes, %s\n", n, sz, own ? "own memory" : "caller's buffer");
	if( own ) { if( g_p(1,2) ) p = harbol_objpool_make(sz, n, &r); else { memset(&p, 0, sizeof p); r = harbol_objpool_init(&p, sz, n); } CHECK(r, "construction failed"); }
	else { buf = g_buf(sz * n); if( g_p(1,2) ) p = harbol_objpool_from_buffer(buf, sz, n, &r); else { memset(&p, 0, sizeof p); r = harbol_objpool_init_from_buffer(&p, buf, sz, n); } if( sz % 8 ) { CHECK(!r, "a buffer of unalignable objects was accepted"); CLASSIFY("buffer refused"); return; } CHECK(r, "construction failed"); }
	uint8_t *base = (uint8_t *)p.mem; stride = p.objsize;
	CHECK(stride >= sz, "objects of %zu bytes have room for %zu", sz, stride);
	CHECK(own || base==buf, "the caller's buffer is not used");
	for( int k=0; k < (big ? 3000 : 200) && g_more(big ? 2000 : 30); k++ ) {
		char const *op = "?";
		switch( big && live < n && k < 1500 ? g_u(5) : g_u(8) ) {
			case 0: case 1: case 2: case 3: {
				op = "alloc"; LOG("alloc\n"); uint8_t *o = harbol_objpool_alloc(&p);
				CHECK((o != NULL)==(live < n), "alloc with %zu of %zu objects live %s", live, n, o ? "succeeded" : "was refused");
				if( !o ) { CLASSIFY("exhausted"); break; }
				CHECK((uintptr_t)o % sizeof(size_t)==0, "misaligned object");
				CHECK(o >= base && (size_t)(o - base) + sz <= n * stride && (buf==NULL || (size_t)(o - base) + sz <= n * sz), "object outside of the pool");
				for( size_t i=0; i < live; i++ ) CHECK(o + sz <= O[i].p || O[i].p + sz <= o, "alloc gave an object that is still live");
				for( size_t j=0; j < sz; j++ ) CHECK(o[j]==0, "alloc gave an object that is not zeroed");
				tagc = (uint8_t)(tagc * 7 + 13); for( size_t j=0; j < sz; j++ ) o[j] = (uint8_t)(tagc + j);
				deep |= freed && live; O[live++] = (Obj){ o, tagc }; break; }
			case 4: case 5: case 6: {
				if( !live ) { op = "free(NULL)"; harbol_objpool_free(&p, NULL); void *z = NULL; harbol_objpool_cleanup(&p, &z); break; }
				size_t i = g_p(1,3) ? live - 1 : g_u(live); op = "free"; LOG("free object %zu\n", i);
				if( g_p(1,2) ) harbol_objpool_free(&p, O[i].p); else { void *z = O[i].p; harbol_objpool_cleanup(&p, &z); CHECK(z==NULL, "reference not cleared"); }
				memmove(&O[i], &O[i+1], (live - i - 1) * sizeof *O); live--; freed = true; break; }
			default: { op = "free of a foreign pointer"; uint8_t *f; switch( g_u(4) ) { case 0: f = g_buf(sz); break; case 1: f = base + n * stride; break; case 2: f = base + 1 + g_u(stride - 1) + stride * g_u(n); break; default: f = base + n * stride + 8 + 8 * g_u(9); }
				LOG("free at %td of the pool\n", f - base); harbol_objpool_free(&p, f); }
		}
		CHECK(p.free_blocks==n - live, "after %s: %zu objects free, model %zu", op, p.free_blocks, n - live);
		if( !big || k % 100==99 || k > 2990 ) for( size_t i=0; i < live; i++ ) for( size_t j=0; j < sz; j++ ) CHECK(O[i].p[j]==(uint8_t)(O[i].tag + j), "after %s: a live object was overwritten", op);
	}
	if( deep ) g_nontrivial();
	if( own ) { harbol_objpool_clear(&p); CHECK(p.free_blocks==0 && harbol_objpool_alloc(&p)==NULL, "a cleared pool still hands out objects"); harbol_objpool_clear(&p); }
}
static void degenerate(void) {
	size_t n = g_u(3), sz = g_p(1,2) ? 0 : SIZE_MAX - g_u(9); bool r = true; if( n==0 && g_p(1,2) ) sz = 8; else if( n==0 ) n = 1;
	LOG("%zu objects of %zu bytes\n", n, sz); struct HarbolObjPool p = harbol_objpool_make(sz, n, &r); CHECK(!r, "a pool of %zu objects of %zu bytes was made", n, sz);
	CHECK(harbol_objpool_alloc(&p)==NULL, "an unusable pool hands out objects");
}
/* more objects than 16 bits count */
static void many(void) {
	size_t n = g_p(1,2) ? 65530 + g_u(3000) : 200 + g_u(5000), sz = 1 + g_u(24), live = 0; bool r = false; uint64_t x = g_u(1u << 30); uint8_t **O = g_buf(n * sizeof *O), *used = NULL; LOG("%zu objects of %zu bytes\n", n, sz); g_nontrivial(); CLASS_IF(n > 65536, "more than 65536 objects");
	struct HarbolObjPool p = harbol_objpool_make(sz, n, &r); CHECK(r, "construction failed"); uint8_t *base = (uint8_t *)p.mem; size_t stride = p.objsize; used = g_zbuf(n);
	for( int round=0; round < 3; round++ ) {
		while( live < n ) { uint8_t *o = harbol_objpool_alloc(&p); CHECK(o, "alloc with %zu of %zu objects live was refused", live, n); CHECK(o >= base && (size_t)(o - base) % stride==0 && (size_t)(o - base) / stride < n, "object outside of the pool"); size_t i = (size_t)(o - base) / stride; CHECK(!used[i], "alloc gave object %zu that is still live", i); for( size_t j=0; j < sz; j++ ) CHECK(o[j]==0, "alloc gave an object that is not zeroed"); used[i] = 1; memset(o, (int)(i % 255) + 1, sz); O[live++] = o; CHECK(p.free_blocks==n - live, "%zu objects free, model %zu", p.free_blocks, n - live); }
		CHECK(!harbol_objpool_alloc(&p), "more objects than there are");
		for( size_t k = round==1 ? n : n / 3 + g_u(n / 2); k; k-- ) { x = x * 6364136223846793005u + 1442695040888963407u; size_t i = (x >> 33) % live, at = (size_t)(O[i] - base) / stride; for( size_t j=0; j < sz; j++ ) CHECK(O[i][j]==(uint8_t)(at % 255 + 1), "a live object was overwritten"); harbol_objpool_free(&p, O[i]); used[at] = 0; O[i] = O[--live]; CHECK(p.free_blocks==n - live, "%zu objects free, model %zu", p.free_blocks, n - live); }
	}
	harbol_objpool_clear(&p);
}
/* objects of tens of kilobytes to megabytes */
static void wide(void) {
	size_t sz = 1000 + g_u(g_p(1,3) ? 3000000 : 200000), n = 1 + g_u(g_p(1,2) ? 30 : 24000000 / sz + 2), live = 0; while( n > 1 && n * sz > 40000000 ) n /= 2; bool r = false; uint8_t **O = g_buf(n * sizeof *O), *used = g_zbuf(n); LOG("%zu objects of %zu bytes\n", n, sz); g_nontrivial(); CLASS_IF(n * sz > 1u << 24, "more than 16 MB"); CLASS_IF(sz > 65535, "objects of more than 64 KB");
	struct HarbolObjPool p = harbol_objpool_make(sz, n, &r); CHECK(r, "construction failed"); uint8_t *base = (uint8_t *)p.mem; size_t stride = p.objsize; CHECK(stride >= sz, "objects of %zu bytes have room for %zu", sz, stride);
	for( int round=0; round < 2; round++ ) {
		while( live < n ) { uint8_t *o = harbol_objpool_alloc(&p); CHECK(o, "alloc with %zu of %zu objects live was refused", live, n); CHECK(o >= base && (size_t)(o - base) % stride==0 && (size_t)(o - base) / stride < n, "object outside of the pool"); size_t i = (size_t)(o - base) / stride; CHECK(!used[i], "alloc gave object %zu that is still live", i);
			CHECK(o[0]==0 && !memcmp(o, o + 1, sz - 1), "alloc gave an object that is not zeroed"); used[i] = 1; memset(o, (int)(i % 255) + 1, sz); O[live++] = o; }
		CHECK(!harbol_objpool_alloc(&p) && p.free_blocks==0, "more objects than there are");
		for( size_t i=0; i < live; i++ ) CHECK(O[i][0]==(uint8_t)((size_t)(O[i] - base) / stride % 255 + 1) && !memcmp(O[i], O[i] + 1, sz - 1), "a live object was overwritten");
		for( size_t k = 1 + g_u(n < 12 ? n : 12); k; k-- ) { size_t i = g_u(live); harbol_objpool_free(&p, O[i]); used[(size_t)(O[i] - base) / stride] = 0; O[i] = O[--live]; CHECK(p.free_blocks==n - live, "%zu objects free, model %zu", p.free_blocks, n - live); }
	}
	harbol_objpool_clear(&p);
}
struct Target const TARGETS[] = { { "history", history, 30000 }, { "degenerate", degenerate, 1000 }, { "many", many, 6 }, { "wide", wide, 2 }, {0} };
