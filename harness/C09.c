/* C09: arenas (region, double-ended stack) hand out disjoint, aligned blocks inside their memory until it is used up. */
#include "pbt.h"
#include <sys/mman.h>
#include "allocators/region/region.h"
#include "allocators/bistack/bistack.h"

char const *const PROPERTY = "C09";
char const *const RULE = "Histories of 1..80 block requests (1 byte .. beyond the arena, and wrap-around sizes), resets of either end and resizes on a region or a double-ended stack of 1..2000 bytes (own memory or a caller's buffer); every block is filled with its own pattern, "
	"which is checked for all live blocks after each call. Non-trivial: at least 3 blocks were handed out and one request was refused, or one end was reset while the other held blocks. A smaller target takes arenas that have no memory (of size 0, refused by the heap, cleared) and resizes that the heap refuses.";
unsigned const QUICK_CASES = 6000000, THOROUGH_CASES = 40000000;
struct Known const KNOWN[] = { {0} };
enum { W = sizeof(void *) };
typedef struct { uint8_t *p; size_t n; uint8_t tag; bool back; } Blk;
static Blk B[300]; static size_t nb; static uint8_t tagc; static uint8_t *mem; static size_t size;
static unsigned given, refused; static bool halfreset;

static size_t up(size_t x) { return (x + W - 1) / W * W; }
static size_t request(size_t room) {
	switch( g_pick(5, 8u, 3u, 2u, 1u, 1u) ) {
		case 0: return 1 + g_len(40);
		case 1: return 1 + g_u(room + 1);
		case 2: { size_t r = room / W * W; return g_p(1,2) ? (r ? r : 1) : r + 1 + g_u(9); } /* exactly what is left, or just too much */
		case 3: return size + g_u(20);
		default: return SIZE_MAX - g_u(20);
	}
}
static void intact(char const *op) { for( size_t i=0; i < nb; i++ ) for( size_t j=0; j < B[i].n; j++ ) CHECK(B[i].p[j]==(uint8_t)(B[i].tag + j), "after %s: byte %zu of a live block of %zu bytes was overwritten", op, j, B[i].n); }
static void take(uint8_t *p, size_t n, bool back, bool zeroed, char const *op) {
	CHECK((uintptr_t)p % W==0, "%s gave a misaligned block", op);
	CHECK(p >= mem && n <= size && (size_t)(p - mem) <= size - n, "%s gave a block at %td..%td outside the %zu bytes of the arena", op, p - mem, p - mem + (ssize_t)n, size);
	for( size_t i=0; i < nb; i++ ) CHECK(p + n <= B[i].p || B[i].p + B[i].n <= p, "%s gave a block that overlaps a live block of %zu bytes", op, B[i].n);
	if( zeroed ) for( size_t j=0; j < n; j++ ) CHECK(p[j]==0, "%s gave a block that is not zeroed", op);
	tagc = (uint8_t)(tagc * 7 + 13); for( size_t j=0; j < n; j++ ) p[j] = (uint8_t)(tagc + j);
	if( nb < 300 ) B[nb++] = (Blk){ p, n, tagc, back };
	given++;
}
static void start(void) { nb = 0; given = refused = 0; halfreset = false; tagc = (uint8_t)g_u(256); size = g_p(1,2) ? 8 * (1 + g_len(60)) : 1 + g_len(1999); }

static void region(void) {
	start(); struct HarbolRegion r; bool own = g_p(1,2); uint8_t *buf = NULL; size_t pre = 0;
	LOG("region of %zu bytes, %s\n", size, own ? "own memory" : "caller's buffer");
	if( own ) r = harbol_region_make(size);
	else { pre = g_p(1,4) ? g_u(8) : 0; if( pre >= size ) pre = 0; buf = g_buf(size); memset(buf, 0xAB, size); mem = buf + pre; r = harbol_region_make_from_buffer(mem, size - pre); size -= pre; }
	mem = r.mem; CHECK(mem && (own || mem==buf + pre), "construction failed");
	size_t room = harbol_region_remaining(&r);
	CHECK(room <= size && room + 2 * W > size, "a fresh region of %zu bytes has %zu left", size, room);
	for( int k=0; k < 80 && g_more(15); k++ ) {
		size_t n = g_p(1,30) ? 0 : request(room); char op[80]; snprintf(op, sizeof op, "region_alloc(%zu) with %zu left", n, room); LOG("%s\n", op);
		uint8_t *p = harbol_region_alloc(&r, n); size_t now = harbol_region_remaining(&r);
		bool fits = n != 0 && n <= room && up(n) <= room;
		CHECK((p != NULL)==fits, "%s %s", op, p ? "succeeded" : "was refused");
		if( p ) { take(p, n, false, true, op); CHECK(now==room - up(n), "%s left %zu", op, now); }
		else { refused++; CHECK(now==room, "a refused request changed what is left"); }
		room = now; intact(op);
	}
	if( given >= 3 && refused ) g_nontrivial();
	if( own ) { harbol_region_clear(&r); CHECK(harbol_region_remaining(&r)==0 && harbol_region_alloc(&r, 1)==NULL, "a cleared region still hands out memory"); }
}
static void drop(bool front, bool back) { size_t m = 0; for( size_t i=0; i < nb; i++ ) if( !(B[i].back ? back : front) ) B[m++] = B[i]; nb = m; }
static void bistack(void) {
	start(); struct HarbolBiStack s; bool own = g_p(1,2), r = false; LOG("bistack of %zu bytes, %s\n", size, own ? "own memory" : "caller's buffer");
	if( !own ) s = harbol_bistack_make_from_buffer(g_buf(size), size); else if( g_p(1,2) ) { s = harbol_bistack_make(size, &r); CHECK(r, "construction failed"); } else { memset(&s, (int)g_u(256), sizeof s); CHECK(harbol_bistack_init(&s, size), "construction failed"); }
	mem = s.mem;
	CHECK(harbol_bistack_get_margins(s)==size, "a fresh bistack of %zu bytes has %zu left", size, harbol_bistack_get_margins(s));
	for( int k=0; k < 80 && g_more(18); k++ ) {
		size_t room = harbol_bistack_get_margins(s), n, now; char op[100]; size_t nf = 0, nk = 0; for( size_t i=0; i < nb; i++ ) if( B[i].back ) nk++; else nf++;
		switch( g_u(12) ) {
			case 0: case 1: case 2: case 3: case 4: case 5: case 6: case 7: {
				bool back = g_p(1,2); n = request(room); snprintf(op, sizeof op, "alloc_%s(%zu) with %zu left", back ? "back" : "front", n, room); LOG("%s\n", op);
				uint8_t *p = back ? harbol_bistack_alloc_back(&s, n) : harbol_bistack_alloc_front(&s, n); now = harbol_bistack_get_margins(s);
				CHECK((p != NULL)==(n <= room && up(n) <= room), "%s %s", op, p ? "succeeded" : "was refused");
				if( p ) { CLASS_IF(up(n)==room / W * W, "exact fit"); take(p, n, back, false, op); CHECK(now / W==(room - up(n)) / W && now <= room - up(n), "%s left %zu", op, now); for( size_t i=0; i + 1 < nb; i++ ) if( B[i].back != back ) CHECK(back ? p > B[i].p : p < B[i].p, "%s crossed into the other end", op); }
				else { refused++; CHECK(now==room, "a refused request changed what is left"); } break; }
			case 8: snprintf(op, sizeof op, "reset_front"); LOG("%s\n", op); harbol_bistack_reset_front(&s); drop(true, false); halfreset |= nk && nf; now = harbol_bistack_get_margins(s); CHECK(now >= room, "reset_front lost memory"); if( !nk ) CHECK(now / W==size / W, "reset_front left %zu of %zu", now, size); break;
			case 9: snprintf(op, sizeof op, "reset_back"); LOG("%s\n", op); harbol_bistack_reset_back(&s); drop(false, true); halfreset |= nk && nf; now = harbol_bistack_get_margins(s); CHECK(now >= room, "reset_back lost memory"); if( !nf ) CHECK(now==size, "reset_back left %zu of %zu", now, size); break;
			case 10: snprintf(op, sizeof op, "reset_all"); LOG("%s\n", op); harbol_bistack_reset_all(&s); nb = 0; CHECK(harbol_bistack_get_margins(s)==size, "reset_all left %zu of %zu", harbol_bistack_get_margins(s), size); break;
			default: { if( !own || g_p(1,2) ) continue; size_t z = g_p(1,8) ? 0 : 1 + g_len(1999); snprintf(op, sizeof op, "resize(%zu)", z); LOG("%s\n", op); bool ok = harbol_bistack_resize(&s, z); CHECK(ok==(z != 0), "%s = %d", op, ok); if( ok ) { nb = 0; size = z; mem = s.mem; CHECK(harbol_bistack_get_margins(s)==z, "%s left %zu", op, harbol_bistack_get_margins(s)); } }
		}
		intact(op);
	}
	if( (given >= 3 && refused) || halfreset ) g_nontrivial();
	if( own ) { harbol_bistack_clear(&s); CHECK(harbol_bistack_get_margins(s)==0 && harbol_bistack_alloc_front(&s, 1)==NULL && harbol_bistack_alloc_back(&s, 1)==NULL, "a cleared bistack still hands out memory"); }
}
/* arenas without memory: never given any, refused by the heap, or released */
static void hands_nothing_b(struct HarbolBiStack *s, char const *how) {
	for( int k=0; k < 12 && g_more(6); k++ ) {
		size_t n = 1 + (size_t)g_u(3000);
		switch( g_u(6) ) {
			case 0: CHECK(!harbol_bistack_alloc_front(s, n), "a stack %s handed out %zu bytes of its front", how, n); break;
			case 1: CHECK(!harbol_bistack_alloc_back(s, n), "a stack %s handed out %zu bytes of its back", how, n); break;
			case 2: harbol_bistack_reset_front(s); break;
			case 3: harbol_bistack_reset_back(s); break;
			case 4: harbol_bistack_reset_all(s); break;
			default: harbol_bistack_clear(s);
		}
		CHECK(harbol_bistack_get_margins(*s)==0, "a stack %s has %zu bytes left", how, harbol_bistack_get_margins(*s));
	}
}
static void hands_nothing_r(struct HarbolRegion *r, char const *how) {
	for( int k=0; k < 8 && g_more(4); k++ ) {
		if( g_p(1,4) ) harbol_region_clear(r);
		size_t n = (size_t)g_u(3000); CHECK(!harbol_region_alloc(r, n), "a region %s handed out %zu bytes", how, n); CHECK(harbol_region_remaining(r)==0, "a region %s has %zu bytes left", how, harbol_region_remaining(r));
	}
}
static void without(void) {
	start(); bool res = true; unsigned how = (unsigned)g_u(6); g_nontrivial();
	if( g_p(1,3) ) { /* regions */
		struct HarbolRegion r; LOG("region of %zu bytes, way %u\n", size, how);
		switch( how % 3 ) {
			case 0: r = g_p(1,2) ? harbol_region_make(0) : harbol_region_make_from_buffer(g_buf(8), 0); hands_nothing_r(&r, "of 0 bytes"); break;
			case 1: vf_fail_after(0); r = harbol_region_make(size); vf_fail_off(); hands_nothing_r(&r, "the heap refused"); break;
			default: r = harbol_region_make(size); harbol_region_alloc(&r, request(size)); harbol_region_clear(&r); hands_nothing_r(&r, "that was cleared");
		}
		harbol_region_clear(&r); CLASSIFY("region without memory"); return;
	}
	struct HarbolBiStack s; LOG("bistack of %zu bytes, way %u\n", size, how);
	switch( how ) {
		case 0: s = harbol_bistack_make(0, &res); CHECK(!res, "a stack of 0 bytes was made"); hands_nothing_b(&s, "of 0 bytes"); break;
		case 1: vf_fail_after(0); s = harbol_bistack_make(size, &res); vf_fail_off(); CHECK(!res, "a stack the heap refused was made"); hands_nothing_b(&s, "the heap refused"); break;
		case 2: memset(&s, 0, sizeof s); CHECK(!harbol_bistack_init(&s, 0), "a stack of 0 bytes was made"); hands_nothing_b(&s, "of 0 bytes"); break;
		case 3: s = harbol_bistack_make(size, &res); CHECK(res, "construction failed"); harbol_bistack_alloc_front(&s, 1 + g_u(size)); if( g_p(1,2) ) harbol_bistack_alloc_back(&s, 1 + g_u(size)); harbol_bistack_clear(&s); hands_nothing_b(&s, "that was cleared");
			if( g_p(1,2) ) { size_t z = 1 + g_len(1999); LOG("resize to %zu\n", z); CHECK(harbol_bistack_resize(&s, z), "a cleared stack could not be given memory"); CHECK(harbol_bistack_get_margins(s)==z, "a stack resized to %zu has %zu left", z, harbol_bistack_get_margins(s)); mem = s.mem; size = z;
				uint8_t *p = harbol_bistack_alloc_front(&s, 1 + g_u(z)); if( p ) take(p, 1, false, false, "alloc_front"); CLASSIFY("resized after clear"); }
			break;
		default: { /* the heap refuses to resize: the blocks and the room stay */
			s = harbol_bistack_make(size, &res); CHECK(res, "construction failed"); mem = s.mem;
			for( int k=0; k < 10 && g_more(5); k++ ) { bool back = g_p(1,2); size_t n = 1 + g_u(size / 3 + 1); uint8_t *p = back ? harbol_bistack_alloc_back(&s, n) : harbol_bistack_alloc_front(&s, n); if( p ) take(p, n, back, false, "alloc"); }
			size_t room = harbol_bistack_get_margins(s), z = size + 1 + g_len(5000); LOG("refused resize to %zu with %zu left\n", z, room); vf_fail_after(0); bool ok = harbol_bistack_resize(&s, z), hit = vf_fail_hit(); vf_fail_off();
			if( hit ) { CHECK(!ok, "a resize the heap refused succeeded"); CHECK(s.mem==mem && harbol_bistack_get_margins(s)==room, "a refused resize left %zu of %zu", harbol_bistack_get_margins(s), room); intact("a refused resize"); 
				uint8_t *p = harbol_bistack_alloc_front(&s, 8); CHECK((p != NULL)==(room >= 8), "alloc_front(8) with %zu left %s", room, p ? "succeeded" : "was refused"); if( p ) take(p, 8, false, false, "alloc_front after a refused resize"), intact("alloc_front"); CLASSIFY("refused resize"); }
		}
	}
	harbol_bistack_clear(&s);
}
/* thousands of blocks, more bytes than 16 bits count, or (untouched) than 32 bits do */
static void large(void) {
	bool giant = g_p(1,3), two = g_p(1,2); size_t n = giant ? ((size_t)4 << 30) + 8 * g_u(1u << 24) : 60000 + 8 * g_u(30000), max = g_p(1,2) ? 40 : g_p(1,2) ? 4000 : 70000, nblk = 0, want = 1 + g_u(1500);
	uint8_t *buf = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if( buf==MAP_FAILED ) return; g_nontrivial(); uint8_t *const map = buf; size_t const mapped = n; bool skew = g_p(1,2); if( skew ) { n -= g_u(16); if( !two ) { size_t o = g_u(8); buf += o; n -= o; } CLASSIFY("large arena with odd ends"); } CLASS_IF(giant, "beyond 4 GB"); CLASSIFY("large arena"); LOG("%s of %zu bytes\n", two ? "bistack" : "region", n);
	if( !giant ) memset(buf, 0xCC, n); static Blk L[1600]; struct HarbolRegion r; struct HarbolBiStack s; size_t room; if( two ) { s = harbol_bistack_make_from_buffer(buf, n); room = harbol_bistack_get_margins(s); } else { r = harbol_region_make_from_buffer(buf, n); room = harbol_region_remaining(&r); } CHECK(room==n || (!two && skew && room <= n && room + W > n), "a fresh arena of %zu bytes has %zu left", n, room);
	for( size_t k=0; k < want; k++ ) {
		size_t len = 1 + g_u(max); bool back = two && g_p(1,2); uint8_t *p = !two ? harbol_region_alloc(&r, len) : back ? harbol_bistack_alloc_back(&s, len) : harbol_bistack_alloc_front(&s, len); size_t left = two ? harbol_bistack_get_margins(s) : harbol_region_remaining(&r);
		CHECK((p != NULL)==(up(len) <= room), "a request of %zu with %zu left %s", len, room, p ? "succeeded" : "was refused"); if( !p ) { CHECK(left==room, "a refused request changed what is left"); break; }
		CHECK((uintptr_t)p % W==0 && p >= buf && (size_t)(p - buf) <= n - len, "a block outside of the arena"); CHECK(skew && two ? left / W==(room - up(len)) / W && left <= room - up(len) : left==room - up(len), "%zu left, expected %zu", left, room - up(len)); room = left;
		for( size_t j=0; j < nblk; j++ ) CHECK(p + len <= L[j].p || L[j].p + L[j].n <= p, "block %zu overlaps block %zu", k, j); if( !two && !giant ) for( size_t j=0; j < len; j++ ) CHECK(p[j]==0, "byte %zu of a block of %zu is not zero", j, len);
		memset(p, (int)(k % 255) + 1, len); L[nblk++] = (Blk){ p, len, (uint8_t)(k % 255 + 1), back };
	}
	for( size_t j=0; j < nblk; j++ ) for( size_t i=0; i < L[j].n; i++ ) CHECK(L[j].p[i]==L[j].tag, "block %zu was overwritten", j);
	CHECK(!(two ? harbol_bistack_alloc_back(&s, room + 1) : harbol_region_alloc(&r, room + 1)), "more than there is"); munmap(map, mapped);
}
struct Target const TARGETS[] = { { "region", region, 4000 }, { "bistack", bistack, 6000 }, { "without memory", without, 1000 }, { "large", large, 8 }, {0} };
