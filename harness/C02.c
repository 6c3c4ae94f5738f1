/* C02: dynamic arrays hold exactly the elements of the history of calls made on them. */
#include "pbt.h"
#include "array/array.h"

char const *const PROPERTY = "C02";
char const *const RULE = "Histories of 1..80 calls on two arrays of one element size (1..40 bytes, sometimes up to 5640) mirrored by plain element sequences; contents, length and capacity bounds are compared after every call. "
	"Non-trivial: at least one element was removed from a position other than the end, or the capacity changed while elements were held. Rarely, the same calls on arrays of 125 to 130000 elements.";
unsigned const QUICK_CASES = 4800000, THOROUGH_CASES = 40000000;
struct Known const KNOWN[] = { {0} };

enum { NA = 2 };
static struct HarbolArray *H[NA]; static Str M[NA]; static bool heap[NA]; static size_t D; static bool deep, large;
static uint8_t *elem(void) {
	uint8_t *e = g_buf(D); unsigned mode = (unsigned)g_u(3);
	for( size_t i=0; i < D; i++ ) e[i] = (uint8_t)(mode==0 ? g_u(256) : mode==1 ? (i==D-1 ? g_u(3) : 7) : (i==0 ? g_u(3) : 9));
	return e;
}
static uint8_t *known_elem(int i) {
	size_t n = M[i].n / D; if( n==0 || g_p(1,4) ) return elem();
	uint8_t *e = g_buf(D); memcpy(e, M[i].p + g_u(n) * D, D); return e;
}
static size_t len(int i) { return M[i].n / D; }
static void verify(int i, char const *op) {
	struct HarbolArray *h = H[i]; size_t n = len(i);
	CHECK(harbol_array_len(h)==n, "after %s: array %d length %zu, model %zu", op, i, harbol_array_len(h), n);
	CHECK(harbol_array_cap(h) >= n, "after %s: capacity %zu below length %zu", op, harbol_array_cap(h), n);
	uint8_t const *t = *harbol_array_data(h);
	CHECK(t != NULL || n==0, "after %s: no storage", op);
	if( n ) CHECK(!memcmp(t, M[i].p, n * D), "after %s: array %d holds %s, model %s", op, i, g_q(t, n * D), g_q(M[i].p, n * D));
	CHECK(harbol_array_empty(h)==(n==0), "after %s: emptiness", op);
	CHECK(harbol_array_full(h)==(n >= harbol_array_cap(h)), "after %s: fullness", op);
	for( size_t k=0; k < n; k++ ) {
		uint8_t *p = harbol_array_get(h, k, D); CHECK(p==t + k * D, "after %s: get(%zu)", op, k);
	}
	CHECK(harbol_array_get(h, n, D)==NULL && harbol_array_get(h, SIZE_MAX, D)==NULL, "after %s: get beyond the end", op);
}
static size_t idx(size_t n) { switch( g_u(6) ) { case 0: return n; case 1: return SIZE_MAX - g_u(2); case 2: return n + 1 + g_u(3); case 3: return n ? n - 1 : 0; default: return n ? g_u(n) : 0; } }
static void model_del(int i, size_t at, size_t n) { if( n > len(i) - at ) n = len(i) - at; s_del(&M[i], at * D, n * D); }

static void step(void) {
	int i = (int)g_u(NA), j = (int)g_u(NA); struct HarbolArray *h = H[i]; size_t n = len(i), cap = harbol_array_cap(h);
	bool const has = h->table != NULL; char op[256] = "?";
	switch( g_u(25) ) {
		case 0: case 1: case 2: { uint8_t *e = elem(); snprintf(op, sizeof op, "insert(a%d)", i); LOG("%s %s\n", op, g_q(e,D)); bool r = harbol_array_insert(h, e, D); CHECK(r==(has && n < cap), "%s = %d with len %zu cap %zu", op, r, n, cap); if( r ) s_add(&M[i], e, D); break; }
		case 3: case 4: { uint8_t *e = elem(); snprintf(op, sizeof op, "append(a%d)", i); LOG("%s %s\n", op, g_q(e,D)); size_t r = harbol_array_append(h, e, D); CHECK(r==(has && n < cap ? n : SIZE_MAX), "%s = %zu with len %zu cap %zu", op, r, n, cap); if( r != SIZE_MAX ) s_add(&M[i], e, D); break; }
		case 5: { snprintf(op, sizeof op, "pop(a%d)", i); LOG("%s\n", op); uint8_t *p = harbol_array_pop(h, D); CHECK((p != NULL)==(n > 0), "%s", op); if( p ) { CHECK(!memcmp(p, M[i].p + (n-1) * D, D), "%s wrong element", op); s_del(&M[i], (n-1) * D, D); } break; }
		case 6: { snprintf(op, sizeof op, "pop_ex(a%d)", i); LOG("%s\n", op); uint8_t *b = g_buf(D); bool r = harbol_array_pop_ex(h, b, D); CHECK(r==(n > 0), "%s", op); if( r ) { CHECK(!memcmp(b, M[i].p + (n-1) * D, D), "%s wrong element", op); s_del(&M[i], (n-1) * D, D); } break; }
		case 7: { snprintf(op, sizeof op, "peek(a%d)", i); LOG("%s\n", op); uint8_t *p = harbol_array_peek(h, D), *b = g_buf(D); bool r = harbol_array_peek_ex(h, b, D); CHECK(r==(n > 0) && (p != NULL)==r, "%s", op); if( r ) CHECK(!memcmp(b, M[i].p + (n-1) * D, D) && !memcmp(p, b, D), "%s wrong element", op); break; }
		case 8: { size_t k = idx(n); uint8_t *b = g_buf(D); snprintf(op, sizeof op, "get_ex(a%d,%zd)", i, (ssize_t)k); LOG("%s\n", op); bool r = harbol_array_get_ex(h, k, b, D); CHECK(r==(k < n), "%s", op); if( r ) CHECK(!memcmp(b, M[i].p + k * D, D), "%s wrong element", op); break; }
		case 9: { size_t k = idx(n); uint8_t *e = elem(); snprintf(op, sizeof op, "set(a%d,%zd)", i, (ssize_t)k); LOG("%s %s\n", op, g_q(e,D)); bool r = harbol_array_set(h, k, e, D); CHECK(r==(k < n), "%s = %d", op, r); if( r ) memcpy(M[i].p + k * D, e, D); break; }
		case 10: { snprintf(op, sizeof op, "reverse(a%d)", i); LOG("%s\n", op); bool r = harbol_array_swap(h, D); CHECK(r==has, "%s = %d", op, r); Str t = {0}; for( size_t k=n; k-- > 0; ) s_add(&t, M[i].p + k * D, D); M[i] = t; break; }
		case 11: { uint8_t *e = known_elem(i); size_t c = 0, from = g_p(1,2) ? 0 : g_u(n + 2), first = SIZE_MAX; for( size_t k=0; k < n; k++ ) { bool eq = !memcmp(e, M[i].p + k * D, D); c += eq; if( eq && k >= from && first==SIZE_MAX ) first = k; }
			snprintf(op, sizeof op, "find(a%d,from %zu)", i, from); LOG("%s %s\n", op, g_q(e,D)); CHECK(harbol_array_item_count(h, e, D)==c, "item_count"); size_t r = harbol_array_index_of(h, e, D, from); CHECK(r==first, "%s = %zd, expected %zd", op, (ssize_t)r, (ssize_t)first); break; }
		case 12: case 13: { size_t k = idx(n); snprintf(op, sizeof op, "del_by_index(a%d,%zd)", i, (ssize_t)k); LOG("%s\n", op); bool r = harbol_array_del_by_index(h, k, D); CHECK(r==(k < n), "%s = %d with length %zu", op, r, n); if( r ) { deep |= k + 1 < n; model_del(i, k, 1); } CLASS_IF(!n, "delete from an empty array"); break; }
		case 14: case 15: { size_t k = idx(n), m = g_p(1,5) ? SIZE_MAX - g_u(2) : g_p(1,4) ? n - (k < n ? k : 0) : g_u(n + 3); snprintf(op, sizeof op, "del_by_range(a%d,%zd,%zd)", i, (ssize_t)k, (ssize_t)m); LOG("%s\n", op); bool r = harbol_array_del_by_range(h, k, D, m);
			if( n ) CHECK(r==(k < n), "%s = %d with length %zu", op, r, n); CLASS_IF(m > (SIZE_MAX >> 1) && k && k < n, "delete to the end with a huge count"); if( k < n ) { deep |= k + 1 < n; model_del(i, k, m ? m : 1); } break; }
		case 16: { size_t k = idx(n), m = g_p(1,5) ? SIZE_MAX - g_u(2) : g_u(n + 3); snprintf(op, sizeof op, "shift_up(a%d,%zd,%zd)", i, (ssize_t)k, (ssize_t)m); LOG("%s\n", op); bool r = harbol_array_shift_up(h, k, D, m); CHECK(r==(k < n), "%s = %d with length %zu", op, r, n); if( r ) { deep |= k + 1 < n; model_del(i, k, m ? m : 1); } break; }
		case 17: { uint8_t *e = known_elem(i); size_t k = 0; while( k < n && memcmp(e, M[i].p + k * D, D) ) k++; snprintf(op, sizeof op, "del_by_val(a%d)", i); LOG("%s %s\n", op, g_q(e,D)); bool r = harbol_array_del_by_val(h, e, D); CHECK(r==(k < n), "%s = %d", op, r); if( r ) { deep |= k + 1 < n; model_del(i, k, 1); } break; }
		case 18: case 19: { snprintf(op, sizeof op, "grow(a%d)", i); LOG("%s\n", op); if( cap > (large ? 300000 : 4000) || (!large && cap * D > 300000) ) break; bool r = harbol_array_grow(h, D); CHECK(r && harbol_array_cap(h) > cap, "%s: capacity %zu -> %zu", op, cap, harbol_array_cap(h)); deep |= n > 0; break; }
		case 20: { size_t c = large ? n - g_u(n / 8 + 1) + g_u(n / 8 + 1) : g_p(1,3) ? g_u(n + 1) : g_u(100); snprintf(op, sizeof op, "resize(a%d,%zu)", i, c); LOG("%s\n", op); harbol_array_resize(h, D, c); size_t nc = harbol_array_cap(h); CHECK(nc >= c, "%s: capacity is %zu", op, nc); if( nc < n ) { CLASSIFY("resize below the length"); s_del(&M[i], nc * D, (n - nc) * D); } deep |= n > 0 && nc != cap; break; }
		case 21: { bool ex = g_p(1,2); snprintf(op, sizeof op, "shrink(a%d,%d)", i, ex); LOG("%s\n", op); bool r = harbol_array_shrink(h, D, ex); CHECK(!r || harbol_array_cap(h) < cap, "%s returned true without shrinking", op); CHECK(!ex || n==0 || cap <= ARRAY_DEFAULT_SIZE || (harbol_array_cap(h)==n && r==(cap > n)), "%s: an exact fit of %zu elements left a capacity of %zu, result %d", op, n, harbol_array_cap(h), r); deep |= n > 0 && harbol_array_cap(h) != cap; break; }
		case 22: { snprintf(op, sizeof op, "add(a%d,a%d)", i, j); LOG("%s\n", op); bool fits = has && H[j]->table && n + len(j) <= cap; bool r = harbol_array_add(h, H[j], D); CHECK(r==fits, "%s = %d: %zu + %zu into %zu", op, r, n, len(j), cap); CLASS_IF(fits && n + len(j)==cap && len(j), "addition fills the array exactly"); if( r ) { Str t = {0}; s_add(&t, M[j].p, M[j].n); s_add(&M[i], t.p, t.n); } break; }
		case 23: { snprintf(op, sizeof op, "copy(a%d,a%d)", i, j); LOG("%s\n", op); bool r = harbol_array_copy(h, H[j], D); CHECK(r==(i==j || (has && H[j]->table)), "%s = %d", op, r); if( r && i != j ) { Str t = {0}; size_t m = len(j) < cap ? len(j) : cap; s_add(&t, M[j].p, m * D); M[i] = t; }
			CHECK(harbol_array_len_diff(h, H[j])==(len(i) > len(j) ? len(i) - len(j) : len(j) - len(i)), "len_diff"); size_t a = harbol_array_cap(h), b = harbol_array_cap(H[j]); CHECK(harbol_array_cap_diff(h, H[j])==(a > b ? a - b : b - a), "cap_diff"); break; }
		default: { unsigned w = (unsigned)g_u(4);
			if( w==0 ) { uint8_t *e = elem(); if( cap > (large ? 20000 : 300) ) break; snprintf(op, sizeof op, "fill(a%d)", i); LOG("%s\n", op); bool r = harbol_array_fill(h, e, D); CHECK(r==has, "%s = %d", op, r); if( r ) { M[i] = (Str){0}; for( size_t k=0; k < cap; k++ ) s_add(&M[i], e, D); } }
			else if( w==1 ) { snprintf(op, sizeof op, "wipe(a%d)", i); LOG("%s\n", op); harbol_array_wipe(h, D); M[i] = (Str){0}; for( size_t k=0; has && k < cap * D; k++ ) CHECK(((uint8_t*)h->table)[k]==0, "wipe left data behind"); }
			else if( w==2 ) { snprintf(op, sizeof op, "clear(a%d)", i); LOG("%s\n", op); harbol_array_clear(h); M[i] = (Str){0}; CHECK(harbol_array_cap(h)==0, "clear kept capacity"); if( g_p(3,4) ) { LOG("init\n"); CHECK(harbol_array_init(h, D, g_u(20)), "init failed"); } }
			else { snprintf(op, sizeof op, "huge resize(a%d)", i); LOG("%s\n", op); size_t c = ((size_t)1 << 40); bool r = harbol_array_resize(h, D, c); if( cap ) CHECK(!r && harbol_array_cap(h)==cap, "%s succeeded", op); }
		}
	}
	for( int k=0; k < NA; k++ ) verify(k, op);
}
static void history(void) {
	large = false;
	static size_t const ds[] = { 1, 2, 3, 4, 8, 8, 12, 16, 24, 40 }; D = !g_p(1,12) ? ds[g_u(10)] : g_p(7,8) ? 41 + g_u(600) : 641 + g_u(5000); deep = false; CLASS_IF(D > 255, "elements of more than 255 bytes");
	LOG("element size %zu\n", D);
	for( int i=0; i < NA; i++ ) {
		M[i] = (Str){0}; heap[i] = false; size_t c = g_u(12); bool r = false;
		switch( g_u(5) ) {
			case 0: H[i] = harbol_array_new(D, c); heap[i] = true; CHECK(H[i], "new"); break;
			case 1: H[i] = g_zbuf(sizeof *H[i]); *H[i] = harbol_array_make(D, c, &r); CHECK(r, "make"); break;
			case 2: H[i] = g_zbuf(sizeof *H[i]); CHECK(harbol_array_init(H[i], D, c), "init"); break;
			case 3: { c++; size_t n = g_u(c + 1); uint8_t *b = malloc(c * D); for( size_t k=0; k < c * D; k++ ) b[k] = (uint8_t)g_u(3); s_add(&M[i], b, n * D);
				if( g_p(1,2) ) { H[i] = harbol_array_new_from_array(b, c, n); heap[i] = true; } else { H[i] = g_zbuf(sizeof *H[i]); *H[i] = harbol_array_make_from_array(b, c, n); } CHECK(harbol_array_cap(H[i])==c, "capacity of the given buffer"); LOG("a%d from buffer cap %zu len %zu\n", i, c, n); verify(i, "from_array"); continue; }
			default: H[i] = g_zbuf(sizeof *H[i]); LOG("a%d = {0}\n", i); verify(i, "zero"); continue;
		}
		CHECK(harbol_array_cap(H[i]) >= c, "initial capacity"); LOG("a%d cap %zu\n", i, c);
		verify(i, "construction");
	}
	for( int k=0; k < 80 && g_more(16); k++ ) step();
	if( deep ) g_nontrivial();
	for( int i=0; i < NA; i++ ) {
		if( heap[i] ) { if( g_p(1,2) ) { harbol_array_cleanup(&H[i]); } else { harbol_array_clear(H[i]); harbol_array_free(&H[i]); } CHECK(H[i]==NULL, "reference not cleared"); }
		else harbol_array_clear(H[i]);
	}
}
/* the same calls on arrays of hundreds to tens of thousands of elements */
static void many(void) {
	static size_t const ds[] = { 1, 2, 4, 8, 24 }; D = ds[g_u(5)]; deep = false; large = true; size_t const mark = (size_t)1 << (7 + g_u(g_p(1,4) ? 11 : 6));
	for( int i=0; i < NA; i++ ) {
		size_t n = i ? g_u(40) : mark - 3 + g_u(7), c = g_p(1,2) ? n + g_u(5) : 4; M[i] = (Str){0}; heap[i] = true; H[i] = harbol_array_new(D, c); CHECK(H[i] && harbol_array_cap(H[i]) >= c, "construction failed"); LOG("a%d of %zu elements of %zu bytes, made for %zu\n", i, n, D, c);
		uint64_t v = g_u(1u << 20); uint8_t e[24];
		for( size_t k=0; k < n; k++ ) { v += 0x9E3779B1u; for( size_t j=0; j < D; j++ ) e[j] = (uint8_t)(v >> (8 * (j % 8))); if( harbol_array_full(H[i]) ) CHECK(harbol_array_grow(H[i], D), "growing from %zu failed", k); CHECK(harbol_array_insert(H[i], e, D), "insertion %zu failed", k); s_add(&M[i], e, D); }
		verify(i, "construction");
	}
	for( int k=0; k < 10 && g_more(5); k++ ) step();
	if( len(0) ) { size_t k = len(0) - 1 - g_u(len(0) < 3 ? 1 : 3), at = 0; while( memcmp(M[0].p + at * D, M[0].p + k * D, D) ) at++; CHECK(harbol_array_index_of(H[0], M[0].p + k * D, D, 0)==at, "element %zu is not found", k); }
	g_nontrivial(); for( int i=0; i < NA; i++ ) harbol_array_cleanup(&H[i]);
}
struct Target const TARGETS[] = { { "history", history, 4000 }, { "many", many, 1 }, {0} };
