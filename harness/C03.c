/* C03: byte buffers hold exactly the bytes written, in order, and survive a trip through a file. */
#include "pbt.h"
#include "bytebuffer/bytebuffer.h"

char const *const PROPERTY = "C03";
char const *const RULE = "Histories of 1..60 writes, deletions, file writes and file reads on two byte buffers mirrored by plain byte sequences; length, bytes and capacity bound compared after every call. "
	"Non-trivial: the history deleted bytes or went through a file, and the buffer held at least 8 bytes at some point.";
unsigned const QUICK_CASES = 600000, THOROUGH_CASES = 30000000;
struct Known const KNOWN[] = { {0} };
enum { NB = 2 };
static struct HarbolByteBuf *H[NB]; static Str M[NB]; static bool heap[NB]; static int deep; static size_t peak;

static void verify(int i, char const *op) {
	struct HarbolByteBuf const *h = H[i];
	CHECK(harbol_bytebuffer_len(h)==M[i].n, "after %s: buffer %d length %zu, model %zu", op, i, harbol_bytebuffer_len(h), M[i].n);
	CHECK(harbol_bytebuffer_cap(h) >= M[i].n, "after %s: capacity below length", op);
	uint8_t const *t = harbol_bytebuffer_get_buffer(h);
	if( M[i].n ) { CHECK(t != NULL, "after %s: no storage", op); CHECK(!memcmp(t, M[i].p, M[i].n), "after %s: buffer %d holds %s, model %s", op, i, g_q(t, M[i].n), g_q(M[i].p, M[i].n)); }
	if( M[i].n > peak ) peak = M[i].n;
}
static void step(void) {
	int i = (int)g_u(NB), j = (int)g_u(NB); struct HarbolByteBuf *h = H[i]; char op[400] = "?"; bool r = true;
	uint64_t v = 0;
	switch( g_u(22) ) {
		case 0: case 1: { uint8_t b = (uint8_t)g_u64(); snprintf(op, sizeof op, "insert_byte(b%d,%u)", i, b); LOG("%s\n", op); r = g_p(1,8) ? harbol_bytebuffer_insert(h, b) : harbol_bytebuffer_insert_byte(h, b); s_add(&M[i], &b, 1); break; }
		case 2: { uint16_t b = (uint16_t)g_u64(); snprintf(op, sizeof op, "insert_int16(b%d,%u)", i, b); LOG("%s\n", op); r = g_p(1,8) ? harbol_bytebuffer_insert(h, b) : harbol_bytebuffer_insert_int16(h, b); s_add(&M[i], &b, sizeof b); break; }
		case 3: { uint32_t b = (uint32_t)g_u64(); snprintf(op, sizeof op, "insert_int32(b%d,%u)", i, b); LOG("%s\n", op); r = g_p(1,8) ? harbol_bytebuffer_insert(h, b) : harbol_bytebuffer_insert_int32(h, b); s_add(&M[i], &b, sizeof b); break; }
		case 4: { v = g_u64(); snprintf(op, sizeof op, "insert_int64(b%d,%llu)", i, (unsigned long long)v); LOG("%s\n", op); r = g_p(1,8) ? harbol_bytebuffer_insert(h, v) : harbol_bytebuffer_insert_int64(h, v); s_add(&M[i], &v, sizeof v); break; }
		case 5: { v = g_u64(); uintptr_t p = (uintptr_t)v; snprintf(op, sizeof op, "insert_ptr(b%d,%llu)", i, (unsigned long long)v); LOG("%s\n", op); r = harbol_bytebuffer_insert_ptr(h, p); s_add(&M[i], &p, sizeof p); break; }
		case 6: { float f = (float)(int64_t)g_u64() / 3; snprintf(op, sizeof op, "insert_float32(b%d,%g)", i, f); LOG("%s\n", op); r = g_p(1,8) ? harbol_bytebuffer_insert(h, f) : harbol_bytebuffer_insert_float32(h, f); s_add(&M[i], &f, sizeof f); break; }
		case 7: { double f = (double)(int64_t)g_u64() / 3; snprintf(op, sizeof op, "insert_float64(b%d,%g)", i, f); LOG("%s\n", op); r = g_p(1,8) ? harbol_bytebuffer_insert(h, f) : harbol_bytebuffer_insert_float64(h, f); s_add(&M[i], &f, sizeof f); break; }
		case 8: { long double f = (long double)(int64_t)g_u64() / 3; snprintf(op, sizeof op, "insert_floatmax(b%d,%Lg)", i, f); LOG("%s\n", op); size_t at = M[i].n; r = g_p(1,8) ? harbol_bytebuffer_insert(h, f) : harbol_bytebuffer_insert_floatmax(h, f);
			CHECK(r && harbol_bytebuffer_len(h)==at + sizeof f, "%s: length", op);
			s_add(&M[i], &f, sizeof f); /* only the value bytes of the type are specified */ memcpy(M[i].p + at + 10, harbol_bytebuffer_get_buffer(h) + at + 10, sizeof f - 10); break; }
		case 9: case 10: { Str s = {0}; size_t n = g_len(40); for( size_t k=0; k < n; k++ ) s_addc(&s, (char)(1 + g_u(255))); snprintf(op, sizeof op, "insert_cstr(b%d,%zu chars)", i, n); LOG("%s\n", op); r = g_p(1,8) ? harbol_bytebuffer_insert(h, s_exact(&s)) : harbol_bytebuffer_insert_cstr(h, s_exact(&s)); s_add(&M[i], s.p, s.n); s_addc(&M[i], 0); break; }
		case 11: case 12: { size_t n = g_len(50); uint8_t *b = g_buf(n); for( size_t k=0; k < n; k++ ) b[k] = (uint8_t)g_u(256); snprintf(op, sizeof op, "insert_obj(b%d,%zu bytes)", i, n); LOG("%s\n", op); CLASS_IF(n==0 && !h->table, "empty object into a fresh buffer"); r = harbol_bytebuffer_insert_obj(h, b, n); s_add(&M[i], b, n); break; }
		case 13: { size_t n = g_len(50); if( g_p(1,30) ) { n = SIZE_MAX - g_u(M[i].n + 3); LOG("insert_zeros(b%d,%zd)\n", i, (ssize_t)n); CHECK(!harbol_bytebuffer_insert_zeros(h, n), "adding %zu zeros to %zu bytes was accepted", n, M[i].n); CLASSIFY("huge zeros refused"); break; } if( g_p(1,300) && M[i].n < 200000 ) n = 60000 + g_u(10000); snprintf(op, sizeof op, "insert_zeros(b%d,%zu)", i, n); LOG("%s\n", op); r = harbol_bytebuffer_insert_zeros(h, n); for( size_t k=0; k < n; k++ ) s_addc(&M[i], 0); break; }
		case 14: case 15: case 16: { size_t n = M[i].n, at = g_p(1,8) ? n + g_u(2) : n ? g_u(n) : 0, m = g_p(1,6) ? SIZE_MAX - g_u(2) : g_p(1,3) ? (n > at ? n - at : 0) : g_u(n + 2);
			snprintf(op, sizeof op, "del(b%d,%zu,%zd)", i, at, (ssize_t)m); LOG("%s\n", op); bool d = harbol_bytebuffer_del(h, at, m); CHECK(d==(at < n), "%s = %d with length %zu", op, d, n);
			if( d ) { size_t k = m ? m : 1; if( k > n - at ) k = n - at; s_del(&M[i], at, k); deep++; CLASS_IF(at + k < n, "deletion in the middle"); } break; }
		case 17: { snprintf(op, sizeof op, "append(b%d,b%d)", i, j); LOG("%s\n", op); if( M[i].n + M[j].n > 4000 ) break; bool d = harbol_bytebuffer_append(h, H[j]); CHECK(d || M[j].n==0, "%s failed", op); Str t = {0}; s_add(&t, M[j].p, M[j].n); s_add(&M[i], t.p, t.n); CLASS_IF(i==j && t.n, "append to itself"); break; }
		case 18: { snprintf(op, sizeof op, "copy(b%d,b%d)", i, j); LOG("%s\n", op); bool d = harbol_bytebuffer_copy(h, H[j]); CHECK(d || M[j].n==0, "%s failed", op); if( d ) { Str t = {0}; s_add(&t, M[j].p, M[j].n); CLASS_IF(t.n==0 && M[i].n, "copy of an emptied buffer"); M[i] = t; } break; }
		case 19: case 20: { /* through a file */
			char path[300]; snprintf(path, sizeof path, "%s/b.bin", g_scratch()); snprintf(op, sizeof op, "file(b%d -> b%d)", i, j); LOG("%s\n", op);
			if( M[i].n + M[j].n > 4000 ) break;
			FILE *f = fopen(path, "w+b"); bool w = harbol_bytebuffer_to_file(h, f); CHECK(w || M[i].n==0, "to_file failed");
			bool d; Str t = {0}; s_add(&t, M[i].p, M[i].n);
			if( g_p(1,2) ) { if( g_p(1,2) ) fflush(f); d = harbol_bytebuffer_insert_from_file(H[j], f); fclose(f); } else { fclose(f); d = harbol_bytebuffer_insert_from_filename(H[j], path); }
			CHECK(d==(t.n > 0), "%s: reading %zu bytes returned %d", op, t.n, d); s_add(&M[j], t.p, t.n); deep++; CLASS_IF(t.n > 0, "file round trip"); break; }
		default: snprintf(op, sizeof op, "clear(b%d)", i); LOG("%s\n", op); harbol_bytebuffer_clear(h); M[i] = (Str){0}; CHECK(harbol_bytebuffer_cap(h)==0 && harbol_bytebuffer_get_buffer(h)==NULL, "clear left storage");
	}
	CHECK(r, "%s failed", op);
	for( int k=0; k < NB; k++ ) verify(k, op);
}
static void history(void) {
	deep = 0; peak = 0;
	for( int i=0; i < NB; i++ ) { M[i] = (Str){0}; heap[i] = g_p(1,2); if( heap[i] ) H[i] = harbol_bytebuffer_new(); else { H[i] = g_zbuf(sizeof *H[i]); *H[i] = harbol_bytebuffer_make(); } verify(i, "construction"); }
	for( int k=0; k < 60 && g_more(14); k++ ) step();
	if( deep && peak >= 8 ) g_nontrivial();
	for( int i=0; i < NB; i++ ) { if( heap[i] ) { harbol_bytebuffer_free(&H[i]); CHECK(H[i]==NULL, "reference not cleared"); harbol_bytebuffer_free(&H[i]); } else harbol_bytebuffer_clear(H[i]); }
	CHECK(!harbol_bytebuffer_insert_from_filename(&( struct HarbolByteBuf ){0}, "/nonexistent/file"), "reading a missing file succeeded");
}
struct Target const TARGETS[] = { { "history", history, 1 }, {0} };
