/* C06: a tuple is laid out as the C struct of its members. */
#include "pbt.h"
#include "tuple/tuple.h"

char const *const PROPERTY = "C06";
char const *const RULE = "Member lists of 1..24 sizes (scalars 1/2/4/8 and blocks of 8k bytes: the layout is compared with the C rules computed independently; or any sizes 1..40: members must stay apart and in order), packed or not, "
	"then a history of member writes read back and exported; six real C structs are compared member by member. Non-trivial: the members need padding, or they are packed against their alignment. Rarely, tuples of up to 1200 members.";
unsigned const QUICK_CASES = 6000000, THOROUGH_CASES = 40000000;
struct Known const KNOWN[] = { {0} };

static size_t up(size_t x, size_t a) { return (x + a - 1) / a * a; }
static void use(struct HarbolTuple *t, size_t const *sz, size_t const *off, size_t nf, size_t total) {
	/* model image; padding bytes stay 0 */
	uint8_t *img = g_zbuf(total ? total : 1), *out = g_buf(total ? total : 1), *base = harbol_tuple_get(t, 0);
	int lim = 30;
	for( size_t i=0; i < nf; i++ ) { uint8_t *p = harbol_tuple_get(t, i); CHECK(!memcmp(p, img + off[i], sz[i]), "a fresh member is not zero"); }
	for( int k=0; k < lim && g_more(8); k++ ) {
		size_t i = g_u(nf); uint8_t *v = g_buf(sz[i]); for( size_t j=0; j < sz[i]; j++ ) v[j] = j < 16 ? (uint8_t)g_u(256) : (uint8_t)(v[j&15] + j);
		LOG("set(%zu,%s)\n", i, g_q(v, sz[i]));
		CHECK(harbol_tuple_set(t, i, v)==base + off[i], "set(%zu) did not return the member", i);
		memcpy(img + off[i], v, sz[i]);
		for( size_t f=0; f < nf; f++ ) CHECK(!memcmp(harbol_tuple_get(t, f), img + off[f], sz[f]), "after writing member %zu, member %zu is %s, model %s", i, f, g_q(harbol_tuple_get(t, f), sz[f]), g_q(img + off[f], sz[f]));
	}
	memset(out, 0xEE, total);
	CHECK(harbol_tuple_to_struct(t, out), "to_struct failed");
	CHECK(!memcmp(out, img, total), "the exported struct is %s, model %s", g_q(out, total), g_q(img, total));
}
static struct HarbolTuple *make(size_t nf, size_t const *sz, bool packed, bool *heap) {
	struct HarbolTuple *t;
	*heap = g_p(1,2);
	if( *heap ) t = harbol_tuple_new(nf, sz, packed);
	else { t = g_zbuf(sizeof *t); bool r = false; if( g_p(1,2) ) *t = harbol_tuple_create(nf, sz, packed, &r); else { if( g_p(1,3) ) { size_t o[3] = { 1 + g_u(9), 4, 8 * (1 + g_u(9)) }; CHECK(harbol_tuple_init(t, 1 + g_u(3), o, !packed || g_p(1,4)), "construction failed"); harbol_tuple_clear(t); CLASSIFY("a tuple used before"); } r = harbol_tuple_init(t, nf, sz, packed); } if( !r ) t = NULL; }
	return t;
}
static void drop(struct HarbolTuple *t, bool heap) {
	if( heap ) { harbol_tuple_free(&t); CHECK(t==NULL, "reference not cleared"); harbol_tuple_free(&t); }
	else { harbol_tuple_clear(t); CHECK(harbol_tuple_len(t)==0 && harbol_tuple_get(t, 0)==NULL && harbol_tuple_fields(t)==0, "a cleared tuple has members"); char out[8] = "untouch"; CHECK(!harbol_tuple_set(t, g_u(3), out) && harbol_tuple_field_size(t, g_u(3))==0 && !harbol_tuple_to_struct(t, out) && !strcmp(out, "untouch"), "a cleared tuple has values"); }
}
static void layout(void) {
	bool packed = g_p(1,3), odd = g_p(1,4), huge = !odd && g_p(1,60);
	size_t nf = 1 + (g_p(1,500) ? g_u(1200) : g_p(1,5) ? g_u(24) : g_u(7)), *sz = g_buf(nf * sizeof *sz), *off = g_buf(nf * sizeof *off);
	bool bigs = g_p(1,4);
	for( size_t i=0; i < nf; i++ ) {
		if( odd ) sz[i] = 1 + g_u(40);
		else if( huge ) sz[i] = g_p(1,2) ? 8 * (1 + g_u(g_p(1,3) ? 8190 : 2500)) : (size_t)1 << g_u(4);
		else sz[i] = bigs && g_p(1,4) ? 8 * (1 + g_u(6)) : (size_t)1 << g_u(4);
		LOG("member %zu: %zu bytes\n", i, sz[i]);
	}
	LOG("packed: %d\n", packed);
	size_t at = 0, maxa = 1, sum = 0;
	for( size_t i=0; i < nf; i++ ) { size_t a = packed ? 1 : sz[i] >= 8 ? 8 : sz[i]; at = up(at, a); off[i] = at; at += sz[i]; sum += sz[i]; if( a > maxa ) maxa = a; }
	size_t total = up(at, maxa);
	bool heap; struct HarbolTuple *t = make(nf, sz, packed, &heap);
	if( !odd && total > 65535 ) CLASSIFY("beyond 64K");
	if( t==NULL ) { CHECK(total > 60000, "construction of %zu bytes failed", total); return; }
	CHECK(harbol_tuple_fields(t)==nf, "%zu members, model %zu", harbol_tuple_fields(t), nf);
	CHECK(harbol_tuple_packed(t)==packed, "packed() = %d", !packed);
	CHECK(harbol_tuple_get(t, nf)==NULL && harbol_tuple_field_size(t, nf)==0 && harbol_tuple_get(t, SIZE_MAX)==NULL, "a member beyond the last one");
	uint8_t *base = harbol_tuple_get(t, 0), *prev = NULL; CHECK(base, "member 0 is missing");
	for( size_t i=0; i < nf; i++ ) {
		uint8_t *p = harbol_tuple_get(t, i); CHECK(p, "member %zu is missing", i);
		CHECK(harbol_tuple_field_size(t, i)==sz[i], "member %zu has %zu bytes, declared %zu", i, harbol_tuple_field_size(t, i), sz[i]);
		if( !odd || packed ) {
			CHECK((size_t)(p - base)==off[i], "member %zu is at offset %td, C puts it at %zu", i, p - base, off[i]);
			if( !packed ) CHECK((uintptr_t)p % (sz[i] >= 8 ? 8 : sz[i])==0, "member %zu is misaligned", i);
		} else {
			if( prev ) CHECK(p >= prev, "member %zu overlaps the previous one", i);
			off[i] = (size_t)(p - base);
		}
		prev = p + sz[i];
	}
	size_t len = harbol_tuple_len(t);
	if( !odd || packed ) CHECK(len==total, "size %zu, C struct %zu", len, total);
	else { CHECK(len >= (size_t)(prev - base), "members end at %td beyond the size %zu", prev - base, len); total = len; }
	if( total != sum || (packed && nf > 1) ) g_nontrivial();
	CLASS_IF(!packed && total != sum, "with padding"); CLASS_IF(packed, "packed"); CLASS_IF(odd, "unusual member sizes"); if( huge ) for( size_t i=0; i < nf; i++ ) CLASS_IF(sz[i] > 32767, "member beyond 32K");
	use(t, sz, off, nf, len);
	drop(t, heap);
}
struct A { char c; int i; short s; }; struct B { int64_t l; char c; int i; short s; }; struct C { char a; double d; char b; void *p; char c, e; };
struct D { uint8_t blk[16] __attribute__((aligned(8))); short s; int64_t x; char c; }; struct F { short a; char b; short c; int d; char e; }; struct G { char a, b, c, d, e; short f; char g; };
struct __attribute__((packed)) P { char c; int64_t l; short s; int i; char d; };
#define M(T, m) sizeof(((struct T *)0)->m), offsetof(struct T, m)
static size_t const REAL[][16] = {
	{ sizeof(struct A), 3, M(A,c), M(A,i), M(A,s) }, { sizeof(struct B), 4, M(B,l), M(B,c), M(B,i), M(B,s) }, { sizeof(struct C), 6, M(C,a), M(C,d), M(C,b), M(C,p), M(C,c), M(C,e) },
	{ sizeof(struct D), 4, M(D,blk), M(D,s), M(D,x), M(D,c) }, { sizeof(struct F), 5, M(F,a), M(F,b), M(F,c), M(F,d), M(F,e) }, { sizeof(struct G), 7, M(G,a), M(G,b), M(G,c), M(G,d), M(G,e), M(G,f), M(G,g) },
	{ sizeof(struct P), 5, M(P,c), M(P,l), M(P,s), M(P,i), M(P,d) } };
static void real_struct(void) {
	unsigned k = (unsigned)g_u(7); size_t const *R = REAL[k]; size_t nf = R[1], sz[8], off[8]; bool packed = k==6, heap;
	LOG("real struct %u\n", k);
	for( size_t i=0; i < nf; i++ ) { sz[i] = R[2 + 2*i]; off[i] = R[3 + 2*i]; }
	struct HarbolTuple *t = make(nf, sz, packed, &heap); CHECK(t, "construction failed");
	CHECK(harbol_tuple_len(t)==R[0], "size %zu, the C struct has %zu", harbol_tuple_len(t), R[0]);
	uint8_t *base = harbol_tuple_get(t, 0);
	for( size_t i=0; i < nf; i++ ) CHECK((uint8_t *)harbol_tuple_get(t, i)==base + off[i], "member %zu is at %td, offsetof %zu", i, (uint8_t *)harbol_tuple_get(t, i) - base, off[i]);
	g_nontrivial(); use(t, sz, off, nf, R[0]); drop(t, heap);
}
struct Target const TARGETS[] = { { "layout", layout, 7 }, { "real_struct", real_struct, 1 }, {0} };
