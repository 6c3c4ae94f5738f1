/* C08: a variant holds its own copy of the last value set, its size and its tag. */
#include "pbt.h"
#include "variant/variant.h"

char const *const PROPERTY = "C08";
char const *const RULE = "Histories of 1..40 set/tag/clear calls on 1..4 variants at once (values of 1..200, rarely up to 200000 bytes, values taken out of a variant itself, allocation failures) mirrored by byte copies. Non-trivial: a value was replaced by one of another size.";
unsigned const QUICK_CASES = 9000000, THOROUGH_CASES = 60000000;
struct Known const KNOWN[] = { {0} };
static struct { struct HarbolVariant *v; uint8_t *p; size_t n; int32_t tag; bool heap; } V[4]; static size_t nv;

static void verify(char const *op) {
	for( size_t i=0; i < nv; i++ ) {
		CHECK(harbol_variant_size(V[i].v)==V[i].n, "after %s: variant %zu has %zu bytes, model %zu", op, i, harbol_variant_size(V[i].v), V[i].n);
		CHECK(harbol_variant_tag(V[i].v)==V[i].tag, "after %s: variant %zu has tag %d, model %d", op, i, harbol_variant_tag(V[i].v), V[i].tag);
		uint8_t *d = harbol_variant_data(V[i].v);
		CHECK((d != NULL)==(V[i].n != 0), "after %s: the value of variant %zu is missing or invented", op, i);
		if( d ) CHECK(!memcmp(d, V[i].p, V[i].n), "after %s: variant %zu holds %s, model %s", op, i, g_q(d, V[i].n), g_q(V[i].p, V[i].n));
	}
}
static uint8_t *val(size_t *n) { *n = 1 + (g_rare(2000) ? g_u(200000) : g_len(g_p(1,40) ? 20000 : 199)); uint8_t *p = g_buf(*n); for( size_t i=0; i < *n; i++ ) p[i] = i < 24 ? (uint8_t)g_u(256) : (uint8_t)i; return p; }
static void make(size_t i) {
	size_t n; uint8_t *p = val(&n); int32_t tag = (int32_t)g_u64(); bool heap = V[i].heap = g_p(1,2);
	LOG("variant %zu = %s tag %d\n", i, g_q(p, n), tag);
	if( g_p(1,12) ) { /* no memory: no variant, nothing kept */
		bool r = true; unsigned how = (unsigned)g_u(3); vf_fail_after(how==0 ? g_u(2) : 0); LOG("construction without memory\n"); CLASSIFY("construction without memory"); struct HarbolVariant t = {0};
		if( how==0 ) { struct HarbolVariant *h = harbol_variant_new(p, n, tag); CHECK(!h, "made without memory"); } else { if( how==1 ) t = harbol_variant_make(p, n, tag, &r); else r = harbol_variant_init(&t, p, n, tag); CHECK(!r, "made without memory"); CHECK(harbol_variant_data(&t)==NULL && harbol_variant_size(&t)==0, "a variant that could not be made has a value"); }
		vf_fail_off(); }
	if( heap ) V[i].v = harbol_variant_new(p, n, tag); else { V[i].v = g_zbuf(sizeof *V[i].v); bool r = false; if( g_p(1,2) ) *V[i].v = harbol_variant_make(p, n, tag, &r); else r = harbol_variant_init(V[i].v, p, n, tag); CHECK(r, "construction failed"); }
	CHECK(V[i].v, "construction failed"); V[i].n = n; V[i].tag = tag; V[i].p = g_buf(n); memcpy(V[i].p, p, n); memset(p, 0x5A, n); /* the caller's buffer is free to change */
}
static void history(void) {
	nv = 1 + g_u(4); bool deep = false, faults = g_p(1,4);
	for( size_t i=0; i < nv; i++ ) make(i);
	verify("construction");
	int lim = 40;
	for( int k=0; k < lim && g_more(8); k++ ) {
		size_t i = g_u(nv);
		switch( g_u(8) ) {
			case 0: case 1: case 2: case 3: { size_t n; uint8_t *p = val(&n); bool inj = faults && g_p(1,4); LOG("set(%zu,%s)%s\n", i, g_q(p, n), inj ? " with an allocation failure" : "");
				if( inj ) vf_fail_after(0); bool r = harbol_variant_set(V[i].v, p, n); bool hit = vf_fail_hit(); vf_fail_off();
				if( !r ) { CHECK(hit, "set failed"); break; }
				deep |= n != V[i].n && V[i].n; V[i].n = n; V[i].p = g_buf(n); memcpy(V[i].p, p, n); memset(p, 0x5A, n); break; }
			case 4: { size_t j = g_u(nv); if( !V[j].n ) break; size_t at = g_u(V[j].n), n = 1 + g_u(V[j].n - at); LOG("set(%zu, %zu bytes at %zu of variant %zu)\n", i, n, at, j); CLASS_IF(i==j, "set from its own value");
				uint8_t *c = g_buf(n); memcpy(c, V[j].p + at, n); CHECK(harbol_variant_set(V[i].v, (uint8_t *)harbol_variant_data(V[j].v) + at, n), "set failed"); deep |= n != V[i].n && V[i].n; V[i].p = c; V[i].n = n; break; }
			case 5: { V[i].tag = V[i].v->tag = (int32_t)g_u64(); LOG("tag(%zu) = %d\n", i, V[i].tag); break; }
			case 6: { LOG("clear(%zu)\n", i); harbol_variant_clear(V[i].v); V[i].n = 0; V[i].tag = 0; CLASSIFY("cleared and used again"); break; }
			default: { LOG("free(%zu) and make again\n", i); if( V[i].heap ) { harbol_variant_free(&V[i].v); CHECK(V[i].v==NULL, "reference not cleared"); harbol_variant_free(&V[i].v); } else harbol_variant_clear(V[i].v); make(i); }
		}
		verify("the last call");
	}
	if( deep ) g_nontrivial();
	for( size_t i=0; i < nv; i++ ) if( V[i].heap ) harbol_variant_free(&V[i].v); else harbol_variant_clear(V[i].v);
}
struct Target const TARGETS[] = { { "history", history, 1 }, {0} };
