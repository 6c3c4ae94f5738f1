/* C05: the deque is a double-ended queue with stable node handles, for every history. */
#include "pbt.h"
#include "deque/deque.h"

char const *const PROPERTY = "C05";
char const *const RULE = "Histories of 1..150 append/prepend/pop/reset/re-init calls on one deque (initial size 0..20, values of 1..24, at times up to 300 and rarely up to 70000 bytes, of one size or several, optional allocation failures) mirrored by a list of (handle,value); "
	"after every call the deque is walked from both ends and every live handle is looked up. Non-trivial: nodes were popped and their slots used again, or the deque grew while holding values. Rarely, bursts of up to 65000 calls at either end.";
unsigned const QUICK_CASES = 3200000, THOROUGH_CASES = 40000000;
struct Known const KNOWN[] = { {0} };
typedef struct { size_t h, n; uint8_t *v; } Ent;
static Ent E[400]; static size_t n, vs; static bool mixed; static struct HarbolDeque *D; static bool deep, popped;

static void verify(char const *op) {
	CHECK(harbol_deque_count(D)==n, "after %s: count %zu, model %zu", op, harbol_deque_count(D), n);
	CHECK(harbol_deque_empty(D)==(n==0), "after %s: empty() = %d with %zu values", op, harbol_deque_empty(D), n);
	uint8_t *f = harbol_deque_get_front(D), *b = harbol_deque_get_back(D);
	if( n==0 ) {
		CHECK(!f && !b && harbol_deque_head(D)==SIZE_MAX && harbol_deque_tail(D)==SIZE_MAX, "after %s: an empty deque has a front or a back", op);
		return;
	}
	CHECK(f && !memcmp(f, E[0].v, E[0].n), "after %s: front is %s, model %s", op, f ? g_q(f, E[0].n) : "nothing", g_q(E[0].v, E[0].n));
	CHECK(b && !memcmp(b, E[n-1].v, E[n-1].n), "after %s: back is %s, model %s", op, b ? g_q(b, E[n-1].n) : "nothing", g_q(E[n-1].v, E[n-1].n));
	size_t k = harbol_deque_head(D);
	for( size_t i=0; i < n; i++ ) {
		CHECK(k==E[i].h, "after %s: walking forwards, position %zu is node %zd, model %zu", op, i, (ssize_t)k, E[i].h);
		uint8_t *v = harbol_deque_get_data(D, k);
		CHECK(v && !memcmp(v, E[i].v, E[i].n), "after %s: node %zu holds %s, model %s", op, k, v ? g_q(v, E[i].n) : "nothing", g_q(E[i].v, E[i].n));
		k = harbol_deque_next(D, k);
	}
	CHECK(k==SIZE_MAX, "after %s: walking forwards does not end after %zu nodes", op, n);
	k = harbol_deque_tail(D);
	for( size_t i=n; i-- > 0; ) { CHECK(k==E[i].h, "after %s: walking backwards, position %zu is node %zd, model %zu", op, i, (ssize_t)k, E[i].h); k = harbol_deque_prev(D, k); }
	CHECK(k==SIZE_MAX, "after %s: walking backwards does not end", op);
	CHECK(harbol_deque_get_data(D, SIZE_MAX)==NULL && harbol_deque_next(D, SIZE_MAX)==SIZE_MAX && harbol_deque_prev(D, SIZE_MAX)==SIZE_MAX, "after %s: the end marker is a node", op);
}
static size_t size(void) { if( g_rare(3000) ) { CLASSIFY("values of up to 70000 bytes"); return 1 + g_u(70000); } return mixed ? 1 + g_len(g_p(1,8) ? 299 : 23) : vs; }
static void step(bool faults) {
	char op[200] = "?"; size_t cap = D->cap;
	bool inj = faults && g_p(1,6);
	unsigned w = (unsigned)g_u(26);
	if( w < 14 ) {
		if( n >= 390 ) return;
		bool front = w < 7; size_t vs = size(); uint8_t *v = g_buf(vs); for( size_t i=0; i < vs; i++ ) v[i] = i < 32 ? (uint8_t)g_u(256) : (uint8_t)i;
		snprintf(op, sizeof op, "%s(%s)%s", front ? "prepend" : "append", g_q(v, vs < 8 ? vs : 8), inj ? " with an allocation failure" : ""); LOG("%s\n", op);
		if( inj ) vf_fail_after((long)g_u(6));
		size_t h = front ? harbol_deque_prepend(D, v, vs) : harbol_deque_append(D, v, vs); v = memcpy(g_buf(vs), v, vs);
		bool hit = vf_fail_hit(); vf_fail_off();
		if( h==SIZE_MAX ) { CHECK(hit, "%s failed", op); CLASSIFY("insertion refused for lack of memory"); verify(op); return; }
		for( size_t i=0; i < n; i++ ) CHECK(E[i].h != h, "%s returned the handle %zu of a live node", op, h);
		if( n==cap ) { deep |= n > 0; CLASSIFY("growth"); }
		if( popped ) deep = true;
		if( front ) { memmove(&E[1], &E[0], n * sizeof *E); E[0] = (Ent){ h, vs, v }; } else E[n] = (Ent){ h, vs, v };
		n++;
	} else if( w < 24 ) {
		bool front = w < 19; snprintf(op, sizeof op, "pop_%s", front ? "front" : "back"); LOG("%s\n", op);
		size_t vs = n==0 ? size() : front ? E[0].n : E[n-1].n; if( g_p(1,8) ) { vs = 1 + g_u(vs); CLASSIFY("the start of a value popped"); } uint8_t *out = g_buf(vs); bool r = front ? harbol_deque_pop_front(D, out, vs) : harbol_deque_pop_back(D, out, vs);
		CHECK(r==(n > 0), "%s = %d with %zu values", op, r, n);
		if( r ) { Ent e = front ? E[0] : E[n-1]; CHECK(!memcmp(out, e.v, vs), "%s gave %s, model %s", op, g_q(out, vs), g_q(e.v, vs)); if( front ) memmove(&E[0], &E[1], (n - 1) * sizeof *E); n--; popped = true; CLASS_IF(n==0, "popped to empty"); }
	} else if( w==24 ) {
		if( g_p(1,2) ) return;
		snprintf(op, sizeof op, "reset"); LOG("%s\n", op); harbol_deque_reset(D); n = 0; popped = true;
	} else {
		if( g_p(2,3) ) return;
		snprintf(op, sizeof op, "clear+init"); LOG("%s\n", op); harbol_deque_clear(D); CHECK(harbol_deque_count(D)==0 && harbol_deque_empty(D), "clear kept values"); n = 0; CHECK(harbol_deque_init(D, g_u(g_p(1,8) ? 300 : 9)), "init failed");
	}
	verify(op);
}
static void history(void) {
	n = 0; deep = popped = false; vs = 1 + g_len(23); mixed = g_p(1,3); if( mixed ) CLASSIFY("values of different sizes");
	size_t c = g_rare(500) ? g_u(g_p(1,8) ? 70000 : 300) : g_u(g_p(1,4) ? 70 : 5); CLASS_IF(c > 70, "large initial size"); bool heap = g_p(1,2), faults = g_p(1,4); LOG("initial size %zu, %zu byte values%s\n", c, vs, mixed ? " and others" : "");
	if( heap ) D = harbol_deque_new(c); else { D = g_zbuf(sizeof *D); bool r = false; if( g_p(1,2) ) *D = harbol_deque_make(c, &r); else r = harbol_deque_init(D, c); CHECK(r, "construction failed"); }
	CHECK(D != NULL, "construction failed");
	verify("construction");
	int lim = g_p(1,6) ? 150 : 40;
	for( int k=0; k < lim && g_more(20); k++ ) step(faults);
	if( deep ) g_nontrivial();
	if( heap ) { harbol_deque_free(&D); CHECK(D==NULL, "reference not cleared"); harbol_deque_free(&D); } else harbol_deque_clear(D);
}
/* hundreds to tens of thousands of values: bursts at either end against a window of numbers */
static void many(void) {
	size_t const top = (size_t)1 << (8 + g_u(g_p(1,5) ? 9 : 5)); int64_t lo = 0, hi = 0; bool r; struct HarbolDeque q = harbol_deque_make(g_u(g_p(1,4) ? top * 2 : 20), &r); CHECK(r, "construction failed");
	for( int b=0; b < 8 && (b==0 || g_more(4)); b++ ) {
		if( b && g_p(1,6) ) { LOG("reset\n"); harbol_deque_reset(&q); lo = hi = 0; CHECK(harbol_deque_empty(&q) && harbol_deque_head(&q)==SIZE_MAX && harbol_deque_tail(&q)==SIZE_MAX, "a reset deque is not empty"); CLASSIFY("reset of many"); }
		unsigned w = (unsigned)g_u(b ? 4 : 2); size_t k = b ? g_u(top + 3) : top - 3 + g_u(7); LOG("%zu times %s\n", k, w==0 ? "append" : w==1 ? "prepend" : w==2 ? "pop_front" : "pop_back"); if( hi - lo > 300000 ) break;
		for( size_t i=0; i < k; i++ ) { int64_t v = 0; size_t h = 0; bool ok = true;
			switch( w ) { case 0: v = hi++; h = harbol_deque_append(&q, &v, sizeof v); break; case 1: v = --lo; h = harbol_deque_prepend(&q, &v, sizeof v); break;
				case 2: ok = harbol_deque_pop_front(&q, &v, sizeof v); CHECK(ok==(lo < hi), "pop_front = %d with %td values", ok, (ptrdiff_t)(hi - lo)); if( ok ) { CHECK(v==lo, "pop_front gave value %td of the order", (ptrdiff_t)(v - lo)); lo++; } break;
				default: ok = harbol_deque_pop_back(&q, &v, sizeof v); CHECK(ok==(lo < hi), "pop_back = %d with %td values", ok, (ptrdiff_t)(hi - lo)); if( ok ) { --hi; CHECK(v==hi, "pop_back gave value %td from the end", (ptrdiff_t)(hi - v)); } }
			if( w < 2 ) CHECK(h != SIZE_MAX && harbol_deque_get_data(&q, h) && !memcmp(harbol_deque_get_data(&q, h), &v, sizeof v), "the handle of value %zu of the burst leads elsewhere", i);
			if( lo==hi && w > 1 && !ok ) break; }
		size_t n = (size_t)(hi - lo), k2 = 0, at = harbol_deque_head(&q); CHECK(harbol_deque_count(&q)==n, "count %zu, model %zu", harbol_deque_count(&q), n);
		for( ; at != SIZE_MAX && k2 <= n; at = harbol_deque_next(&q, at), k2++ ) { int64_t v, *p = harbol_deque_get_data(&q, at); CHECK(p, "value %zu is missing", k2); memcpy(&v, p, sizeof v); CHECK(v==lo + (int64_t)k2, "value %zu of %zu is another one", k2, n); }
		CHECK(k2==n, "walking forwards meets %zu of %zu values", k2, n);
		for( k2=0, at = harbol_deque_tail(&q); at != SIZE_MAX && k2 <= n; at = harbol_deque_prev(&q, at) ) k2++;
		CHECK(k2==n, "walking backwards meets %zu of %zu values", k2, n);
	}
	g_nontrivial(); harbol_deque_clear(&q);
}
struct Target const TARGETS[] = { { "history", history, 4000 }, { "many", many, 1 }, {0} };
