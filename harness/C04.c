/* C04: the map is an insertion-ordered dictionary, for every history of insertions, replacements, removals and growth. */
#include "pbt.h"
#include "map/map.h"

char const *const PROPERTY = "C04";
char const *const RULE = "Histories of 1..120 insert/set/remove/lookup/rehash calls on one map (initial capacity 0..40, generated hash seed, keys and values at times of up to 700 bytes, key families sharing buckets or whole hashes) mirrored by an ordered list of (key,value); "
	"after every change each key, index and a missing key are looked up. Non-trivial: an entry was removed while later entries existed, or the table grew while holding entries. Rarely, maps of 250 to 8000 entries.";
unsigned const QUICK_CASES = 1920000, THOROUGH_CASES = 12000000;
struct Known const KNOWN[] = { {0} };
typedef struct { uint8_t *k; size_t kn; uint8_t *v; size_t vn; } Ent;
static Ent E[256]; static size_t n; static struct HarbolMap *H; static bool deep, wide; static unsigned family;

static size_t common; /* length of the common start of the keys of family 4 */
static int8_t const same_hash[8][12] = {
	{ 3, -2, 9, -15, 4, 7, -6, -12, 17, -4, 4, -7 }, { -23, -9, 16, 2, 12, 7, -10, 22, -8, 18, -2, 9 },
	{ 24, -5, 3, -25, -3, 27, 0, 7, -7, 26, -1, -14 }, { 1, 6, 21, -14, -7, -6, 24, -19, -22, -10, -4, -8 },
	{ -19, 11, 19, -10, -14, -7, 0, 10, 4, 22, 4, -32 }, { -2, 0, -14, -19, 5, -6, 6, -5, -10, -38, 22, 11 },
	{ 2, 30, 2, 14, -15, 10, 10, -5, -2, -22, -20, 14 }, { -1, 4, 31, 2, 19, 3, 21, 10, 7, -17, 2, 13 }
};
static void gen_key(Ent *e) {
	if( wide && family != 4 && g_p(1,2) ) { e->kn = g_p(1,4) ? 256 : 1 + g_u(700); e->k = g_buf(e->kn); memset(e->k, 'M', e->kn); e->k[g_p(1,2) ? e->kn - 1 : 0] = (uint8_t)g_u(2); CLASSIFY("keys of hundreds of bytes"); return; }
	switch( family ) {
		case 0: { int v = (int)g_u(40); e->kn = sizeof v; e->k = g_buf(e->kn); memcpy(e->k, &v, sizeof v); break; }
		case 1: { uint64_t v = g_u(24) << 56; e->kn = 8; e->k = g_buf(8); memcpy(e->k, &v, 8); break; } /* differ in the last byte only */
		case 2: { char b[16]; int l = snprintf(b, sizeof b, "k%llu", (unsigned long long)g_u(60)); e->kn = (size_t)l + 1; e->k = g_buf(e->kn); memcpy(e->k, b, e->kn); break; }
		case 3: { size_t l = 1 + g_u(3); e->kn = l; e->k = g_buf(l); for( size_t i=0; i < l; i++ ) e->k[i] = "ab\0"[g_u(3)]; break; } /* prefixes of each other */
		case 4: { /* keys of the same 64-bit hash, whatever the seed: the sums of these differences are multiples of 2^64 */
			int8_t c[12] = {0}; for( unsigned t = (unsigned)g_u(3); t--; ) { int8_t const *d = same_hash[g_u(8)]; for( int i=0; i < 12; i++ ) c[i] = (int8_t)(c[i] + d[i]); }
			e->kn = common + 12; e->k = g_buf(e->kn); memset(e->k, 'p', common); for( int i=0; i < 12; i++ ) e->k[common + i] = (uint8_t)(128 + c[i]);
			if( g_p(1,12) ) e->k[g_u(e->kn)] ^= 1; else CLASSIFY("keys of one hash"); break; }
		default: { if( g_rare(3000) ) { e->kn = 41 + g_u(g_p(1,4) ? 70000 : 400); e->k = g_buf(e->kn); memset(e->k, 'L', e->kn); e->k[g_p(1,2) ? e->kn - 1 : g_u(e->kn)] = (uint8_t)g_u(3); CLASSIFY("long key"); break; } size_t l = 1 + g_len(40); e->kn = l; e->k = g_buf(l); for( size_t i=0; i < l; i++ ) e->k[i] = (uint8_t)g_u(256); }
	}
}
static void gen_val(Ent *e) {
	if( wide && g_p(1,2) ) { e->vn = g_p(1,4) ? 256 : 1 + g_u(700); e->v = g_buf(e->vn); memset(e->v, 'V', e->vn); e->v[g_p(1,2) ? e->vn - 1 : 0] = (uint8_t)g_u(2); CLASSIFY("values of hundreds of bytes"); return; }
	if( g_rare(4000) ) { e->vn = 50 + g_u(g_p(1,4) ? 70000 : 400); e->v = g_buf(e->vn); memset(e->v, 'L', e->vn); e->v[g_p(1,2) ? e->vn - 1 : g_u(e->vn)] = (uint8_t)g_u(3); CLASSIFY("long value"); return; }
	size_t l = 1 + g_u(6); if( g_p(1,10) ) l += g_u(40); e->vn = l; e->v = g_buf(l); bool small = g_p(1,2); for( size_t i=0; i < l; i++ ) e->v[i] = (uint8_t)(small ? g_u(2) : g_u(256)); }
static size_t find(Ent const *e) { for( size_t i=0; i < n; i++ ) if( E[i].kn==e->kn && !memcmp(E[i].k, e->k, e->kn) ) return i; return SIZE_MAX; }
static size_t find_val(Ent const *e) { for( size_t i=0; i < n; i++ ) if( E[i].vn==e->vn && !memcmp(E[i].v, e->v, e->vn) ) return i; return SIZE_MAX; }
static void check_key(Ent const *e, char const *op) {
	size_t i = find(e);
	CHECK(harbol_map_has_key(H, e->k, e->kn)==(i != SIZE_MAX), "after %s: has_key(%s) = %d, model index %zd", op, g_q(e->k, e->kn), i==SIZE_MAX, (ssize_t)i);
	size_t r = harbol_map_get_entry_index(H, e->k, e->kn);
	CHECK(r==i, "after %s: key %s is at index %zd, model %zd", op, g_q(e->k, e->kn), (ssize_t)r, (ssize_t)i);
	uint8_t *v = harbol_map_key_get(H, e->k, e->kn);
	CHECK((v != NULL)==(i != SIZE_MAX), "after %s: value of key %s missing or invented", op, g_q(e->k, e->kn));
	if( v ) CHECK(!memcmp(v, E[i].v, E[i].vn), "after %s: key %s maps to %s, model %s", op, g_q(e->k, e->kn), g_q(v, E[i].vn), g_q(E[i].v, E[i].vn));
}
static void check_val(Ent const *e, char const *op) {
	size_t i = find_val(e), r = harbol_map_idx_val(H, e->v, e->vn);
	CHECK(r==i, "after %s: value %s is at index %zd, model %zd", op, g_q(e->v, e->vn), (ssize_t)r, (ssize_t)i);
	size_t kl = 0; uint8_t *k = harbol_map_key_val(H, e->v, e->vn, &kl);
	CHECK((k != NULL)==(i != SIZE_MAX), "after %s: key of value %s", op, g_q(e->v, e->vn));
	if( k ) CHECK(kl==E[i].kn && !memcmp(k, E[i].k, kl), "after %s: value %s belongs to key %s, model %s", op, g_q(e->v, e->vn), g_q(k, kl), g_q(E[i].k, E[i].kn));
}
static void verify(char const *op) {
	CHECK(H->len==n, "after %s: %zu entries, model %zu", op, H->len, n);
	CHECK(H->cap >= n, "after %s: capacity below the number of entries", op);
	for( size_t i=0; i < n; i++ ) {
		uint8_t *v = harbol_map_idx_get(H, i);
		CHECK(v && !memcmp(v, E[i].v, E[i].vn), "after %s: entry %zu holds %s, model %s", op, i, v ? g_q(v, E[i].vn) : "nothing", g_q(E[i].v, E[i].vn));
		check_key(&E[i], op);
	}
	CHECK(harbol_map_idx_get(H, n)==NULL && harbol_map_idx_get(H, SIZE_MAX)==NULL, "after %s: entry beyond the end", op);
}
static void known_or_new(Ent *e) { if( n && g_p(1,2) ) { size_t i = g_u(n); e->kn = E[i].kn; e->k = g_buf(e->kn); memcpy(e->k, E[i].k, e->kn); } else gen_key(e); }
static void rm(size_t i) { if( i + 1 < n ) { deep = true; CLASSIFY("removal before later entries"); } memmove(&E[i], &E[i+1], (n - i - 1) * sizeof *E); n--; }

static void step(void) {
	Ent e = {0}; char op[900] = "?"; bool change = true; size_t cap = H->cap;
	switch( g_u(18) ) {
		case 0: case 1: case 2: case 3: case 4: case 5: { gen_key(&e); gen_val(&e); if( n >= 250 ) return; snprintf(op, sizeof op, "insert(%s,%s)", g_q(e.k, e.kn), g_q(e.v, e.vn)); LOG("%s\n", op);
			size_t i = find(&e); bool r = harbol_map_insert(H, e.k, e.kn, e.v, e.vn); CHECK(r==(i==SIZE_MAX), "%s = %d, key %s present", op, r, i==SIZE_MAX ? "not" : "already"); if( r ) { if( n==cap ) { deep |= n > 0; CLASSIFY("growth on insertion"); } E[n++] = e; } break; }
		case 6: case 7: { known_or_new(&e); gen_val(&e); if( n >= 250 ) return; snprintf(op, sizeof op, "key_set(%s,%s)", g_q(e.k, e.kn), g_q(e.v, e.vn)); LOG("%s\n", op); size_t i = find(&e); bool r = harbol_map_key_set(H, e.k, e.kn, e.v, e.vn); CHECK(r, "%s failed", op); if( i==SIZE_MAX ) { if( n==cap ) deep |= n > 0; E[n++] = e; } else { CLASS_IF(E[i].vn != e.vn, "value replaced by one of another size"); E[i].v = e.v; E[i].vn = e.vn; } break; }
		case 8: { size_t i = g_u(n + 2); gen_val(&e); snprintf(op, sizeof op, "idx_set(%zu,%s)", i, g_q(e.v, e.vn)); LOG("%s\n", op); bool r = harbol_map_idx_set(H, i, e.v, e.vn); CHECK(r==(i < n), "%s = %d", op, r); if( r ) { E[i].v = e.v; E[i].vn = e.vn; } break; }
		case 9: case 10: case 11: { known_or_new(&e); snprintf(op, sizeof op, "key_rm(%s)", g_q(e.k, e.kn)); LOG("%s\n", op); size_t i = find(&e); bool r = harbol_map_key_rm(H, e.k, e.kn); CHECK(r==(i != SIZE_MAX), "%s = %d", op, r); if( r ) rm(i); break; }
		case 12: { size_t i = g_p(1,8) ? SIZE_MAX : g_u(n + 1); snprintf(op, sizeof op, "idx_rm(%zd)", (ssize_t)i); LOG("%s\n", op); bool r = harbol_map_idx_rm(H, i); CHECK(r==(i < n), "%s = %d", op, r); if( r ) rm(i); break; }
		case 13: case 14: { known_or_new(&e); gen_val(&e); if( n && g_p(1,2) ) { Ent *o = &E[g_u(n)]; e.vn = o->vn; e.v = g_buf(e.vn); memcpy(e.v, o->v, e.vn); } LOG("lookup %s / value %s\n", g_q(e.k, e.kn), g_q(e.v, e.vn)); check_key(&e, "lookup"); check_val(&e, "lookup"); change = false; break; }
		case 15: { size_t c = g_p(1,3) ? n : g_u(n * 2 + 20); snprintf(op, sizeof op, "rehash(%zu)", c); LOG("%s\n", op); bool r = harbol_map_rehash(H, c); if( c >= n && n ) CHECK(r, "%s failed with %zu entries", op, n); deep |= n > 0 && H->cap != cap; CLASS_IF(n && c==n, "rehash to exactly the number of entries"); CLASS_IF(c < n, "rehash below the number of entries"); break; }
		case 16: { if( g_p(3,4) ) return; snprintf(op, sizeof op, "clear+init"); LOG("%s\n", op); harbol_map_clear(H); CHECK(H->len==0, "clear kept entries"); n = 0; vf_set_entropy(g_u(1000)); CHECK(harbol_map_init(H, g_u(20)), "init failed"); break; }
		default: { gen_key(&e); check_key(&e, "probe"); change = false; }
	}
	if( change ) verify(op);
}
static void history(void) {
	n = 0; deep = false; family = (unsigned)g_u(6); wide = g_p(1,60); common = family != 4 ? 0 : g_p(1,2) ? 0 : g_u(100);
	vf_set_entropy(g_u(1u << 20));
	size_t c = g_p(1,2) ? (size_t)1 << g_u(6) : g_u(41); bool heap = g_p(1,2);
	LOG("capacity %zu, key family %u\n", c, family);
	if( heap ) H = harbol_map_new(c); else { H = g_zbuf(sizeof *H); bool r = false; if( g_p(1,2) ) *H = harbol_map_make(c, &r); else r = harbol_map_init(H, c); CHECK(r, "construction failed"); }
	CHECK(H != NULL, "construction failed");
	verify("construction");
	int lim = g_p(1,6) ? 120 : 40;
	for( int k=0; k < lim && g_more(18); k++ ) step();
	if( deep ) g_nontrivial();
	if( heap ) { harbol_map_free(&H); CHECK(H==NULL, "reference not cleared"); harbol_map_free(&H); } else harbol_map_clear(H);
}
/* hundreds to thousands of entries (more takes too long: a missing key is looked for everywhere); the order is mirrored by the numbers in the keys */
static void many(void) {
	size_t const top = (size_t)1 << (8 + g_u(g_p(1,8) ? 6 : 4)), N = top - 3 + g_u(7); uint32_t *ord = g_buf((N + 70) * sizeof *ord), stride = 1 + 2 * (uint32_t)g_u(40000); size_t m = 0; unsigned w = (unsigned)g_u(3); uint8_t key[16] = {0}; size_t kn = w==0 ? 4 : w==1 ? 16 : 9;
	#define KEY(x) do { uint32_t k_ = (x) * stride; memcpy(key + (w==1 ? 12 : 0), &k_, 4); } while(0)
	vf_set_entropy(g_u(1u << 20)); struct HarbolMap *h = harbol_map_new(g_p(1,2) ? g_u(40) : N); CHECK(h, "construction failed"); LOG("%zu entries, keys of %zu bytes, stride %u\n", N, kn, stride);
	for( uint32_t i=0; i < N; i++ ) { KEY(i); CHECK(harbol_map_insert(h, key, kn, &i, sizeof i), "insertion %u failed", i); ord[m++] = i; }
	for( int k=0; k < 12 && g_more(6); k++ ) {
		size_t i = g_p(1,3) ? (size_t)g_u(3) : g_p(1,2) ? m - 1 - g_u(3) : g_u(m); uint32_t v;
		switch( g_u(5) ) {
			case 0: KEY(ord[i]); LOG("key_rm of entry %zu\n", i); CHECK(harbol_map_key_rm(h, key, kn), "removing entry %zu by key failed", i); memmove(ord + i, ord + i + 1, (--m - i) * sizeof *ord); break;
			case 1: LOG("idx_rm(%zu)\n", i); CHECK(harbol_map_idx_rm(h, i), "removing entry %zu failed", i); memmove(ord + i, ord + i + 1, (--m - i) * sizeof *ord); break;
			case 2: { size_t c = m + g_u(1000); LOG("rehash(%zu)\n", c); CHECK(harbol_map_rehash(h, c), "rehash to %zu failed with %zu entries", c, m); break; }
			case 3: v = (uint32_t)(N + 10 + k); KEY(v); LOG("insert one\n"); CHECK(harbol_map_insert(h, key, kn, &v, sizeof v), "insertion failed"); ord[m++] = v; break;
			default: v = ord[i]; KEY(v); CHECK(!harbol_map_insert(h, key, kn, &v, sizeof v), "a key was inserted twice"); CHECK(harbol_map_idx_val(h, &v, sizeof v)==i, "value %zu is not found", i);
		}
	}
	CHECK(h->len==m, "%zu entries, model %zu", h->len, m);
	for( size_t i=0; i < m; i++ ) { KEY(ord[i]); uint32_t *v = harbol_map_idx_get(h, i); CHECK(v && *v==ord[i], "entry %zu of %zu is %s", i, m, v ? "another one" : "missing"); size_t at = harbol_map_get_entry_index(h, key, kn); CHECK(at==i, "the key of entry %zu of %zu is found at %zd", i, m, (ssize_t)at); }
	for( int k=0; k < 6; k++ ) { size_t i = g_u(m), kl = 0; KEY(ord[i]); uint8_t *q = harbol_map_key_val(h, &ord[i], 4, &kl); CHECK(q && kl==kn && !memcmp(q, key, kn), "value %zu belongs to another key", i); uint32_t *v = harbol_map_key_get(h, key, kn); CHECK(v && *v==ord[i], "the key of entry %zu does not give its value", i);
		uint8_t big[600]; size_t l = 1 + g_u(sizeof big); memset(big, (int)g_u(256), l); uint32_t was = ord[i]; CHECK(harbol_map_key_set(h, key, kn, big, l) && h->len==m, "replacing the value of entry %zu", i); CHECK(harbol_map_idx_val(h, big, l)==i || l==4, "the new value of entry %zu is not found", i); CHECK(harbol_map_idx_val(h, &was, 4)==SIZE_MAX || l==4, "the old value of entry %zu is still found", i); CHECK(harbol_map_idx_set(h, i, &was, 4), "putting the value back"); }
	{ uint32_t none = (uint32_t)N + 600; size_t kl; CHECK(harbol_map_idx_val(h, &none, 4)==SIZE_MAX && !harbol_map_key_val(h, &none, 4, &kl), "a value never stored is found"); }
	KEY((uint32_t)N + 500); CHECK(!harbol_map_has_key(h, key, kn), "a key never stored is found"); g_nontrivial(); harbol_map_free(&h);
}
struct Target const TARGETS[] = { { "history", history, 2000 }, { "many", many, 1 }, {0} };
