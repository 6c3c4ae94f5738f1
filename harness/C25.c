/* C25: intrusive lists, parallel buffers and the small memory/text helpers every module is built on. */
#include "pbt.h"
#include "harbol_common_defines.h"
#include "harbol_common_includes.h"

char const *const PROPERTY = "C25";
char const *const RULE = "Histories of 1..80 head/tail/after/remove calls on singly and doubly linked intrusive lists (with and without a tail) mirrored by an array of nodes; shifts of 1..4 parallel buffers by any amount; resizing of 1..5 parallel buffers with an allocation failing at a generated point; "
	"and copies, formatted texts, string switches, file buffers compared with plain C code, in exact-size memory. Non-trivial: a node was removed from or inserted into the inside of a list, an allocation failed, elements were moved, or a text helper got at least 2 bytes.";
unsigned const QUICK_CASES = 10000000, THOROUGH_CASES = 80000000;
struct Known const KNOWN[] = { {0} };

/* ---- lists: the links are the first member, as documented */
typedef struct { struct HarbolTriLink l; int id; } Node;
enum { MAXN = 64 };
static Node *L[MAXN]; static size_t n; static Node *head, *tail;
static Node *fresh(size_t sz, int id) { Node *p = g_buf(sizeof *p); memset(p, 0xA5, sizeof *p); (void)sz; p->id = id; return p; }
static void insert(size_t at, Node *p) { memmove(&L[at+1], &L[at], (n - at) * sizeof *L); L[at] = p; n++; }
static void verify(bool two, bool has_tail, char const *op) {
	size_t i = 0;
	for( Node *p = head; p; p = harbol_link_get_a(p), i++ ) {
		CHECK(i < n, "after %s: walking from the head visits more than %zu nodes", op, n);
		CHECK(p==L[i], "after %s: position %zu is node %d, model %d", op, i, p->id, L[i]->id);
		CHECK(*harbol_link_get_a_ref(p)==(i+1 < n ? L[i+1] : NULL), "after %s: the reference to the next node of position %zu is wrong", op, i);
		if( two ) { CHECK(harbol_bilink_get_b(p)==(i ? L[i-1] : NULL), "after %s: the previous node of position %zu is wrong", op, i); CHECK(*harbol_bilink_get_b_ref(p)==(i ? L[i-1] : NULL), "after %s: the reference to the previous node of position %zu is wrong", op, i); }
		CHECK(p->l.c==(void *)(uintptr_t)0xA5A5A5A5A5A5A5A5ull, "after %s: memory behind the links of position %zu was written", op, i);
	}
	CHECK(i==n, "after %s: walking from the head visits %zu nodes, model %zu", op, i, n);
	if( has_tail ) CHECK(tail==(n ? L[n-1] : NULL), "after %s: the tail is not the last node", op);
}
static void lists(void) {
	bool two = g_p(2,3), has_tail = g_p(3,4), deep = false; n = 0; head = tail = NULL; int id = 0;
	LOG("%s linked list%s\n", two ? "doubly" : "singly", has_tail ? "" : " without tail"); CLASS_IF(two, "doubly linked"); CLASS_IF(!two, "singly linked");
	for( int k=0; k < 80 && g_more(12); k++ ) {
		switch( g_u(two && has_tail ? 8 : 5) ) {
			case 0: case 1: if( n < MAXN-1 ) { Node *p = fresh(0, id++); LOG("head %d\n", p->id); (two ? harbol_bilink_add_to_head : harbol_link_add_to_head)(&head, p, has_tail ? &tail : NULL); insert(0, p); } break;
			case 2: if( has_tail && n < MAXN-1 ) { Node *p = fresh(0, id++); LOG("tail %d\n", p->id); (two ? harbol_bilink_add_to_tail : harbol_link_add_to_tail)(&head, p, &tail); insert(n, p); } break;
			case 3: case 4: if( n && n < MAXN-1 ) { size_t at = g_u(n); Node *p = fresh(0, id++); LOG("%d after %d\n", p->id, L[at]->id); (two ? harbol_bilink_add_after : harbol_link_add_after)(L[at], p); if( at + 1==n ) tail = has_tail ? p : NULL; /* the caller owns the tail */ else deep = true; insert(at + 1, p); } break;
			default: if( n ) { size_t at = g_u(n); LOG("remove %d\n", L[at]->id); deep |= at && at + 1 < n; CLASS_IF(n==1, "only node removed"); harbol_bilink_remove(&head, L[at], &tail); n--; memmove(&L[at], &L[at+1], (n - at) * sizeof *L); } break;
		}
		verify(two, has_tail, "the last call");
	}
	/* the plain setters */
	if( n ) { size_t i = g_u(n), j = g_u(n), m = g_u(n); Node *p = L[i]; void *b = p->l.b; harbol_link_set_a(p, L[j]); CHECK(p->l.a==(void *)L[j] && p->l.b==b, "setting the first link"); if( two ) { harbol_bilink_set_b(p, L[m]); CHECK(p->l.a==(void *)L[j] && p->l.b==(void *)L[m], "setting the second link"); }
		b = p->l.b; harbol_trilink_set_c(p, L[m]); CHECK(p->l.a==(void *)L[j] && p->l.b==b && harbol_trilink_get_c(p)==L[m] && *harbol_trilink_get_c_ref(p)==L[m], "setting the third link"); }
	if( deep ) g_nontrivial();
}

/* ---- parallel buffers */
static void shifts(void) {
	size_t nb = 1 + g_u(4), len = g_len(40), sz[4]; Str B[4] = {0}; uint8_t *b[4]; bool deep = false;
	for( size_t i=0; i < nb; i++ ) { sz[i] = 1 + g_u(12); for( size_t j=0; j < len * sz[i]; j++ ) s_addc(&B[i], (char)(1 + g_u(255))); b[i] = g_buf(len * sz[i]); if( len ) memcpy(b[i], B[i].p, B[i].n); }
	size_t full = len;
	for( int k=0; k < 6 && g_more(3); k++ ) {
		size_t at = g_p(1,8) ? g_u64() : g_u(len + 2), amount = g_p(1,6) ? g_u64() : g_len(len + 2), l = len; bool single = nb==1 && g_p(1,2), r;
		LOG("shift %zu buffers of %zu at %zu by %zu\n", nb, len, at, amount);
		if( single ) r = array_shift_up(b[0], &l, at, sz[0], amount);
		else r = nb==1 ? multi_array_shift_up(&l, at, amount, 1, b[0], sz[0]) : nb==2 ? multi_array_shift_up(&l, at, amount, 2, b[0], sz[0], b[1], sz[1]) : nb==3 ? multi_array_shift_up(&l, at, amount, 3, b[0], sz[0], b[1], sz[1], b[2], sz[2]) : multi_array_shift_up(&l, at, amount, 4, b[0], sz[0], b[1], sz[1], b[2], sz[2], b[3], sz[3]);
		CHECK(r==(at < len), "shifting at %zu of %zu elements was %s", at, len, r ? "accepted" : "refused");
		if( r ) { size_t d = amount ? amount : 1; if( d > len - at ) d = len - at; deep |= at + d < len; for( size_t i=0; i < nb; i++ ) { s_del(&B[i], at * sz[i], d * sz[i]); for( size_t j=0; j < d * sz[i]; j++ ) s_addc(&B[i], 0); } len -= d; }
		CHECK(l==len, "%zu elements are left, model %zu", l, len);
		for( size_t i=0; i < nb; i++ ) CHECK(B[i].n==full * sz[i] && (!B[i].n || !memcmp(b[i], B[i].p, B[i].n)), "buffer %zu holds %s, model %s", i, g_q(b[i], full * sz[i]), g_q(B[i].p, B[i].n));
	}
	if( deep ) g_nontrivial();
}
static void multi(void) {
	size_t nb = 1 + g_u(5), sz[5], len = g_len(20); uint8_t *b[5]; Str B[5] = {0}; bool deep = false; for( size_t i=0; i < nb; i++ ) { sz[i] = 1 + g_u(16); b[i] = (uint8_t *)1; }
	/* unused trailing arguments are ignored by both functions */
	bool inj = g_p(1,3); LOG("multi_calloc of %zu x %zu%s\n", nb, len, inj ? " with an allocation failure" : ""); if( inj ) vf_fail_after(g_u(nb));
	bool r = harbol_multi_calloc(len, nb, &b[0], sz[0], &b[1], sz[1], &b[2], sz[2], &b[3], sz[3], &b[4], sz[4]); bool hit = vf_fail_hit(); vf_fail_off();
	CHECK(r==!hit, "multi_calloc says %d", r);
	if( !r ) { for( size_t i=0; i < nb; i++ ) CHECK(b[i]==NULL, "a buffer is kept although the allocation failed"); g_nontrivial(); return; }
	for( size_t i=0; i < nb; i++ ) { CHECK(b[i], "no buffer"); for( size_t j=0; j < len * sz[i]; j++ ) CHECK(b[i][j]==0, "a new buffer is not zeroed"); for( size_t j=0; j < len * sz[i]; j++ ) { b[i][j] = (uint8_t)(1 + g_u(255)); s_addc(&B[i], (char)b[i][j]); } }
	for( int k=0; k < 8 && g_more(3); k++ ) {
		size_t nl = g_len(30); inj = g_p(1,3); uint8_t *old[5]; memcpy(old, b, sizeof old);
		LOG("multi_recalloc %zu -> %zu%s\n", len, nl, inj ? " with an allocation failure" : ""); if( inj ) vf_fail_after(g_u(nb + 1));
		r = harbol_multi_recalloc(nl, len, nb, &b[0], sz[0], &b[1], sz[1], &b[2], sz[2], &b[3], sz[3], &b[4], sz[4]); hit = vf_fail_hit(); vf_fail_off();
		CHECK(r || hit, "multi_recalloc failed");
		if( r ) { for( size_t i=0; i < nb; i++ ) { if( nl < len ) s_del(&B[i], nl * sz[i], (len - nl) * sz[i]); else for( size_t j=0; j < (nl - len) * sz[i]; j++ ) s_addc(&B[i], 0); } len = nl; deep = true; }
		else { deep = true; for( size_t i=0; i < nb; i++ ) CHECK(b[i]==old[i], "a buffer was exchanged by a refused call"); CLASSIFY("multi_recalloc refused"); }
		for( size_t i=0; i < nb; i++ ) CHECK(!B[i].n || !memcmp(b[i], B[i].p, B[i].n), "buffer %zu holds %s, model %s", i, g_q(b[i], B[i].n), g_q(B[i].p, B[i].n));
		if( len ) { size_t i = g_u(nb), j = g_u(len * sz[i]); b[i][j] = (uint8_t)g_u(256); B[i].p[j] = (char)b[i][j]; }
	}
	if( deep ) g_nontrivial();
	if( g_p(1,3) ) { size_t i = g_u(nb); free(b[i]); b[i] = NULL; CLASSIFY("cleanup with an empty reference"); }
	harbol_multi_cleanup(nb, &b[0], &b[1], &b[2], &b[3], &b[4]); for( size_t i=0; i < nb; i++ ) CHECK(b[i]==NULL, "a reference was not cleared");
}
static void recalloc(void) {
	size_t sz = 1 + g_u(16), len = 0; uint8_t *p = NULL; Str M = {0};
	for( int k=0; k < 12 && g_more(5); k++ ) {
		bool huge = g_p(1,20); size_t nl = huge ? sz==1 ? SIZE_MAX - g_u(3) : SIZE_MAX / sz + 1 + g_u(3) : 1 + g_len(40); bool inj = g_p(1,8); LOG("recalloc %zu -> %zu elements of %zu%s\n", len, nl, sz, inj ? " with an allocation failure" : ""); if( inj ) vf_fail_after(0);
		uint8_t *q = harbol_recalloc(p, nl, sz, len); bool hit = vf_fail_hit(); vf_fail_off();
		if( huge ) { CHECK(q==NULL, "memory for %zu elements of %zu bytes", nl, sz); CLASSIFY("huge"); continue; }
		CHECK((q != NULL)==!hit, "recalloc"); if( !q ) { CHECK(!M.n || !memcmp(p, M.p, M.n), "the old block changed"); continue; } p = q;
		if( nl < len ) s_del(&M, nl * sz, (len - nl) * sz); else for( size_t j=0; j < (nl - len) * sz; j++ ) s_addc(&M, 0);
		CHECK(!M.n || !memcmp(p, M.p, M.n), "the block holds %s, model %s", g_q(p, M.n), g_q(M.p, M.n)); len = nl; g_nontrivial();
		for( size_t j=0; j < M.n; j++ ) M.p[j] = (char)(p[j] = (uint8_t)(1 + (j + k) % 255));
		if( g_p(1,6) ) { len = 0; M.n = 0; CLASSIFY("kept block without elements"); }
	}
	harbol_cleanup(&p); CHECK(p==NULL, "the reference was not cleared");
}

/* ---- copies and texts */
static void texts(void) {
	Str t = {0}; size_t len = g_rare(300) ? 60 + g_u(g_p(1,4) ? 70000 : 1000) : g_len(60); if( len <= 60 ) for( size_t i=0; i < len; i++ ) s_addc(&t, (char)(1 + g_u(g_p(1,2) ? 4 : 255))); else { size_t x = g_u64() | 1; bool one = g_p(1,2); for( size_t i=0; i < len; i++ ) s_addc(&t, (char)(one ? 5 : 1 + (x * (i + 1) >> 40) % 255)); CLASSIFY("long text"); } if( len >= 2 ) g_nontrivial();
	char *s = s_exact(&t); LOG("text %s\n", g_q(s, len));
	{ char *d = g_buf(len); CHECK(len==0 || (harbol_mempcpy(d, s, len)==d + len && !memcmp(d, s, len)), "mempcpy"); }
	{ int c = (int)(1 + g_u(g_p(1,2) ? 4 : 255)); char *d = g_buf(len); memset(d, 0, len); char *stop = memchr(s, c, len); size_t k = stop ? (size_t)(stop - s) + 1 : len; void *e = harbol_memccpy(d, s, c, len); CHECK(e==(stop ? d + k : NULL), "memccpy ends at %p, expected %p", e, (void *)(stop ? d + k : NULL)); CHECK(!memcmp(d, s, k), "memccpy copied other bytes"); for( size_t i=k; i < len; i++ ) CHECK(d[i]==0, "memccpy wrote behind the stop byte"); }
	bool inj = g_p(1,8); if( inj ) vf_fail_after(0); char *d = dup_cstr(len, s); vf_fail_off(); CHECK((d==NULL)==inj, "dup_cstr"); if( d ) { CHECK(d != s && !memcmp(d, s, len + 1), "dup_cstr holds %s", g_q(d, len + 1)); free(d); }
	size_t bytes = 1 + g_u(len + 1); if( inj ) vf_fail_after(0); uint8_t *b = dup_data(s, bytes); vf_fail_off(); CHECK((b==NULL)==inj, "dup_data"); if( b ) { CHECK(!memcmp(b, s, bytes), "dup_data holds %s", g_q(b, bytes)); free(b); }
	{ int w = (int)g_u(400), x = (int)g_u64(); Str f = {0}; s_printf(&f, "%*d|", w, x); s_add(&f, s, len); s_printf(&f, "|%.3f", x / 7.0); if( inj ) vf_fail_after(0); char *q = sprintf_alloc("%*d|%s|%.3f", w, x, s, x / 7.0); vf_fail_off(); CHECK((q==NULL)==inj, "sprintf_alloc"); if( q ) { CHECK(!strcmp(q, s_exact(&f)), "sprintf_alloc gives %s, expected %s", g_q(q, strlen(q)), g_q(f.p, f.n)); free(q); } }
	{ /* resizing a plain string keeps the text and zeroes what is new */
		size_t l = len, nl = g_len(80); uint8_t *p = malloc(len + 1); memcpy(p, s, len + 1); if( inj ) vf_fail_after(0); uint8_t *q = harbol_resize_string(p, 1, &l, nl); vf_fail_off(); CHECK((q==NULL)==inj, "resize_string");
		if( q ) { CHECK(l==nl, "resized to %zu, length %zu", nl, l); CHECK(!memcmp(q, s, nl < len ? nl : len + 1), "resizing changed the text"); for( size_t i=len + 1; i <= nl; i++ ) CHECK(q[i]==0, "byte %zu of the resized text is not zero", i); free(q); } else { CHECK(l==len && !memcmp(p, s, len + 1), "a refused resize changed the text"); free(p); } }
	{ /* hashes depend on the bytes, the length and the seed only */
		uint8_t *c = g_buf(len); if( len ) memcpy(c, s, len); size_t seed = g_u64(); if( len ) CHECK(array_hash(c, len, seed)==array_hash((uint8_t *)s, len, seed), "equal bytes hash differently"); char *z = g_cstr(s, len); CHECK(string_hash(z, seed)==string_hash(s, seed), "equal texts hash differently");
		bool ascii = true; for( size_t i=0; i < len; i++ ) ascii &= s[i] > 0; if( len && ascii ) CHECK(string_hash(s, seed)==array_hash((uint8_t *)s, len, seed), "a text hashes differently from its bytes");
		size_t v = g_u64(); uint8_t le[8]; for( int i=0; i < 8; i++ ) le[i] = (uint8_t)(v >> 8 * i); CHECK(int_hash(v, seed)==array_hash(le, 8, seed), "the integer %zu hashes differently from its bytes", v);
		double fl; memcpy(&fl, &v, 8); CHECK(float_hash(fl, seed)==int_hash(v, seed), "the number %a hashes differently from its bytes", fl); CHECK(ptr_hash(s, seed)==ptr_hash(&s[0], seed), "equal pointers hash differently"); }
}
static void switches(void) {
	static char X[4][300]; if( g_p(1,8) ) for( int i=0; i < 4; i++ ) { size_t k = 20 + g_u(270); memset(X[i], 'x', k); X[i][k] = 0; if( i && g_p(1,2) ) memcpy(X[i], X[i-1], 300); X[i][g_p(1,2) ? strlen(X[i]) - 1 : g_u(k)] = "xy"[g_u(2)]; }
	static char const *const W[] = { "", "a", "ab", "abc", "b", "A", "a ", "aa", X[0], X[1], X[2], X[3] }; size_t k = g_u(7); char const *arg[7] = {0}; char const *key = W[g_u(12)]; key = g_cstr(key, strlen(key)); size_t want = SIZE_MAX;
	for( size_t i=0; i < k; i++ ) { arg[i] = W[g_u(12)]; arg[i] = g_cstr(arg[i], strlen(arg[i])); if( want==SIZE_MAX && !strcmp(arg[i], key) ) want = i; }
	size_t got = cstr_switch(key, arg[0], arg[1], arg[2], arg[3], arg[4], arg[5], arg[6], (char *)NULL); LOG("switch %s over %zu\n", key, k); CHECK(got==want, "%s is case %zd, expected %zd", key, (ssize_t)got, (ssize_t)want); if( k > 1 ) g_nontrivial();
}
static void files(void) {
	Str t = {0}; size_t len = g_p(1,20) ? 3000 + g_u(g_p(1,6) ? 200000 : 6000) : g_len(3000); char last = "\n\r\0\377a"[g_u(5)]; for( size_t i=0; i < len; i++ ) s_addc(&t, i + 1==len ? last : i < 40 ? (char)g_u(256) : (char)(i * 7)); char path[300]; snprintf(path, sizeof path, "%s/file", g_scratch()); FILE *f = fopen(path, "wb"); CHECK(f, "no scratch file"); fwrite(t.p ? t.p : "", 1, t.n, f); fclose(f);
	size_t n1 = 12345; bool text = g_p(1,2), inj = g_p(1,8); if( inj ) vf_fail_after(0); char *b = text ? make_buffer_from_text(path, &n1) : (char *)make_buffer_from_binary(path, &n1); bool hit = vf_fail_hit(); vf_fail_off(); LOG("file of %zu bytes\n", len);
	CHECK((b != NULL)==(len && !hit), "%s", b ? "a buffer out of nothing" : "no buffer"); if( b ) { CHECK(n1==len && !memcmp(b, t.p, len), "%zu of %zu bytes read", n1, len); CHECK(b[len]==0, "not terminated"); free(b); g_nontrivial(); }
	f = fopen(path, "rb"); CHECK(get_file_size(f)==(ssize_t)len, "size %zd of %zu", get_file_size(f), len); CHECK(ftell(f)==0, "the file is not rewound"); fclose(f); remove(path);
	b = (char *)make_buffer_from_binary(path, &n1); CHECK(b==NULL, "read a missing file");
}
struct Target const TARGETS[] = { { "lists", lists, 10 }, { "shifts", shifts, 6 }, { "multi", multi, 6 }, { "recalloc", recalloc, 4 }, { "texts", texts, 6 }, { "switches", switches, 2 }, { "files", files, 1 }, {0} };
