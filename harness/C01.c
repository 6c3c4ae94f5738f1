/* C01: dynamic strings behave as the plain text they hold, for every history of edits. */
#include "pbt.h"
#include "str/str.h"

char const *const PROPERTY = "C01";
char const *const RULE = "Histories of 1..60 editing/query calls on three strings (constructed, never-set, or heap strings), each mirrored by a plain byte-string model; "
	"after every call length, bytes and terminator of all strings are compared. Non-trivial: the history changed text at least 3 times and shrank or rebuilt a string at least once.";
unsigned const QUICK_CASES = 1600000, THOROUGH_CASES = 30000000;
struct Known const KNOWN[] = { {0} };

enum { NS = 3 };
static struct HarbolString *H[NS]; static Str M[NS];
static int mutations, rebuilds;

static char const small_alpha[] = "aabbAB c\tZz09_%\n";
static void gen_text(Str *o, size_t max) {
	size_t n = g_len(max); if( max >= 24 && g_p(1,250) ) { n = 500 + g_u(6000); CLASSIFY("long argument"); } unsigned mode = (unsigned)g_u(6);
	for( size_t i=0; i < n; i++ ) {
		char c;
		if( mode==0 ) c = (char)(1 + g_u(255));
		else if( mode < 4 ) c = "ab"[g_u(2)];
		else c = small_alpha[g_u(sizeof small_alpha - 1)];
		s_addc(o, c);
	}
}
static char *text(size_t max, size_t *n) { Str s = {0}; gen_text(&s, max); if( n ) *n = s.n; return s_exact(&s); }
static char gen_chr(void) { return g_p(1,5) ? (char)(1 + g_u(255)) : small_alpha[g_u(sizeof small_alpha - 1)]; }

static void verify(int i, char const *op) {
	struct HarbolString const *h = H[i];
	CHECK(harbol_string_len(h)==M[i].n, "after %s: string %d reports length %zu, model %zu (%s)", op, i, harbol_string_len(h), M[i].n, g_q(M[i].p, M[i].n));
	char const *c = harbol_string_cstr(h);
	CHECK(c==harbol_string_mut_cstr(h), "after %s: const and mutable views differ", op);
	if( c==NULL ) CHECK(M[i].n==0, "after %s: no text, model has %s", op, g_q(M[i].p, M[i].n));
	else {
		CHECK(strlen(c)==M[i].n, "after %s: string %d holds %s, strlen %zu, model %s", op, i, g_q(c, strnlen(c, M[i].n + 8)), strlen(c), g_q(M[i].p, M[i].n));
		CHECK(s_eq(&M[i], c, M[i].n), "after %s: string %d holds %s, model %s", op, i, g_q(c, M[i].n), g_q(M[i].p, M[i].n));
	}
	CHECK(harbol_string_empty(h)==(M[i].n==0), "after %s: emptiness wrong", op);
}
static void set(Str *m, void const *p, size_t n) { Str t = {0}; s_add(&t, p, n); *m = t; }
static int sgn(int x) { return (x > 0) - (x < 0); }
static long find(char const *p, size_t n, size_t from, char const *w, size_t wn) {
	for( size_t i=from; i + wn <= n; i++ ) if( !memcmp(p + i, w, wn) ) return (long)i;
	return -1;
}
/* a substring of the text (likely to occur) or random text */
static char *needle(int i, size_t *n) {
	if( M[i].n && g_p(3,4) ) {
		size_t at = g_u(M[i].n), l = 1 + g_u(4); if( at + l > M[i].n ) l = M[i].n - at;
		*n = l; return g_cstr(M[i].p + at, l);
	}
	Str s = {0}; gen_text(&s, 4); if( s.n==0 ) s_addc(&s, 'a'); *n = s.n; return s_exact(&s);
}
static char *mkfile(Str const *s) {
	static char path[300]; snprintf(path, sizeof path, "%s/t.txt", g_scratch());
	FILE *f = fopen(path, "wb"); fwrite(s->p ? s->p : "", 1, s->n, f); fclose(f); return path;
}

static bool is_heap[NS];
static void construct(int i) {
	is_heap[i] = false;
	M[i] = (Str){0};
	size_t n; 
	switch( g_u(5) ) {
		case 0: is_heap[i] = true; H[i] = harbol_string_new(NULL); LOG("s%d = new(NULL)\n", i); break;
		case 1: { char *t = text(40, &n); is_heap[i] = true; H[i] = harbol_string_new(t); set(&M[i], t, n); LOG("s%d = new(%s)\n", i, g_q(t, n)); break; }
		case 2: { char *t = text(40, &n); H[i] = g_zbuf(sizeof *H[i]); bool r = true; *H[i] = harbol_string_make(t, &r); CHECK(r==(n > 0), "make(%s) result %d", g_q(t,n), r); set(&M[i], t, n); LOG("s%d = make(%s)\n", i, g_q(t, n)); break; }
		case 3: { char *t = text(40, &n); H[i] = g_zbuf(sizeof *H[i]); bool r = harbol_string_init(H[i], t); CHECK(r==(n > 0), "init(%s) result %d", g_q(t,n), r); set(&M[i], t, n); LOG("s%d = init(%s)\n", i, g_q(t, n)); break; }
		default: H[i] = g_zbuf(sizeof *H[i]); LOG("s%d = {0}\n", i);
	}
	CHECK(H[i] != NULL, "construction failed");
}

static void step(void) {
	int const i = (int)g_u(NS), j = (int)g_u(NS);
	struct HarbolString *h = H[i]; Str *m = &M[i];
	size_t n, wn; char op[1800];
	snprintf(op, sizeof op, "?");
	unsigned what = (unsigned)g_u(31); if( m->n > 5000 && ((what >= 14 && what <= 17) || what==19 || what==20) ) what -= 14; /* searching long texts under address checking is quadratic */
	switch( what ) {
		case 0: case 1: { char c = gen_chr(); snprintf(op, sizeof op, "add_char(s%d,%s)", i, g_q(&c,1)); LOG("%s\n", op); CHECK(g_p(1,8) ? harbol_string_add(h, c) : harbol_string_add_char(h, c), "%s failed", op); s_addc(m, c); mutations++; break; }
		case 2: { char c = gen_chr(); size_t a = g_len(40); if( g_p(1,60) ) { a = SIZE_MAX - g_u(m->n + 3); if( g_p(1,3) ) a = SIZE_MAX / 2 + g_u(9); LOG("add_char_rep(s%d,%zd)\n", i, (ssize_t)a); CHECK(!harbol_string_add_char_rep(h, c, a), "adding %zu characters to %zu was accepted", a, m->n); CLASSIFY("huge repetition refused"); break; }
			if( g_p(1,400) ) { a = 60000 + g_u(20000); if( m->n > 100000 ) break; CLASSIFY("long text"); }
			snprintf(op, sizeof op, "add_char_rep(s%d,%s,%zu)", i, g_q(&c,1), a); LOG("%s\n", op); CHECK(harbol_string_add_char_rep(h, c, a), "%s failed", op); for( size_t k=0; k < a; k++ ) s_addc(m, c); mutations++; break; }
		case 3: case 4: { snprintf(op, sizeof op, "add_str(s%d,s%d)", i, j); LOG("%s\n", op);
			if( M[j].n + m->n > 3000 ) break;
			bool r = g_p(1,8) ? harbol_string_add(h, H[j]) : harbol_string_add_str(h, H[j]); CHECK(r || M[j].n==0, "%s failed", op);
			Str t = {0}; s_add(&t, M[j].p, M[j].n); s_add(m, t.p, t.n); CLASS_IF(i==j && t.n, "append string to itself"); mutations++; break; }
		case 5: case 6: { char *t = text(30, &n); snprintf(op, sizeof op, "add_cstr(s%d,%s)", i, g_q(t,n)); LOG("%s\n", op);
			bool r = g_p(1,8) ? harbol_string_add(h, t) : harbol_string_add_cstr(h, t); CHECK(r || n==0, "%s failed", op); s_add(m, t, n); mutations++; break; }
		case 7: case 8: { snprintf(op, sizeof op, "copy_str(s%d,s%d)", i, j); LOG("%s\n", op);
			bool r = g_p(1,8) ? harbol_string_copy(h, H[j]) : harbol_string_copy_str(h, H[j]); CHECK(r || M[j].n==0, "%s failed", op);
			if( r ) { Str t = {0}; s_add(&t, M[j].p, M[j].n); if( t.n < m->n ) rebuilds++; *m = t; mutations++; } break; }
		case 9: case 10: { char *t = text(30, &n); snprintf(op, sizeof op, "copy_cstr(s%d,%s)", i, g_q(t,n)); LOG("%s\n", op);
			bool r = g_p(1,8) ? harbol_string_copy(h, t) : harbol_string_copy_cstr(h, t); CHECK(r || n==0, "%s failed", op);
			if( r ) { CLASS_IF(n < m->n, "copy to shorter text"); if( n < m->n ) rebuilds++; set(m, t, n); mutations++; } break; }
		case 11: case 12: { bool clear = g_p(1,2); Str e = {0}; int r; unsigned k = (unsigned)g_u(5);
			if( g_p(1,40) ) { wchar_t wide[4] = { 'a', 0x4E2D, 'b', 0 }; LOG("format(s%d,clear=%d) of text without a multibyte form\n", i, clear); r = harbol_string_format(h, clear, "<%ls>", wide); CHECK(r < 0, "impossible formatting reported %d", r); CLASSIFY("impossible formatting"); break; }
			char *t = text(24, &n); int v = (int)g_u64();
			int wid = (int)(v & 63); if( k==2 && g_p(1,60) ) { wid = 500 + (int)g_u(5000); CLASSIFY("formatting wider than a kilobyte"); } if( k==2 && g_rare(600) ) { wid = 5000 + (int)g_u(150000); CLASSIFY("formatting wider than 64 kilobytes now and then"); }
			if( k==0 ) s_printf(&e, "%s", t); else if( k==1 ) s_printf(&e, "%d|%s|%08x", v, t, (unsigned)v); else if( k==2 ) s_printf(&e, "%*d", wid, v); else if( k==3 ) s_printf(&e, "%.3f/%%/%c", v / 7.0, 'a' + (v & 7)); else s_printf(&e, "plain");
			snprintf(op, sizeof op, "format(s%d,clear=%d,kind %u -> %s)", i, clear, k, g_q(e.p, e.n)); LOG("%s\n", op);
			if( k==0 ) r = harbol_string_format(h, clear, "%s", t); else if( k==1 ) r = harbol_string_format(h, clear, "%d|%s|%08x", v, t, (unsigned)v); else if( k==2 ) r = harbol_string_format(h, clear, "%*d", wid, v); else if( k==3 ) r = harbol_string_format(h, clear, "%.3f/%%/%c", v / 7.0, 'a' + (v & 7)); else r = harbol_string_format(h, clear, "plain");
			CHECK(r==(int)e.n, "%s returned %d, expected %zu", op, r, e.n);
			if( clear ) { if( e.n < m->n ) rebuilds++; *m = (Str){0}; } s_add(m, e.p, e.n); mutations++; CLASS_IF(clear && m->n, "format over old text"); break; }
		case 13: { char a = gen_chr(), b = gen_chr(); snprintf(op, sizeof op, "replace_char(s%d,%s,%s)", i, g_q(&a,1), g_q(&b,1)); LOG("%s\n", op);
			bool e = false; for( size_t k=0; k < m->n; k++ ) if( m->p[k]==a ) { m->p[k] = b; e = true; }
			CHECK(harbol_string_replace_char(h, a, b)==e, "%s result should be %d", op, e); mutations += e; break; }
		case 14: case 15: case 16: case 17: { if( g_p(1,50) ) { LOG("replace_cstr(s%d,\"\",\"x\")\n", i); CHECK(!harbol_string_replace_cstr(h, "", "x", SIZE_MAX) && harbol_string_count_cstr(h, "")==0, "the empty text was found"); break; }
			char *w = needle(i, &wn); size_t rn; char *rp = text(9, &rn); size_t am = g_p(1,3) ? SIZE_MAX : g_u(5);
			snprintf(op, sizeof op, "replace_cstr(s%d,%s,%s,%zd)", i, g_q(w,wn), g_q(rp,rn), (ssize_t)am); LOG("%s\n", op);
			Str o = {0}; size_t at = 0, done = 0;
			for(;;) { long f = done < am ? find(m->p, m->n, at, w, wn) : -1; if( f < 0 ) break; s_add(&o, m->p + at, (size_t)f - at); s_add(&o, rp, rn); at = (size_t)f + wn; done++; }
			s_add(&o, m->p ? m->p + at : "", m->n - at);
			bool r = harbol_string_replace_cstr(h, w, rp, am);
			CHECK(r==(done > 0), "%s returned %d, %zu replacements expected", op, r, done);
			bool more = m->n && find(m->p, m->n, at, w, wn) >= 0;
			CLASS_IF(done && more, "replace stops at the requested amount"); CLASS_IF(done > 1 && rn > wn, "several growing replacements"); CLASS_IF(done > 1 && rn < wn, "several shrinking replacements");
			if( done ) { *m = o; mutations++; rebuilds++; } break; }
		case 18: { char c = gen_chr(); size_t e = 0; for( size_t k=0; k < m->n; k++ ) e += m->p[k]==c; snprintf(op, sizeof op, "count_char(s%d,%s)", i, g_q(&c,1)); LOG("%s\n", op); size_t r = harbol_string_count_char(h, c); CHECK(r==e, "%s = %zu, expected %zu", op, r, e);
			if( m->n || H[i]->cstr ) { long f = find(m->p, m->n, 0, &c, 1); size_t q = harbol_string_find_char(h, c); CHECK(q==(f < 0 ? SIZE_MAX : (size_t)f), "find_char in %s = %zu, expected %ld", g_q(m->p, m->n), q, f); }
			break; }
		case 19: { char *w = needle(i, &wn); size_t e = 0, at = 0; long f; while( (f = find(m->p, m->n, at, w, wn)) >= 0 ) { e++; at = (size_t)f + wn; }
			snprintf(op, sizeof op, "count_cstr(s%d,%s)", i, g_q(w,wn)); LOG("%s\n", op); size_t r = harbol_string_count_cstr(h, w); CHECK(r==e, "%s = %zu, expected %zu in %s", op, r, e, g_q(m->p, m->n)); break; }
		case 20: { char *w = needle(i, &wn); size_t e = 0; long f; size_t at = 0; while( (f = find(m->p, m->n, at, w, wn)) >= 0 ) { e++; at = (size_t)f + 1; }
			if( e==0 ) break;
			size_t ask = 1 + g_u(e); size_t *offs = g_buf(ask * sizeof *offs);
			snprintf(op, sizeof op, "cstr_offsets(s%d,%s,%zu)", i, g_q(w,wn), ask); LOG("%s\n", op);
			CHECK(harbol_string_cstr_offsets(h, w, offs, ask), "%s failed", op);
			at = 0; for( size_t k=0; k < ask; k++ ) { f = find(m->p, m->n, at, w, wn); CHECK(offs[k]==(size_t)f, "%s: offset %zu is %zu, expected %ld in %s", op, k, offs[k], f, g_q(m->p,m->n)); at = (size_t)f + 1; } break; }
		case 21: { bool up = g_p(1,2), e = false; snprintf(op, sizeof op, "%s(s%d)", up ? "upper" : "lower", i); LOG("%s\n", op);
			for( size_t k=0; k < m->n; k++ ) { char c = m->p[k]; if( up && c >= 'a' && c <= 'z' ) { m->p[k] = (char)(c - 32); e = true; } else if( !up && c >= 'A' && c <= 'Z' ) { m->p[k] = (char)(c + 32); e = true; } }
			bool r = up ? harbol_string_upper(h) : harbol_string_lower(h); CHECK(r==e, "%s returned %d", op, r); mutations += e; break; }
		case 22: { snprintf(op, sizeof op, "reverse(s%d)", i); LOG("%s\n", op); harbol_string_reverse(h); for( size_t k=0; k < m->n / 2; k++ ) { char c = m->p[k]; m->p[k] = m->p[m->n-1-k]; m->p[m->n-1-k] = c; } mutations++; break; }
		case 23: case 24: { char c = gen_chr(); if( m->n && g_p(1,2) ) c = m->p[g_u(m->n)]; snprintf(op, sizeof op, "rm_char(s%d,%s)", i, g_q(&c,1)); LOG("%s\n", op);
			Str o = {0}; for( size_t k=0; k < m->n; k++ ) if( m->p[k] != c ) s_addc(&o, m->p[k]);
			size_t e = m->n - o.n, r = harbol_string_rm_char(h, c); CHECK(r==e, "%s returned %zu, expected %zu", op, r, e); *m = o; if( e ) { mutations++; rebuilds++; } break; }
		case 25: { snprintf(op, sizeof op, "trim_spaces(s%d)", i); LOG("%s\n", op);
			Str o = {0}; for( size_t k=0; k < m->n; k++ ) if( !strchr(" \t\n\v\f\r", m->p[k]) ) s_addc(&o, m->p[k]);
			size_t e = m->n - o.n, r = harbol_string_trim_spaces(h); CHECK(r==e, "%s returned %zu, expected %zu", op, r, e); *m = o; if( e ) { mutations++; rebuilds++; } break; }
		case 26: case 27: { size_t lo = g_u(m->n + 2), up = g_p(1,6) ? SIZE_MAX - g_u(2) : g_u(m->n + 3); size_t rn; char *rp = text(8, &rn);
			snprintf(op, sizeof op, "replace_range(s%d,%zu,%zd,%s)", i, lo, (ssize_t)up, g_q(rp,rn)); LOG("%s\n", op);
			size_t u = up >= m->n && m->n ? m->n - 1 : up; bool e = lo < m->n && lo <= u;
			bool r = harbol_string_replace_range(h, lo, up, rp); CHECK(r==e, "%s returned %d on length %zu", op, r, m->n);
			if( e ) { CLASS_IF(up >= m->n, "replace to the end of the text"); s_del(m, lo, u - lo + 1); s_ins(m, lo, rp, rn); mutations++; rebuilds++; } break; }
		case 28: { if( g_p(1,30) ) { /* a file with zero bytes in it: every byte of it is kept */
				Str z = {0}; for( size_t k = 1 + g_u(40); k--; ) s_addc(&z, (char)(g_p(1,3) ? 0 : 'a' + g_u(3)));
				struct HarbolString *q = g_zbuf(sizeof *q); char *path = mkfile(&z); LOG("read_file of %s\n", g_q(z.p, z.n));
				CHECK(harbol_string_read_file(q, path) && harbol_string_len(q)==z.n && !memcmp(harbol_string_cstr(q), z.p, z.n), "a file of %zu bytes was read as %s", z.n, g_q(q->cstr, q->len));
				harbol_string_clear(q); CLASSIFY("file with zero bytes"); break; }
			Str f = {0}; gen_text(&f, 60); for( size_t k=0; k < f.n; k++ ) if( f.p[k]==0 ) f.p[k] = 'x';
			snprintf(op, sizeof op, "read_file(s%d,%s)", i, g_q(f.p, f.n)); LOG("%s\n", op);
			char *path = mkfile(&f); bool r;
			if( g_p(1,2) ) r = harbol_string_read_file(h, path); else { FILE *fp = fopen(path, "r"); if( g_p(1,2) ) fgetc(fp); r = harbol_string_read_from_file(h, fp); fclose(fp); }
			CHECK(r==(f.n > 0), "%s returned %d", op, r); CLASS_IF(r && f.n < m->n, "file shorter than old text");
			if( r ) { if( f.n < m->n ) rebuilds++; set(m, f.p, f.n); mutations++; } break; }
		case 29: { /* comparisons */
			bool eq = M[i].n==M[j].n && s_eq(&M[i], M[j].p, M[j].n);
			snprintf(op, sizeof op, "cmp(s%d,s%d)", i, j); LOG("%s\n", op);
			if( H[i]->cstr && H[j]->cstr ) {
				int r = harbol_string_cmpstr(H[i], H[j]), q = harbol_string_cmp(H[j], (struct HarbolString const*)H[i]), e = sgn(strcmp(s_exact(&M[i]), s_exact(&M[j])));
				CHECK(sgn(r)==e && sgn(q)==-e, "%s = %d / %d, expected sign %d (%s vs %s)", op, r, q, e, g_q(M[i].p,M[i].n), g_q(M[j].p,M[j].n));
				int c = g_p(1,8) ? harbol_string_cmp(H[i], (char const*)s_exact(&M[j])) : harbol_string_cmpcstr(H[i], s_exact(&M[j])); CHECK(sgn(c)==e, "cmpcstr = %d, expected sign %d", c, e);
				CLASS_IF(eq && i != j, "equal texts compared");
			}
			bool pal = m->n > 0; for( size_t k=0; k < m->n; k++ ) pal &= m->p[k]==m->p[m->n-1-k];
			CHECK(harbol_string_is_palindrome(h)==pal, "palindrome test wrong on %s", g_q(m->p,m->n));
			break; }
		default: {
			if( g_p(1,2) ) { snprintf(op, sizeof op, "clear(s%d)", i); LOG("%s\n", op); harbol_string_clear(h); *m = (Str){0}; mutations++; rebuilds++; }
			else { int a = 0; char w[40] = ""; Str t = {0}; int v = (int)g_u(100000) - 50000; s_printf(&t, "%d word", v); harbol_string_copy_cstr(h, s_exact(&t)); *m = t; snprintf(op, sizeof op, "scan(s%d)", i); LOG("%s\n", op);
				int r = harbol_string_scan(h, "%d %39s", &a, w); CHECK(r==2 && a==v && !strcmp(w, "word"), "scan returned %d (%d,%s)", r, a, w); }
		}
	}
	for( int k=0; k < NS; k++ ) verify(k, op);
}

static void history(void) {
	mutations = rebuilds = 0;
	for( int i=0; i < NS; i++ ) {
		construct(i);
		verify(i, "construction");
	}
	for( int k=0; k < 60 && g_more(12); k++ ) step();
	if( mutations >= 3 && rebuilds >= 1 ) g_nontrivial();
	for( int i=0; i < NS; i++ ) {
		/* heap strings are released through free, embedded ones through clear; tell them apart by who allocated them */
		harbol_string_clear(H[i]);
		CHECK(harbol_string_len(H[i])==0 && harbol_string_cstr(H[i])==NULL, "clear did not reset the string");
		if( g_p(1,8) ) { size_t offs[2] = { 7, 8 }; CHECK(harbol_string_cmpcstr(H[i], "x") != 0 && harbol_string_cmpcstr(H[i], NULL) != 0 && !harbol_string_add_cstr(H[i], NULL) && !harbol_string_copy_cstr(H[i], NULL) && !harbol_string_cstr_offsets(H[i], "x", offs, 2) && harbol_string_len(H[i])==0, "a cleared string behaves as if it had text"); }
		if( is_heap[i] ) { harbol_string_free(&H[i]); CHECK(H[i]==NULL, "free did not null the reference"); harbol_string_free(&H[i]); }
	}
}
struct Target const TARGETS[] = { { "history", history, 1 }, {0} };
