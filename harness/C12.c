/* C12: UTF-8 encoding and decoding against an independent coder. */
#include "pbt.h"
#include "lex/lex.h"

char const *const PROPERTY = "C12";
char const *const RULE = "Sequences of 0..60 Unicode scalar values (all encoding lengths, boundary values) encoded by an independent coder and pushed through every encoder, decoder, counter and iterator of the library, through strings, buffers of exact and of insufficient size and streams; "
	"plus truncated and arbitrary byte texts in exact-size memory. Non-trivial: the text mixes at least two encoding lengths, or it is malformed.";
unsigned const QUICK_CASES = 3000000, THOROUGH_CASES = 40000000;
struct Known const KNOWN[] = { {0} };

static int32_t scalar(void) {
	switch( g_u(6) ) {
		case 0: return 1 + (int32_t)g_u(0x7F);
		case 1: return 0x80 + (int32_t)g_u(0x780);
		case 2: { int32_t r = 0x800 + (int32_t)g_u(0xF800); return r >= 0xD800 && r <= 0xDFFF ? r ^ 0x4000 : r; }
		case 3: return 0x10000 + (int32_t)g_u(0x100000);
		default: { static int32_t const E[] = { 'a', 1, 0x7F, 0x80, 0x7FF, 0x800, 0xFFF, 0x1000, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0x10FFFF }; return E[g_u(sizeof E / sizeof *E)]; }
	}
}
static size_t enc(int32_t r, char *o) {
	uint32_t c = (uint32_t)r;
	if( c <= 0x7F ) { o[0] = (char)c; return 1; }
	size_t n = c <= 0x7FF ? 2 : c <= 0xFFFF ? 3 : 4;
	for( size_t i = n - 1; i > 0; i-- ) { o[i] = (char)(0x80 + c % 64); c /= 64; }
	o[0] = (char)((n==2 ? 0xC0 : n==3 ? 0xE0 : 0xF0) + c); return n;
}
static int32_t limit; static bool below(int32_t c) { return c < limit; }
static int32_t *exact_runes(int32_t const *r, size_t n) { int32_t *p = g_buf((n + 1) * sizeof *p); memcpy(p, r, n * sizeof *p); p[n] = 0; return p; }

static void roundtrip(void) {
	int32_t R[64]; size_t n = 0, off[65]; Str t = {0}; unsigned lens = 0;
	while( n < 60 && g_more(8) ) { R[n] = scalar(); char b[4]; size_t k = enc(R[n], b); off[n] = t.n; s_add(&t, b, k); lens |= 1u << k; LOG("U+%04X ", (unsigned)R[n]); n++; }
	off[n] = t.n; LOG("= %s\n", g_q(t.p, t.n));
	if( lens & (lens - 1) ) g_nontrivial();
	char *text = s_exact(&t); int32_t *runes = exact_runes(R, n);
	/* encoding */
	struct HarbolString out = {0}; char *flat = g_buf(t.n ? t.n : 1); size_t at = 0;
	for( size_t i=0; i < n; i++ ) {
		size_t k = off[i+1] - off[i];
		CHECK(rune_byte_len(R[i])==k, "U+%04X: byte length %zu, expected %zu", (unsigned)R[i], rune_byte_len(R[i]), k);
		CHECK(get_utf8_len(text[off[i]])==k, "U+%04X: length from its first byte is %zu, expected %zu", (unsigned)R[i], get_utf8_len(text[off[i]]), k);
		if( k > 1 ) { size_t m = g_u(k); char *small = g_buf(m ? m : 1); memset(small, 'z', m ? m : 1); CHECK(write_utf8_cstr(small, m, R[i])==0, "U+%04X was written to a buffer of %zu bytes", (unsigned)R[i], m); for( size_t j=0; j < m; j++ ) CHECK(small[j]=='z', "a refused write changed the buffer"); }
		size_t w = write_utf8_cstr(flat + at, t.n - at, R[i]); CHECK(w==k, "U+%04X: wrote %zu bytes, expected %zu", (unsigned)R[i], w, k); at += w;
		CHECK(write_utf8_str(&out, R[i]), "U+%04X was refused", (unsigned)R[i]);
	}
	CHECK(at==t.n && !memcmp(flat, text, t.n), "encoded into a buffer as %s, expected %s", g_q(flat, at), g_q(text, t.n));
	CHECK(out.len==t.n && (!t.n || !memcmp(out.cstr, text, t.n)), "encoded into a string as %s, expected %s", g_q(out.cstr, out.len), g_q(text, t.n));
	harbol_string_clear(&out);
	size_t blen = 77; char *back = rune_to_utf8_cstr(runes, &blen);
	CHECK(blen==t.n && (t.n==0 || (back && !strcmp(back, text))), "encoded all at once as %s, expected %s", g_q(back, blen), g_q(text, t.n)); free(back);
	struct HarbolString bs = rune_to_utf8_str(runes); CHECK(bs.len==t.n && (t.n==0 || !memcmp(bs.cstr, text, t.n + 1)), "encoded to a string as %s, expected %s", g_q(bs.cstr, bs.len), g_q(text, t.n)); harbol_string_clear(&bs);
	/* decoding */
	CHECK(get_str_rune_len(text)==n, "counted %zu characters, expected %zu", get_str_rune_len(text), n);
	size_t rl = 99; int32_t *dr = utf8_cstr_to_rune(text, t.n, &rl);
	CHECK(dr && rl==n && !memcmp(dr, runes, (n + 1) * sizeof *dr), "decoded to %zu other characters, expected %zu", rl, n); free(dr);
	struct HarbolString in = { text, t.n }; dr = utf8_str_to_rune(&in, &rl); CHECK(dr && rl==n && !memcmp(dr, runes, (n + 1) * sizeof *dr), "string decoded to %zu other characters, expected %zu", rl, n); free(dr);
	size_t it = 0;
	for( size_t i=0; i < n; i++ ) {
		size_t k = off[i+1] - off[i], give = g_p(1,2) ? k : t.n - off[i]; int32_t r = 12345; char *piece = g_buf(give); memcpy(piece, text + off[i], give);
		CHECK(read_utf8(piece, give, &r)==k && r==R[i], "U+%04X: read back as U+%04X", (unsigned)R[i], (unsigned)r);
		CHECK(read_utf8_rune(piece, give)==R[i], "U+%04X: rune read back as U+%04X", (unsigned)R[i], (unsigned)read_utf8_rune(piece, give));
		if( k > 1 ) { size_t m = 1 + g_u(k - 1); char *cut = g_cstr(text + off[i], m); r = 5; CHECK(read_utf8(cut, m, &r)==0 && r==-1, "U+%04X: its first %zu bytes were read as U+%04X", (unsigned)R[i], m, (unsigned)r); CHECK(read_utf8_rune(cut, m)==-1, "U+%04X: its first %zu bytes were read as a rune", (unsigned)R[i], m); }
		int32_t v = utf8_to_rune_iter(text, t.n, &it); CHECK(v==R[i] && it==off[i+1], "iteration gave U+%04X at %zu, expected U+%04X at %zu", (unsigned)v, it, (unsigned)R[i], off[i+1]);
		size_t first = 0; while( R[first] != R[i] ) first++;
		CHECK(find_rune_in_runes(runes, R[i])==first && has_rune_in_runes(runes, R[i]), "U+%04X was not found at %zu", (unsigned)R[i], first);
	}
	CHECK(utf8_to_rune_iter(text, t.n, &it)==-1 && it==t.n, "iteration went on past the end");
	{ int32_t miss = scalar(); bool is = false; for( size_t i=0; i < n; i++ ) is |= R[i]==miss; CHECK(has_rune_in_runes(runes, miss)==is, "membership of U+%04X is wrong", (unsigned)miss); }
	{ size_t i = g_u(n + 3); int32_t c = i < n && g_p(1,2) ? R[i] : scalar(); CHECK(check_is_rune(runes, n, i, c)==(i < n && R[i]==c), "character %zu", i); }
	if( n ) { size_t part = g_u(n) + 1, i = part + g_u(4) - 2; int32_t *cutr = g_buf(part * sizeof *cutr), c = i < n && g_p(1,2) ? R[i] : scalar(); memcpy(cutr, R, part * sizeof *cutr); CHECK(check_is_rune(cutr, part, i, c)==(i < part && R[i]==c), "character %zu of the first %zu", i, part); }
	/* scanning by a predicate */
	limit = scalar(); size_t stop = 0; while( stop < n && R[stop] < limit ) stop++;
	struct HarbolString acc = {0}; char const *end = NULL; bool ok = lex_until_false_utf8(text, &end, &acc, below);
	CHECK(ok==(off[stop] > 0) && end==text + off[stop] && acc.len==off[stop] && (!acc.len || !memcmp(acc.cstr, text, acc.len)), "scanning characters below U+%04X took %zu bytes (%s), expected %zu", (unsigned)limit, (size_t)(end - text), g_q(acc.cstr, acc.len), off[stop]);
	harbol_string_clear(&acc);
	/* streams */
	if( t.n && g_p(1,8) ) { FILE *f = fmemopen(text, t.n, "r"); CHECK(f, "fmemopen"); dr = runes_from_stream(f, &rl); CHECK(dr && rl==n && !memcmp(dr, runes, (n + 1) * sizeof *dr), "stream decoded to %zu other characters, expected %zu", rl, n); free(dr); fclose(f); CLASSIFY("read from a stream"); }
}
static void malformed(void) {
	int32_t R[40]; size_t n = 0; Str t = {0}; g_nontrivial();
	while( n < 40 && g_more(4) ) { R[n] = scalar(); char b[4]; s_add(&t, b, enc(R[n], b)); n++; }
	size_t good = t.n; bool cut = g_p(1,2);
	if( cut ) { char b[4]; int32_t r = 0x80 + (int32_t)g_u(0x10FF80); size_t k = enc(r, b); s_add(&t, b, 1 + g_u(k - 1)); CLASSIFY("cut inside a character"); }
	else { CLASSIFY("arbitrary bytes"); while( g_more(6) ) s_addc(&t, (char)(g_p(1,2) ? 0x80 + g_u(128) : g_p(1,2) ? 0xC0 + g_u(64) : 1 + g_u(127))); }
	LOG("%s after %zu good characters\n", g_q(t.p, t.n), n);
	char *text = s_exact(&t);
	CHECK(get_str_rune_len(text) <= t.n, "counted more characters than bytes");
	size_t rl = 99; int32_t *dr = utf8_cstr_to_rune(text, t.n, &rl); CHECK(dr && rl <= t.n && dr[rl]==0, "decoded text is not terminated");
	CHECK(rl >= n && !memcmp(dr, R, n * sizeof *dr), "the well-formed start was decoded differently");
	if( cut ) CHECK(rl==n, "a cut character was decoded: %zu characters, expected %zu", rl, n);
	free(dr);
	size_t it = 0, prev = 0, i = 0;
	for( ; it < t.n; i++ ) { prev = it; int32_t r = utf8_to_rune_iter(text, t.n, &it); if( it==prev ) { CHECK(r==-1, "no progress but rune U+%04X", (unsigned)r); break; } CHECK(it > prev && it <= t.n, "iteration stepped from %zu to %zu of %zu bytes", prev, it, t.n); if( i < n ) CHECK(r==R[i], "the well-formed start was iterated differently"); }
	for( size_t at = good; at < t.n; at++ ) { int32_t r; size_t left = t.n - at; char *piece = g_buf(left); memcpy(piece, text + at, left); CHECK(read_utf8(piece, left, &r) <= left, "read more bytes than there are"); read_utf8_rune(piece, left); }
	struct HarbolString acc = {0}; char const *end = NULL; limit = 0x7FFFFFFF; lex_until_false_utf8(text, &end, &acc, below); CHECK(end >= text && end <= text + t.n && (size_t)(end - text) >= good, "scanning stopped at %zd of %zu", (ptrdiff_t)(end - text), t.n); harbol_string_clear(&acc);
	if( t.n && g_p(1,16) ) { FILE *f = fmemopen(text, t.n, "r"); dr = runes_from_stream(f, &rl); CHECK(dr && dr[rl]==0, "stream"); free(dr); fclose(f); }
}
/* texts far longer than the other cases' */
static void many(void) {
	size_t n = 200 + g_u(g_p(1,30) ? 32000 : 2000), at = 0, rl = 9; uint64_t x = g_u(1u << 30); int32_t *R = g_buf((n + 1) * sizeof *R); Str t = {0}; LOG("%zu characters\n", n); g_nontrivial(); CLASSIFY("long text");
	for( size_t i=0; i < n; i++ ) { x = x * 6364136223846793005u + 1442695040888963407u; unsigned k = (unsigned)(x >> 60), v = (unsigned)(x >> 20); int32_t r = (int32_t)(k < 8 ? 1 + v % 0x7F : k < 11 ? 0x80 + v % 0x780 : k < 14 ? 0x800 + v % 0xC000 : 0x10000 + v % 0x100000); R[i] = r; char b[4]; s_add(&t, b, enc(r, b)); } R[n] = 0;
	char *text = s_exact(&t); CHECK(get_str_rune_len(text)==n, "counted %zu characters, expected %zu", get_str_rune_len(text), n);
	int32_t *dr = utf8_cstr_to_rune(text, t.n, &rl); CHECK(dr && rl==n && !memcmp(dr, R, (n + 1) * sizeof *dr), "decoded to %zu other characters, expected %zu", rl, n); free(dr);
	struct HarbolString in = { text, t.n }; dr = utf8_str_to_rune(&in, &rl); CHECK(dr && rl==n && !memcmp(dr, R, (n + 1) * sizeof *dr), "string decoded to %zu other characters, expected %zu", rl, n); free(dr);
	size_t blen = 7; char *back = rune_to_utf8_cstr(R, &blen); CHECK(blen==t.n && back && !strcmp(back, text), "encoded to %zu other bytes, expected %zu", blen, t.n); free(back);
	struct HarbolString bs = rune_to_utf8_str(R); CHECK(bs.len==t.n && !memcmp(bs.cstr, text, t.n + 1), "encoded to a string of %zu other bytes, expected %zu", bs.len, t.n); harbol_string_clear(&bs);
	for( size_t i=0; i < n; i++ ) { int32_t v = utf8_to_rune_iter(text, t.n, &at); CHECK(v==R[i], "character %zu is iterated as U+%04X, expected U+%04X", i, (unsigned)v, (unsigned)R[i]); } CHECK(at==t.n, "iteration ends elsewhere");
	size_t i = n - 1 - g_u(n / 2), first = 0; while( R[first] != R[i] ) first++; CHECK(find_rune_in_runes(R, R[i])==first, "character %zu was not found", first);
	struct HarbolString acc = {0}; char const *end = NULL; limit = 0x110000; bool ok = lex_until_false_utf8(text, &end, &acc, below); CHECK(ok && end==text + t.n && acc.len==t.n && !memcmp(acc.cstr, text, t.n), "scanning took %zu bytes of %zu", acc.len, t.n); harbol_string_clear(&acc);
	FILE *f = fmemopen(text, t.n, "r"); dr = runes_from_stream(f, &rl); CHECK(dr && rl==n && !memcmp(dr, R, (n + 1) * sizeof *dr), "stream decoded to %zu other characters, expected %zu", rl, n); free(dr); fclose(f);
}
static void code_points(void) {
	int32_t r; switch( g_u(4) ) { case 0: r = (int32_t)g_u(0x130000); break; case 1: r = 0xD7F0 + (int32_t)g_u(0x820); break; case 2: r = (int32_t)g_u(0x100); break; default: r = (int32_t)(0x10FFF0 + g_u(g_p(1,2) ? 0x20 : 0x7FEF0010)); }
	LOG("U+%X\n", (unsigned)r);
	bool want = (r >= 0xA0 && r <= 0xD7FF) || (r >= 0xE000 && r <= 0x10FFFF) || r=='$' || r=='@' || r=='`';
	CHECK(is_valid_unicode(r)==want, "U+%X counts as %svalid", (unsigned)r, want ? "in" : "");
	if( r > 0x10FFFF ) { g_nontrivial(); char b[8]; memset(b, 'z', 8); CHECK(rune_byte_len(r)==0 && write_utf8_cstr(b, 8, r)==0 && b[0]=='z', "U+%X was encoded", (unsigned)r); struct HarbolString s = {0}; CHECK(!write_utf8_str(&s, r) && s.len==0, "U+%X was encoded", (unsigned)r); harbol_string_clear(&s); }
}
struct Target const TARGETS[] = { { "roundtrip", roundtrip, 6000 }, { "malformed", malformed, 3000 }, { "code_points", code_points, 1000 }, { "many", many, 2 }, {0} };
