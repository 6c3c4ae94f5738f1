/* C15: string literals, escapes, comments, identifiers, whitespace and line ends. */
#include "pbt.h"
#include "lex/lex.h"

char const *const PROPERTY = "C15";
char const *const RULE = "String literals assembled from plain bytes and every kind of escape (the value is assembled next to the text), comments of both kinds with continuation lines, multi-character quotes, identifiers and line ends, each followed by arbitrary text, in exact-size memory; malformed literals and texts cut short by the end are included. "
	"Non-trivial: the text has an escape, a line end, or is malformed.";
unsigned const QUICK_CASES = 9000000, THOROUGH_CASES = 60000000;
struct Known const KNOWN[] = { {0} };

static size_t enc(int32_t r, char *o) {
	uint32_t c = (uint32_t)r; if( c <= 0x7F ) { o[0] = (char)c; return 1; }
	size_t n = c <= 0x7FF ? 2 : c <= 0xFFFF ? 3 : 4;
	for( size_t i = n - 1; i > 0; i-- ) { o[i] = (char)(0x80 + c % 64); c /= 64; }
	o[0] = (char)((n==2 ? 0xC0 : n==3 ? 0xE0 : 0xF0) + c); return n;
}
static size_t huge(void) { if( !g_rare(8000) ) return 0; CLASSIFY("very long"); return g_p(1,200) ? 65500 + g_u(5000) : 240 + g_u(1500); }
static void tail(Str *t) { while( g_more(4) ) s_addc(t, "\"'` \n\\/*a0x\xC3"[g_u(12)]); }
static void val(Str *v, int32_t r) { char b[4]; s_add(v, b, enc(r, b)); }
static int32_t point(void) { static int32_t const EDGE[] = { 0x10FFFF, 0x10FFFE, 0x10000, 0xFFFF, 0xFFFE, 0xE000, 0xD7FF, 0xA0, 0xA1, 0x9F, 0x7F, 0x80, 0x7FF, 0x800, 0x100000, 0xFFFFF };
	if( g_p(1,8) ) return EDGE[g_u(16)]; int32_t r = g_p(1,2) ? (int32_t)g_u(0x300) : (int32_t)g_u(0x110000); return r==0 ? 1 : r >= 0xD800 && r <= 0xDFFF ? 0xFFFD : r; }

/* 0 plain, 1 hex, 2 octal: what the last piece was, since its digits must not run on */
static void piece(Str *t, Str *v, char quote, int *last) {
	switch( g_u(6) ) {
		default: { char c = (char)(g_p(1,2) ? 32 + g_u(95) : 1 + g_u(255)); if( c==quote || c=='\\' || (*last==1 && isxdigit((unsigned char)c)) || (*last==2 && c >= '0' && c <= '7') ) c = '!'; if( c==quote ) c = '#'; s_addc(t, c); s_addc(v, c); *last = 0; break; }
		case 1: { static char const E[][2] = { {'a','\a'},{'r','\r'},{'b','\b'},{'t','\t'},{'v','\v'},{'n','\n'},{'N','\n'},{'f','\f'},{'e',0x1B} }; size_t i = g_u(9); s_addc(t, '\\'); s_addc(t, E[i][0]); s_addc(v, E[i][1]); *last = 0; break; }
		case 2: { int32_t r = point(); if( g_p(1,4) ) s_printf(t, "\\x%0*x", 2 + (int)g_u(12), (unsigned)r); else s_printf(t, g_p(1,2) ? "\\x%x" : "\\X%X", (unsigned)r); val(v, r); *last = 1; CLASSIFY("hexadecimal escape"); break; }
		case 3: { int32_t r = 1 + (int32_t)g_u(0777); s_printf(t, g_p(1,2) ? "\\%o" : "\\%03o", (unsigned)r); val(v, r); *last = 2; CLASSIFY("octal escape"); break; }
		case 4: { int32_t r = point(); if( r < 0xA0 ) r = "$@`"[r % 3]; if( r <= 0xFFFF && g_p(1,2) ) s_printf(t, g_p(1,2) ? "\\u%04x" : "\\u%04X", (unsigned)r); else s_printf(t, g_p(1,2) ? "\\U%08x" : "\\U%08X", (unsigned)r); val(v, r); *last = 0; CLASSIFY("unicode escape"); break; }
		case 5: { char c = g_p(1,3) ? quote : g_p(1,3) ? '\\' : (char)(32 + g_u(95)); if( strchr("arbtvnNfexXuU0123456789", c) ) c = '?'; s_addc(t, '\\'); s_addc(t, c); s_addc(v, c); *last = 0; CLASSIFY("escaped character"); break; }
	}
}
static enum HarbolLexErrType lexs(bool go, char const *s, char const **e, struct HarbolString *b) { return go ? lex_go_style_str(s, e, b) : lex_c_style_str(s, e, b); }
static void literal(void) {
	bool go = g_p(1,2); char quote = "\"'"[g_u(2)]; if( !go && g_p(1,4) ) quote = '`'; bool raw = go && g_p(1,4); if( raw ) quote = '`';
	Str t = {0}, v = {0}; s_addc(&t, quote); int last = 0;
	while( g_more(6) ) {
		if( raw ) { char c = (char)(1 + g_u(255)); if( c==quote || c=='\\' ) { if( g_p(1,2) ) c = '\''; else { s_addc(&t, '\\'); s_addc(&v, '\\'); c = 'n'; } } s_addc(&t, c); s_addc(&v, c); }
		else piece(&t, &v, quote, &last);
	}
	for( size_t k = huge(), i=0; i < k; i++ ) { s_addc(&t, (char)('g' + i % 20)); s_addc(&v, (char)('g' + i % 20)); } if( !raw ) while( g_more(1) ) piece(&t, &v, quote, &last);
	if( memchr(t.p, '\\', t.n) ) g_nontrivial();
	size_t close = t.n; s_addc(&t, quote); size_t stop = t.n; tail(&t);
	LOG("%s literal %s\n", raw ? "raw" : go ? "Go" : "C", g_q(t.p, t.n));
	char *text = s_exact(&t); char const *end = NULL; struct HarbolString b = {0};
	enum HarbolLexErrType r = lexs(go, text, &end, &b);
	CHECK(r==HarbolLexNoErr, "rejected: %s", lex_get_err(r));
	CHECK(end==text + stop, "%zd characters were consumed, expected %zu", (ptrdiff_t)(end - text), stop);
	CHECK(b.len==v.n && (!v.n || !memcmp(b.cstr, v.p, v.n)), "value %s, expected %s", g_q(b.cstr, b.len), g_q(v.p, v.n));
	harbol_string_clear(&b);
	CHECK(skip_string_literal(text, '\\')==text + close, "skipping stopped at %zd, expected the closing quote at %zu", (ptrdiff_t)(skip_string_literal(text, '\\') - text), close);
}
static void bad_literal(void) {
	g_nontrivial(); bool go = g_p(1,2); char quote = "\"'"[g_u(2)]; Str t = {0}, v = {0}; s_addc(&t, quote); int last = 0; unsigned how = (unsigned)g_u(6); enum HarbolLexErrType want = HarbolLexSuddenEoFStr;
	while( g_more(3) ) piece(&t, &v, quote, &last);
	size_t close = t.n; bool runs_out = false;
	switch( how ) {
		case 0: runs_out = true; CLASSIFY("unterminated"); break;
		case 1: s_puts(&t, "\\"); runs_out = true; CLASSIFY("ends in a backslash"); break;
		case 2: s_puts(&t, g_p(1,2) ? "\\xg" : "\\X;"); want = HarbolLexBadHexChar; break;
		case 4: { s_puts(&t, "\\x"); size_t z = g_p(1,3) ? g_len(4) : 0; while( z-- ) s_addc(&t, '0'); if( g_p(1,3) ) s_printf(&t, "%x", 0x110000 + (unsigned)g_u(0x1000)); else { s_addc(&t, "123456789abcdefABCDEF"[g_u(21)]); for( size_t k = 6 + g_len(12); k; k-- ) s_addc(&t, g_p(1,2) ? '0' : "0123456789abcdefABCDEF"[g_u(22)]); } want = HarbolLexBadHexChar; CLASSIFY("hex escape out of range"); break; }
		case 3: if( g_p(1,3) ) { s_addc(&t, '\\'); for( size_t k = 4 + g_len(5); k; k-- ) s_addc(&t, (char)('0' + g_u(8))); CLASSIFY("too many octal digits"); } else s_printf(&t, "\\%u", 8 + (unsigned)g_u(2)); want = HarbolLexBadOctalChar; break;
		default: { uint32_t r = g_p(1,2) ? 0xD800 + (uint32_t)g_u(0x800) : g_p(1,2) ? 'A' + (uint32_t)g_u(26) : g_p(1,2) ? 0x110000 + (uint32_t)g_u(0x1000) : (uint32_t)(g_u(0xFFEF0000u) + 0x110000u); if( r <= 0xFFFF && g_p(1,2) ) s_printf(&t, "\\u%04x", r); else s_printf(&t, "\\U%08x", r); want = HarbolLexBadUnicodeChar; CLASSIFY("invalid code point"); }
	}
	if( !runs_out ) { s_addc(&t, ';'); s_addc(&t, quote); tail(&t); }
	LOG("malformed literal %s\n", g_q(t.p, t.n));
	char *text = s_exact(&t); char const *end = NULL; struct HarbolString b = {0};
	enum HarbolLexErrType r = lexs(go, text, &end, &b);
	CHECK(r==want, "result: %s, expected: %s", lex_get_err(r), lex_get_err(want));
	CHECK(end >= text && end <= text + t.n, "the end lies outside of the text");
	CHECK(b.len >= v.n && !memcmp(b.cstr, v.p, v.n), "the value before the error is %s, expected %s", g_q(b.cstr, b.len), g_q(v.p, v.n));
	harbol_string_clear(&b);
	char const *sk = skip_string_literal(text, '\\'); CHECK(sk >= text && sk <= text + t.n, "skipping ran out of the text"); if( runs_out ) CHECK(sk==text + t.n, "skipping an unterminated literal stopped early");
	(void)close;
}
/* text of a comment or quoted block: no backslash except as asked for, `stop` does not occur */
static void fill(Str *t, char const *ban, bool nl, unsigned avg) { for( size_t k = huge(), i=0; i < k; i++ ) s_addc(t, nl && i % 2 ? '\n' : '_'); while( g_more(avg) ) { char c = g_p(1,6) && nl ? '\n' : (char)(g_p(1,3) ? 1 + g_u(255) : 32 + g_u(95)); if( strchr(ban, c) || (c=='\n' && !nl) ) c = '_'; s_addc(t, c); } }
static size_t nls(char const *p, size_t n) { size_t k = 0; for( size_t i=0; i < n; i++ ) k += p[i]=='\n'; return k; }
static void blank_check(char const *text, size_t upto, size_t total, char const *after, char const *what) {
	for( size_t i=0; i < total; i++ ) { char want = i >= upto || text[i]=='\n' ? text[i] : ' '; CHECK(after[i]==want, "%s: byte %zu became %s, expected %s", what, i, g_q(after + i, 1), g_q(&want, 1)); }
	CHECK(after[total]==0, "the terminator was overwritten");
}
static void line_comment(void) {
	Str t = {0}; static char const *O[] = { "//", "#", ";", "--" }; s_puts(&t, O[g_u(4)]); unsigned cont = 0;
	for( ;; ) { fill(&t, "\\\n", false, 6); if( !g_p(1,4) ) break; size_t k = 1 + huge(); cont += k; while( k-- ) s_puts(&t, "\\\n"); }
	size_t stop = t.n; if( cont ) g_nontrivial(); CLASS_IF(cont, "continued comment");
	if( g_p(3,4) ) { s_addc(&t, '\n'); tail(&t); } else { CLASSIFY("cut by the end"); g_nontrivial(); }
	LOG("comment %s\n", g_q(t.p, t.n));
	char *text = s_exact(&t); uint32_t lines = 7; char const *e = skip_single_line_comment(text, &lines);
	CHECK(e==text + stop && lines==7 + cont, "skipped to %zd and counted %u lines, expected %zu and %u", (ptrdiff_t)(e - text), lines - 7, stop, cont);
	struct HarbolString b = {0}; lines = 3; e = NULL; bool r = lex_single_line_comment(text, &e, &b, &lines);
	CHECK(r && e==text + stop && lines==3 + cont && b.len==stop && !memcmp(b.cstr, text, stop), "lexed %s to %zd and counted %u lines, expected the comment up to %zu and %u", g_q(b.cstr, b.len), (ptrdiff_t)(e - text), lines - 3, stop, cont); harbol_string_clear(&b);
	char *w = s_exact(&t); char *we = clear_single_line_comment(w); CHECK(we==w + stop, "cleared up to %zd, expected %zu", (ptrdiff_t)(we - w), stop); blank_check(text, stop, t.n, w, "clearing the comment");
}
static void block_comment(void) {
	static char const *O[][2] = { {"/*","*/"}, {"(*","*)"}, {"{-","-}"}, {"<!--","-->"} }; size_t k = g_u(4); char const *close = O[k][1]; Str t = {0}; s_puts(&t, O[k][0]);
	do { fill(&t, close, true, 8); /* partial closers */ if( g_p(1,4) ) { s_addc(&t, close[0]); s_addc(&t, '_'); } } while( g_p(1,3) );
	if( t.n==strlen(O[k][0]) ) s_addc(&t, ' ');
	bool open = g_p(1,5); size_t body = t.n; if( !open ) s_puts(&t, close); size_t stop = t.n; if( !open ) { while( g_p(1,3) ) s_addc(&t, close[g_u(strlen(close))]); tail(&t); }
	size_t nl = nls(t.p, body); if( nl || open ) g_nontrivial(); CLASS_IF(open, "cut by the end"); CLASS_IF(nl, "several lines");
	LOG("block comment %s\n", g_q(t.p, t.n));
	char *text = s_exact(&t); uint32_t lines = 5; char const *e = skip_multi_line_comment(text, close, strlen(close), &lines);
	CHECK(e==text + stop && lines==5 + nl, "skipped to %zd and counted %u lines, expected %zu and %zu", (ptrdiff_t)(e - text), lines - 5, stop, nl);
	struct HarbolString b = {0}; lines = 1; e = NULL; bool r = lex_multi_line_comment(text, &e, close, strlen(close), &b, &lines);
	CHECK(r && e==text + stop && lines==1 + nl && b.len >= body && !memcmp(b.cstr, text, body) && (open || b.len==stop), "lexed %s to %zd and counted %u lines, expected %zu and %zu", g_q(b.cstr, b.len), (ptrdiff_t)(e - text), lines - 1, stop, nl); harbol_string_clear(&b);
	char *w = s_exact(&t); char *we = clear_multi_line_comment(w, close, strlen(close)); CHECK(we==w + stop, "cleared up to %zd, expected %zu", (ptrdiff_t)(we - w), stop); blank_check(text, stop, t.n, w, "clearing the comment");
}
static void multiquote(void) {
	static char const *Q[] = { "\"\"\"", "'''", "```", "<<<" }; char const *q = Q[g_u(4)]; size_t ql = strlen(q); Str t = {0}, v = {0}; s_puts(&t, q);
	char ban[3] = { q[0], '\\', 0 };
	do { Str f = {0}; fill(&f, ban, true, 6); if( g_p(1,3) ) { s_addc(&f, q[0]); if( g_p(1,2) ) s_addc(&f, q[0]); s_addc(&f, '_'); } s_add(&t, f.p, f.n); s_add(&v, f.p, f.n); } while( g_p(1,3) );
	bool open = g_p(1,5); if( !open ) s_puts(&t, q); size_t stop = t.n; if( !open ) { if( g_p(1,2) ) s_addc(&t, ' '); tail(&t); }
	size_t nl = nls(v.p, v.n); if( nl || open ) g_nontrivial(); CLASSIFY("quotes of several characters");
	LOG("quoted %s\n", g_q(t.p, t.n));
	char *text = s_exact(&t); char const *e = NULL; struct HarbolString b = {0}; size_t line = 9; bool r = lex_multiquote_string(text, &e, q, ql, &b, &line);
	if( !open || r ) CHECK(r && e==text + stop && line==9 + nl && b.len==v.n && (!v.n || !memcmp(b.cstr, v.p, v.n)), "lexed as %s up to %zd with %zu lines, expected %s up to %zu with %zu", g_q(b.cstr, b.len), (ptrdiff_t)(e - text), line - 9, g_q(v.p, v.n), stop, nl);
	harbol_string_clear(&b);
	char const *sk = skip_multiquote_string(text + ql, q, ql, '\\'); CHECK(sk==text + stop, "skipped to %zd, expected %zu", (ptrdiff_t)(sk - text), stop);
}
static bool vowel(int32_t c) { return strchr("aeiou\n ", c) && c; }
static void words(void) {
	Str t = {0}; { size_t h = huge(); char x = "\na_ i"[g_u(5)]; while( h-- ) s_addc(&t, x); } while( g_more(12) ) s_addc(&t, g_p(1,2) ? "aeiou_Zz09 \n\t\r\v\f"[g_u(16)] : (char)(1 + g_u(127)));
	LOG("text %s\n", g_q(t.p, t.n)); char *text = s_exact(&t); if( memchr(text, '\n', t.n) ) g_nontrivial();
	size_t ws = 0; while( ws < t.n && (text[ws]==' ' || (text[ws] >= 9 && text[ws] <= 13)) ) ws++;
	uint32_t lines = 11; CHECK(skip_chars(text, is_whitespace, &lines)==text + ws && lines==11 + nls(text, ws), "whitespace ends at %zd with %u lines, expected %zu with %zu", (ptrdiff_t)(skip_chars(text, is_whitespace, &(uint32_t){0}) - text), lines - 11, ws, nls(text, ws));
	size_t vw = 0; while( vw < t.n && vowel(text[vw]) ) vw++; size_t vn = 0; while( vn < vw && text[vn] != '\n' ) vn++;
	CHECK(skip_chars_until_newline(text, vowel)==text + vn, "skipping within the line ended elsewhere");
	struct HarbolString b = {0}; char const *e = NULL; bool r = lex_until_false(text, &e, &b, vowel); CHECK(r==(vw > 0) && e==text + vw && b.len==vw && (!vw || !memcmp(b.cstr, text, vw)), "collecting ended elsewhere"); harbol_string_clear(&b);
	char stop = (char)(g_p(1,2) && t.n ? text[g_u(t.n)] : 1 + g_u(127)); size_t at = 0; while( at < t.n && text[at] != stop ) at++; e = NULL; r = lex_until(text, &e, &b, stop);
	CHECK(r==(at > 0) && e==text + at && b.len==at && (!at || !memcmp(b.cstr, text, at)), "lexing until %s ended elsewhere", g_q(&stop, 1)); harbol_string_clear(&b);
	size_t id = 0; bool start = isalpha((unsigned char)text[0]) || text[0]=='_'; while( start && id < t.n && (isalnum((unsigned char)text[id]) || text[id]=='_') ) id++;
	e = NULL; r = lex_c_style_identifier(text, &e, &b); CHECK(r==start, "%s counts as %s identifier", g_q(text, t.n), r ? "an" : "no"); if( r ) CHECK(e==text + id && b.len==id && !memcmp(b.cstr, text, id), "the identifier ended at %zd, expected %zu", (ptrdiff_t)(e - text), id); harbol_string_clear(&b);
	size_t i = g_u(t.n + 3); char c = i < t.n && g_p(1,2) ? text[i] : (char)(1 + g_u(127)); CHECK(check_is_char(text, t.n, i, c)==(i < t.n && text[i]==c), "character %zu", i);
	if( t.n ) { size_t part = g_u(t.n) + 1; char *cut = g_buf(part); memcpy(cut, text, part); i = part + g_u(4) - 2; CHECK(check_is_char(cut, part, i, c)==(i < part && text[i]==c), "character %zu of the first %zu", i, part); }
	{ /* literals with any escape character, which may be the quote itself: then the next quote ends them */
		char q = "\"'`|"[g_u(4)], esc = "\\^%\"'`|"[g_u(7)]; Str l = {0}; s_addc(&l, q); while( g_more(6) ) s_addc(&l, g_p(1,4) ? q : g_p(1,3) ? esc : "ab\n\\"[g_u(4)]);
		size_t z = 1; while( z < l.n && l.p[z] != q ) z += l.p[z]==esc && z + 1 < l.n ? 2 : 1;
		char *lt = s_exact(&l); char const *le = skip_string_literal(lt, esc); CHECK(le==lt + z, "skipping %s with escape %s stopped at %zd, expected %zu", g_q(l.p, l.n), g_q(&esc, 1), (ptrdiff_t)(le - lt), z); }
	/* line ends */
	Str s = {0}, w = {0}; bool tabs = g_p(1,2); size_t k = 0; char prev = 0; for( size_t h = g_rare(20000) ? 1500 + g_u(5000) : huge() % 3000, each = 1 + g_u(5); h; h-- ) { s_puts(&s, h % each ? "\t" : "\r\nq"); s_puts(&w, h % each ? (tabs ? "    " : "\t") : "\nq"); }
	while( k++ < 60 && g_more(8) ) { char x = g_p(1,2) ? "\r\n\t\r"[g_u(4)] : (char)(32 + g_u(95)); s_addc(&s, x); if( x=='\n' && prev=='\r' ) ; else if( x=='\r' || x=='\n' ) s_addc(&w, '\n'); else if( x=='\t' && tabs ) s_puts(&w, "    "); else s_addc(&w, x); prev = x; }
	struct HarbolString h = harbol_string_make(s_exact(&s), &(bool){0}); lex_fix_newlines(&h, tabs);
	CHECK(h.len==w.n && (!w.n || !memcmp(h.cstr, w.p, w.n)), "the line ends of %s became %s, expected %s", g_q(s.p, s.n), g_q(h.cstr, h.len), g_q(w.p, w.n)); harbol_string_clear(&h);
}
static void classes(void) {
	int32_t c = (int32_t)g_u(128); LOG("character %d\n", c);
	bool al = (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c=='_', dg = c >= '0' && c <= '9';
	CHECK(is_alphabetic(c)==al && is_possible_id(c)==(al || dg) && is_decimal(c)==dg, "letters and digits: %d", c);
	CHECK(is_octal(c)==(c >= '0' && c <= '7') && is_binary(c)==(c=='0' || c=='1') && is_hex(c)==(dg || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')), "digits of a base: %d", c);
	CHECK(is_whitespace(c)==(c==' ' || (c >= 9 && c <= 13)), "whitespace: %d", c);
}
struct Target const TARGETS[] = { { "literal", literal, 6 }, { "bad_literal", bad_literal, 3 }, { "line_comment", line_comment, 3 }, { "block_comment", block_comment, 3 }, { "multiquote", multiquote, 3 }, { "words", words, 3 }, { "classes", classes, 1 }, {0} };
