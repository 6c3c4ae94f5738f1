/* C16: the lexing functions on arbitrary null-terminated text. */
#include "pbt.h"
#include "lex/lex.h"

char const *const PROPERTY = "C16";
char const *const RULE = "Arbitrary null-terminated texts of 0..200 bytes (token fragments, truncated constructs, random bytes) in memory of exactly that size, under address checking; every lexing and skipping function is called at generated positions, and a tokenizer built from them walks the whole text. "
	"Results must lie inside the text, errors must be known, each step of the tokenizer must advance. Non-trivial: the text makes at least one lexer report an error or reach the end of the text.";
unsigned const QUICK_CASES = 8000000, THOROUGH_CASES = 60000000;
struct Known const KNOWN[] = { {0} };

static char *text; static size_t n; static bool deep;
static void soup(Str *t) {
	static char const *F[] = { "0x", "0X1.8p", "0b", "0o7", "07", "1'0", "1_0", "1.5e", "e+", "p-1", ".", "..", "ull", "LU", "f", "\\", "\\x", "\\u00e", "\\U0010FFFF", "\\7", "\\9", "\"", "'", "`", "\"\"\"", "//", "/*", "*/", "#", "\n", "\\\n", " ", "\t", "name_1", "\xC3\xA9", "\xF0\x9F", "\xE2\x82", "\xFF", "\x80", "-", "+", "0", "9", "8", "=", "{" };
	unsigned avg = 1 + (unsigned)g_u(16);
	if( g_rare(12000) ) { char const *w = F[g_u(sizeof F / sizeof *F)]; for( size_t k = 250 + g_u(g_p(1,40) ? 70000 : 1500); k; k-- ) s_puts(t, w); CLASSIFY("very long"); size_t end = t->n + 200; while( t->n < end && g_more(avg) ) s_addc(t, "0123456789abcdefxXoOpPuUlLeE.'_+-\"\\`\n"[g_u(37)]); return; }
	while( t->n < 200 && g_more(avg) ) switch( g_u(5) ) { case 0: s_addc(t, (char)(1 + g_u(255))); break; case 1: s_addc(t, "0123456789abcdefxXoOpPuUlLeE.'_+-"[g_u(33)]); break; default: s_puts(t, F[g_u(sizeof F / sizeof *F)]); }
}
static void inside(char const *e, char const *from, char const *what) { CHECK(e >= from && e <= text + n, "%s at %zu ended at %zd of %zu", what, (size_t)(from - text), (ptrdiff_t)(e - text), n); deep |= e==text + n; }
static bool any(int32_t c) { return c != ';'; } static bool all(int32_t c) { (void)c; return true; }
typedef enum HarbolLexErrType Err;
static void known(Err r, char const *what) { CHECK(r >= HarbolLexNoErr && r <= HarbolLexDigitSepNotSepDigits && strcmp(lex_get_err(r), lex_get_err((Err)999)), "%s returned the unknown error %d", what, (int)r); deep |= r != 0; }

static void one(size_t at) {
	char const *s = text + at, *e = NULL; struct HarbolString b = {0}; bool f = false; uint32_t lines = 0; size_t ln = 0; unsigned which = (unsigned)g_u(34);
	LOG("function %u at %zu\n", which, at);
	#define NUM(i, call) case i: { Err r = call; inside(e, s, #call); known(r, #call); CHECK(b.len <= (size_t)(e - s) + 1, #call " stored %zu characters of %zu", b.len, (size_t)(e - s)); break; }
	switch( which ) {
		NUM(0, lex_c_style_hex(s, &e, &b, &f)) NUM(1, lex_go_style_hex(s, &e, &b, &f)) NUM(2, lex_c_style_octal(s, &e, &b, &f)) NUM(3, lex_go_style_octal(s, &e, &b))
		NUM(4, lex_c_style_binary(s, &e, &b)) NUM(5, lex_go_style_binary(s, &e, &b)) NUM(6, lex_c_style_decimal(s, &e, &b, &f)) NUM(7, lex_go_style_decimal(s, &e, &b, &f))
		NUM(8, lex_c_style_number(s, &e, &b, &f)) NUM(9, lex_go_style_number(s, &e, &b, &f))
		case 10: { Err r = lex_c_style_str(s, &e, &b); inside(e, s, "C string"); known(r, "C string"); break; }
		case 11: { Err r = lex_go_style_str(s, &e, &b); inside(e, s, "Go string"); known(r, "Go string"); break; }
		case 12: lex_until_false(s, &e, &b, g_p(1,3) ? all : any); inside(e, s, "lex_until_false"); break;
		case 13: lex_until_false_utf8(s, &e, &b, g_p(1,3) ? all : any); inside(e, s, "lex_until_false_utf8"); break;
		case 14: if( lex_c_style_identifier(s, &e, &b) ) { inside(e, s, "identifier"); CHECK(e > s && b.len==(size_t)(e - s), "empty identifier"); } break;
		case 15: lex_until(s, &e, &b, (int32_t)(char)g_u(256)); inside(e, s, "lex_until"); break;
		case 16: inside(skip_chars(s, g_p(1,3) ? all : is_whitespace, &lines), s, "skip_chars"); break;
		case 17: inside(skip_chars_until_newline(s, g_p(1,3) ? all : any), s, "skip_chars_until_newline"); break;
		case 18: inside(skip_string_literal(s, g_p(1,2) ? '\\' : '`'), s, "skip_string_literal"); break;
		case 19: inside(skip_single_line_comment(s, &lines), s, "skip_single_line_comment"); break;
		case 20: inside(skip_multi_line_comment(s, "*/", 2, &lines), s, "skip_multi_line_comment"); break;
		case 21: { char *c = g_cstr(s, n - at), *o = c, *r = clear_single_line_comment(c); CHECK(r >= o && r <= o + (n - at), "clear_single_line_comment ended outside"); for( size_t i=0; i < n - at; i++ ) CHECK(o[i]==s[i] || (o[i]==' ' && o + i < r), "clear_single_line_comment changed byte %zu", i); break; }
		case 22: { char *c = g_cstr(s, n - at), *o = c, *r = clear_multi_line_comment(c, "*/", 2); CHECK(r >= o && r <= o + (n - at), "clear_multi_line_comment ended outside"); for( size_t i=0; i < n - at; i++ ) CHECK(o[i]==s[i] || (o[i]==' ' && o + i < r), "clear_multi_line_comment changed byte %zu", i); break; }
		case 23: inside(skip_multiquote_string(s, "\"\"\"", 3, '\\'), s, "skip_multiquote_string"); break;
		case 24: lex_single_line_comment(s, &e, &b, &lines); inside(e, s, "lex_single_line_comment"); break;
		case 25: lex_multi_line_comment(s, &e, "*/", 2, &b, &lines); inside(e, s, "lex_multi_line_comment"); break;
		case 26: if( lex_multiquote_string(s, &e, "\"\"\"", 3, &b, &ln) ) inside(e, s, "lex_multiquote_string"); break;
		case 27: { int32_t r = lex_hex_escape_char(s, &e); inside(e, s, "hex escape"); CHECK(r >= -1 && r <= 0x10FFFF, "hex escape gave U+%X", (unsigned)r); break; }
		case 28: lex_octal_escape_char(s, &e); inside(e, s, "octal escape"); break;
		case 29: { int32_t r = lex_unicode_char(s, &e, g_p(1,2) ? 2 : 4); inside(e, s, "unicode escape"); CHECK(r==-1 || is_valid_unicode(r), "unicode escape gave U+%X", (unsigned)r); break; }
		case 30: { size_t k = get_str_rune_len(s); CHECK(k <= n - at, "more characters than bytes"); break; }
		case 31: { b = harbol_string_make(s, &(bool){0}); lex_fix_newlines(&b, g_p(1,2)); CHECK(!b.len || (!memchr(b.cstr, '\r', b.len) && b.cstr[b.len]==0), "carriage returns are left"); break; }
		case 32: { struct LexingRules rules = {0}; bool r = lex_custom_number(s, &e, &rules, &b); inside(e, s, "lex_custom_number"); CHECK(r==(b.len > 0), "lex_custom_number returned %d with %zu characters", r, b.len); break; }
		default: { b = harbol_string_make(s, &(bool){0}); if( !b.len ) break; char *stop = NULL; g_p(1,2) ? lex_c_string_to_int(&b, &stop) : lex_go_string_to_int(&b, &stop); CHECK(stop >= b.cstr && stop <= b.cstr + b.len, "conversion ended outside"); g_p(1,2) ? lex_c_string_to_uint(&b, &stop) : lex_go_string_to_uint(&b, &stop); CHECK(stop >= b.cstr && stop <= b.cstr + b.len, "conversion ended outside"); lex_string_to_float(&b); }
	}
	if( lines ) { size_t nl = 0; for( size_t i=at; i < n; i++ ) nl += text[i]=='\n'; CHECK(lines <= nl, "%u lines were counted, there are %zu", lines, nl); }
	CHECK(!b.len || b.cstr[b.len]==0, "the collected text is not terminated"); harbol_string_clear(&b);
}
static void calls(void) {
	Str t = {0}; soup(&t); n = t.n; text = s_exact(&t); deep = false; LOG("text %s\n", g_q(text, n));
	for( int k=0; k < 12; k++ ) one(g_u(n + 1));
	if( deep ) g_nontrivial();
}
static void tokenize(void) {
	Str t = {0}; soup(&t); n = t.n; text = s_exact(&t); deep = false; LOG("text %s\n", g_q(text, n)); bool go = g_p(1,2); uint32_t lines = 0; size_t steps = 0, errs = 0;
	char const *s = text; struct HarbolString b = {0};
	while( *s ) {
		char const *e = s; bool f = false; Err r = 0; harbol_string_clear(&b); CHECK(steps++ <= n, "more tokens than characters");
		if( is_whitespace(*s) ) e = skip_chars(s, is_whitespace, &lines);
		else if( s[0]=='/' && s[1]=='/' ) e = skip_single_line_comment(s, &lines);
		else if( s[0]=='/' && s[1]=='*' ) lex_multi_line_comment(s, &e, "*/", 2, &b, &lines);
		else if( !strncmp(s, "\"\"\"", 3) ) e = skip_multiquote_string(s + 3, "\"\"\"", 3, '\\');
		else if( *s=='"' || *s=='\'' || (*s=='`' && go) ) r = go ? lex_go_style_str(s, &e, &b) : lex_c_style_str(s, &e, &b);
		else if( is_alphabetic(*s) ) { CHECK(lex_c_style_identifier(s, &e, &b), "no identifier after a letter"); }
		else if( is_decimal(*s) || (*s=='.' && is_decimal(s[1])) ) r = go ? lex_go_style_number(s, &e, &b, &f) : lex_c_style_number(s, &e, &b, &f);
		else e = s + 1;
		inside(e, s, "token"); known(r, "token"); errs += r != 0;
		CHECK(e > s, "no progress at %zu in %s", (size_t)(s - text), g_q(text, n)); s = e;
	}
	CHECK(s==text + n, "tokenizing ended before the end"); harbol_string_clear(&b);
	if( deep ) g_nontrivial(); CLASS_IF(errs, "token errors");
}
struct Target const TARGETS[] = { { "calls", calls, 3 }, { "tokenize", tokenize, 2 }, {0} };
