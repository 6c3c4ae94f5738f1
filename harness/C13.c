/* C13: number literals of C and Go. */
#include "pbt.h"
#include "lex/lex.h"
#include <math.h>

char const *const PROPERTY = "C13";
char const *const RULE = "Literals derived from the C and Go grammars (binary, octal, decimal, hexadecimal, floats with exponents, digit separators, suffixes), followed by a delimiter, an operator or the end of the text, in exact-size memory; the value is computed from the derivation, not from the text. "
	"Malformed ones are well-formed ones broken in one named way. Non-trivial: the literal has a separator, an exponent, a suffix or a prefix, or is malformed.";
unsigned const QUICK_CASES = 10000000, THOROUGH_CASES = 60000000;
struct Known const KNOWN[] = { {0} };

static bool go, any; static char sep;
static Str lit, clean; static __uint128_t val; static unsigned base; static bool flt; static size_t dot_at, exp_at, suf_at, first_digit, last_digit; 
static void put(char c) { s_addc(&lit, c); s_addc(&clean, c); }
/* a run of digits with separators between them */
static void digits(unsigned b, unsigned maxd, bool nonzero_first, bool count) {
	unsigned n = 1 + (unsigned)g_len(maxd - 1); bool seps = g_p(1,4);
	if( !count && maxd >= 12 && g_rare(12000) ) { /* far more digits than any buffer or counter expects */ n = 250 + (unsigned)g_u(g_p(1,100) ? 70000 : 1000); CLASSIFY("hundreds of digits"); first_digit = lit.n; for( unsigned i=0; i < n; i++ ) { if( i && seps && i % 3==0 ) { s_addc(&lit, sep); any = true; } last_digit = lit.n; put((char)('1' + i * 7 % 9)); } return; }
	for( unsigned i=0; i < n; i++ ) {
		if( i && seps && g_p(1,3) ) { s_addc(&lit, sep); any = true; }
		unsigned d = (unsigned)g_u(b); if( i==0 && nonzero_first && d==0 ) d = 1 + (unsigned)g_u(b - 1);
		if( i==0 ) first_digit = lit.n;
		last_digit = lit.n; put(d < 10 ? '0' + d : (g_p(1,2) ? 'a' : 'A') + d - 10);
		if( count ) val = val * b + d;
	}
}
static void expo(char a, char b) { exp_at = lit.n; put(g_p(1,2) ? a : b); if( g_p(1,2) ) put(g_p(1,2) ? '+' : '-'); bool lz = g_p(1,8); if( lz ) put('0'); digits(10, 3, false, false); flt = any = true; }
static void suffix_int(void) {
	if( go || !g_p(1,3) ) return;
	any = true;
	static char const *S[] = { "u", "U", "l", "L", "ul", "uL", "Ul", "UL", "ll", "LL", "ull", "uLL", "Ull", "ULL", "lu", "LU", "llu", "LLU" };
	s_puts(&lit, S[g_u(18)]);
}
static void suffix_flt(void) { if( !go && g_p(1,4) ) { any = true; s_addc(&lit, "fFlL"[g_u(4)]); } }
enum { DEC, OCT, HEX, BIN, DFLT, HFLT };
static unsigned kind;
static void literal(void) {
	lit = (Str){0}; clean = (Str){0}; val = 0; flt = false; any = false; dot_at = exp_at = suf_at = SIZE_MAX; first_digit = last_digit = 0; sep = go ? '_' : '\'';
	kind = (unsigned)g_u(6);
	switch( kind ) {
		case DEC: base = 10; if( g_p(1,8) ) { first_digit = last_digit = lit.n; put('0'); base = 8; } else digits(10, 19, true, true); suf_at = lit.n; suffix_int(); break;
		case OCT: any = true; base = 8; put('0'); if( go && g_p(1,2) ) { put(g_p(1,2) ? 'o' : 'O'); if( g_p(1,8) ) s_addc(&lit, '_'); } digits(8, 20, false, true); suf_at = lit.n; suffix_int(); break;
		case HEX: any = true; base = 16; put('0'); put(g_p(1,2) ? 'x' : 'X'); if( go && g_p(1,8) ) s_addc(&lit, '_'); digits(16, 16, false, true); suf_at = lit.n; suffix_int(); break;
		case BIN: any = true; base = 2; put('0'); put(g_p(1,2) ? 'b' : 'B'); if( go && g_p(1,8) ) s_addc(&lit, '_'); digits(2, 64, false, true); suf_at = lit.n; suffix_int(); break;
		case DFLT: { base = 10; flt = true; unsigned f = (unsigned)g_u(3);
			if( f==0 ) { dot_at = lit.n; put('.'); digits(10, 20, false, false); }
			else { if( g_p(1,4) ) put('0'); else digits(10, 20, false, false); if( f==1 ) { dot_at = lit.n; put('.'); if( g_p(3,4) ) digits(10, 20, false, false); } }
			if( f==2 || g_p(1,3) ) expo('e', 'E');
			suf_at = lit.n; suffix_flt(); break; }
		default: { any = flt = true; base = 16; put('0'); put(g_p(1,2) ? 'x' : 'X'); bool lead = go && g_p(1,5);
			if( lead ) { dot_at = lit.n; put('.'); digits(16, 12, false, false); }
			else { digits(16, 12, false, false); if( g_p(1,2) ) { dot_at = lit.n; put('.'); if( g_p(3,4) ) digits(16, 12, false, false); } }
			expo('p', 'P'); suf_at = lit.n; suffix_flt(); }
	}
}
typedef enum HarbolLexErrType Err;
static Err lex(char const *text, char const **end, struct HarbolString *buf, bool *isf, bool direct) {
	if( direct ) switch( kind ) {
		case HEX: case HFLT: return go ? lex_go_style_hex(text, end, buf, isf) : lex_c_style_hex(text, end, buf, isf);
		case BIN: return go ? lex_go_style_binary(text, end, buf) : lex_c_style_binary(text, end, buf);
		case OCT: if( !go ) return lex_c_style_octal(text, end, buf, isf); if( text[1]=='o' || text[1]=='O' ) return lex_go_style_octal(text, end, buf); break;
		default: { size_t z = strspn(text, "01234567'"); if( !go && kind==DFLT && text[0]=='0' && text[z]=='.' && g_p(1,2) ) { CLASSIFY("float that begins as an octal number"); return lex_c_style_octal(text, end, buf, isf); } }
			return go ? lex_go_style_decimal(text, end, buf, isf) : lex_c_style_decimal(text, end, buf, isf);
	}
	return go ? lex_go_style_number(text, end, buf, isf) : lex_c_style_number(text, end, buf, isf);
}
static void well_formed(void) {
	go = g_p(1,2); literal(); if( any ) g_nontrivial();
	Str t = {0}; s_add(&t, lit.p, lit.n);
	bool ops = go || kind != HEX; /* after a C hexadecimal integer, + and - are documented as errors (as 0xe+1 is in C) */
	unsigned follow = (unsigned)g_u(4);
	if( follow==1 ) { static char const D[] = " \t\n;,:)]}*/%<>=&|^?!~\"#@\\"; s_addc(&t, D[g_u(sizeof D - 1)]); while( g_more(3) ) s_addc(&t, (char)(1 + g_u(255))); }
	else if( follow > 1 && ops ) { CLASSIFY("followed by an operator"); s_addc(&t, g_p(1,2) ? '+' : '-'); if( follow==3 ) { s_addc(&t, '0' + (char)g_u(10)); while( g_more(3) ) s_addc(&t, "0123456789.eE'_u"[g_u(16)]); } else s_addc(&t, ' '); }
	LOG("%s: %s\n", go ? "Go" : "C", g_q(t.p, t.n));
	char *text = s_exact(&t); char const *end = NULL; struct HarbolString buf = {0}; bool isf = false;
	Err r = lex(text, &end, &buf, &isf, g_p(1,2));
	CHECK(r==HarbolLexNoErr, "%s was rejected: %s", g_q(lit.p, lit.n), lex_get_err(r));
	CHECK(end==text + lit.n, "%zd characters of %s were consumed, expected %zu", (ptrdiff_t)(end - text), g_q(t.p, t.n), lit.n);
	CHECK(buf.len==lit.n && !memcmp(buf.cstr, lit.p, lit.n + 0), "the text of %s was stored as %s", g_q(lit.p, lit.n), g_q(buf.cstr, buf.len));
	CHECK(isf==flt, "%s counts as %s", g_q(lit.p, lit.n), isf ? "a float" : "an integer");
	if( !flt ) {
		char *stop = NULL;
		if( val <= UINT64_MAX ) { uintmax_t u = go ? lex_go_string_to_uint(&buf, &stop) : lex_c_string_to_uint(&buf, &stop); CHECK(u==(uint64_t)val, "%s was converted to %ju, expected %ju", g_q(lit.p, lit.n), u, (uintmax_t)val); CHECK(stop==buf.cstr + suf_at, "the conversion of %s ended at %zd, expected %zu", g_q(lit.p, lit.n), (ptrdiff_t)(stop - buf.cstr), suf_at); }
		if( val <= INT64_MAX ) { stop = NULL; intmax_t i = go ? lex_go_string_to_int(&buf, &stop) : lex_c_string_to_int(&buf, &stop); CHECK(i==(int64_t)val, "%s was converted to %jd, expected %ju", g_q(lit.p, lit.n), i, (uintmax_t)val); CHECK(stop==buf.cstr + suf_at, "the conversion of %s ended at %zd, expected %zu", g_q(lit.p, lit.n), (ptrdiff_t)(stop - buf.cstr), suf_at);
			CHECK(i==(go ? lex_go_string_to_int(&buf, NULL) : lex_c_string_to_int(&buf, NULL)), "another value without an end"); }
	} else {
		/* the reference: the C library's correctly rounding conversion of the derivation without separators and suffix */
		char *c = s_exact(&clean); long double want = strtold(c, NULL), got = lex_string_to_float(&buf);
		CHECK(got==want || (isinf(got) && isinf(want)), "%s was converted to %La, expected %La", g_q(lit.p, lit.n), got, want);
	}
	harbol_string_clear(&buf);
}
#define IS(code) (want = HarbolLex##code)
/* well-formed literals broken in one way that has a diagnosis of its own */
static void malformed(void) {
	go = g_p(1,2); char const *why = NULL; Err want = HarbolLexNoErr; g_nontrivial(); bool ended = false, direct = false;
	for( int tries=0; !why && tries < 20; tries++ ) {
		literal(); char s[2] = { sep, 0 }; bool nosuf = suf_at==lit.n;
		switch( g_u(22) ) {
			case 0: if( nosuf && lit.p[lit.n-1] != '.' ) { s_addc(&lit, sep); why = "dangling separator"; IS(DigitSepNotSepDigits); } break;
			case 1: if( last_digit > first_digit && isxdigit(lit.p[last_digit-1]) ) { s_ins(&lit, last_digit, (char[]){ sep, sep }, 2); why = "doubled separator"; IS(ExtraDigitSeps); } break;
			case 2: if( dot_at != SIZE_MAX && dot_at + 1 < lit.n && (g_p(1,2)) ) { s_ins(&lit, dot_at + 1, s, 1); why = "separator after the dot"; IS(DigitSepNearDot); }
				else if( dot_at != SIZE_MAX && dot_at > 0 && isxdigit(lit.p[dot_at-1]) ) { s_ins(&lit, dot_at, s, 1); why = "separator before the dot"; IS(DigitSepNearDot); } break;
			case 3: if( exp_at != SIZE_MAX ) { if( g_p(1,2) ) { s_ins(&lit, exp_at + 1, s, 1); why = "separator after the exponent mark"; } else if( isxdigit(lit.p[exp_at-1]) ) { s_ins(&lit, exp_at, s, 1); why = "separator before the exponent mark"; }
				want = kind==HFLT ? HarbolLexDigitSepNearExp : HarbolLexDigitSepNotSepDigits; } break;
			case 4: if( dot_at != SIZE_MAX ) { s_ins(&lit, dot_at, ".", 1); why = "second dot"; IS(ExtraFltDot); } break;
			case 5: if( exp_at != SIZE_MAX ) { lit.n = exp_at + 1; bool sign = g_p(1,2); if( sign ) s_addc(&lit, g_p(1,2) ? '+' : '-'); why = "exponent without digits"; want = kind==DFLT || sign ? HarbolLexNoNumAfterExp : HarbolLexHexMissingDigits; } break;
			case 6: if( kind==HEX ) { lit.n = 2; why = "no digits after the prefix"; IS(HexMissingDigits); } break;
			case 7: if( kind==HFLT && dot_at != SIZE_MAX && (dot_at != 2) ) { lit.n = exp_at; why = "hexadecimal float without exponent"; IS(HexFltNoExp); } break;
			case 8: if( nosuf ) { s_addc(&lit, "gGhHkKmMnNqQrRsStTvVwWyYzZ"[g_u(26)]); why = "foreign letter"; IS(BadGylph); } break;
			case 9: if( kind==BIN ) { s_ins(&lit, last_digit, (char[]){ '2' + (char)g_u(8) }, 1); why = "digit outside the base"; IS(BadGylph); }
				else if( kind==OCT && (!go || lit.p[1]=='o' || lit.p[1]=='O') ) { s_ins(&lit, last_digit, (char[]){ '8' + (char)g_u(2) }, 1); why = "digit outside the base"; IS(BadGylph); } break;
			case 10: if( !go && nosuf ) { if( !flt ) {
					static struct { char const *s; Err e; } const S[] = { {"uu",HarbolLexTooManyUs}, {"uU",HarbolLexTooManyUs}, {"ulu",HarbolLexTooManyUs}, {"lll",HarbolLexTooManyLs}, {"LLL",HarbolLexTooManyLs}, {"ullu",HarbolLexTooManyUs}, {"ulll",HarbolLexTooManyLs}, {"llul",HarbolLexUBetweenLs}, {"lul",HarbolLexUBetweenLs}, {"LUL",HarbolLexUBetweenLs}, {"lUl",HarbolLexUBetweenLs}, {"u1",HarbolLexIntExtraSuffix}, {"l1",HarbolLexIntExtraSuffix}, {"ull0",HarbolLexIntExtraSuffix}, {"LL1",HarbolLexIntExtraSuffix} };
					unsigned k = (unsigned)g_u(15); s_puts(&lit, S[k].s); want = S[k].e; why = "contradictory integer suffix"; }
				else if( kind==DFLT ) { static struct { char const *s; Err e; } const S[] = { {"u",HarbolLexIntSuffixOnFlt}, {"U",HarbolLexIntSuffixOnFlt}, {"ll",HarbolLexIntSuffixOnFlt}, {"LL",HarbolLexIntSuffixOnFlt}, {"ff",HarbolLexExtraFltSuffix}, {"fF",HarbolLexExtraFltSuffix}, {"f1",HarbolLexFltExtraSuffix}, {"F0",HarbolLexFltExtraSuffix}, {"fL",HarbolLexExtraFltSuffix}, {"lf",HarbolLexExtraFltSuffix}, {"l0",HarbolLexIntExtraSuffix}, {"fu",HarbolLexIntSuffixOnFlt} };
					unsigned k = (unsigned)g_u(12); s_puts(&lit, S[k].s); want = S[k].e; why = "contradictory float suffix"; }
				else if( kind==HFLT ) { static struct { char const *s; Err e; } const S[] = { {"u",HarbolLexIntSuffixOnFlt}, {"U",HarbolLexIntSuffixOnFlt}, {"ll",HarbolLexIntSuffixOnFlt}, {"ff",HarbolLexFltExtraSuffix}, {"fF",HarbolLexFltExtraSuffix}, {"f1",HarbolLexFltExtraSuffix}, {"F0",HarbolLexFltExtraSuffix}, {"fL",HarbolLexFltExtraSuffix}, {"lf",HarbolLexFltExtraSuffix}, {"l0",HarbolLexIntExtraSuffix}, {"fa",HarbolLexFltExtraSuffix}, {"B",HarbolLexHexFltBadSuffix} };
					unsigned k = (unsigned)g_u(12); s_puts(&lit, S[k].s); want = S[k].e; why = "contradictory suffix of a hexadecimal float"; } } break;
			case 11: if( !go && kind==DEC && nosuf ) { s_addc(&lit, g_p(1,2) ? 'f' : 'F'); why = "float suffix on an integer"; IS(MissingDotOrExp); } break;
			case 12: if( exp_at != SIZE_MAX && nosuf ) { s_puts(&lit, kind==HFLT ? (g_p(1,2) ? "p1" : "P") : g_p(1,2) ? "e1" : "E"); why = "second exponent"; want = kind==HFLT ? HarbolLexTooManyPs : HarbolLexExtraExp; } break;
			case 13: if( exp_at != SIZE_MAX && nosuf ) { s_puts(&lit, g_p(1,2) ? ".5" : "."); why = "dot behind the exponent"; IS(ExtraFltDot); } break;
			case 14: if( !go && kind==HEX ) { if( nosuf && g_p(1,2) ) { s_puts(&lit, g_p(1,2) ? "+1" : "-"); why = "sign in a hexadecimal integer"; IS(BadPlusMinusPlace); ended = true; } else if( g_p(1,2) ) { s_ins(&lit, 2, ".", 1); lit.n = 4; s_puts(&lit, "p1"); why = "dot before any hexadecimal digit"; IS(MissingHexB4dot); } } break;
			case 15: if( kind==HEX || kind==HFLT ) { lit.n = 2; s_puts(&lit, g_p(1,2) ? "p1" : "P-2"); why = "exponent before any hexadecimal digit"; IS(HexNoDigitsB4Exp); } break;
			case 16: if( kind==HFLT && nosuf && go ) { s_addc(&lit, "abcdefABCDEF"[g_u(12)]); why = "hexadecimal digit in the exponent"; IS(HexFltBadSuffix); } break;
			case 17: if( !go && exp_at != SIZE_MAX ) { lit.n = exp_at + 1; s_addc(&lit, g_p(1,2) ? 'f' : 'F'); why = "float suffix instead of the digits of the exponent"; want = kind==HFLT ? HarbolLexHexNoDigitsB4Exp : HarbolLexFltSuffixAfterExpNoDigits; } break;
			case 18: if( !go && kind==DFLT && nosuf && exp_at==SIZE_MAX ) { s_puts(&lit, g_p(1,2) ? "fe1" : "FE"); why = "exponent behind the suffix"; IS(ExpAfterFltSuffix); } break;
			case 19: if( !go && !flt && !nosuf ) { if( g_p(1,2) ) { s_puts(&lit, kind==HEX ? (char const *[]){ ".8p1", "p1", ".", "p", ".p1", "P+1" }[g_u(6)] : (kind==DEC && g_p(1,2)) ? (char const *[]){ "e1", "e", "E", "E-1" }[g_u(4)] : kind != BIN ? (g_p(1,2) ? ".5" : ".") : "e"); why = "float behind an integer suffix"; want = kind==BIN ? HarbolLexBadGylph : HarbolLexIntExtraSuffix; } } break;
			case 20: { /* the lexer of one kind, given something else */
				direct = true; static char const *const C[] = { "1x1", "x1", "0", "0y1", "0b1", "", "91", "0X" };
				unsigned k = (unsigned)g_u(7); lit.n = 0; s_puts(&lit, C[k]); why = "prefix missing";
				if( kind==DFLT || kind==DEC || (kind==OCT && !go && (k > 1 && k < 5)) || (kind==BIN && k==4) ) { why = NULL; direct = false; break; }
				if( kind==HFLT ) kind = HEX;
				want = k==5 ? HarbolLexEoF : k < 2 || k==6 ? HarbolLexMissing0 : kind==HEX ? HarbolLexMissingX : kind==BIN ? HarbolLexMissingB : HarbolLexMissingO;
				if( k==2 || k==5 ) ended = true;
				break; }
			default: if( !go && kind==DEC && nosuf && lit.n > 1 && last_digit > 0 ) { s_ins(&lit, last_digit, g_p(1,2) ? "u" : "L", 1); why = "digit behind the suffix"; IS(IntExtraSuffix); } break;
		}
	}
	if( !why ) return;
	CLASS_IF(strstr(why, "separator"), "misplaced separator"); CLASS_IF(strstr(why, "suffix"), "bad suffix"); CLASS_IF(strstr(why, "exponent"), "bad exponent"); CLASS_IF(strstr(why, "digit"), "bad or missing digits"); CLASS_IF(direct, "prefix missing");
	Str t = {0}; s_add(&t, lit.p, lit.n); if( !ended && g_p(1,2) ) { s_addc(&t, " ;,)\n"[g_u(5)]); while( g_more(2) ) s_addc(&t, (char)(1 + g_u(255))); }
	LOG("%s, %s: %s\n", go ? "Go" : "C", why, g_q(t.p, t.n));
	char *text = s_exact(&t); char const *end = NULL; struct HarbolString buf = {0}; bool isf = false;
	Err r;
	if( direct && kind==OCT ) r = go ? lex_go_style_octal(text, &end, &buf) : lex_c_style_octal(text, &end, &buf, &isf);
	else r = lex(text, &end, &buf, &isf, direct);
	CHECK(r != HarbolLexNoErr, "%s (%s) was accepted, %zd characters", g_q(t.p, t.n), why, (ptrdiff_t)(end - text));
	CHECK(end >= text && end <= text + t.n, "the end lies outside of the text");
	CHECK(strcmp(lex_get_err(r), lex_get_err(HarbolLexNoErr)) && *lex_get_err(r), "error %d is described as no error", r);
	CHECK(r==want, "%s (%s) was diagnosed as %s instead of %s", g_q(t.p, t.n), why, lex_get_err(r), lex_get_err(want));
	CHECK(buf.len <= lit.n && buf.len + 1 >= (size_t)(end - text) && (buf.len==0 || !memcmp(buf.cstr, text, buf.len)), "%s (%s) was stored as %s", g_q(t.p, t.n), why, g_q(buf.cstr, buf.len));
	harbol_string_clear(&buf);
}
/* each error has a text of its own */
static void messages(void) {
	unsigned a = (unsigned)g_u(HarbolLexDigitSepNotSepDigits + 1), b = (unsigned)g_u(HarbolLexDigitSepNotSepDigits + 1);
	char const *x = lex_get_err(a), *y = lex_get_err(b); g_nontrivial(); CLASSIFY("message of an error");
	CHECK(x && y && *x && (a==b) == !strcmp(x, y), "errors %u and %u are both described as %s", a, b, x);
	CHECK(strcmp(x, lex_get_err(HarbolLexDigitSepNotSepDigits + 1 + g_u(1000))), "error %u has no text", a);
}
struct Target const TARGETS[] = { { "well_formed", well_formed, 30 }, { "malformed", malformed, 20 }, { "messages", messages, 1 }, {0} };
