/* C17: math expressions against a reference evaluation of the derivation tree. */
#include "pbt.h"
#include "math/math_parser.h"
#include <math.h>

char const *const PROPERTY = "C17";
char const *const RULE = "Expressions derived from the documented grammar (nesting up to 7, both bracket kinds, unary signs, + - * / ^, the 14 predefined functions with and without brackets, predefined and caller-supplied names and functions, numbers of 1..90 digits, random spacing), evaluated next to their derivation; "
	"rarely up to 400 layers of brackets and calls and 200000 signs with their value, or 100000 layers, which must do no harm; and arbitrary texts in exact-size memory, which must be evaluated without touching memory outside of them. Non-trivial: the expression has at least three operators or a function call, or the text is arbitrary.";
unsigned const QUICK_CASES = 5000000, THOROUGH_CASES = 60000000;
struct Known const KNOWN[] = { {0} };
typedef long double F;

static struct { char name[64]; F v; } VAR[4]; static size_t nv; static bool custom; static size_t datalen; static unsigned ops; static int datum; static void *dp;
static bool open_call; /* the text ends in a call without brackets, which would swallow a following '^' */
static F twice(F x) { return 2 * x; } static F minus1(F x) { return x - 1; }
static void lookup(char const name[], size_t len, F *value, HarbolMathFunc **fn, void *data, size_t dlen, bool *is_func) {
	CHECK(strlen(name)==len, "the name %s was passed with length %zu", name, len); CHECK(data==dp && dlen==datalen, "the caller's data was not passed on");
	if( !strcmp(name, "twice") ) { *fn = twice; *is_func = true; return; } if( !strcmp(name, "minus1") ) { *fn = minus1; *is_func = true; return; }
	for( size_t i=0; i < nv; i++ ) if( !strcmp(VAR[i].name, name) ) { *value = VAR[i].v; return; }
	harbol_math_default_var_func(name, len, value, fn, data, dlen, is_func);
}
/* the length is the caller's own and only passed on */
static void lens(void) { dp = g_p(1,8) ? NULL : &datum; datalen = g_p(3,4) ? sizeof datum : (size_t)(g_u64() >> g_u(64)); }
static void sp(Str *t) { while( g_p(1,5) ) s_addc(t, " \t\n\r"[g_u(4)]); }
static F number(Str *t) {
	Str n = {0}; unsigned how = (unsigned)g_u(8);
	if( how==0 ) { size_t k = 40 + g_u(50); for( size_t i=0; i < k; i++ ) s_addc(&n, '0' + (char)g_u(10)); if( g_p(1,2) ) { n.p[g_u(k)] = '.'; } CLASSIFY("long number"); }
	else if( how < 5 ) s_printf(&n, "%u", (unsigned)g_u(how < 3 ? 10 : 10000));
	else if( how==5 ) s_printf(&n, ".%u", (unsigned)g_u(1000)); else if( how==6 ) s_printf(&n, "%u.", (unsigned)g_u(100)); else s_printf(&n, "%u.%0*u", (unsigned)g_u(1000), 1 + (int)g_u(6), (unsigned)g_u(1000));
	s_add(t, n.p, n.n); return strtold(s_exact(&n), NULL);
}
static F add(Str *t, int d); static F unary(Str *t, int d);
static void word_gap(Str *t) { if( isalnum((unsigned char)t->p[t->n-1]) || t->p[t->n-1]=='.' ) s_addc(t, ' '); }
static F bracket(Str *t, int d) { bool sq = g_p(1,4); s_addc(t, sq ? '[' : '('); sp(t); F v = add(t, d - 1); sp(t); s_addc(t, sq ? ']' : ')'); open_call = false; return v; }
static F powe(Str *t, int d) { F v = unary(t, d); while( d > 0 && !open_call && g_p(1,8) ) { sp(t); s_addc(t, '^'); ops++; sp(t); F r = unary(t, d - 1); v = powl(v, r); CLASSIFY("power"); } return v; }
static F factor(Str *t, int d) {
	open_call = false;
	switch( d <= 0 ? g_u(5) : g_u(9) ) {
		case 0: case 1: case 2: return number(t);
		case 3: if( g_p(1,2) ) { bool e = g_p(1,2); s_puts(t, e ? "e" : "pi"); return e ? expl(1) : acosl(-1); } /* fallthrough */
		case 4: if( custom && nv ) { size_t i = g_u(nv); s_puts(t, VAR[i].name); return VAR[i].v; } return number(t);
		case 5: case 6: return bracket(t, d);
		default: {
			static char const *const N[] = { "sin", "cos", "tan", "arcsin", "arccos", "arctan", "ln", "log", "floor", "ceil", "round", "fraction", "radians", "degrees", "twice", "minus1" };
			unsigned f = (unsigned)g_u(custom ? 16 : 14); s_puts(t, N[f]); ops += 3; F x; sp(t); CLASSIFY("function call");
			if( g_p(2,3) ) x = bracket(t, d); else { /* without brackets the operand is a power expression that does not start with one */
				Str u = {0}; x = powe(&u, d - 1); if( u.p[0]=='(' || u.p[0]=='[' ) { u = (Str){0}; x = number(&u); } if( isalnum((unsigned char)u.p[0]) || u.p[0]=='.' ) word_gap(t); s_add(t, u.p, u.n); open_call = true; CLASSIFY("call without brackets"); }
			F pi = acosl(-1);
			switch( f ) { case 0: return sinl(x); case 1: return cosl(x); case 2: return tanl(x); case 3: return asinl(x); case 4: return acosl(x); case 5: return atanl(x); case 6: return logl(x); case 7: return log10l(x);
				case 8: return floorl(x); case 9: return ceill(x); case 10: return roundl(x); case 11: return x - floorl(x); case 12: return x * (pi / 180); case 13: return x * (180 / pi); case 14: return 2 * x; default: return x - 1; }
		}
	}
}
static F unary(Str *t, int d) {
	if( g_p(1,8) ) { bool plus = g_p(1,3); s_addc(t, plus ? '+' : '-'); ops++; sp(t); F v = unary(t, d); CLASS_IF(plus, "unary plus"); return plus ? fabsl(v) : -v; }
	return factor(t, d);
}
static F mul(Str *t, int d) { F v = powe(t, d); while( g_p(1,4) ) { bool m = g_p(1,2); sp(t); s_addc(t, m ? '*' : '/'); ops++; sp(t); F r = powe(t, d); if( m ) v *= r; else v /= r; } return v; }
static F add(Str *t, int d) { F v = mul(t, d); while( g_p(1,3) && t->n < 3000 ) { bool p = g_p(1,2); sp(t); s_addc(t, p ? '+' : '-'); ops++; sp(t); F r = mul(t, d); if( p ) v += r; else v -= r; } return v; }

static void derive(void) {
	custom = g_p(1,2); nv = 0; lens(); ops = 0; datum = 1;
	if( custom ) for( nv = 0; nv < 4 && g_p(2,3); nv++ ) { size_t len = g_p(1,8) ? 60 + g_u(4) : 1 + g_u(6); for( size_t i=0; i < len; i++ ) VAR[nv].name[i] = "xyzABCXYZqQ"[g_u(11)]; if( len > 1 && g_p(1,3) ) VAR[nv].name[len-1] = '7'; VAR[nv].name[len] = 0; bool dup = false; for( size_t j=0; j < nv; j++ ) dup |= !strcmp(VAR[j].name, VAR[nv].name); if( dup ) break; VAR[nv].v = (F)(int64_t)g_range(-50, 50) / 4; CLASS_IF(len >= 60, "long name"); }
	Str t = {0}; sp(&t); F want = add(&t, (int)g_u(7)); sp(&t);
	LOG("%s\n= %.18Lg\n", g_q(t.p, t.n), want); if( ops >= 3 ) g_nontrivial();
	char *text = s_exact(&t); F got = harbol_math_parse_expr(text, custom ? lookup : harbol_math_default_var_func, custom ? dp : NULL, custom ? datalen : 0);
	bool same = got==want || (isnan(got) && isnan(want)) || fabsl(got - want) <= 1e-12L * fabsl(want);
	CHECK(same, "%s gives %.18Lg, expected %.18Lg", text, got, want);
}
static void arbitrary(void) {
	Str t = {0}; unsigned avg = 1 + (unsigned)g_u(30); g_nontrivial();
	while( t.n < 400 && g_more(avg) ) switch( g_u(4) ) { case 0: s_addc(&t, "+-*/^()[]."[g_u(10)]); break; case 1: { size_t k = g_len(90); char c = "0123456789a."[g_u(12)]; while( k-- ) s_addc(&t, c); break; } case 2: { static char const *W[] = { "sin", "pi", "e", "ln(", "1.5", "-", " ", "twice", "2^" }; s_puts(&t, W[g_u(9)]); break; } default: s_addc(&t, (char)(1 + g_u(255))); }
	LOG("text %s\n", g_q(t.p, t.n)); char *text = s_exact(&t); custom = true; nv = 0; datum = 2; lens();
	(void)harbol_math_parse_expr(text, g_p(1,3) ? NULL : lookup, dp, datalen);
	CHECK(!strcmp(text, s_exact(&t)), "the expression was changed");
}
static void deep(void) { /* layers of brackets, calls and runs of signs, their value computed from the inside out */
	bool huge = g_p(1,3); size_t d = huge ? 1000 + g_u(g_p(1,4) ? 100000 : 5000) : g_u(g_p(1,2) ? 400 : 60); g_nontrivial();
	Str t = {0}; uint8_t *kind = g_zbuf(d + 1), *shape = g_zbuf(d + 1), same = (uint8_t)g_u(8); bool one = g_p(1,3), shut = !huge || g_p(1,2);
	custom = true; nv = 0; datum = 3; lens();
	static char const *const OPEN[] = { "(", "-(", "1-(", "+(", "0.5*(", "minus1(", "floor(", "3+(" };
	for( size_t i=0; i < d; i++ ) { kind[i] = one ? same : (uint8_t)g_u(8); shape[i] = g_p(1,4); s_puts(&t, OPEN[kind[i]]); if( shape[i] ) t.p[t.n-1] = '['; }
	size_t signs = g_p(1,4) ? g_u(g_p(1,6) ? 200000 : 300) : 0; bool plus = false, neg = false; unsigned mix = (unsigned)g_u(3);
	for( size_t i=0; i < signs; i++ ) { bool p = mix==1 ? i + 1==signs : mix==2 && g_p(1,8); s_addc(&t, p ? '+' : '-'); if( p ) plus = true; else if( !plus ) neg = !neg; }
	F v = (F)(1 + g_u(1000)) / 8, x; s_printf(&t, "%Lg", v); v = neg ? -v : v;
	if( !huge ) for( size_t k = g_p(1,8) ? g_u(g_p(1,8) ? 20000 : 2000) : g_u(4); k; k-- ) { switch( g_u(5) ) { case 0: s_puts(&t, "+2"); v += 2; break; case 1: s_puts(&t, "-(3)"); v -= 3; break; case 2: s_puts(&t, "+[-(1)]"); v -= 1; break; case 3: s_puts(&t, "-floor 2"); v -= 2; break; default: s_puts(&t, "+1*2"); v += 2; break; } }
	for( size_t i=d; i-- > 0; ) { switch( kind[i] ) { case 1: v = -v; break; case 2: v = 1 - v; break; case 3: v = fabsl(v); break; case 4: v = 0.5L * v; break; case 5: v = v - 1; break; case 6: v = floorl(v); break; case 7: v = 3 + v; break; default: break; } if( shut ) s_addc(&t, shape[i] ? ']' : ')'); }
	LOG("%zu layers, %zu signs%s: %s\n", d, signs, shut ? "" : ", not closed", t.n < 3000 ? g_q(t.p, t.n) : "...");
	char *text = s_exact(&t); x = harbol_math_parse_expr(text, lookup, dp, datalen); CLASS_IF(huge, "very deep"); CLASS_IF(signs > 1000, "many signs");
	if( !huge ) CHECK(x==v || fabsl(x - v) <= 1e-12L * fabsl(v), "%zu layers give %.18Lg, expected %.18Lg", d, x, v);
}
struct Target const TARGETS[] = { { "derive", derive, 4000 }, { "arbitrary", arbitrary, 1000 }, { "deep", deep, 5 }, {0} };
