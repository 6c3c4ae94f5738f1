/* Shared by C18..C21: a config as a tree of plain values, generated together with its text. */
#ifndef CFGMODEL_H
#define CFGMODEL_H
#include "pbt.h"
#include "cfg/cfg.h"
#include <math.h>
#include <ctype.h>
#include <unistd.h>
#include <sys/stat.h>
typedef long double F;
typedef struct Node { Str key, s; int type; F f; intmax_t i; bool b; uint8_t c[4]; float v[4]; struct Node **kid, *up; size_t n, cap; } Node;

static Node *node(int type) { Node *x = g_zbuf(sizeof *x); x->type = type; return x; }
static Node *find(Node const *sec, void const *key, size_t n) { for( size_t i=0; i < sec->n; i++ ) if( s_eq(&sec->kid[i]->key, key, n) ) return sec->kid[i]; return NULL; }
static void attach(Node *sec, Str const *key, Node *x) {
	if( sec->n==sec->cap ) { size_t cap = sec->cap ? sec->cap * 2 : 4; Node **k = g_buf(cap * sizeof *k); if( sec->n ) memcpy(k, sec->kid, sec->n * sizeof *k); sec->kid = k; sec->cap = cap; }
	x->key = (Str){0}; s_add(&x->key, key->p, key->n); x->up = sec; sec->kid[sec->n++] = x;
}
static bool same_f(F a, F b) { return (a==b && signbit(a)==signbit(b)) || (isnan(a) && isnan(b)); }
static char const *const TYPE[] = { "null", "section", "string", "float", "int", "bool", "color", "vector" };
static char const *type_name(int t) { return t < 0 || t > 7 ? "invalid" : TYPE[t]; }
static void same_value(Node const *x, struct HarbolVariant const *v, bool zero_sign) {
	char const *k = g_q(x->key.p, x->key.n); CHECK(v, "no value under %s", k); CHECK(v->tag==x->type, "%s has type %s, expected %s", k, type_name(v->tag), type_name(x->type)); void const *d = v->data; CHECK(d, "%s has no data", k);
	switch( x->type ) {
		case HarbolCfgType_String: { struct HarbolString const *s = *(struct HarbolString *const *)d; CHECK(s && s_eq(&x->s, s->cstr ? s->cstr : "", s->len) && (!s->cstr || !s->cstr[s->len]), "%s is %s, expected %s", k, g_q(s->cstr, s->len), g_q(x->s.p, x->s.n)); break; }
		case HarbolCfgType_Float: { F f; memcpy(&f, d, sizeof f); CHECK(zero_sign ? same_f(f, x->f) : f==x->f, "%s is %.21Lg, expected %.21Lg", k, f, x->f); break; }
		case HarbolCfgType_Int: { intmax_t i; memcpy(&i, d, sizeof i); CHECK(i==x->i, "%s is %jd, expected %jd", k, i, x->i); break; }
		case HarbolCfgType_Bool: { bool b = *(bool const *)d; CHECK(b==x->b, "%s is %d", k, b); break; }
		case HarbolCfgType_Color: { union HarbolColor c; memcpy(&c, d, sizeof c); CHECK(c.bytes.r==x->c[0] && c.bytes.g==x->c[1] && c.bytes.b==x->c[2] && c.bytes.a==x->c[3], "%s is %u,%u,%u,%u, expected %u,%u,%u,%u", k, c.bytes.r, c.bytes.g, c.bytes.b, c.bytes.a, x->c[0], x->c[1], x->c[2], x->c[3]); break; }
		case HarbolCfgType_Vec4D: { struct HarbolVec4D c; memcpy(&c, d, sizeof c); CHECK(same_f(c.x, x->v[0]) && same_f(c.y, x->v[1]) && same_f(c.z, x->v[2]) && same_f(c.w, x->v[3]), "%s is %g,%g,%g,%g, expected %g,%g,%g,%g", k, c.x, c.y, c.z, c.w, x->v[0], x->v[1], x->v[2], x->v[3]); break; }
	}
}
/* the whole tree, in order */
static void same_cfg(Node const *sec, struct HarbolMap const *m) {
	CHECK(m, "no section"); char const *k = sec->up ? g_q(sec->key.p, sec->key.n) : "the config";
	for( size_t i=0; i < m->len && i < sec->n; i++ ) {
		Node const *x = sec->kid[i]; char const *key = (char const *)m->keys[i];
		CHECK(s_eq(&x->key, key, strlen(key)), "entry %zu of %s is %s, expected %s", i, k, g_q(key, strlen(key)), g_q(x->key.p, x->key.n));
		struct HarbolVariant const *v = harbol_map_idx_get(m, i); same_value(x, v, true);
		CHECK(harbol_map_key_get(m, key, x->key.n + 1)==(void const *)v, "looking up %s does not find its entry", g_q(x->key.p, x->key.n));
		if( x->type==HarbolCfgType_Map ) same_cfg(x, *(struct HarbolMap *const *)v->data);
	}
	CHECK(m->len==sec->n, "%s has %zu entries, expected %zu", k, m->len, sec->n);
}

/* ---- text ---- */
typedef struct { intmax_t IOTA, ENUM; char const *file; bool err, is_file; int files; int pending; size_t pending_at; } Ctx;
/* the diagnostics to expect, in order: file and lines */
static struct { char const *file; size_t lo, hi; Str name; } diags[64]; static size_t ndiag;
static size_t line_at(Str const *t, size_t at) { size_t l = 1; for( size_t i=0; i < at; i++ ) l += t->p[i]=='\n' || (t->p[i]=='\r' && !(i + 1 < t->n && t->p[i+1]=='\n')); return l; }
static void diag(Ctx const *c, Str const *t, size_t at, Str const *name) { if( ndiag < 64 ) { diags[ndiag].name = (Str){0}; if( name ) s_add(&diags[ndiag].name, name->p, name->n); diags[ndiag].file = c->file; diags[ndiag].lo = line_at(t, at); diags[ndiag].hi = line_at(t, t->n); ndiag++; } }
static void diag_settle(Ctx *c, Str const *t) { if( c->pending ) { diags[c->pending - 1].hi = line_at(t, t->n); c->pending = 0; } }
typedef struct { intmax_t iota, enm; } Loc;
static size_t entries, specials, text_cap; static int nfiles;
static char filenames[40][200];

static size_t utf8(uint32_t c, char *o) {
	if( c <= 0x7F ) { o[0] = (char)c; return 1; }
	size_t n = c <= 0x7FF ? 2 : c <= 0xFFFF ? 3 : 4; for( size_t i = n - 1; i > 0; i-- ) { o[i] = (char)(0x80 + c % 64); c /= 64; }
	o[0] = (char)((n==2 ? 0xC0 : n==3 ? 0xE0 : 0xF0) + c); return n;
}
static void sep1(Str *t, Ctx *c) {
	switch( g_u(9) ) {
		default: s_addc(t, " \n\t "[g_u(4)]); break;
		case 4: s_puts(t, c->file && g_p(1,4) ? "\r" : "\r\n"); break;
		case 5: s_addc(t, ":,"[g_u(2)]); break;
		case 6: case 7: { bool hash = g_p(1,2); s_puts(t, hash ? "#" : "//"); size_t k = g_len(12); while( k-- ) { char ch = (char)(32 + g_u(95)); s_addc(t, ch=='\\' ? '"' : ch); if( g_p(1,60) ) { s_puts(t, "\\\n"); CLASSIFY("comment continued on the next line"); } } s_puts(t, c->file && g_p(1,20) ? "\r" : "\n"); CLASSIFY("line comment"); break; }
		case 8: { s_puts(t, "/*"); for( size_t k = g_len(12); k; k-- ) { char ch = (char)(32 + g_u(95)); s_addc(t, ch=='\\' || ch=='*' || ch=='/' ? '\n' : ch); } s_puts(t, g_p(1,4) ? " ** */" : "*/"); CLASSIFY("block comment"); break; }
	}
}
static void seps(Str *t, Ctx *c, bool need) { if( need ) sep1(t, c); while( g_p(2,5) ) sep1(t, c); }
/* one piece of the inside of a quoted text; *last: 1 hex, 2 octal escape (whose digits must not run on) */
static void piece(Str *t, Str *v, char quote, int *last) {
	switch( g_u(9) ) {
		default: { if( g_p(1,40) ) { s_addc(t, '\n'); s_addc(v, '\n'); *last = 0; CLASSIFY("text over several lines"); break; } char ch = (char)(32 + g_u(95)); if( ch=='\\' || ch=='<' || ch==quote || (*last==1 && isxdigit((unsigned char)ch)) || (*last==2 && ch >= '0' && ch <= '7') ) ch = "._-"[g_u(3)]; s_addc(t, ch); s_addc(v, ch); *last = 0; break; }
		case 4: { static char const E[][2] = { {'a','\a'},{'r','\r'},{'b','\b'},{'t','\t'},{'v','\v'},{'n','\n'},{'f','\f'},{'e',0x1B} }; size_t i = g_u(8); s_addc(t, '\\'); s_addc(t, E[i][0]); s_addc(v, E[i][1]); *last = 0; CLASSIFY("escape"); break; }
		case 5: { uint32_t r = g_p(1,2) ? 1 + (uint32_t)g_u(0xFF) : 1 + (uint32_t)g_u(0xD000); char b[4]; if( g_p(1,2) ) { s_printf(t, g_p(1,2) ? "\\x%x" : "\\X%X", r); *last = 1; } else { r = 1 + r % 0777; s_printf(t, g_p(1,2) ? "\\%o" : "\\%03o", r); *last = 2; } if( r=='<' ) r = '<'; s_add(v, b, utf8(r, b)); CLASSIFY("numeric escape"); break; }
		case 6: { uint32_t r = 0xA0 + (uint32_t)g_u(0x10FFFF - 0xA0); if( r >= 0xD800 && r <= 0xDFFF ) r = 0xFFFD; char b[4]; size_t k = utf8(r, b); if( g_p(1,2) ) s_add(t, b, k); else s_printf(t, "\\U%08x", r); s_add(v, b, k); *last = 0; CLASSIFY("not ASCII"); break; }
		case 7: { char ch = g_p(1,2) ? quote : g_p(1,2) ? '\\' : "./?%$ (){}[]'\""[g_u(14)]; s_addc(t, '\\'); s_addc(t, ch); s_addc(v, ch); *last = 0; break; }
		case 8: { static char const *const WORDS[] = { "<3", "<file>", "<MATH 1>", "<Enum>", "<Math", "//", "#", "/*", "*/", "{", "}", "true", "iota", "v[1]", "<INCLUDED>", "[1]" }; char const *w = WORDS[g_u(16)]; s_puts(t, w); s_puts(v, w); *last = 0; break; }
	}
}
/* sums of products of integers, halves and counters: exact in long double */
typedef struct { char op[8]; F k[8]; int name[8]; size_t n; bool neg; } Expr;
static char const *const CN[] = { "iota", "IOTA", "enum", "ENUM" };
static void expr(Str *t, Expr *e) {
	e->n = 0; e->neg = g_p(1,6); if( g_p(1,2) ) s_addc(t, ' '); if( e->neg ) s_addc(t, '-');
	do {
		if( e->n ) { e->op[e->n] = "+-*"[g_u(3)]; if( g_p(1,2) ) s_addc(t, ' '); s_addc(t, e->op[e->n]); if( g_p(1,2) ) s_addc(t, ' '); }
		e->name[e->n] = -1; if( g_p(1,3) ) { e->name[e->n] = (int)g_u(4); s_puts(t, CN[e->name[e->n]]); } else if( g_p(1,4) ) { unsigned h = (unsigned)g_u(100); e->k[e->n] = h + 0.5L; s_printf(t, "%u.5", h); } else { unsigned h = (unsigned)g_u(1000); e->k[e->n] = h; s_printf(t, "%u", h); }
		e->n++;
	} while( e->n < 6 && g_p(1,2) );
	if( g_p(1,3) ) s_addc(t, ' ');
}
static F expr_value(Expr const *e, Ctx const *c, Loc const *l) {
	F sum = 0, prod = 0; char op = 0;
	for( size_t i=0; i < e->n; i++ ) {
		F x = e->name[i] < 0 ? e->k[i] : (F)(e->name[i]==0 ? l->iota : e->name[i]==1 ? c->IOTA : e->name[i]==2 ? l->enm : c->ENUM); if( i==0 && e->neg ) x = -x;
		if( i && e->op[i]=='*' ) prod *= x; else { if( i ) sum = !op ? prod : op=='+' ? sum + prod : sum - prod; if( i ) op = e->op[i]; prod = x; }
	}
	return !op ? prod : op=='+' ? sum + prod : sum - prod;
}
/* a quoted text: t gets the source, v the value before any replacement; with `math`, an expression at *at..*to of v */
static void quoted(Str *t, Str *v, bool key, bool math, size_t *at, size_t *to, Expr *e) {
	char quote = "\"'"[g_u(2)]; int last = 0; s_addc(t, quote); size_t k = key ? 1 + g_len(g_p(1,12) ? 60 : 6) : g_p(1,16) ? g_len(400) : g_len(10), where = g_u(k + 1);
	for( size_t i=0; i <= k; i++ ) {
		if( math && i==where ) { Str x = {0}; expr(&x, e); *at = v->n; s_puts(v, "<math"); s_add(v, x.p, x.n); s_puts(t, "<math"); s_add(t, x.p, x.n); s_addc(t, '>'); *to = v->n; s_addc(v, '>'); last = 0; }
		if( i==k ) break;
		if( key && g_p(1,16) ) { char const *w = g_p(1,2) ? "<enum>" : "<ENUM>"; s_puts(t, w); s_puts(v, w); last = 0; } else piece(t, v, quote, &last);
	}
	s_addc(t, quote);
}
static void replace_all(Str *v, char const *what, intmax_t by, bool *did) {
	size_t w = strlen(what); char num[32]; int k = snprintf(num, sizeof num, "%jd", by); *did = false;
	for( size_t i=0; i + w <= v->n; ) if( !memcmp(v->p + i, what, w) ) { s_del(v, i, w); s_ins(v, i, num, (size_t)k); i += (size_t)k; *did = true; } else i++;
}
static void put_math(Str *v, F r) { char *m = NULL; Str n = {0}; s_printf(&n, "%Lf", r); m = s_exact(&n); size_t i = 0; while( memcmp(v->p + i, "<math", 5) ) i++; size_t j = i; while( v->p[j] != '>' ) j++; s_del(v, i, j + 1 - i); s_ins(v, i, m, n.n); }
static void int_number(Str *t, intmax_t *val, bool small) {
	bool neg = false; if( !small && g_p(1,4) ) { neg = g_p(2,3); s_addc(t, neg ? '-' : '+'); }
	unsigned how = (unsigned)g_u(8); uint64_t v = 0; unsigned base = how < 5 ? 10 : how==5 ? 16 : how==6 ? 8 : 2; size_t max = base==10 ? 18 : base==16 ? 15 : base==8 ? 20 : 62, k = small ? 1 : 1 + g_len(max - 1); bool sp = !small && g_p(1,6);
	if( small ) { v = g_u(256); if( base==10 ) s_printf(t, "%u", (unsigned)v); else if( base==16 ) s_printf(t, g_p(1,2) ? "0x%x" : "0X%X", (unsigned)v); else if( base==8 ) s_printf(t, "0%o", (unsigned)v); else { s_puts(t, "0b1"); v = 1; for( int i=0; i < 7 && g_p(1,2); i++ ) { bool b = g_p(1,2); s_addc(t, b ? '1' : '0'); v = v * 2 + b; } } *val = (intmax_t)v; return; }
	if( g_p(1,20) ) { /* the ends of the range */
		uint64_t a = g_p(1,2) ? (uint64_t)INT64_MAX + (neg ? g_u(2) : 0) - (g_p(1,2) ? g_u(300) : 0) : ((uint64_t)1 << (g_u(63))) - g_u(2); size_t zeros = base==10 ? 0 : g_p(1,6) ? g_u(90) : g_u(2); if( base==8 ) zeros++;
		s_puts(t, base==16 ? "0x" : base==2 ? "0b" : ""); while( zeros-- ) s_addc(t, '0');
		if( base==10 ) s_printf(t, "%ju", (uintmax_t)a); else if( base==16 ) s_printf(t, "%jX", (uintmax_t)a); else if( base==8 ) s_printf(t, "%jo", (uintmax_t)a); else { int i = 63; while( i > 0 && !(a >> i) ) i--; for( ; i >= 0; i-- ) s_addc(t, (char)('0' + (a >> i & 1))); }
		*val = (intmax_t)(neg ? 0 - a : a); CLASSIFY("number at the end of the range"); return;
	}
	s_puts(t, base==16 ? (g_p(1,2) ? "0x" : "0X") : base==8 ? "0" : base==2 ? (g_p(1,2) ? "0b" : "0B") : "");
	for( size_t i=0; i < k; i++ ) { unsigned d = (unsigned)g_u(base); if( i==0 && base==10 && d==0 && k > 1 ) d = 9; if( i && sp && g_p(1,3) ) { s_addc(t, '\''); specials++; } s_addc(t, (char)(d < 10 ? '0' + d : (g_p(1,2) ? 'a' : 'A') + d - 10)); v = v * base + d; }
	if( g_p(1,8) ) { static char const *S[] = { "u", "l", "UL", "ll", "ULL" }; s_puts(t, S[g_u(5)]); }
	CLASS_IF(base != 10, "number not in base 10"); CLASS_IF(neg, "negative number"); *val = neg ? -(intmax_t)v : (intmax_t)v;
}
static void float_number(Str *t, F *val) {
	Str n = {0}; bool neg = false, sign = g_p(1,4), suffix = g_p(1,8); if( sign ) { neg = g_p(2,3); s_addc(t, neg ? '-' : '+'); }
	switch( g_u(5) ) {
		case 0: s_printf(&n, ".%0*u", 1 + (int)g_u(9), (unsigned)g_u(100000)); break;
		case 1: s_printf(&n, "%u.", 1 + (unsigned)g_u(100000)); break;
		case 2: s_printf(&n, "%u.%0*u", g_p(1,3) ? 0 : 1 + (unsigned)g_u(100000), 1 + (int)g_u(12), (unsigned)g_u(100000)); break;
		case 3: s_printf(&n, "%u%s%se%s%u", 1 + (unsigned)g_u(9999), g_p(1,2) ? "." : "", "", g_p(1,3) ? "-" : g_p(1,2) ? "+" : "", (unsigned)g_u(40)); CLASSIFY("exponent"); break;
		default: s_printf(&n, "0x%x.%xp%s%u", (unsigned)g_u(65536), (unsigned)g_u(4096), g_p(1,2) ? "-" : "", (unsigned)g_u(30)); CLASSIFY("hexadecimal float"); break;
	}
	s_add(t, n.p, n.n); if( suffix ) s_addc(t, "fFlL"[g_u(4)]); F f = strtold(s_exact(&n), NULL); *val = neg ? -f : f;
}
enum { G_INCLUDE = 1, G_ERRORS = 2 };
static void section(Str *t, Node *sec, Ctx *c, int depth, int flags);
static Node *large(Str *t, Node *root, size_t most);
static void whole(Str *t, Node *root, Ctx *c, int flags) { text_cap = g_p(3,4) ? 300 : 12000; section(t, root, c, 0, flags); }
static void err_tail(Str *t) { if( g_p(1,2) ) s_puts(t, " , \"later\" : 1 }\n\"after\": true }"); while( g_p(2,3) ) s_addc(t, " \n{}\"',:9a<\\[/*"[g_u(15)]); }
static bool same_len_write(char const *path, Str const *t) { FILE *f = fopen(path, "wb"); CHECK(f, "no scratch file %s", path); bool r = fwrite(t->p ? t->p : "", 1, t->n, f)==t->n; fclose(f); return r; }
/* absolute and relative names, names that are the end or the beginning of others */
static char const *new_file(void) {
	CHECK(nfiles < 40, "too many files"); char *p = filenames[nfiles]; static bool there; if( !there ) { there = !chdir(g_scratch()) && !mkdir("d", 0700) && !mkdir("d/d", 0700) && !mkdir("d/d/d", 0700); CHECK(there, "no scratch directory"); }
	char const *b = nfiles ? filenames[g_u((uint64_t)nfiles)] : NULL;
	if( b && g_p(1,4) && strlen(b) < 150 ) { if( g_p(1,2) ) { snprintf(p, 200, "%s%d", b, nfiles); nfiles++; CLASSIFY("a name that begins with another"); return p; } if( *b != '/' && strncmp(b, "d/d/", 4) && strncmp(b, "./d", 3) ) { snprintf(p, 200, "%s%s", *b=='.' ? "d/" : "d/", *b=='.' ? b + 2 : b); bool dup = false; for( int i=0; i < nfiles; i++ ) dup |= !strcmp(filenames[i], p); if( !dup ) { nfiles++; CLASSIFY("a name that ends with another"); return p; } } }
	switch( g_u(4) ) { case 0: case 1: snprintf(p, 200, "%s/c%d.cfg", g_scratch(), nfiles); break; case 2: snprintf(p, 200, "c%d.cfg", nfiles); CLASSIFY("relative name"); break; default: snprintf(p, 200, "./%sc%d.cfg", g_p(1,3) ? "d/" : "", nfiles); CLASSIFY("relative name"); break; }
	nfiles++; return p;
}
static void drop_files(void) { for( int i=0; i < nfiles; i++ ) remove(filenames[i]); nfiles = 0; }
static void entry(Str *t, Node *sec, Ctx *c, Loc *l, int depth, int flags, bool *need) {
	size_t start = t->n;
	/* errors at the place of a key */
	if( (flags & G_ERRORS) && g_p(1,25) ) {
		switch( g_u(3) ) { case 0: s_addc(t, "k=[<9-;"[g_u(7)]); CLASSIFY("error: key without quotes"); break; case 1: s_puts(t, g_p(1,2) ? "\"\"" : "''"); CLASSIFY("error: empty key"); break; default: s_puts(t, g_p(1,2) ? "\"open" : "'o\n\nn"); c->err = true; diag(c, t, start, NULL); CLASSIFY("error: unterminated key"); return; }
		c->err = true; diag(c, t, start, NULL); err_tail(t); return;
	}
	Str key = {0}; size_t at = 0, to = 0; Expr ke, ve;
	if( (flags & G_INCLUDE) && depth < 4 && nfiles < 5 && g_p(1,20) ) {
		s_puts(t, g_p(1,2) ? "\"<include>\"" : "'<INCLUDE>'"); seps(t, c, false);
		if( g_p(1,4) ) { Str p = {0}; if( c->file && g_p(1,3) ) s_puts(&p, c->file); else s_printf(&p, "%s/%s", g_scratch(), g_p(1,2) ? "" : "none.cfg"); s_addc(t, '"'); s_add(t, p.p, p.n); s_addc(t, '"'); diag(c, t, start, &p); c->pending = (int)ndiag; CLASSIFY("failing include"); *need = false; return; }
		char const *path = new_file(); Str ft = {0}; Node *sub = node(HarbolCfgType_Map); Ctx fc = { .file = path, .is_file = true }; s_puts(&ft, g_p(1,2) ? "\n" : " "); section(&ft, sub, &fc, depth + 1 < 3 ? 3 : 4, flags); same_len_write(path, &ft); LOG("%s is %s\n", path, g_q(ft.p, ft.n));
		s_printf(t, "\"%s\"", path); s_puts(&key, path); attach(sec, &key, sub); *need = false; specials++; CLASSIFY("include"); return;
	}
	bool math = g_p(1,12), did; 
	if( (flags & G_ERRORS) && sec->n && g_p(1,25) ) { Node *d = sec->kid[g_u(sec->n)]; bool ok = d->key.n; for( size_t i=0; i < d->key.n; i++ ) ok &= d->key.p[i] > 31 && !strchr("\"\\", d->key.p[i]); if( ok && !memmem(d->key.p, d->key.n, "<math", 5) && !memmem(d->key.p, d->key.n, "<enum>", 6) && !memmem(d->key.p, d->key.n, "<ENUM>", 6) ) { s_addc(t, '"'); s_add(t, d->key.p, d->key.n); s_puts(t, "\": 1"); c->err = true; diag(c, t, start, &d->key); CLASSIFY("error: duplicate key"); err_tail(t); return; } }
	quoted(t, &key, true, math, &at, &to, &ke);
	bool dup = find(sec, key.p, key.n) != NULL; /* before any replacement */
	if( dup ) { s_puts(t, ": 1"); c->err = true; diag(c, t, start, &key); CLASSIFY("error: duplicate key"); err_tail(t); return; }
	replace_all(&key, "<enum>", l->enm, &did); if( did ) { l->enm++; specials++; CLASSIFY("enum key"); } replace_all(&key, "<ENUM>", c->ENUM, &did); if( did ) { c->ENUM++; specials++; CLASSIFY("ENUM key"); }
	if( math ) { put_math(&key, expr_value(&ke, c, l)); specials++; CLASSIFY("math in a key"); }
	dup = find(sec, key.p, key.n) != NULL; /* found out when the value is stored */
	seps(t, c, false);
	if( (flags & G_ERRORS) && g_p(1,25) ) {
		static char const *const BAD[] = { "x", "?", "<foo>", "[1]", "}", "tru", "nul ", "fals ", "iot ", "IOT\n", "c 1", "v {", "v[ 1, x ]", "c[ 1, \"a\" ]", "0x ", "1e ", "-x", "+ 1", "\"\\xzz\"", "v[ 1, 2", "c[", "\"open", "'open\\" }; start = t->n;
		size_t i = g_u(23); s_puts(t, BAD[i]); c->err = true; diag(c, t, start, NULL); CLASSIFY("error: bad value"); if( i < 19 ) { s_addc(t, ' '); err_tail(t); } return;
	}
	Node *x = node(HarbolCfgType_Null); bool need_after = false; entries++;
	switch( g_pick(11, 1, depth < 5 ? 3 : 0, 3, 3, 3, 1, 1, 1, 2, 1, 0) ) {
		case 0: s_puts(t, "null"); need_after = true; break;
		case 1: { x->type = HarbolCfgType_Map; s_addc(t, '{'); section(t, x, c, depth + 1, flags); if( !c->err ) s_addc(t, '}'); CLASSIFY("section"); break; }
		case 2: { x->type = HarbolCfgType_String; bool m = g_p(1,8); quoted(t, &x->s, false, m, &at, &to, &ve); if( m ) { put_math(&x->s, expr_value(&ve, c, l)); specials++; CLASSIFY("math in a string"); } else if( memmem(x->s.p, x->s.n, "<math", 5) ) FAIL("the generator made an expression"); break; }
		case 3: x->type = HarbolCfgType_Float; float_number(t, &x->f); need_after = true; break;
		case 4: x->type = HarbolCfgType_Int; int_number(t, &x->i, false); need_after = true; break;
		case 5: x->type = HarbolCfgType_Bool; x->b = g_p(1,2); s_puts(t, x->b ? "true" : "false"); need_after = true; break;
		case 6: { x->type = HarbolCfgType_Color; s_addc(t, 'c'); if( g_p(1,4) ) seps(t, c, true); s_addc(t, '['); seps(t, c, false); size_t k = g_u(6); for( size_t i=0; i < k; i++ ) { intmax_t v; int_number(t, &v, true); if( i < 4 ) x->c[i] = (uint8_t)v; seps(t, c, true); } s_addc(t, ']'); CLASSIFY("color"); break; }
		case 7: { x->type = HarbolCfgType_Vec4D; s_addc(t, 'v'); if( g_p(1,4) ) seps(t, c, true); s_addc(t, '['); seps(t, c, false); size_t k = g_u(6); for( size_t i=0; i < k; i++ ) { F v = 0; if( g_p(2,3) ) float_number(t, &v); else { unsigned u = (unsigned)g_u(100000); s_printf(t, "%u", u); v = u; } if( i < 4 ) x->v[i] = (float)v; seps(t, c, true); } s_addc(t, ']'); CLASSIFY("vector"); break; }
		case 8: { x->type = HarbolCfgType_Int; bool g = g_p(1,2); s_puts(t, g ? "IOTA" : "iota"); x->i = g ? c->IOTA : l->iota; if( g ) c->IOTA++; else l->iota++; need_after = true; specials++; CLASSIFY("iota"); break; }
		default: x->type = HarbolCfgType_String; s_puts(t, g_p(1,2) ? "<FILE>" : "<file>"); s_puts(&x->s, c->file ? c->file : "C-string-cfg"); specials++; CLASSIFY("<FILE>"); break;
	}
	if( dup ) { if( !c->err ) { c->err = true; diag(c, t, start, &key); err_tail(t); } CLASSIFY("error: key made equal to another"); return; }
	attach(sec, &key, x); *need = need_after;
	if( (flags & G_ERRORS) && (x->type==HarbolCfgType_Bool || x->type==HarbolCfgType_Null) && g_p(1,60) ) { start = t->n; s_addc(t, "xe?T<"[g_u(5)]); c->err = true; diag(c, t, start, NULL); CLASSIFY("error: a word that goes on"); err_tail(t); }
}
static void section(Str *t, Node *sec, Ctx *c, int depth, int flags) {
	Loc l = {0}; bool need = false; static unsigned const AVG[] = { 6, 4, 3, 2, 2, 1, 1 };
	seps(t, c, false);
	while( sec->n < 60 && t->n < text_cap && g_more(g_p(1,10) ? 20 : AVG[depth]) ) { entry(t, sec, c, &l, depth, flags, &need); if( c->err ) return; seps(t, c, need); diag_settle(c, t); }
	if( (flags & G_ERRORS) && depth && depth < 3 && !c->is_file && g_p(1,40) ) { c->err = true; diag(c, t, t->n, NULL); CLASSIFY("error: section without end"); } /* the text ends here */
}
/* hundreds to tens of thousands of entries below a chain of sections, and long strings; every section ends with a counter entry */
static Node *large(Str *t, Node *root, size_t most) {
	size_t d = g_p(1,3) ? g_u(200) : g_u(4), n = 200 + g_u(g_p(1,60) ? most : g_p(1,4) ? (most < 3000 ? most : 3000) : 300); uint64_t x = 1 + g_u(1u << 30); if( most < 10000 && d > 3 ) { d = 4 + d % 30; n = 200 + n % 64; } Node *sec = root, *in; intmax_t IOTA = 0, ENUM = 0, iota = 0, enm = 0; LOG("%zu entries below %zu sections\n", n, d);
	for( size_t i=0; i < d; i++ ) { Str k = {0}; s_puts(&k, "s"); s_puts(t, i % 2 ? "'s' {" : "\"s\": {\n"); Node *y = node(HarbolCfgType_Map); attach(sec, &k, y); sec = y; } in = sec;
	unsigned secs = (unsigned)g_u(3); size_t big = g_p(1,2) ? g_u(n) : SIZE_MAX;
	for( size_t i=0; i < n; i++ ) {
		x = x * 6364136223846793005u + 1442695040888963407u; unsigned r = (unsigned)(x >> 40); Str k = {0}; Node *y = node(HarbolCfgType_Null);
		switch( r % 8 ) { case 0: s_puts(t, "'e<enum>'"); s_printf(&k, "e%jd", enm++); break; case 1: s_puts(t, "'E<ENUM>'"); s_printf(&k, "E%jd", ENUM++); break; default: s_printf(&k, "k%zu", i); s_addc(t, '"'); s_add(t, k.p, k.n); s_addc(t, '"'); }
		s_puts(t, r & 64 ? ": " : " ");
		switch( i==big ? 7 : secs && (secs==2) != (r / 128 % 8==7) ? 8 : r / 128 % 7 ) {
			case 0: y->type = HarbolCfgType_Int; y->i = (intmax_t)r * 7919 - 1000000; s_printf(t, "%jd", y->i); break;
			case 1: y->type = HarbolCfgType_Int; y->i = iota++; s_puts(t, "iota"); break;
			case 2: y->type = HarbolCfgType_Int; y->i = IOTA++; s_puts(t, "IOTA"); break;
			case 3: y->type = HarbolCfgType_Bool; y->b = r & 1; s_puts(t, y->b ? "true" : "false"); break;
			case 4: y->type = HarbolCfgType_Float; y->f = (F)(r % 100000) + 0.5L; s_printf(t, "%u.5", r % 100000); break;
			case 5: y->type = HarbolCfgType_String; s_addc(t, '\''); for( size_t j = r % 40; j; j-- ) { char c = (char)('a' + (r + j) % 26); s_addc(t, c); s_addc(&y->s, c); } s_addc(t, '\''); break;
			case 7: { y->type = HarbolCfgType_String; s_addc(t, '"'); size_t l = g_p(1,20) && most > 2000 ? 65500 + g_u(4000) : 250 + g_u(3000); for( size_t j=0; j < l; j++ ) { char c = (char)('a' + j % 26); s_addc(t, c); s_addc(&y->s, c); } s_addc(t, '"'); CLASSIFY("long string"); break; }
			case 8: { y->type = HarbolCfgType_Map; s_addc(t, '{'); if( r & 16 ) { Str a = {0}; s_puts(&a, "a"); Node *z = node(HarbolCfgType_Int); z->i = 0; s_puts(t, r & 8 ? " 'a' iota" : "'a'iota,"); attach(y, &a, z); } s_addc(t, '}'); CLASSIFY("hundreds of sections"); break; }
			default: s_puts(t, "null");
		}
		s_puts(t, r & 32 ? ",\n" : " "); attach(sec, &k, y); entries++;
	}
	for( size_t i=0; i <= d; i++ ) { Str k = {0}; s_puts(&k, "z"); Node *y = node(HarbolCfgType_Int); y->i = i ? 0 : iota; s_puts(t, "'z' iota"); attach(sec, &k, y); if( i < d ) { s_puts(t, "}"); sec = sec->up; } }
	CLASSIFY("hundreds of entries"); CLASS_IF(n > 65536, "more than 65536 entries"); CLASS_IF(d > 50, "deeply nested"); return in;
}
/* how a key is written within a path */
static void path_key(Str *p, Str const *key) { for( size_t i=0; i < key->n; i++ ) { if( key->p[i]=='.' ) s_addc(p, '\\'); s_addc(p, key->p[i]); } }
static void path_of(Str *p, Node const *x) { if( x->up && x->up->up ) { path_of(p, x->up); s_addc(p, '.'); } path_key(p, &x->key); }
#endif
