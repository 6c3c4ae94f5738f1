/* C21: configs of any text are parsed safely and give a well-formed config. */
#include "cfgmodel.h"

char const *const PROPERTY = "C21";
char const *const RULE = "Arbitrary texts (random bytes, token soup of the grammar's pieces, valid configs with edits, deep nesting of sections and of math expressions, includes of themselves and each other) in exact-size memory or files; parsing must not touch other memory, must end, lose nothing, and yield a config of known types, non-empty distinct keys and consistent lookups, which can be written, walked through arbitrary paths, changed and freed; what it is written as is read back as the same config whenever it can be written. "
	"Non-trivial: the config has an entry, or the text has at least 8 pieces.";
unsigned const QUICK_CASES = 500000, THOROUGH_CASES = 60000000;
struct Known const KNOWN[] = { {0} };

/* a model of a parsed config, checking its form; *plain: it can be written and read back */
static size_t count; static unsigned deepest;
static Node *read_model(struct HarbolMap const *m, unsigned depth, bool *plain) {
	Node *sec = node(HarbolCfgType_Map); if( depth > deepest ) deepest = depth; CHECK(depth < 1000, "sections nested %u deep", depth);
	for( size_t i=0; i < m->len; i++ ) {
		char const *k = (char const *)m->keys[i]; Str key = {0}; CHECK(k && m->keylens[i], "entry %zu has no key", i); s_add(&key, k, strlen(k)); count++;
		if( m->keylens[i] != key.n + 1 || !key.n ) *plain = false; /* a null byte within a key */
		struct HarbolVariant const *v = harbol_map_idx_get(m, i); CHECK(v && v->data, "entry %zu has no value", i); CHECK(v->tag >= 0 && v->tag <= HarbolCfgType_Vec4D, "entry %zu has type %d", i, v->tag);
		CHECK(harbol_map_key_get(m, k, m->keylens[i])==(void const *)v, "looking up entry %zu finds something else", i);
		if( strstr(k, "<enum>") || strstr(k, "<ENUM>") || strstr(k, "<math") || !strcmp(k, "<include>") || !strcmp(k, "<INCLUDE>") ) *plain = false;
		Node *x; void const *d = v->data;
		if( v->tag==HarbolCfgType_Map ) { struct HarbolMap const *s = *(struct HarbolMap *const *)d; CHECK(s, "entry %zu is no section", i); x = read_model(s, depth + 1, plain); }
		else {
			x = node(v->tag);
			switch( v->tag ) {
				case HarbolCfgType_String: { struct HarbolString const *s = *(struct HarbolString *const *)d; CHECK(s, "entry %zu is no string", i); CHECK(!s->cstr ? !s->len : !s->cstr[s->len], "string %zu is not terminated", i); s_add(&x->s, s->cstr ? s->cstr : "", s->len); if( memchr(x->s.p ? x->s.p : "", 0, x->s.n) || (s->cstr && strstr(s->cstr, "<math")) ) *plain = false; break; }
				case HarbolCfgType_Float: memcpy(&x->f, d, sizeof x->f); if( isnan(x->f) || isinf(x->f) ) *plain = false; break;
				case HarbolCfgType_Int: memcpy(&x->i, d, sizeof x->i); break;
				case HarbolCfgType_Bool: x->b = *(bool const *)d; break;
				case HarbolCfgType_Color: { union HarbolColor c; memcpy(&c, d, sizeof c); x->c[0] = c.bytes.r; x->c[1] = c.bytes.g; x->c[2] = c.bytes.b; x->c[3] = c.bytes.a; break; }
				case HarbolCfgType_Vec4D: { struct HarbolVec4D c; memcpy(&c, d, sizeof c); x->v[0] = c.x; x->v[1] = c.y; x->v[2] = c.z; x->v[3] = c.w; for( int k=0; k < 4; k++ ) if( isnan(x->v[k]) || isinf(x->v[k]) ) *plain = false; break; }
			}
		}
		if( find(sec, key.p, key.n) ) { CHECK(!*plain, "two entries have the key %s", g_q(key.p, key.n)); }
		attach(sec, &key, x);
	}
	return sec;
}
static void examine(struct HarbolMap *m) {
	bool plain = true; count = 0; deepest = 0; Node *root = read_model(m, 0, &plain); if( count ) g_nontrivial(); CLASS_IF(count, "has entries"); CLASS_IF(deepest > 200, "more than 200 deep"); CLASS_IF(deepest > 1, "nested");
	if( deepest > 256 ) plain = false; /* more than can be read as one text */
	if( deepest > 60 && !g_p(1,20) ) return;
	struct HarbolString s = harbol_cfg_to_str(m); CHECK(!s.cstr ? !s.len : !s.cstr[s.len], "the written text is not terminated");
	if( plain ) { char *copy = g_cstr(s.cstr ? s.cstr : "", s.len); struct HarbolMap *back = harbol_cfg_parse_cstr(copy); CHECK(back, "what was written is not read"); same_cfg(root, back); harbol_cfg_free(&back); CLASS_IF(count, "written and read back"); }
	harbol_string_clear(&s);
	for( int k=0; k < 4 && g_p(1,2); k++ ) { /* any path */
		Str p = {0}; if( root->n && g_p(1,2) ) path_key(&p, &root->kid[g_u(root->n)]->key); while( g_more(3) ) s_addc(&p, g_p(1,2) ? ".\\a0"[g_u(4)] : (char)(1 + g_u(255))); char *path = s_exact(&p); size_t len;
		(void)harbol_cfg_get_type(m, path); (void)harbol_cfg_get_cstr(m, path, &len); (void)harbol_cfg_get_section(m, path); (void)harbol_cfg_calc_math(m, path, NULL, NULL, 0);
		switch( g_u(4) ) { case 0: harbol_cfg_set_to_null(m, path); break; case 1: harbol_cfg_set_cstr(m, path, "text", true); break; case 2: harbol_cfg_set_int(m, path, 7, true); break; }
	}
}
static char const *const TOK[] = { "\"k\"", "'q'", "\"<enum>\"", "'<ENUM>x'", "\"<math 1+iota>\"", "'<math", "\"<include>\"", "'<INCLUDE>'", "{", "}", "{", "}", "[", "]", "c[", "v[", "c", "v", "true", "false", "null", "iota", "IOTA", "<FILE>", "<file>", "<", ">", ":", ",", "1", "-", "+", ".5", "0x", "0b1", "0'1", "1e5", "1e", "'", "\"", "\\", "/*", "*/", "//", "#", "\n", "\r\n", "\t", " ", "\"\"", "\\x41", "\\u00e9", "\"a.b\"", "\\\n", "e", "999999999999999999999999", "1.5f", "\xF0\x9F", "\\0", "\"<math >\"", "\"<math sin(1)>\"" };
static unsigned pieces;
static void soup(Str *t) { unsigned avg = 1 + (unsigned)g_u(40); pieces = 0; unsigned wild = (unsigned)g_u(4);
	while( t->n < 3000 && g_more(avg) ) { pieces++;
		if( g_u(4) < wild ) s_addc(t, (char)(1 + g_u(255)));
		else if( g_p(1,4) ) { s_printf(t, "\"k%u\"", (unsigned)g_u(30)); if( g_p(1,2) ) s_puts(t, ":"); if( g_p(1,2) ) s_addc(t, '{'); else if( g_p(1,2) ) s_printf(t, "%u ", (unsigned)g_u(100)); }
		else s_puts(t, TOK[g_u(sizeof TOK / sizeof *TOK)]); } }
static void edited(Str *t) { Ctx c = { .is_file = false }; Node *root = node(HarbolCfgType_Map); entries = specials = 0; whole(t, root, &c, G_ERRORS); pieces = 9;
	for( unsigned k = 1 + (unsigned)g_u(4); k && t->n; k-- ) switch( g_u(5) ) { case 0: s_del(t, g_u(t->n), 1); break; case 1: { char ch = (char)(1 + g_u(255)); s_ins(t, g_u(t->n + 1), &ch, 1); break; } case 2: t->p[g_u(t->n)] = (char)(1 + g_u(255)); break; case 3: { char const *w = TOK[g_u(sizeof TOK / sizeof *TOK)]; s_ins(t, g_u(t->n + 1), w, strlen(w)); break; } default: { size_t at = g_u(t->n); s_del(t, at, t->n - at); break; } }
}
static void any_text(void) {
	nfiles = 0; Str t = {0}; if( g_p(1,3) ) edited(&t); else soup(&t); LOG("%s\n", g_q(t.p, t.n)); if( pieces >= 8 ) g_nontrivial();
	/* no text names a file that exists here */
	char *text = s_exact(&t); struct HarbolMap *m = harbol_cfg_parse_cstr(text); CHECK(m, "no config"); CHECK(!memcmp(text, t.p ? t.p : "", t.n), "the text was changed");
	struct HarbolMap *again = harbol_cfg_parse_cstr(text); CHECK(again && again->len==m->len, "parsing the same text again gives another config"); harbol_cfg_free(&again);
	examine(m); harbol_cfg_free(&m); CHECK(!m, "freeing keeps the pointer"); harbol_cfg_free(&m);
}
static void files(void) {
	nfiles = 0; size_t n = 1 + g_u(4); char const *name[4]; Str t[4] = {0}; pieces = 0; bool nul = g_p(1,8);
	for( size_t i=0; i < n; i++ ) name[i] = new_file();
	for( size_t i=0; i < n; i++ ) {
		while( g_more(4) ) switch( g_u(5) ) {
			case 0: case 1: s_printf(&t[i], "%s \"%s\"", g_p(1,2) ? "'<include>'" : "\"<INCLUDE>\":", name[g_u(n)]); CLASSIFY("include"); pieces += 4; break;
			case 2: s_printf(&t[i], " 'k%u' {", (unsigned)g_u(30)); pieces++; break;
			case 3: s_addc(&t[i], '}'); pieces++; break;
			default: s_printf(&t[i], " \"n%u\" %s ", (unsigned)g_u(30), g_p(1,2) ? "iota" : "<FILE>"); pieces++; break;
		}
		if( g_p(1,4) ) soup(&t[i]); if( nul && t[i].n ) t[i].p[g_u(t[i].n)] = 0;
		same_len_write(name[i], &t[i]); LOG("%s: %s\n", name[i], g_q(t[i].p, t[i].n));
	}
	if( pieces >= 8 ) g_nontrivial();
	struct HarbolMap *m = harbol_cfg_parse_file(name[0]); if( m ) { examine(m); harbol_cfg_free(&m); } else { CHECK(!t[0].n, "no config from a file with a text"); CLASSIFY("empty file"); }
	drop_files(); if( g_p(1,10) ) { m = harbol_cfg_parse_file(name[0]); CHECK(!m, "a config from a missing file"); m = harbol_cfg_parse_file(g_scratch()); CHECK(!m, "a config from a directory"); }
}
/* files that include each other one after the other, from within sections */
static void chain(void) {
	size_t n = g_p(1,3) ? 200 + g_u(100) : g_p(1,2) ? 1 + g_u(40) : 300 + g_u(900), s = g_p(1,2) ? 0 : g_u(20); bool round = g_p(1,4); char p[200]; g_nontrivial(); LOG("%zu files, each within %zu sections%s\n", n, s, round ? ", the last includes the first" : "");
	for( size_t i=0; i < n; i++ ) { Str t = {0}; s_puts(&t, "'a' iota "); for( size_t j=0; j < s; j++ ) s_puts(&t, "'b'{"); if( i + 1 < n || round ) s_printf(&t, "'<include>' '%s/i%zu.cfg' ", g_scratch(), (i + 1) % n); for( size_t j=0; j < s; j++ ) s_addc(&t, '}'); s_puts(&t, " 'z' iota"); snprintf(p, sizeof p, "%s/i%zu.cfg", g_scratch(), i); same_len_write(p, &t); }
	snprintf(p, sizeof p, "%s/i0.cfg", g_scratch()); struct HarbolMap *m = harbol_cfg_parse_file(p); for( size_t i=0; i < n; i++ ) { snprintf(p, sizeof p, "%s/i%zu.cfg", g_scratch(), i); remove(p); }
	CHECK(m, "no config"); CHECK(harbol_cfg_get_int(m, "a"), "no entry before the include"); if( n * (s + 1) < 200 ) { intmax_t *z = harbol_cfg_get_int(m, "z"); CHECK(z && *z==1, "no entry behind the include"); } CLASS_IF(n * (s + 1) > 256, "deeper than can be nested"); bool plain = true; deepest = 0; if( n * (s + 1) < 100 ) examine(m); else read_model(m, 0, &plain); /* writing it all takes long */ harbol_cfg_free(&m);
}
static void deep(void) {
	if( g_p(1,20) ) { chain(); return; }
	Str t = {0}; size_t d = g_p(1,3) ? 250 + g_u(12) : g_p(1,2) ? g_u(100) : 1000 + g_u(20000), open = g_p(1,2) ? d : g_u(d + 1); g_nontrivial();
	for( size_t i=0; i < d; i++ ) s_puts(&t, g_p(1,200) ? "'a'1 'b'{" : "'b'{"); s_puts(&t, "'in' 1"); for( size_t i=0; i < open; i++ ) s_addc(&t, '}');
	LOG("%zu deep, %zu closed\n", d, open); struct HarbolMap *m = harbol_cfg_parse_cstr(s_exact(&t)); CHECK(m, "no config"); if( d < 200 ) { size_t k = 0; for( struct HarbolMap *s = m; s; k++ ) { s = harbol_cfg_get_section(s, "b"); } CHECK(k - 1==d, "%zu sections, expected %zu", k - 1, d); }
	examine(m); harbol_cfg_free(&m);
}
static void deep_math(void) {
	Str t = {0}; size_t d = g_p(1,2) ? g_u(200) : 1000 + g_u(20000); char const *unit = g_p(1,3) ? "-" : g_p(1,2) ? "(" : "[", *close = *unit=='(' ? ")" : *unit=='[' ? "]" : ""; g_nontrivial();
	bool key = g_p(1,3); s_puts(&t, key ? "'<math " : "'m' '<math "); for( size_t i=0; i < d; i++ ) s_puts(&t, unit); s_puts(&t, "3"); for( size_t i=0; i < d; i++ ) s_puts(&t, close); s_puts(&t, key ? ">' true" : ">'"); s_puts(&t, "\n'after' 7\n");
	LOG("%zu times %s in a %s\n", d, unit, key ? "key" : "string"); struct HarbolMap *m = harbol_cfg_parse_cstr(s_exact(&t)); CHECK(m, "no config");
	if( d < 200 ) { char const *v = *unit=='-' && d % 2 ? "-3.000000" : "3.000000"; if( key ) { size_t kl = strlen(v) + 1; CHECK(harbol_map_has_key(m, v, kl), "no key %s", v); } else { struct HarbolString *f = harbol_cfg_get_str(m, "m"); CHECK(f && f->cstr && !strcmp(f->cstr, v), "'m' is wrong"); } }
	intmax_t *i = harbol_cfg_get_int(m, "after"); CHECK(i && *i==7, "the entry after it is wrong");
	examine(m); harbol_cfg_free(&m);
}
struct Target const TARGETS[] = { { "deep_math", deep_math, 1 }, { "any_text", any_text, 60 }, { "files", files, 12 }, { "deep", deep, 1 }, {0} };
