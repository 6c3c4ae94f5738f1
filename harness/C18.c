/* C18: parsing configs against values generated together with the text. */
#include "cfgmodel.h"

char const *const PROPERTY = "C18";
char const *const RULE = "Configs derived from the documented grammar (sections nested up to 5 deep, every kind of value, key and literal, both quotes, escapes, comments and delimiters anywhere, iota/IOTA, <enum>/<ENUM>, inline math, <FILE>, includes of further generated files), assembled next to the values they denote, parsed from exact-size memory or a file and compared entry by entry in order; "
	"about half of them contain one error, before which every entry must be kept and after which nothing may be read. Non-trivial: at least 3 entries, or a counter, math expression, include or digit separator.";
unsigned const QUICK_CASES = 900000, THOROUGH_CASES = 30000000;
struct Known const KNOWN[] = { {0} };

/* many included files: one within the other, or side by side */
static void files(void) {
	size_t n = 2 + g_u(g_p(1,4) ? 200 : 20), from = g_u(3); bool chain = g_p(1,2), nest = chain && n < 100 && g_p(1,2); char path[200]; Node *root = node(HarbolCfgType_Map), *sec = root; g_nontrivial(); LOG("%zu files, %s\n", n, chain ? "one within the other" : "side by side");
	Str all = {0}; s_printf(&all, "'a' iota 'E<ENUM>' IOTA "); for( size_t i=0; i < 2; i++ ) { Str k = {0}; s_puts(&k, i ? "E0" : "a"); Node *y = node(HarbolCfgType_Int); attach(root, &k, y); }
	for( size_t i=0; i <= n; i++ ) {
		Str t = {0}, k = {0}; Node *y; snprintf(path, sizeof path, "%s/i%zu.cfg", g_scratch(), i + from);
		if( i < n && (chain || i==0) ) { if( i==0 ) { s_add(&t, all.p, all.n); } else s_puts(&t, "'x' iota, 'y' IOTA"); if( i ) { for( int j=0; j < 2; j++ ) { k = (Str){0}; s_puts(&k, j ? "y" : "x"); y = node(HarbolCfgType_Int); attach(sec, &k, y); } } 
			if( nest && i ) { s_puts(&t, "'s'{"); k = (Str){0}; s_puts(&k, "s"); y = node(HarbolCfgType_Map); attach(sec, &k, y); sec = y; } }
		if( chain && i < n ) { s_printf(&t, " '<include>' '%s/i%zu.cfg' %s ", g_scratch(), i + 1 + from, nest && i ? "}" : ""); char q[200]; k = (Str){0}; s_add(&k, q, (size_t)snprintf(q, sizeof q, "%s/i%zu.cfg", g_scratch(), i + 1 + from)); y = node(HarbolCfgType_Map); attach(sec, &k, y); Node *at = nest && i ? sec->up : sec; (void)at;
			s_puts(&t, "'w' iota 'f' <FILE>"); if( nest && i ) sec = sec->up; k = (Str){0}; s_puts(&k, "w"); Node *w = node(HarbolCfgType_Int); w->i = 1; attach(sec, &k, w); k = (Str){0}; s_puts(&k, "f"); w = node(HarbolCfgType_String); s_puts(&w->s, path); attach(sec, &k, w); sec = y; }
		else if( !chain && i==0 ) { for( size_t j=1; j <= n; j++ ) { char q[200]; s_printf(&t, "\"<INCLUDE>\" '%s/i%zu.cfg'\n", g_scratch(), j + from); k = (Str){0}; s_add(&k, q, (size_t)snprintf(q, sizeof q, "%s/i%zu.cfg", g_scratch(), j + from)); y = node(HarbolCfgType_Map); attach(root, &k, y);
				k = (Str){0}; s_puts(&k, "n"); Node *z = node(HarbolCfgType_Int); z->i = (intmax_t)j; attach(y, &k, z); k = (Str){0}; s_puts(&k, "I"); z = node(HarbolCfgType_Int); attach(y, &k, z); k = (Str){0}; s_puts(&k, "f"); z = node(HarbolCfgType_String); s_puts(&z->s, q); attach(y, &k, z); }
			s_puts(&t, "'w' iota"); k = (Str){0}; s_puts(&k, "w"); Node *w = node(HarbolCfgType_Int); w->i = 1; attach(root, &k, w); }
		else if( !chain ) s_printf(&t, "\n'n' %zu 'I' IOTA 'f' <file>", i);
		else { s_puts(&t, "'last' true"); k = (Str){0}; s_puts(&k, "last"); y = node(HarbolCfgType_Bool); y->b = true; attach(sec, &k, y); }
		same_len_write(path, &t); if( i < 3 ) LOG("%s is %s\n", path, g_q(t.p, t.n));
	}
	snprintf(path, sizeof path, "%s/i%zu.cfg", g_scratch(), from); struct HarbolMap *m = harbol_cfg_parse_file(path); for( size_t i=0; i <= n; i++ ) { snprintf(path, sizeof path, "%s/i%zu.cfg", g_scratch(), i + from); remove(path); }
	same_cfg(root, m); harbol_cfg_free(&m); CLASSIFY(chain ? "files within files" : "many files side by side"); CLASS_IF(nest, "files within sections of files");
}
static void parse(void) {
	if( g_rare(5000) ) { files(); return; }
	nfiles = 0; entries = specials = 0; bool file = g_p(1,3); Ctx c = { .is_file = false }; Str t = {0}; Node *root = node(HarbolCfgType_Map); int flags = G_INCLUDE | (g_p(1,2) ? G_ERRORS : 0);
	if( file ) { c.file = new_file(); s_addc(&t, ' '); }
	if( g_rare(8000) ) { large(&t, root, 70000); if( g_p(1,2) ) { Node *d = root->kid[g_u(root->n)]; s_addc(&t, '"'); s_add(&t, d->key.p, d->key.n); s_puts(&t, "\" : 1, 'after' 2"); CLASSIFY("duplicate of hundreds"); } } else whole(&t, root, &c, flags); LOG("%s\n", g_q(t.p, t.n)); if( entries >= 3 || specials ) g_nontrivial(); CLASS_IF(c.err, "with an error");
	struct HarbolMap *m;
	if( file ) { same_len_write(filenames[0], &t); m = harbol_cfg_parse_file(filenames[0]); CLASSIFY("from a file"); } else { char *text = s_exact(&t); m = harbol_cfg_parse_cstr(text); CHECK(!memcmp(text, t.p ? t.p : "", t.n), "the text was changed"); }
	drop_files(); same_cfg(root, m); harbol_cfg_free(&m); CHECK(!m, "freeing keeps the pointer");
}
struct Target const TARGETS[] = { { "parse", parse, 1 }, {0} };
