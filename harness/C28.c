/* C28: what the config parser reports. */
#include "cfgmodel.h"

char const *const PROPERTY = "C28";
char const *const RULE = "Configs derived from the grammar as for C18, with comments and texts over several lines, sections, included files and failing includes, most of them with one mistake (of 14 kinds, anywhere); parsed from a file or from memory with the diagnostics captured and compared with the expected ones: nothing for a correct config, and for each mistake the file and the line it is on, in order. "
	"Non-trivial: a mistake or a failing include below the first line.";
unsigned const QUICK_CASES = 400000, THOROUGH_CASES = 20000000;
struct Known const KNOWN[] = { {0} };

enum { OUT = 1 << 18 };
static char out[OUT];
static bool mention(char const *p, char const **file, size_t *line, char const *own) {
	for( int i=-1; i < nfiles; i++ ) { char const *f = i < 0 ? own : filenames[i]; if( !f ) continue; size_t l = strlen(f); if( !strncmp(p + 1, f, l) && p[l+1]==':' && isdigit((unsigned char)p[l+2]) ) { *file = f; *line = strtoul(p + l + 2, NULL, 10); return true; } }
	return false;
}
static void report(void) {
	nfiles = 0; entries = specials = 0; ndiag = 0; bool file = g_p(4,5); Ctx c = { .is_file = false }; Str t = {0}; Node *root = node(HarbolCfgType_Map);
	if( file ) { c.file = new_file(); s_addc(&t, g_p(1,2) ? '\n' : ' '); }
	whole(&t, root, &c, G_INCLUDE | (g_p(9,10) ? G_ERRORS : 0)); LOG("%s\n", g_q(t.p, t.n)); char *text = NULL; size_t later = 0;
	if( file ) same_len_write(filenames[0], &t); else text = s_exact(&t);
	CHECK(ndiag < 64, "too many"); for( size_t i=0; i < ndiag; i++ ) { later += diags[i].hi > 1; LOG("expect %s:%zu..%zu\n", diags[i].file ? diags[i].file : "-", diags[i].lo, diags[i].hi); }
	if( later ) g_nontrivial(); CLASS_IF(!ndiag, "nothing to report"); CLASS_IF(ndiag > 1, "several diagnostics"); CLASS_IF(file && c.err, "mistake in a file"); CLASS_IF(c.err && later && diags[ndiag-1].lo > 5, "mistake below the fifth line");
	FILE *f = fmemopen(out, OUT, "w"), *old = stderr; CHECK(f, "no stream"); out[0] = 0;
	stderr = f; struct HarbolMap *m = file ? harbol_cfg_parse_file(c.file) : harbol_cfg_parse_cstr(text); stderr = old;
	fflush(f); long n = ftell(f); fclose(f); CHECK(n >= 0 && n < OUT - 1, "more diagnostics than ever expected"); out[n] = 0; LOG("reported: %s\n", out);
	same_cfg(root, m); harbol_cfg_free(&m);
	if( !ndiag ) CHECK(n==0, "a config without mistakes is reported: %s", g_q(out, (size_t)n)); else CHECK(n > 0, "a mistake is not reported");
	for( size_t i=0; i < ndiag; i++ ) if( diags[i].name.n ) { CHECK(memmem(out, (size_t)n, diags[i].name.p, diags[i].name.n), "%s is not named: %s", g_q(diags[i].name.p, diags[i].name.n), g_q(out, (size_t)n)); CLASSIFY("the name is reported"); }
	/* every expected place is named, in order, and no other */
	size_t at = 0, line; bool here = false; char const *fn, *prev_file = NULL; size_t prev_line = 0;
	for( char const *p = out; *p; p++ ) if( *p=='(' && mention(p, &fn, &line, NULL) ) {
		while( at < ndiag && !diags[at].file ) at++, here = false;
		size_t k = here ? at + 1 : at; while( k < ndiag && !diags[k].file ) k++;
		if( k < ndiag && !strcmp(diags[k].file, fn) && line >= diags[k].lo && line <= diags[k].hi ) { at = k; here = true; }
		else if( here && prev_file==fn && line >= prev_line && (line <= diags[at].hi || c.err) ) ; /* a consequence of the same mistake */
		else if( k < ndiag ) FAIL("reported at %s:%zu, expected %s:%zu..%zu", fn, line, diags[k].file, diags[k].lo, diags[k].hi);
		else FAIL("reported at %s:%zu, where there is no mistake", fn, line);
		prev_file = fn; prev_line = line;
	}
	size_t k = here ? at + 1 : at; while( k < ndiag && !diags[k].file ) k++;
	CHECK(k >= ndiag, "the mistake at %s:%zu..%zu is not reported", diags[k].file, diags[k].lo, diags[k].hi);
	drop_files();
}
/* files that cannot be read at all */
static void unreadable(void) {
	char path[300]; unsigned how = (unsigned)g_u(3); g_nontrivial(); CLASSIFY("no such file"); if( how==0 ) snprintf(path, sizeof path, "%s", g_scratch()); else { snprintf(path, sizeof path, "%s/", g_scratch()); size_t l = strlen(path); for( size_t k = 1 + g_len(how==1 ? 20 : 200); k; k-- ) path[l++] = (char)('a' + g_u(26)); path[l] = 0; } LOG("%s\n", path);
	FILE *f = fmemopen(out, OUT, "w"), *old = stderr; CHECK(f, "no stream"); out[0] = 0; stderr = f; struct HarbolMap *m = harbol_cfg_parse_file(path); stderr = old; fflush(f); long n = ftell(f); fclose(f); out[n > 0 ? n : 0] = 0;
	CHECK(!m, "a config from %s", path); CHECK(strstr(out, path), "%s is not reported: %s", path, g_q(out, strlen(out)));
}
struct Target const TARGETS[] = { { "report", report, 200 }, { "unreadable", unreadable, 1 }, {0} };
