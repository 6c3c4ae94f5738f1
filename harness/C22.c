/* C22: diagnostics (messages and source spans) against an independent rendering. */
#include "pbt.h"
#include "msg_sys/msg_sys.h"
#include "msg_span/msg_span.h"

char const *const PROPERTY = "C22";
char const *const RULE = "Source texts of 0..1100 lines (all line ends, tabs, arbitrary bytes, from memory or a file), then histories of labels, notes and emitted diagnostics on them, rendered a second time by the harness and compared byte by byte; spans over several lines, outside of the text, empty or reversed; plain messages likewise. "
	"Non-trivial: a diagnostic with at least one label was emitted.";
unsigned const QUICK_CASES = 700000, THOROUGH_CASES = 15000000;
struct Known const KNOWN[] = { {0} };

typedef struct { struct HarbolTokenSpan s; char const *color; Str sym, msg; } Lab;
enum { LABS = 320, NOTES = 320 };
static Str line[1200], code; static size_t nl; static Lab lab[LABS]; static size_t nlab; static Str note[NOTES]; static size_t nnote; static bool crowd;
static char const *const COL[] = { COLOR_RED, COLOR_GREEN, COLOR_RESET, "", "\x1B[1;35m" };
static char const *color(void) { return COL[g_u(5)]; }

static char *source(void) {
	Str t = {0}; code = (Str){0}; nl = 1; memset(line, 0, sizeof line); unsigned many = (unsigned)g_u(12); size_t want = many==0 ? 90 + g_u(1010) : g_u(14);
	size_t wide = g_rare(400) ? g_u(want + 1) : SIZE_MAX;
	for( size_t i=0; ; i++ ) {
		if( i==wide ) { CLASSIFY("long line"); for( size_t k = 240 + g_u(5000); k; k-- ) { s_addc(&t, (char)('a' + k % 26)); s_addc(&line[nl-1], (char)('a' + k % 26)); } }
		for( size_t k = many==0 ? g_u(2) : g_len(40); k; k-- ) { char c = g_p(1,8) ? '\t' : g_p(1,10) ? (char)(1 + g_u(255)) : (char)(' ' + g_u(95)); if( c=='\n' || c=='\r' ) c = '%'; s_addc(&t, c); if( c=='\t' ) s_puts(&line[nl-1], "    "); else s_addc(&line[nl-1], c); }
		s_add(&code, line[nl-1].p, line[nl-1].n);
		if( i >= want ) break;
		static char const *const NL[] = { "\n", "\r\n", "\r" }; char const *e = NL[many==0 ? 0 : g_u(3)]; if( *e=='\n' && t.n && t.p[t.n-1]=='\r' ) e = "\r"; /* would join the line end before */
		s_puts(&t, e); s_addc(&code, '\n'); nl++;
	}
	CLASS_IF(nl==1, "one line"); CLASS_IF(nl >= 100, "at least 100 lines"); CLASS_IF(!t.n, "empty text");
	return s_exact(&t);
}
static void render_msg(Str *o, char const *fname, uint32_t const *l, uint32_t const *c) { if( fname ) { s_printf(o, "\n--> %s", fname); if( l ) s_printf(o, ":%u", *l); if( c ) s_printf(o, ":%u", *c); } }
static int digits(uint32_t v) { int d = 1; while( v >= 10 ) { v /= 10; d++; } return d; }
static void spaces(Str *o, size_t k) { while( k-- ) s_addc(o, ' '); }
static void render_labels(Str *o) {
	if( !nlab ) return;
	uint32_t big = 0; for( size_t i=0; i < nlab; i++ ) if( lab[i].s.line_end > big ) big = lab[i].s.line_end;
	size_t pad = (size_t)digits(big) + 1; s_addc(o, '\n'); spaces(o, pad); s_puts(o, "|\n");
	for( size_t i=0; i < nlab; i++ ) {
		for( uint32_t l = lab[i].s.line_start; l <= lab[i].s.line_end; l++ ) { s_printf(o, "%u", l); spaces(o, pad - (size_t)digits(l)); s_addc(o, '|'); if( l && l <= nl ) s_add(o, line[l-1].p, line[l-1].n); s_addc(o, '\n'); }
		spaces(o, pad); s_addc(o, '|'); spaces(o, lab[i].s.colm_start); if( lab[i].color ) s_puts(o, lab[i].color);
		for( uint32_t k = lab[i].s.colm_start; k < lab[i].s.colm_end; k++ ) s_add(o, lab[i].sym.p, lab[i].sym.n);
		s_puts(o, COLOR_RESET); s_addc(o, ' '); s_add(o, lab[i].msg.p, lab[i].msg.n); s_addc(o, '\n');
	}
	if( nnote ) { spaces(o, pad); s_puts(o, "|\n"); for( size_t i=0; i < nnote; i++ ) { spaces(o, pad); s_add(o, note[i].p, note[i].n); s_addc(o, '\n'); } }
	nlab = nnote = 0;
}
static char *word(size_t max) { Str w = {0}; if( g_rare(2000) ) { CLASSIFY("long text"); for( size_t k = 240 + g_u(6000); k; k-- ) s_addc(&w, (char)('a' + k % 26)); } for( size_t k = g_len(max); k; k-- ) s_addc(&w, (char)(' ' + g_u(95))); return s_exact(&w); }
enum { OUT = 1<<21 };
static void compare(FILE *f, char *buf, Str *want) {
	long at = ftell(f); fclose(f); CHECK(at >= 0 && (size_t)at < OUT - 1, "too much output");
	if( !s_eq(want, buf, (size_t)at) ) { size_t i = 0; while( i < want->n && i < (size_t)at && buf[i]==want->p[i] ) i++; size_t from = i > 40 ? i - 40 : 0; FAIL("the output differs at byte %zu: %s, expected %s", i, g_q(buf + from, (size_t)at - from > 120 ? 120 : (size_t)at - from), g_q(want->p + from, want->n - from > 120 ? 120 : want->n - from)); }
}
static void spans(void) {
	struct HarbolMsgSpan H; char path[300], *text = source(); bool file = g_p(1,5), freed = g_p(1,2), r = false, made = g_p(1,2); size_t cnt = g_u(5), ccnt = cnt;
	nlab = nnote = 0;
	if( file ) { snprintf(path, sizeof path, "%s/src", g_scratch()); FILE *f = fopen(path, "wb"); CHECK(f, "no scratch file"); fwrite(text, 1, strlen(text), f); fclose(f); }
	LOG("span of %zu lines %s%s\n", nl, g_q(text, strlen(text) < 200 ? strlen(text) : 200), file ? " from a file" : "");
	memset(&H, 0, sizeof H); if( made ) H = harbol_msg_span_make(file ? path : text, file, freed, &r); else r = harbol_msg_span_init(&H, file ? path : text, file, freed);
	if( file ) { remove(path); CLASSIFY("from a file"); if( !*text ) { CHECK(!r, "an empty file was accepted"); harbol_msg_span_clear(&H); return; } } /* an empty file gives no code */
	CHECK(r, "no span was made");
	CHECK(file ? harbol_string_len(&H.src.filename)==strlen(path) && !strcmp(harbol_string_cstr(&H.src.filename), path) : harbol_string_empty(&H.src.filename), "the file name is %s", g_q(H.src.filename.cstr, H.src.filename.len));
	if( g_p(1,50) ) { struct HarbolMsgSpan G; memset(&G, 0, sizeof G); bool ok = true; Str none = {0}; if( g_p(1,2) ) s_printf(&none, "%s%s", g_scratch(), g_p(1,2) ? "/none" : ""); if( g_p(1,2) ) G = harbol_msg_span_make(s_exact(&none), true, g_p(1,2), &ok); else ok = harbol_msg_span_init(&G, s_exact(&none), true, g_p(1,2)); CHECK(!ok, "a span of the unreadable file %s was made", g_q(none.p, none.n)); harbol_msg_span_clear(&G); CLASSIFY("unreadable file"); }
	crowd = g_rare(2000); CLASS_IF(crowd, "hundreds of labels");
	for( int k=0; k < (crowd ? 1000 : 30) && g_more(crowd ? 600 : 6); k++ ) {
		switch( crowd && !g_p(1,200) ? g_u(4) : g_u(8) ) {
			case 0: case 1: case 2: { if( nlab >= LABS ) break; Lab *l = &lab[nlab++]; memset(l, 0, sizeof *l); bool far = g_p(1,12);
				l->s.line_start = far ? (uint32_t)g_u(2000) : 1 + (uint32_t)g_u(nl); l->s.line_end = l->s.line_start + (g_p(1,2) ? 0 : (uint32_t)g_u(12)); l->s.colm_start = (uint32_t)g_u(40); l->s.colm_end = l->s.colm_start + (uint32_t)g_u(20); if( g_p(1,400) ) { l->s.colm_start += (uint32_t)g_u(3000); l->s.colm_end = l->s.colm_start + (uint32_t)g_u(g_p(1,2) ? 3000 : 30); CLASSIFY("far columns"); }
				if( g_p(1,12) ) { uint32_t t = l->s.colm_start; l->s.colm_start = l->s.colm_end; l->s.colm_end = t; } CLASS_IF(l->s.colm_end <= l->s.colm_start, "empty or reversed columns"); CLASS_IF(l->s.line_end > nl || !l->s.line_start, "lines outside of the text");
				int32_t sym = g_p(2,3) ? "^~-="[g_u(4)] : g_p(1,2) ? 0x80 + (int32_t)g_u(0xD700) : 0xE000 + (int32_t)g_u(0x102000); l->color = g_p(1,4) ? NULL : color(); char const *mc = g_p(1,3) ? NULL : color(); char *w = word(60);
				if( sym < 0x80 ) s_addc(&l->sym, (char)sym); else if( sym < 0x800 ) { s_addc(&l->sym, (char)(0xC0 | sym >> 6)); s_addc(&l->sym, (char)(0x80 | (sym & 63))); } else if( sym < 0x10000 ) { s_addc(&l->sym, (char)(0xE0 | sym >> 12)); s_addc(&l->sym, (char)(0x80 | (sym >> 6 & 63))); s_addc(&l->sym, (char)(0x80 | (sym & 63))); } else { s_addc(&l->sym, (char)(0xF0 | sym >> 18)); s_addc(&l->sym, (char)(0x80 | (sym >> 12 & 63))); s_addc(&l->sym, (char)(0x80 | (sym >> 6 & 63))); s_addc(&l->sym, (char)(0x80 | (sym & 63))); }
				LOG("label %u..%u, %u..%u '%s' %s\n", l->s.line_start, l->s.line_end, l->s.colm_start, l->s.colm_end, s_exact(&l->sym), w);
				int v = (int)g_u(1000); if( mc ) s_puts(&l->msg, mc); s_printf(&l->msg, "%s|%d", w, v); if( g_p(1,6) ) { l->msg.n -= (size_t)(digits((uint32_t)v) + 1); r = harbol_msg_span_add_label(&H, l->s, l->color, sym, mc, "%s", w); } else r = harbol_msg_span_add_label(&H, l->s, l->color, sym, mc, "%s|%d", w, v);
				if( mc ) s_puts(&l->msg, COLOR_RESET); CHECK(r, "the label was refused"); break; }
			case 3: { if( nnote >= NOTES ) break; Str *t = &note[nnote++]; *t = (Str){0}; char const *mc = g_p(1,4) ? NULL : color(); char *w = word(60); LOG("note %s\n", w); if( mc ) s_puts(t, mc); s_puts(t, w); if( mc ) s_puts(t, COLOR_RESET); CHECK(harbol_msg_span_add_note(&H, mc, "%s", w), "the note was refused"); break; }
			case 4: { size_t i = g_u(nl + 3); struct HarbolString const *s = harbol_msg_span_get_line(&H, i); CHECK((s != NULL)==(i < nl), "line %zu of %zu", i, nl); if( s ) CHECK(s_eq(&line[i], s->cstr ? s->cstr : "", s->len) && (!s->cstr || !s->cstr[s->len]), "line %zu is %s, expected %s", i, g_q(s->cstr, s->len), g_q(line[i].p, line[i].n));
				CHECK(harbol_msg_span_get_num_lines(&H)==nl, "%zu lines, expected %zu", harbol_msg_span_get_num_lines(&H), nl); s = harbol_msg_span_get_code(&H); if( freed ) CHECK(s->len==0, "the code was to be released"); else CHECK(s_eq(&code, s->cstr ? s->cstr : "", s->len), "the code is %s, expected %s", g_q(s->cstr, s->len), g_q(code.p, code.n)); break; }
			default: {
				if( nnote && !nlab ) break; /* what becomes of notes without labels is left open */
				static char buf[OUT]; FILE *f = fmemopen(buf, OUT, "w"); CHECK(f, "no stream"); Str want = {0}; char *fn = g_p(1,3) ? NULL : word(12), *ty = g_p(1,4) ? NULL : word(8), *no = g_p(1,3) ? NULL : word(5), *w = word(80); char const *c = color(); uint32_t a = (uint32_t)g_u(100000), b = (uint32_t)g_u(500), *pa = g_p(1,4) ? NULL : &a, *pb = g_p(1,4) ? NULL : &b; size_t *pc = g_p(1,3) ? NULL : &cnt;
				LOG("emit with %zu labels and %zu notes\n", nlab, nnote); if( nlab ) g_nontrivial(); CLASS_IF(nnote, "with notes"); CLASS_IF(nlab > 1, "several labels");
				if( ty ) { s_printf(&want, "%s%s", c, ty); if( no ) s_printf(&want, "[%s]", no); s_puts(&want, COLOR_RESET); s_puts(&want, ": "); } s_printf(&want, "%s %u", w, a); render_msg(&want, fn, pa, pb); render_labels(&want); if( pc ) ccnt++;
				harbol_msg_span_emit_to_stream(&H, pc, f, fn, ty, no, c, pa, pb, "%s %u", w, a); compare(f, buf, &want); CHECK(cnt==ccnt, "the message counter is %zu, expected %zu", cnt, ccnt);
			}
		}
	}
	harbol_msg_span_clear(&H); CHECK(harbol_msg_span_get_num_lines(&H)==0 && harbol_msg_span_get_line(&H, 0)==NULL, "a cleared span has lines"); if( g_p(1,2) ) harbol_msg_span_clear(&H);
	if( g_p(1,10) ) { r = harbol_msg_span_init(&H, text[0] ? text : "x", false, false); CHECK(r, "no span was made from a cleared one"); harbol_msg_span_clear(&H); snprintf(path, sizeof path, "%s/none", g_scratch()); CHECK(!harbol_msg_span_init(&H, path, true, true), "a missing file was accepted"); harbol_msg_span_clear(&H); }
}
static void messages(void) {
	static char buf[OUT]; FILE *f = fmemopen(buf, OUT, "w"); CHECK(f, "no stream"); Str want = {0}; size_t cnt = g_u(4), ccnt = cnt;
	for( int k=0; k < 5 && g_more(3); k++ ) {
		char *fn = g_p(1,3) ? NULL : word(12), *ty = g_p(1,6) ? NULL : word(8), *w = word(80); char const *c = color(); uint32_t a = (uint32_t)g_u64(), b = (uint32_t)g_u64(), *pa = g_p(1,4) ? NULL : &a, *pb = g_p(1,4) ? NULL : &b; size_t *pc = g_p(1,3) ? NULL : &cnt; int v = (int)g_u64();
		if( fn ) { s_printf(&want, "(%s", fn); if( pa ) s_printf(&want, ":%u", a); if( pb ) s_printf(&want, ":%u", b); s_puts(&want, ") "); } s_printf(&want, "%s%s%s: **** %s/%d ****\n", c, ty ? ty : "", COLOR_RESET, w, v); if( pc ) ccnt++;
		LOG("message %s %s\n", fn ? fn : "-", w); harbol_write_msg(pc, f, fn, ty, c, pa, pb, "%s/%d", w, v); CHECK(cnt==ccnt, "the message counter is %zu, expected %zu", cnt, ccnt); CLASSIFY("plain message");
	}
	compare(f, buf, &want);
}
static void merge(void) {
	struct HarbolTokenSpan a, b, m; uint32_t *pa = (uint32_t *)&a, *pb = (uint32_t *)&b; for( int i=0; i < 4; i++ ) { pa[i] = (uint32_t)g_u64(); pb[i] = (uint32_t)g_u64(); } m = harbol_token_span_merge(a, b);
#define LO(f) CHECK(m.f==(a.f < b.f ? a.f : b.f), #f " of the merged span")
#define HI(f) CHECK(m.f==(a.f > b.f ? a.f : b.f), #f " of the merged span")
	LO(line_start); LO(colm_start); HI(line_end); HI(colm_end);
}
struct Target const TARGETS[] = { { "spans", spans, 8 }, { "messages", messages, 2 }, { "merge", merge, 1 }, {0} };
