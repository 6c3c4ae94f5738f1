/* C19: writing configs and reading them back. */
#include "cfgmodel.h"

char const *const PROPERTY = "C19";
char const *const RULE = "Configs with generated keys, values and nesting, made by parsing and then changed through the setters (any finite float, any float vector, any integer, any text without null bytes); written as text and to a file (new, overwritten or appended to), read back and compared with the values entry by entry in order; writing again gives the same text. "
	"Non-trivial: at least 3 entries or a value changed by a setter.";
unsigned const QUICK_CASES = 200000, THOROUGH_CASES = 25000000;
struct Known const KNOWN[] = { {0} };

static bool finite_f(F f) { return !isnan(f) && !isinf(f); }
static F any_f(void) {
	switch( g_u(6) ) {
		case 0: { F f = (F)g_u64() * (g_p(1,2) ? -1 : 1); return ldexpl(f, g_p(1,8) ? (int)g_range(-16500, 16300) : (int)g_range(-150, 150)); }
		case 1: return (F)(int64_t)g_u64();
		case 2: return (F)(int64_t)g_range(-1000000, 1000000) / 1000000;
		case 3: { double d; uint64_t u = g_u64(); memcpy(&d, &u, sizeof d); return d; }
		case 4: return g_p(1,2) ? 0.0L : -0.0L;
		default: return nextafterl((F)(int64_t)g_range(-1000, 1000) / (1 + (F)g_u(16)), g_p(1,2) ? 1e9L : -1e9L);
	}
}
static float any_f32(void) { float f; uint32_t u = (uint32_t)g_u64(); if( g_p(1,3) ) return (float)(int)g_range(-4000, 4000) / 8; memcpy(&f, &u, sizeof f); return isnan(f) || isinf(f) ? 0.1f : f; }
static char *any_text(size_t max) { Str s = {0}; for( size_t k = g_len(max); k; k-- ) { char c = (char)(g_p(1,3) ? 1 + g_u(255) : g_p(1,4) ? "\"'\\\n\t\r/#{}<"[g_u(11)] : (char)(32 + g_u(95))); s_addc(&s, c ? c : '0'); } char *z = s_exact(&s); for( char *m; (m = strstr(z, "<math")); ) *m = '('; return z; }

static unsigned changed;
static void change(struct HarbolMap *m, Node *root, Node *sec) {
	for( size_t i=0; i < sec->n; i++ ) {
		Node *x = sec->kid[i]; if( x->type==HarbolCfgType_Map && !g_p(1,6) ) { change(m, root, x); continue; } if( !g_p(1,3) ) continue;
		bool odd = false; for( Node *a = x->up; a != root; a = a->up ) odd |= a->key.p[a->key.n-1]=='\\'; if( odd ) continue; /* a key ending in a backslash cannot be walked through */
		Str p = {0}; path_of(&p, x); char *path = s_exact(&p); Str key = x->key; Node *up = x->up; bool r; changed++;
		Node y = { .up = up }; y.key = key;
		switch( g_u(7) ) {
			case 0: case 1: y.type = HarbolCfgType_Float; y.f = any_f(); if( !finite_f(y.f) ) y.f = 1; r = harbol_cfg_set_float(m, path, y.f, true); CLASSIFY("any float"); break;
			case 2: y.type = HarbolCfgType_Vec4D; for( int k=0; k < 4; k++ ) y.v[k] = any_f32(); r = harbol_cfg_set_vec4D(m, path, (struct HarbolVec4D){ y.v[0], y.v[1], y.v[2], y.v[3] }, true); CLASSIFY("any vector"); break;
			case 3: { y.type = HarbolCfgType_Color; union HarbolColor c; for( int k=0; k < 4; k++ ) y.c[k] = (uint8_t)g_u(256); c.bytes.r = y.c[0]; c.bytes.g = y.c[1]; c.bytes.b = y.c[2]; c.bytes.a = y.c[3]; r = harbol_cfg_set_color(m, path, c, true); break; }
			case 4: { y.type = HarbolCfgType_Int; y.i = (intmax_t)g_u64(); r = harbol_cfg_set_int(m, path, y.i, true); CLASSIFY("any integer"); break; }
			case 5: { y.type = HarbolCfgType_String; char *z = any_text(60); s_puts(&y.s, z); r = harbol_cfg_set_cstr(m, path, z, true); CLASSIFY("any text"); break; }
			default: y.type = HarbolCfgType_Null; r = harbol_cfg_set_to_null(m, path); break;
		}
		CHECK(r, "setting %s failed", g_q(path, strlen(path))); *x = y;
	}
}
static bool infinite(Node const *sec) { for( size_t i=0; i < sec->n; i++ ) { Node const *x = sec->kid[i]; for( int k=0; k < 4; k++ ) if( isinf(x->v[k]) ) return true; if( infinite(x) ) return true; } return false; }
static void roundtrip(void) {
	nfiles = 0; entries = specials = changed = 0; Ctx c = { .is_file = false }; Str t = {0}; Node *root = node(HarbolCfgType_Map); if( g_rare(2000) ) large(&t, root, 1200); else whole(&t, root, &c, 0);
	if( c.err || infinite(root) ) return; /* two keys came out equal, or a number beyond the range of a vector: there is no literal for infinities */
	LOG("%s\n", g_q(t.p, t.n)); struct HarbolMap *m = harbol_cfg_parse_cstr(s_exact(&t)); same_cfg(root, m);
	if( g_p(2,3) ) { change(m, root, root); same_cfg(root, m); }
	if( entries >= 3 || changed ) g_nontrivial(); CLASS_IF(changed, "changed by setters");
	struct HarbolString text = harbol_cfg_to_str(m); char *once = g_cstr(text.cstr ? text.cstr : "", text.len); LOG("written as %s\n", g_q(once, text.len)); same_cfg(root, m);
	struct HarbolString again = harbol_cfg_to_str(m); CHECK(again.len==text.len && !memcmp(again.cstr ? again.cstr : "", once, text.len), "writing the same config twice gives different texts");
	CHECK(strlen(once)==text.len, "the text contains a null byte"); harbol_string_clear(&again);
	struct HarbolMap *back = harbol_cfg_parse_cstr(once); same_cfg(root, back);
	again = harbol_cfg_to_str(back); CHECK(again.len==text.len && !memcmp(again.cstr ? again.cstr : "", once, text.len), "the config read back is written differently"); harbol_string_clear(&again); harbol_cfg_free(&back);
	if( g_p(1,2) ) { /* through a file */
		char const *path = new_file(); bool old = g_p(1,2), over = g_p(2,3); Str prev = {0}; CLASSIFY("through a file");
		if( old ) { if( g_p(1,2) ) for( size_t k = g_len(300); k; k-- ) s_addc(&prev, "\"abc\": 1\n"[g_u(9)]); else s_puts(&prev, "\"\xFFonly here\": true\n"); same_len_write(path, &prev); }
		CHECK(harbol_cfg_build_file(m, path, over), "writing the file failed"); same_cfg(root, m);
		Str want = {0}; if( old && !over ) s_add(&want, prev.p, prev.n); s_add(&want, once, text.len);
		FILE *f = fopen(path, "rb"); CHECK(f, "no file was written"); char *got = g_buf(want.n + 2); size_t n = fread(got, 1, want.n + 2, f); fclose(f); CHECK(n==want.n && s_eq(&want, got, n), "the file contains %s, expected %s", g_q(got, n), g_q(want.p, want.n));
		CLASS_IF(old && over, "overwritten file"); CLASS_IF(old && !over, "appended file");
		if( text.len && (!old || over) ) { back = harbol_cfg_parse_file(path); same_cfg(root, back); harbol_cfg_free(&back); }
		else if( text.len && old && prev.n && prev.p[0]=='"' && (unsigned char)prev.p[1]==0xFF && root->n ) { /* an extra entry in front */
			back = harbol_cfg_parse_file(path); CHECK(back && back->len==root->n + 1, "an appended file has %zu entries", back ? back->len : 0); CHECK(harbol_cfg_get_bool(back, "\xFFonly here") && *harbol_cfg_get_bool(back, "\xFFonly here"), "what was in the file is lost"); harbol_map_idx_rm(back, 0); g_leak_exempt(); same_cfg(root, back); harbol_cfg_free(&back); }
		drop_files();
	}
	harbol_string_clear(&text); harbol_cfg_free(&m);
	if( g_p(1,20) ) { struct HarbolMap *e = harbol_cfg_parse_cstr(""); CHECK(e && e->len==0, "an empty text gives no empty config"); struct HarbolString s = harbol_cfg_to_str(e); CHECK(s.len==0, "an empty config is written as %s", g_q(s.cstr, s.len)); harbol_string_clear(&s); Str bad = {0}; s_printf(&bad, "%s/none/x", g_scratch()); CHECK(!harbol_cfg_build_file(e, s_exact(&bad), true), "writing into a missing directory succeeded"); harbol_cfg_free(&e); }
}
struct Target const TARGETS[] = { { "roundtrip", roundtrip, 1 }, {0} };
