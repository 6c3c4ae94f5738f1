/* C20: reaching config values through paths. */
#include "cfgmodel.h"

char const *const PROPERTY = "C20";
char const *const RULE = "Configs with generated keys (dots included) and nesting, then histories of up to 60 typed reads, writes with and without conversion, nulling and math evaluation through paths: existing ones, ones with a changed key, ones leading through values that are no sections, empty and malformed ones; after every write the whole config is compared with the model. "
	"Non-trivial: at least 3 writes succeeded and a value was read below the top level.";
unsigned const QUICK_CASES = 600000, THOROUGH_CASES = 30000000;
struct Known const KNOWN[] = { {0} };

static Node *pool[4000]; static size_t np;
static void collect(Node *sec) { for( size_t i=0; i < sec->n && np < 4000; i++ ) { pool[np++] = sec->kid[i]; if( sec->kid[i]->type==HarbolCfgType_Map ) collect(sec->kid[i]); } }
/* the documented meaning of a path: keys separated by dots, "\." is a dot within a key */
static Node *resolve(Node *root, char const *p) {
	Node *at = root;
	for( ;; ) {
		Str k = {0}; bool sep = false;
		for( ; *p; p++ ) { if( p[0]=='\\' && p[1]=='.' ) { s_addc(&k, '.'); p++; } else if( *p=='.' ) { sep = true; p++; break; } else s_addc(&k, *p); }
		if( at->type != HarbolCfgType_Map || !k.n ) return NULL;
		at = find(at, k.p, k.n); if( !at || !*p ) return at;
	}
}
static char *path(void) {
	Str p = {0}; if( !np || g_p(1,20) ) { while( g_more(3) ) s_addc(&p, ".\\ab0"[g_u(5)]); if( p.n && p.p[p.n-1]=='.' ) s_addc(&p, 'z'); CLASSIFY("arbitrary path"); return s_exact(&p); }
	Node *x = pool[g_u(np)]; path_of(&p, x); 
	if( g_p(1,5) ) switch( g_u(6) ) {
		case 0: s_puts(&p, ".x"); break; /* below a value, or a missing key of a section */
		case 1: p.p[g_u(p.n)] ^= 1; for( size_t i=0; i < p.n; i++ ) if( !p.p[i] ) p.p[i] = 'q'; break;
		case 2: s_del(&p, g_u(p.n), 1); break;
		case 3: s_ins(&p, g_u(p.n + 1), ".", 1); break;
		case 4: s_ins(&p, 0, ".", 1); break;
		case 5: { Node *y = pool[g_u(np)]; s_addc(&p, '.'); path_of(&p, y); break; }
	}
	while( p.n && p.p[p.n-1]=='.' && !(p.n > 1 && p.p[p.n-2]=='\\') ) s_del(&p, p.n - 1, 1); /* what a separator at the end means is left open */
	return s_exact(&p);
}
static F var_two(void) { return 2; }
static int tag; static void *tagp; static void lookup(char const name[], size_t len, F *value, HarbolMathFunc **fn, void *data, size_t dlen, bool *is_func) { (void)fn; (void)is_func; CHECK(data==tagp && dlen==7 && strlen(name)==len, "the caller's data was not passed on"); if( !strcmp(name, "two") ) *value = var_two(); }
static void paths(void) {
	nfiles = 0; entries = specials = 0; Ctx c = { .is_file = false }; Str t = {0}; Node *root = node(HarbolCfgType_Map); whole(&t, root, &c, 0); if( c.err ) return;
	LOG("%s\n", g_q(t.p, t.n)); struct HarbolMap *m = harbol_cfg_parse_cstr(s_exact(&t)); unsigned writes = 0; bool deep = false;
	for( int step=0; step < 60 && g_more(15); step++ ) {
		np = 0; collect(root); char *p = path(); Node *x = resolve(root, p); bool wrote = false, ok = false, over = g_p(1,2); Node y = {0};
		CLASS_IF(!x, "absent path"); CLASS_IF(x && x->up != root, "below the top level"); CLASS_IF(x && memchr(x->key.p, '.', x->key.n), "key with a dot"); if( x && x->up != root ) deep = true;
		int type = x ? x->type : HarbolCfgType_Invalid;
		switch( g_u(14) ) {
			default: { /* every typed read */
				LOG("read %s (%s)\n", g_q(p, strlen(p)), type_name(type));
				CHECK(harbol_cfg_get_type(m, p)==(enum HarbolCfgType)type, "the type is %s, expected %s", type_name(harbol_cfg_get_type(m, p)), type_name(type));
				struct HarbolMap *s = harbol_cfg_get_section(m, p); struct HarbolString *str = harbol_cfg_get_str(m, p); size_t len = 777; char *z = harbol_cfg_get_cstr(m, p, &len); F *f = harbol_cfg_get_float(m, p); intmax_t *i = harbol_cfg_get_int(m, p); bool *b = harbol_cfg_get_bool(m, p); union HarbolColor *col = harbol_cfg_get_color(m, p); struct HarbolVec4D *v = harbol_cfg_get_vec4D(m, p);
				CHECK((s != NULL)==(type==HarbolCfgType_Map), "section"); CHECK((str != NULL)==(type==HarbolCfgType_String), "string"); CHECK((f != NULL)==(type==HarbolCfgType_Float), "float"); CHECK((i != NULL)==(type==HarbolCfgType_Int), "int"); CHECK((b != NULL)==(type==HarbolCfgType_Bool), "bool"); CHECK((col != NULL)==(type==HarbolCfgType_Color), "color"); CHECK((v != NULL)==(type==HarbolCfgType_Vec4D), "vector");
				if( s ) same_cfg(x, s); if( str ) { CHECK(s_eq(&x->s, str->cstr ? str->cstr : "", str->len), "string %s", g_q(str->cstr, str->len)); CHECK(len==x->s.n && (z ? s_eq(&x->s, z, len) && !z[len] : !len), "C string"); } else CHECK(!z, "a C string from a value that is none");
				if( f ) CHECK(same_f(*f, x->f), "float %Lg", *f); if( i ) CHECK(*i==x->i, "int %jd", *i); if( b ) CHECK(*b==x->b, "bool"); if( col ) CHECK(col->bytes.r==x->c[0] && col->bytes.g==x->c[1] && col->bytes.b==x->c[2] && col->bytes.a==x->c[3], "color"); if( v ) CHECK(same_f(v->x, x->v[0]) && same_f(v->y, x->v[1]) && same_f(v->z, x->v[2]) && same_f(v->w, x->v[3]), "vector");
				if( i && g_p(1,4) ) { *i = x->i = (intmax_t)g_u64(); same_cfg(root, m); } /* what is returned is the value itself */
				break; }
			case 0: { y.type = HarbolCfgType_Float; y.f = (F)(int64_t)g_u64() / 7; LOG("set %s to %Lg%s\n", g_q(p, strlen(p)), y.f, over ? " converting" : ""); ok = g_p(1,6) ? harbol_cfg_set(m, p, y.f, over) : harbol_cfg_set_float(m, p, y.f, over); wrote = true; break; }
			case 1: { y.type = HarbolCfgType_Int; y.i = (intmax_t)g_u64(); LOG("set %s to %jd%s\n", g_q(p, strlen(p)), y.i, over ? " converting" : ""); ok = g_p(1,6) ? harbol_cfg_set(m, p, y.i, over) : harbol_cfg_set_int(m, p, y.i, over); wrote = true; break; }
			case 2: { y.type = HarbolCfgType_Bool; y.b = g_p(1,2); LOG("set %s to %d%s\n", g_q(p, strlen(p)), y.b, over ? " converting" : ""); ok = g_p(1,6) ? harbol_cfg_set(m, p, y.b, over) : harbol_cfg_set_bool(m, p, y.b, over); wrote = true; break; }
			case 3: { y.type = HarbolCfgType_Color; union HarbolColor k; for( int i=0; i < 4; i++ ) y.c[i] = (uint8_t)g_u(256); k.bytes.r = y.c[0]; k.bytes.g = y.c[1]; k.bytes.b = y.c[2]; k.bytes.a = y.c[3]; LOG("set %s to a color%s\n", g_q(p, strlen(p)), over ? " converting" : ""); ok = g_p(1,6) ? harbol_cfg_set(m, p, k, over) : harbol_cfg_set_color(m, p, k, over); wrote = true; break; }
			case 4: { y.type = HarbolCfgType_Vec4D; for( int i=0; i < 4; i++ ) y.v[i] = (float)(int)g_range(-1000, 1000) / 3; LOG("set %s to a vector%s\n", g_q(p, strlen(p)), over ? " converting" : ""); ok = harbol_cfg_set_vec4D(m, p, (struct HarbolVec4D){ y.v[0], y.v[1], y.v[2], y.v[3] }, over); wrote = true; break; }
			case 5: case 6: { y.type = HarbolCfgType_String; if( g_p(1,3) ) s_printf(&y.s, "%s%u", g_p(1,2) ? "2*" : "two+", (unsigned)g_u(100)); else for( size_t k = g_len(40); k; k-- ) s_addc(&y.s, (char)(1 + g_u(255))); char *z = s_exact(&y.s); LOG("set %s to %s%s\n", g_q(p, strlen(p)), g_q(z, y.s.n), over ? " converting" : "");
				if( g_p(1,2) ) { struct HarbolString s = { .cstr = y.s.n || g_p(1,2) ? z : NULL, .len = y.s.n }; ok = g_p(1,6) ? harbol_cfg_set(m, p, s, over) : harbol_cfg_set_str(m, p, s, over); } else ok = g_p(1,6) ? harbol_cfg_set(m, p, z, over) : harbol_cfg_set_cstr(m, p, z, over);
				wrote = true; break; }
			case 7: if( g_p(1,2) ) { y.type = HarbolCfgType_Null; LOG("set %s to null\n", g_q(p, strlen(p))); ok = harbol_cfg_set_to_null(m, p); over = true; wrote = true; } break;
			case 8: { /* math: only strings, and no expression changes anything */
				F r = 0; bool with = g_p(1,2); r = harbol_cfg_calc_math(m, p, with ? lookup : NULL, with ? (tagp = g_p(1,6) ? NULL : &tag) : NULL, with ? 7 : 0);
				if( type != HarbolCfgType_String ) CLASSIFY("math on a value that is no string"); /* its result is left open */
				else if( with && x->s.n > 4 && !memcmp(x->s.p, "two+", 4) ) { CHECK(r==2 + (F)atoi(s_exact(&x->s) + 4), "%s gives %Lg", g_q(x->s.p, x->s.n), r); CLASSIFY("math"); }
				else if( x->s.n > 2 && !memcmp(x->s.p, "2*", 2) && isdigit((unsigned char)x->s.p[2]) && x->s.n < 5 ) { bool dig = true; for( size_t i=2; i < x->s.n; i++ ) dig &= isdigit((unsigned char)x->s.p[i]) != 0; if( dig ) CHECK(r==2 * (F)atoi(s_exact(&x->s) + 2), "%s gives %Lg", g_q(x->s.p, x->s.n), r); CLASSIFY("math"); }
				same_cfg(root, m); break; }
		}
		if( wrote ) {
			bool want = x && (over || x->type==y.type); CHECK(ok==want, "the result is %d, expected %d (%s)", ok, want, type_name(type));
			if( want ) { writes++; CLASS_IF(x->type==HarbolCfgType_Map, "a section was replaced"); y.key = x->key; y.up = x->up; *x = y; }
			same_cfg(root, m);
		}
	}
	if( writes >= 3 && deep ) g_nontrivial();
	harbol_cfg_free(&m);
}
/* long paths in large configs */
static void many(void) {
	nfiles = 0; entries = specials = 0; Str t = {0}; Node *root = node(HarbolCfgType_Map), *in = large(&t, root, 4000); struct HarbolMap *m = harbol_cfg_parse_cstr(s_exact(&t)); g_nontrivial();
	for( int k=0; k < 60; k++ ) {
		Node *x = in->kid[g_u(in->n)]; Str p = {0}; path_of(&p, x); if( g_p(1,4) ) { s_addc(&p, 'q'); x = NULL; } char *path = s_exact(&p); CLASS_IF(p.n > 255, "path of more than 255 bytes"); CHECK(harbol_cfg_get_type(m, path)==(enum HarbolCfgType)(x ? x->type : HarbolCfgType_Invalid), "the type of %s", g_q(path, p.n));
		intmax_t v = (intmax_t)g_u64(); bool over = g_p(1,2), want = x && (over || x->type==HarbolCfgType_Int); if( g_p(1,2) ) { CHECK(harbol_cfg_set_int(m, path, v, over)==want, "setting %s", g_q(path, p.n)); if( want ) { x->type = HarbolCfgType_Int; x->i = v; } }
	}
	same_cfg(root, m); harbol_cfg_free(&m);
}
struct Target const TARGETS[] = { { "paths", paths, 4000 }, { "many", many, 1 }, {0} };
