/* C26: running out of memory inside a call leaves every structure as it was, or as the call promised. */
#include "cfgmodel.h"
#include "str/str.h"
#include "array/array.h"
#include "bytebuffer/bytebuffer.h"
#include "map/map.h"
#include "tuple/tuple.h"
#include "deque/deque.h"
#include "tree/tree.h"
#include "variant/variant.h"
#include "msg_span/msg_span.h"
#include "allocators/mempool/mempool.h"
#include "allocators/objpool/objpool.h"
#include "allocators/region/region.h"
#include "allocators/bistack/bistack.h"

char const *const PROPERTY = "C26";
char const *const RULE = "Histories of calls made on two twins (two strings, buffers, arrays, maps, deques, trees, variants, message spans or configs); in the first twin one or all allocations fail from a generated one on. What the call reports decides whether the first twin must equal "
	"what it was, or what the call made of the second twin; then the call is made again with memory, and both must be equal. Constructions fail the same way. Non-trivial: an allocation failed inside a call.";
unsigned const QUICK_CASES = 500000, THOROUGH_CASES = 60000000;
struct Known const KNOWN[] = { {0} };

enum Kind { K_STR, K_ARR, K_BUF, K_MAP, K_DEQ, K_TREE, K_VAR, K_CFG, KINDS };
static char const *const KIND[] = { "string", "array", "buffer", "map", "deque", "tree", "variant", "config" };
typedef struct { unsigned op; size_t a, b, c; uint8_t *p, *q; size_t pn, qn; bool f; char const *path; } Op;
typedef struct { struct HarbolString s, t; struct HarbolArray arr; struct HarbolByteBuf buf, buf2; struct HarbolMap map; struct HarbolDeque deq; size_t node[64]; struct HarbolTree tree; struct HarbolVariant var; struct HarbolMap *cfg; } Obj;
enum { AD = 5 }; /* size of an array element */
static enum Kind kind; static char fname[300];

static void put(Str *o, void const *p, size_t n) { s_printf(o, "%zu:", n); if( n && p ) s_add(o, p, n); s_addc(o, ';'); }
static void snap_tree(Str *o, struct HarbolTree const *t) { put(o, harbol_tree_get(t), harbol_tree_len(t)); s_addc(o, '('); for( size_t i=0; i < t->kids.len; i++ ) snap_tree(o, harbol_tree_get_node_by_index(t, i)); s_addc(o, ')'); }
static void snap_cfg(Str *o, struct HarbolMap const *m) {
	CHECK(m, "a section is missing");
	for( size_t i=0; i < m->len; i++ ) {
		char const *key = (char const *)m->keys[i]; struct HarbolVariant const *v = harbol_map_idx_get(m, i); CHECK(v && v->data, "%s has no value", g_q(key, strlen(key)));
		put(o, key, strlen(key)); s_printf(o, "%d ", v->tag);
		switch( v->tag ) {
			case HarbolCfgType_Map: s_addc(o, '{'); snap_cfg(o, *(struct HarbolMap *const *)v->data); s_addc(o, '}'); break;
			case HarbolCfgType_String: { struct HarbolString const *s = *(struct HarbolString *const *)v->data; CHECK(s, "%s is a string without a string", g_q(key, strlen(key))); put(o, s->cstr, s->len); break; }
			case HarbolCfgType_Float: { F f; memcpy(&f, v->data, sizeof f); s_printf(o, "%La;", f); break; }
			default: put(o, v->data, v->size);
		}
	}
}
static Str snap(Obj *x) {
	Str o = {0};
	switch( kind ) {
		case K_STR: for( int i=0; i < 2; i++ ) { struct HarbolString *s = i ? &x->t : &x->s; if( s->cstr ) CHECK(s->cstr[s->len]==0, "a string of %zu bytes is not terminated", s->len); else CHECK(s->len==0, "a string has %zu bytes and no text", s->len); put(&o, s->cstr, s->len); } break;
		case K_ARR: CHECK(x->arr.len <= x->arr.cap && (x->arr.table || !x->arr.cap), "an array has %zu elements, capacity %zu", x->arr.len, x->arr.cap); put(&o, x->arr.table, x->arr.len * AD); s_printf(&o, "cap %zu", x->arr.cap); if( x->arr.table ) { uint8_t z = 0; for( size_t i = x->arr.len * AD; i < x->arr.cap * AD; i++ ) z |= x->arr.table[i]; (void)z; } break;
		case K_BUF: for( int i=0; i < 2; i++ ) { struct HarbolByteBuf *b = i ? &x->buf2 : &x->buf; CHECK(b->len <= b->cap && (b->table || !b->len), "a buffer has %zu bytes, capacity %zu", b->len, b->cap); put(&o, b->table, b->len); } break;
		case K_MAP: for( size_t i=0; i < x->map.len; i++ ) { put(&o, x->map.keys[i], x->map.keylens[i]); put(&o, harbol_map_idx_get(&x->map, i), x->map.datalens[i]); CHECK(harbol_map_get_entry_index(&x->map, x->map.keys[i], x->map.keylens[i])==i, "entry %zu is not found under its key", i); } CHECK(!harbol_map_has_key(&x->map, "absent", 6), "a key never stored is found"); break;
		case K_DEQ: { size_t k = 0, n = harbol_deque_count(&x->deq), at = harbol_deque_head(&x->deq), last = SIZE_MAX; s_printf(&o, "%zu:", n);
			while( k < n ) { uint8_t *v = harbol_deque_get_data(&x->deq, at); CHECK(v, "value %zu of %zu is missing", k, n); put(&o, v, 4); CHECK(harbol_deque_prev(&x->deq, at)==last || k==0, "links disagree"); last = at; at = harbol_deque_next(&x->deq, at); k++; }
			CHECK(!n || last==harbol_deque_tail(&x->deq), "the walk does not end at the tail"); break; }
		case K_TREE: snap_tree(&o, &x->tree); break;
		case K_VAR: put(&o, harbol_variant_data(&x->var), harbol_variant_size(&x->var)); s_printf(&o, "tag %d", harbol_variant_tag(&x->var)); break;
		case K_CFG: snap_cfg(&o, x->cfg); break;
		default: break;
	}
	return o;
}
static struct HarbolTree *pick(struct HarbolTree *t, size_t r) { while( r && t->kids.len ) { t = harbol_tree_get_node_by_index(t, r % t->kids.len); r /= 3; } return t; }
/* the result of the call: 0 says that it did nothing */
static long apply(Obj *x, Op const *o) {
	char const *p = (char const *)o->p, *q = (char const *)o->q;
	switch( kind ) {
		case K_STR: { struct HarbolString *s = o->f ? &x->t : &x->s, *t = o->f ? &x->s : &x->t; if( o->b & 1 ) t = s;
			switch( o->op % 14 ) {
				case 0: return harbol_string_add_char(s, 'x');
				case 1: return harbol_string_add_char_rep(s, 'y', o->a);
				case 2: return harbol_string_add_str(s, t);
				case 3: return harbol_string_add_cstr(s, p);
				case 4: return harbol_string_copy_str(s, t);
				case 5: return harbol_string_copy_cstr(s, p);
				case 6: return 1 + harbol_string_format(s, o->b & 2, "<%s|%zu>", p, o->a);
				case 7: return s->cstr ? harbol_string_replace_cstr(s, p[0] ? p : "a", q, o->a) : 0;
				case 8: return harbol_string_replace_range(s, o->a, o->a + o->b, q);
				case 9: return harbol_string_read_file(s, fname);
				case 10: return harbol_string_lower(s);
				case 11: return s->cstr ? harbol_string_replace_char(s, 'a', 'b') : 0;
				case 12: return (long)harbol_string_rm_char(s, 'a');
				default: return harbol_string_upper(s);
			} }
		case K_ARR: switch( o->op % 8 ) {
				case 0: return harbol_array_grow(&x->arr, AD);
				case 1: return harbol_array_resize(&x->arr, AD, o->a);
				case 2: return harbol_array_shrink(&x->arr, AD, o->f);
				case 3: return harbol_array_del_by_index(&x->arr, o->a, AD);
				case 4: return harbol_array_pop(&x->arr, AD) != NULL;
				default: return harbol_array_insert(&x->arr, o->p, AD);
			}
		case K_BUF: { struct HarbolByteBuf *s = o->f ? &x->buf2 : &x->buf, *t = o->f ? &x->buf : &x->buf2; if( o->b & 1 ) t = s;
			switch( o->op % 12 ) {
				case 0: return harbol_bytebuffer_insert_byte(s, (uint8_t)o->a);
				case 1: return harbol_bytebuffer_insert_int16(s, (uint16_t)o->a);
				case 2: return harbol_bytebuffer_insert_int32(s, (uint32_t)o->a);
				case 3: return harbol_bytebuffer_insert_int64(s, o->a);
				case 4: return harbol_bytebuffer_insert_cstr(s, p);
				case 5: return harbol_bytebuffer_insert_obj(s, o->p, o->pn);
				case 6: return harbol_bytebuffer_insert_zeros(s, o->a);
				case 7: return harbol_bytebuffer_append(s, t);
				case 8: return harbol_bytebuffer_copy(s, t);
				case 9: return harbol_bytebuffer_insert_from_filename(s, fname);
				case 10: return s->table ? harbol_bytebuffer_del(s, o->a, 1 + o->b % 5) : 0;
				default: return harbol_bytebuffer_insert_float64(s, 1.5 * (double)o->a);
			} }
		case K_MAP: switch( o->op % 10 ) {
				case 0: return harbol_map_rehash(&x->map, o->a + x->map.len + 1);
				case 1: return harbol_map_key_rm(&x->map, p, o->pn);
				case 2: case 3: return harbol_map_key_set(&x->map, p, o->pn, o->q, o->qn);
				case 4: return harbol_map_idx_set(&x->map, o->a, o->q, o->qn);
				default: return harbol_map_insert(&x->map, p, o->pn, o->q, o->qn);
			}
		case K_DEQ: { size_t h; uint32_t v = (uint32_t)o->a, out; switch( o->op % 6 ) {
				case 0: case 1: h = harbol_deque_append(&x->deq, &v, sizeof v); return h != SIZE_MAX;
				case 2: case 3: h = harbol_deque_prepend(&x->deq, &v, sizeof v); return h != SIZE_MAX;
				case 4: return harbol_deque_pop_front(&x->deq, &out, sizeof out);
				default: return harbol_deque_pop_back(&x->deq, &out, sizeof out);
			} }
		case K_TREE: { struct HarbolTree *t = pick(&x->tree, o->b); switch( o->op % 6 ) {
				case 0: return harbol_tree_set(t, o->q, o->qn);
				case 1: return harbol_tree_rm_index(t, o->a);
				case 2: return harbol_tree_rm_val(t, o->q, o->qn);
				default: return harbol_tree_insert_val(t, o->q, o->qn);
			} }
		case K_VAR: return harbol_variant_set(&x->var, o->q, o->qn);
		case K_CFG: { bool f = o->f; switch( o->op % 8 ) {
				case 0: return harbol_cfg_set_cstr(x->cfg, o->path, p, f);
				case 1: return harbol_cfg_set_int(x->cfg, o->path, (intmax_t)o->a, f);
				case 2: return harbol_cfg_set_float(x->cfg, o->path, (F)o->a / 4, f);
				case 3: return harbol_cfg_set_bool(x->cfg, o->path, o->a & 1, f);
				case 4: return harbol_cfg_set_color(x->cfg, o->path, (union HarbolColor){ .uint32 = (uint32_t)o->a }, f);
				case 5: return harbol_cfg_set_vec4D(x->cfg, o->path, (struct HarbolVec4D){ (float)o->a, 1, 2, 3 }, f);
				case 6: return harbol_cfg_set_to_null(x->cfg, o->path);
				default: { struct HarbolString s = { (char *)p, strlen(p) }; return harbol_cfg_set_str(x->cfg, o->path, s, f); }
			} }
		default: return 0;
	}
}
static void small_text(uint8_t **p, size_t *n) { Str t = {0}; size_t k = g_p(1,12) ? g_len(300) : g_len(12); while( k-- ) s_addc(&t, "abbc. "[g_u(6)]); *n = t.n; *p = (uint8_t *)s_exact(&t); }
static Node *npool[2000]; static size_t nnp;
static void collect(Node *sec) { for( size_t i=0; i < sec->n && nnp < 2000; i++ ) { npool[nnp++] = sec->kid[i]; if( sec->kid[i]->type==HarbolCfgType_Map ) collect(sec->kid[i]); } }
static void gen(Op *o) {
	*o = (Op){ .op = (unsigned)g_u(840), .a = g_len(40), .b = g_u(64), .f = g_p(1,2) };
	small_text(&o->p, &o->pn); small_text(&o->q, &o->qn);
	if( kind==K_MAP ) { Str t = {0}; s_printf(&t, "k%zu", (size_t)g_u(24)); o->p = (uint8_t *)s_exact(&t); o->pn = t.n; }
	if( (kind==K_MAP || kind==K_TREE || kind==K_VAR) && !o->qn ) { o->q = (uint8_t *)g_cstr("z", 1); o->qn = 1; }
	if( kind==K_ARR && o->pn < AD ) { o->p = (uint8_t *)g_cstr("elems", AD); o->pn = AD; }
	if( kind==K_CFG ) { Str t = {0}; if( nnp ) path_of(&t, npool[g_u(nnp)]); else s_puts(&t, "none"); if( g_p(1,12) ) s_addc(&t, 'x'); o->path = s_exact(&t); }
}
static void arm(void) { vf_fail_after((long)g_u(g_p(1,3) ? 12 : 3)); vf_fail_width(g_p(1,2) ? 1 : 1000000); }
static void history(void) {
	kind = (enum Kind)g_u(KINDS); Obj *A = g_zbuf(sizeof *A), *B = g_zbuf(sizeof *B); uint64_t ent = g_u64(); uint8_t *v; size_t n; bool hits = false;
	snprintf(fname, sizeof fname, "%s/oom.txt", g_scratch()); { FILE *f = fopen(fname, "w"); small_text(&v, &n); fwrite(v, 1, n, f); fclose(f); }
	LOG("twins of a %s\n", KIND[kind]);
	char *text = NULL; size_t init = g_len(12); bool ra = true, rb = true; small_text(&v, &n); if( !n ) { v = (uint8_t *)g_cstr("v", 1); n = 1; }
	if( kind==K_CFG ) { nfiles = 0; entries = specials = 0; nnp = 0; Ctx c = { .is_file = false }; Str t = {0}; Node *root = node(HarbolCfgType_Map); whole(&t, root, &c, 0); if( c.err ) return; text = s_exact(&t); collect(root); LOG("%s\n", g_q(text, t.n)); }
	for( int i=0; i < 2; i++ ) {
		Obj *x = i ? B : A; vf_set_entropy(ent); bool r = true;
		for( int again=0; again < 2; again++ ) {
			bool inj = !i && !again && g_p(1,4) && kind != K_CFG; if( inj ) arm();
			switch( kind ) {
				case K_STR: r = !inj || harbol_string_init(&x->s, (char *)v); break;
				case K_ARR: r = harbol_array_init(&x->arr, AD, init); break;
				case K_MAP: r = harbol_map_init(&x->map, init); break;
				case K_DEQ: r = harbol_deque_init(&x->deq, init); break;
				case K_TREE: r = harbol_tree_init(&x->tree, v, n); break;
				case K_VAR: r = harbol_variant_init(&x->var, v, n, 7); break;
				case K_CFG: x->cfg = harbol_cfg_parse_cstr(text); r = x->cfg != NULL; break;
				default: break;
			}
			bool hit = vf_fail_hit(); vf_fail_off(); if( kind==K_STR && inj && r ) { harbol_string_clear(&x->s); }
			if( r ) { break; } CHECK(hit, "construction of a %s failed with memory", KIND[kind]); CLASSIFY("construction refused"); hits = true;
			memset(x, 0, sizeof *x); /* nothing is left behind in a construction that failed, so nothing leaks; a second try works */
			vf_set_entropy(ent);
		}
		(i ? rb = r : (ra = r));
	}
	CHECK(ra && rb, "construction of a %s failed", KIND[kind]);
	{ Str a = snap(A), b = snap(B); CHECK(s_eq(&a, b.p, b.n), "twins differ after construction: %s, %s", g_q(a.p, a.n), g_q(b.p, b.n)); }
	for( int k=0; k < 60 && g_more(14); k++ ) {
		Op o; gen(&o); bool inj = g_p(1,3); LOG("op %u a=%zu b=%zu f=%d p=%s q=%s path=%s%s\n", o.op, o.a, o.b, o.f, g_q(o.p, o.pn), g_q(o.q, o.qn), o.path ? o.path : "", inj ? " with an allocation failing" : "");
		Str before = {0}; if( inj ) before = snap(A);
		if( inj ) arm(); vf_set_entropy(ent);
		long x = apply(A, &o); bool hit = vf_fail_hit(); vf_fail_off();
		long y = apply(B, &o); Str a = snap(A), b = snap(B);
		if( !hit ) { CHECK(x==y, "%s call %u gave %ld and %ld on equal twins", KIND[kind], o.op, x, y); CHECK(s_eq(&a, b.p, b.n), "equal %ss differ after the same call %u: %s, %s", KIND[kind], o.op, g_q(a.p, a.n), g_q(b.p, b.n)); continue; }
		hits = true; if( x==y && s_eq(&a, b.p, b.n) ) { CLASS_IF(y, "worked without the memory"); continue; }
		CLASSIFY("refused for lack of memory");
		CHECK(x==0 || (kind==K_STR && x < 0) , "a %s call (%u) that lacked memory reported success (%ld, %ld with memory) but gave %s instead of %s", KIND[kind], o.op, x, y, g_q(a.p, a.n), g_q(b.p, b.n));
		CHECK(s_eq(&a, before.p, before.n), "a %s call (%u) that was refused for lack of memory changed %s to %s", KIND[kind], o.op, g_q(before.p, before.n), g_q(a.p, a.n));
		vf_set_entropy(ent); x = apply(A, &o); a = snap(A); CHECK(x==y && s_eq(&a, b.p, b.n), "a %s call (%u) refused for lack of memory and made again gave %ld, %s, with memory at once %ld, %s", KIND[kind], o.op, x, g_q(a.p, a.n), y, g_q(b.p, b.n));
	}
	if( hits ) g_nontrivial();
	for( int i=0; i < 2; i++ ) {
		Obj *x = i ? B : A;
		switch( kind ) {
			case K_STR: harbol_string_clear(&x->s); harbol_string_clear(&x->t); break;
			case K_ARR: harbol_array_clear(&x->arr); break;
			case K_BUF: harbol_bytebuffer_clear(&x->buf); harbol_bytebuffer_clear(&x->buf2); break;
			case K_MAP: harbol_map_clear(&x->map); break;
			case K_DEQ: harbol_deque_clear(&x->deq); break;
			case K_TREE: harbol_tree_clear(&x->tree); break;
			case K_VAR: harbol_variant_clear(&x->var); break;
			case K_CFG: harbol_cfg_free(&x->cfg); break;
			default: break;
		}
	}
	remove(fname);
}
/* heap constructors: NULL or a whole object, nothing lost */
static void constructors(void) {
	uint8_t *v; size_t n; small_text(&v, &n); if( !n ) { v = (uint8_t *)g_cstr("v", 1); n = 1; } size_t init = g_len(40), which = g_u(14); bool res = false; arm(); g_nontrivial(); LOG("constructor %zu\n", which);
	switch( which ) {
		case 0: { struct HarbolString *s = harbol_string_new((char *)v); vf_fail_off(); if( s ) { CHECK(s->len==n && s->cstr && !memcmp(s->cstr, v, n), "a new string holds %s instead of %s", g_q(s->cstr, s->len), g_q(v, n)); harbol_string_free(&s); } break; }
		case 1: { struct HarbolArray *a = harbol_array_new(AD, init); vf_fail_off(); if( a ) { CHECK(a->table && a->cap >= init, "a new array has no room"); harbol_array_cleanup(&a); } break; }
		case 2: { struct HarbolByteBuf *a = harbol_bytebuffer_new(); vf_fail_off(); if( a ) { CHECK(harbol_bytebuffer_insert_byte(a, 1) && a->len==1, "a new buffer does not work"); harbol_bytebuffer_free(&a); } break; }
		case 3: { struct HarbolMap *a = harbol_map_new(init); vf_fail_off(); if( a ) { CHECK(harbol_map_insert(a, v, n, v, n) && harbol_map_has_key(a, v, n), "a new map does not work"); harbol_map_free(&a); } break; }
		case 4: { struct HarbolDeque *a = harbol_deque_new(init); vf_fail_off(); if( a ) { CHECK(harbol_deque_append(a, v, n) != SIZE_MAX, "a new deque does not work"); harbol_deque_free(&a); } break; }
		case 5: { struct HarbolTree *a = harbol_tree_new(v, n); vf_fail_off(); if( a ) { CHECK(harbol_tree_len(a)==n && harbol_tree_insert_val(a, v, n), "a new tree does not work"); harbol_tree_free(&a); } break; }
		case 6: { struct HarbolVariant *a = harbol_variant_new(v, n, 3); vf_fail_off(); if( a ) { CHECK(a->size==n && a->data && !memcmp(a->data, v, n), "a new variant lacks its value"); harbol_variant_free(&a); } break; }
		case 7: case 8: { size_t sz[12], k = 1 + g_u(12), i; for( i=0; i < k; i++ ) sz[i] = 1 + g_u(24); bool packed = g_p(1,2);
			if( which==7 ) { struct HarbolTuple *t = harbol_tuple_new(k, sz, packed); vf_fail_off(); if( t ) { for( i=0; i < k; i++ ) CHECK(harbol_tuple_field_size(t, i)==sz[i] && harbol_tuple_set(t, i, g_zbuf(sz[i])), "member %zu of a new tuple is missing", i); harbol_tuple_free(&t); } }
			else { struct HarbolTuple t = harbol_tuple_create(k, sz, packed, &res); vf_fail_off(); if( res ) for( i=0; i < k; i++ ) CHECK(harbol_tuple_set(&t, i, g_zbuf(sz[i])), "member %zu of a new tuple is missing", i); harbol_tuple_clear(&t); }
			break; }
		case 9: { struct HarbolString s = harbol_string_make((char *)v, &res); vf_fail_off(); CHECK(res==(s.len==n), "a string of %zu bytes reported %d", s.len, res); harbol_string_clear(&s); break; }
		case 10: { struct HarbolMap m = harbol_map_make(init, &res); vf_fail_off(); if( res ) CHECK(harbol_map_insert(&m, v, n, v, n), "a new map does not work"); harbol_map_clear(&m); break; }
		case 11: { struct HarbolArray m = harbol_array_make(AD, init, &res); vf_fail_off(); CHECK(res==(m.table != NULL) && m.cap >= (res ? init : 0), "a new array reported %d", res); harbol_array_clear(&m); break; }
		case 12: { struct HarbolVariant m = harbol_variant_make(v, n, 1, &res); vf_fail_off(); CHECK(res==(m.data != NULL) && (!res || m.size==n), "a new variant reported %d", res); harbol_variant_clear(&m); break; }
		default: { struct HarbolDeque m = harbol_deque_make(init, &res); vf_fail_off(); if( res ) CHECK(harbol_deque_append(&m, v, n) != SIZE_MAX, "a new deque does not work"); harbol_deque_clear(&m); }
	}
}
/* labels and notes */
static char *render(struct HarbolMsgSpan *s) {
	char *buf = NULL; size_t n = 0; FILE *f = open_memstream(&buf, &n); harbol_msg_span_emit_to_stream(s, NULL, f, NULL, "f.c", "error", COLOR_RED, NULL, NULL, "m%d", 1); fclose(f); char *r = g_cstr(buf, n); 
	free(buf); return r;
}
static void spans(void) {
	Str t = {0}; size_t k = 1 + g_len(8); for( size_t i=0; i < k; i++ ) s_printf(&t, "line %zu\n", i); char *code = s_exact(&t); struct HarbolMsgSpan A, B; bool r = false, hit, hits = false; memset(&A, 0, sizeof A); memset(&B, 0, sizeof B);
	CHECK(harbol_msg_span_init(&B, code, false, false), "construction failed");
	bool inj = g_p(1,2); LOG("span over %s%s\n", g_q(t.p, t.n), inj ? " with an allocation failing" : ""); if( inj ) arm(); r = harbol_msg_span_init(&A, code, false, false); hit = vf_fail_hit(); vf_fail_off();
	if( !r ) { CHECK(hit, "construction failed"); hits = true; CLASSIFY("span refused"); harbol_msg_span_clear(&A); memset(&A, 0, sizeof A); CHECK(harbol_msg_span_init(&A, code, false, false), "construction failed"); }
	else if( hit ) { hits = true; CHECK(harbol_msg_span_get_num_lines(&A)==harbol_msg_span_get_num_lines(&B), "a span has %zu lines instead of %zu", harbol_msg_span_get_num_lines(&A), harbol_msg_span_get_num_lines(&B));
		for( size_t i=0; i < harbol_msg_span_get_num_lines(&B); i++ ) { struct HarbolString const *x = harbol_msg_span_get_line(&A, i), *y = harbol_msg_span_get_line(&B, i); CHECK(x && y && x->len==y->len && (!y->len || !memcmp(x->cstr, y->cstr, y->len)), "line %zu is %s instead of %s", i, x ? g_q(x->cstr, x->len) : "missing", g_q(y->cstr, y->len)); } }
	while( g_more(8) ) {
		size_t l = g_u(k), w = g_len(5); struct HarbolTokenSpan sp = { .colm_start = (uint16_t)w, .colm_end = (uint16_t)(w + 1 + g_len(5)), .line_start = (uint32_t)l, .line_end = (uint32_t)(l + g_len(2)) }; uint8_t *m; size_t n; small_text(&m, &n); bool note = g_p(1,2), colored = g_p(1,2); inj = g_p(1,2);
		LOG("%s %s%s\n", note ? "note" : "label", g_q(m, n), inj ? " with an allocation failing" : "");
		if( inj ) arm();
		r = note ? harbol_msg_span_add_note(&A, colored ? COLOR_GREEN : NULL, "%s", m) : harbol_msg_span_add_label(&A, sp, COLOR_RED, '^', colored ? COLOR_GREEN : NULL, "%s", m);
		hit = vf_fail_hit(); vf_fail_off(); CHECK(r || hit, "a %s was refused", note ? "note" : "label");
		if( r ) CHECK(note ? harbol_msg_span_add_note(&B, colored ? COLOR_GREEN : NULL, "%s", m) : harbol_msg_span_add_label(&B, sp, COLOR_RED, '^', colored ? COLOR_GREEN : NULL, "%s", m), "refused");
		else CLASSIFY("label or note refused"); hits |= hit;
		CHECK(A.labels.len==B.labels.len && A.notes.len==B.notes.len, "a %s reported as %d is %s", note ? "note" : "label", r, r ? "missing" : "there");
	}
	{ char *x = render(&A), *y = render(&B); CHECK(!strcmp(x, y), "after labels and notes that lacked memory, %s is shown instead of %s", g_q(x, strlen(x)), g_q(y, strlen(y))); }
	if( hits ) g_nontrivial(); harbol_msg_span_clear(&A); harbol_msg_span_clear(&B);
}
/* writing configs: whole or not at all */
static void writing(void) {
	nfiles = 0; entries = specials = 0; Ctx c = { .is_file = false }; Str t = {0}; Node *root = node(HarbolCfgType_Map); whole(&t, root, &c, 0); if( c.err ) return;
	LOG("%s\n", g_q(t.p, t.n)); struct HarbolMap *m = harbol_cfg_parse_cstr(s_exact(&t)); CHECK(m, "parsing failed"); struct HarbolString want = harbol_cfg_to_str(m), got;
	for( int k=0; k < 3; k++ ) {
		long at = (long)g_u(1 + 2 * want.len); if( g_p(1,4) ) at = (long)g_u(4); LOG("allocation %ld fails\n", at); vf_fail_after(at); vf_fail_width(g_p(1,2) ? 1 : 1000000);
		if( g_p(2,3) ) { got = harbol_cfg_to_str(m); bool hit = vf_fail_hit(); vf_fail_off(); if( !hit || got.len ) CHECK(got.len==want.len && (!got.len || !memcmp(got.cstr, want.cstr, want.len)), "a config is written as %s, expected %s", g_q(got.cstr, got.len), g_q(want.cstr, want.len)); if( hit ) { g_nontrivial(); CLASS_IF(!got.len, "config text refused"); } harbol_string_clear(&got); }
		else {
			bool over = g_p(2,3), old = g_p(2,3); FILE *f; snprintf(fname, sizeof fname, "%s/oomcfg.txt", g_scratch()); remove(fname); if( old ) { f = fopen(fname, "w"); fputs("'old':1\n", f); fclose(f); }
			bool r = harbol_cfg_build_file(m, fname, over), hit = vf_fail_hit(); vf_fail_off(); CHECK(r || hit, "building the file failed"); if( hit ) g_nontrivial();
			Str e = {0}; if( old && (!over || !r) ) s_puts(&e, "'old':1\n"); if( r ) s_add(&e, want.cstr, want.len);
			size_t n = 0; char *b = g_zbuf(e.n + 100); f = fopen(fname, "r"); if( f ) { n = fread(b, 1, e.n + 50, f); fclose(f); } CHECK(n==e.n && (!n || !memcmp(b, e.p, n)), "a file that could %sbe built holds %s, expected %s", r ? "" : "not ", g_q(b, n), g_q(e.p, e.n)); CLASS_IF(!r, "file refused"); remove(fname);
		}
	}
	struct HarbolString again = harbol_cfg_to_str(m); CHECK(again.len==want.len && (!want.len || !memcmp(again.cstr, want.cstr, want.len)), "writing the config again gives %s, expected %s", g_q(again.cstr, again.len), g_q(want.cstr, want.len));
	harbol_string_clear(&again); harbol_string_clear(&want); harbol_cfg_free(&m);
}
/* parsing: what comes out can be read and released, nothing is lost */
static void parsing(void) {
	nfiles = 0; entries = specials = 0; Ctx c = { .is_file = false }; Str t = {0}; Node *root = node(HarbolCfgType_Map); whole(&t, root, &c, g_p(1,4) ? G_ERRORS : 0);
	char *text = s_exact(&t); LOG("%s\n", g_q(t.p, t.n)); kind = K_CFG; arm(); vf_fail_width(g_p(1,2) ? 1 : 1000000); if( g_p(2,3) ) vf_fail_after((long)g_u(20 + 2 * t.n));
	struct HarbolMap *m = harbol_cfg_parse_cstr(text); bool hit = vf_fail_hit(); vf_fail_off(); if( hit ) g_nontrivial();
	CLASS_IF(hit && !m, "parsing refused"); CLASS_IF(hit && m, "parsing went on");
	if( m ) { Str o = snap(&(Obj){ .cfg = m }); (void)o; struct HarbolString s = harbol_cfg_to_str(m); harbol_string_clear(&s); harbol_cfg_free(&m); }
}
struct Target const TARGETS[] = { { "parsing", parsing, 2 }, { "writing", writing, 1 }, { "history", history, 8 }, { "constructors", constructors, 2 }, { "spans", spans, 1 }, {0} };
