/* C07: a tree node owns its value and an ordered list of children, for every history. */
#include "pbt.h"
#include "tree/tree.h"

char const *const PROPERTY = "C07";
char const *const RULE = "Histories of 1..120 insert/remove/replace/clear calls on nodes of one tree (1..200 nodes, values of 1..20, at times up to 800 bytes from a small pool so that equal values and prefixes occur, optional allocation failures) mirrored by a model tree; "
	"after every call the whole tree is compared. Non-trivial: a subtree with descendants was removed, or a node got past 4 children. Rarely, 125 to 65000 children of one node, or 3000 generations.";
unsigned const QUICK_CASES = 3600000, THOROUGH_CASES = 30000000;
struct Known const KNOWN[] = { {0} };
typedef struct Node { struct HarbolTree *t; uint8_t *v; size_t vn; struct Node *kid[64]; size_t nk; } Node;
static Node *root, *all[300]; static size_t na; static bool deep, longv;

static void gen_val(uint8_t **v, size_t *vn) {
	if( na && g_p(1,3) ) { Node *o = all[g_u(na)]; if( o->vn ) { *vn = o->vn; if( g_p(1,4) ) *vn = 1 + g_u(o->vn); *v = g_buf(*vn); memcpy(*v, o->v, *vn); return; } }
	if( longv && g_p(1,2) ) { *vn = g_p(1,4) ? 256 : 1 + g_u(800); *v = g_buf(*vn); memset(*v, 'M', *vn); (*v)[*vn - 1] = (uint8_t)g_u(2); CLASSIFY("values of hundreds of bytes"); return; }
	if( g_rare(4000) ) { *vn = 200 + g_u(g_p(1,4) ? 70000 : 400); *v = g_buf(*vn); memset(*v, 'L', *vn); (*v)[g_p(1,2) ? *vn - 1 : g_u(*vn)] = (uint8_t)g_u(3); CLASSIFY("long value"); return; }
	*vn = 1 + g_u(g_p(1,6) ? 20 : 3); *v = g_buf(*vn); for( size_t i=0; i < *vn; i++ ) (*v)[i] = (uint8_t)("ab\0\xff"[g_u(4)]);
}
static Node *fresh(struct HarbolTree *t, uint8_t *v, size_t vn) { Node *x = g_zbuf(sizeof *x); x->t = t; x->v = v; x->vn = vn; all[na++] = x; return x; }
static void forget(Node *x) { for( size_t i=0; i < x->nk; i++ ) forget(x->kid[i]); for( size_t i=0; i < na; i++ ) if( all[i]==x ) { all[i] = all[--na]; break; } }
static void same(Node *x, char const *op, unsigned d) {
	CHECK(harbol_tree_len(x->t)==x->vn, "after %s: a node's value has %zu bytes, model %zu", op, harbol_tree_len(x->t), x->vn);
	uint8_t *v = harbol_tree_get(x->t);
	CHECK((v != NULL)==(x->vn != 0), "after %s: a node's value is missing or invented", op);
	if( v ) CHECK(!memcmp(v, x->v, x->vn), "after %s: a node holds %s, model %s", op, g_q(v, x->vn), g_q(x->v, x->vn));
	for( size_t i=0; i < x->nk; i++ ) {
		struct HarbolTree *k = harbol_tree_get_node_by_index(x->t, i);
		CHECK(k, "after %s: child %zu of %zu is missing", op, i, x->nk);
		if( x->kid[i]->t==NULL ) x->kid[i]->t = k; /* inserted by value */
		CHECK(k==x->kid[i]->t, "after %s: child %zu is another node", op, i);
		same(x->kid[i], op, d + 1);
	}
	CHECK(harbol_tree_get_node_by_index(x->t, x->nk)==NULL, "after %s: a node has more than %zu children", op, x->nk);
}
static size_t kid_by_val(Node *x, uint8_t *v, size_t vn) { for( size_t i=0; i < x->nk; i++ ) if( x->kid[i]->vn==vn && !memcmp(x->kid[i]->v, v, vn) ) return i; return SIZE_MAX; }
static void cut(Node *x, size_t i) { if( x->kid[i]->nk ) { deep = true; CLASSIFY("subtree removed"); } forget(x->kid[i]); memmove(&x->kid[i], &x->kid[i+1], (x->nk - i - 1) * sizeof *x->kid); x->nk--; }
static void step(bool faults) {
	Node *x = g_p(1,3) ? root : all[g_u(na)]; char op[300] = "?"; uint8_t *v; size_t vn; size_t id = 0; while( all[id] != x ) id++;
	bool inj = faults && g_p(1,6);
	switch( g_u(15) ) {
		case 0: case 1: case 2: case 3: case 4: case 5: {
			gen_val(&v, &vn); if( na >= 290 || x->nk >= 60 ) return; bool by_node = g_p(1,3);
			snprintf(op, sizeof op, "insert_%s(#%zu,%s)%s", by_node ? "node" : "val", id, g_q(v, vn), inj ? " with an allocation failure" : ""); LOG("%s\n", op);
			if( by_node ) {
				struct HarbolTree *k = harbol_tree_new(v, vn); CHECK(k, "construction failed");
				Node *sub = fresh(k, v, vn); bool gk = g_p(1,2);
				if( gk ) { CHECK(harbol_tree_insert_val(k, v, vn), "insertion failed"); Node *g = fresh(harbol_tree_get_node_by_index(k, 0), v, vn); sub->kid[sub->nk++] = g; }
				if( inj ) vf_fail_after((long)g_u(2));
				bool r = harbol_tree_insert_node(x->t, &k); bool hit = vf_fail_hit(); vf_fail_off();
				if( !r ) { CHECK(hit, "%s failed", op); forget(sub); harbol_tree_free(&k); break; }
				x->kid[x->nk++] = sub;
			} else {
				if( inj ) vf_fail_after((long)g_u(4));
				bool r = harbol_tree_insert_val(x->t, v, vn); bool hit = vf_fail_hit(); vf_fail_off();
				if( !r ) { CHECK(hit, "%s failed", op); CLASSIFY("insertion refused for lack of memory"); break; }
				x->kid[x->nk++] = fresh(NULL, v, vn);
			}
			if( x->nk > 4 ) { deep = true; CLASSIFY("more than 4 children"); }
			break; }
		case 6: case 7: { gen_val(&v, &vn); snprintf(op, sizeof op, "set(#%zu,%s)%s", id, g_q(v, vn), inj ? " with an allocation failure" : ""); LOG("%s\n", op);
			if( inj ) vf_fail_after(0);
			bool r = harbol_tree_set(x->t, v, vn); bool hit = vf_fail_hit(); vf_fail_off();
			if( !r ) { CHECK(hit, "%s failed", op); break; }
			CLASS_IF(vn > x->vn && x->vn, "value replaced by a longer one"); x->v = v; x->vn = vn; break; }
		case 8: case 9: { size_t i = g_u(x->nk + 2); if( g_p(1,10) ) i = SIZE_MAX; snprintf(op, sizeof op, "rm_index(#%zu,%zd)", id, (ssize_t)i); LOG("%s\n", op); bool r = harbol_tree_rm_index(x->t, i); CHECK(r==(i < x->nk), "%s = %d with %zu children", op, r, x->nk); if( r ) cut(x, i); break; }
		case 10: { gen_val(&v, &vn); snprintf(op, sizeof op, "rm_val(#%zu,%s)", id, g_q(v, vn)); LOG("%s\n", op); size_t i = kid_by_val(x, v, vn); bool r = harbol_tree_rm_val(x->t, v, vn); CHECK(r==(i != SIZE_MAX), "%s = %d, model child %zd", op, r, (ssize_t)i); if( r ) cut(x, i); break; }
		case 11: { Node *k = all[g_u(na)]; size_t i = SIZE_MAX; if( x->nk && g_p(2,3) ) { i = g_u(x->nk); k = x->kid[i]; } else for( size_t j=0; j < x->nk; j++ ) if( x->kid[j]==k ) i = j;
			struct HarbolTree *ref = k->t; snprintf(op, sizeof op, "rm_node(#%zu, child %zd)", id, (ssize_t)i); LOG("%s\n", op); bool r = harbol_tree_rm_node(x->t, &ref); CHECK(r==(i != SIZE_MAX), "%s = %d", op, r); CHECK((ref==NULL)==r, "%s: reference %s", op, ref ? "kept" : "cleared"); if( r ) cut(x, i); break; }
		case 12: case 13: { gen_val(&v, &vn); snprintf(op, sizeof op, "get_node_by_val(#%zu,%s)", id, g_q(v, vn)); LOG("%s\n", op); size_t i = kid_by_val(x, v, vn); struct HarbolTree *k = harbol_tree_get_node_by_val(x->t, v, vn); CHECK(k==(i==SIZE_MAX ? NULL : x->kid[i]->t), "%s gave %s, model child %zd", op, k ? "another node" : "nothing", (ssize_t)i); return; }
		default: { if( g_p(1,3) ) { CHECK(!harbol_tree_set(x->t, "v", 0) && !harbol_tree_rm_val(x->t, "v", 0) && !harbol_tree_get_node_by_val(x->t, "v", 0), "a value of no bytes was accepted"); } if( g_p(2,3) ) return; snprintf(op, sizeof op, "clear(#%zu)", id); LOG("%s\n", op); harbol_tree_clear(x->t); deep |= x->nk > 0; for( size_t i=0; i < x->nk; i++ ) forget(x->kid[i]); x->nk = 0; x->vn = 0; }
	}
	same(root, op, 0);
}
static void history(void) {
	na = 0; deep = false; longv = g_p(1,80); uint8_t *v; size_t vn; gen_val(&v, &vn);
	bool heap = g_p(1,2), faults = g_p(1,4); struct HarbolTree *t; LOG("root %s\n", g_q(v, vn));
	if( heap ) t = harbol_tree_new(v, vn); else { t = g_zbuf(sizeof *t); CHECK(harbol_tree_init(t, v, vn), "construction failed"); }
	CHECK(t, "construction failed");
	root = fresh(t, v, vn); same(root, "construction", 0);
	int lim = g_p(1,6) ? 120 : 40;
	for( int k=0; k < lim && g_more(18); k++ ) step(faults);
	if( deep ) g_nontrivial();
	if( heap ) { harbol_tree_free(&t); CHECK(t==NULL, "reference not cleared"); harbol_tree_free(&t); } else harbol_tree_clear(t);
}
/* a node with hundreds to tens of thousands of children, or a very deep line of descendants */
static void many(void) {
	uint32_t v = (uint32_t)g_u(1000), first = v; struct HarbolTree *t = harbol_tree_new(&v, sizeof v); CHECK(t, "construction failed"); g_nontrivial();
	if( g_p(1,3) ) { size_t N = 1 + g_u(3000); LOG("%zu generations\n", N); struct HarbolTree *x = t; for( size_t i=0; i < N; i++ ) { v++; CHECK(harbol_tree_insert_val(x, &v, sizeof v), "insertion %zu failed", i); x = harbol_tree_get_node_by_val(x, &v, sizeof v); CHECK(x, "generation %zu is missing", i); }
		x = t; for( size_t i=0; i <= N; i++ ) { uint32_t w; CHECK(x && harbol_tree_len(x)==4, "generation %zu is missing", i); memcpy(&w, harbol_tree_get(x), 4); CHECK(w==first + i, "generation %zu holds another value", i); x = harbol_tree_get_node_by_index(x, 0); } CHECK(!x, "more generations than were born"); harbol_tree_free(&t); return; }
	size_t const top = (size_t)1 << (7 + g_u(g_p(1,5) ? 10 : 5)), N = top - 3 + g_u(7); uint32_t *ord = g_buf(N * 4); size_t m = 0; LOG("%zu children\n", N);
	for( size_t i=0; i < N; i++ ) { v++; ord[m++] = v; if( g_p(1,40) ) { struct HarbolTree *c = harbol_tree_new(&v, 4); CHECK(c && harbol_tree_insert_node(t, &c), "insertion of node %zu failed", i); } else CHECK(harbol_tree_insert_val(t, &v, 4), "insertion %zu failed", i); }
	for( int k=0; k < 10 && m > 4 && g_more(5); k++ ) {
		size_t i = g_p(1,3) ? (size_t)g_u(3) : g_p(1,2) ? m - 1 - g_u(3) : g_u(m); unsigned w = (unsigned)g_u(4); struct HarbolTree *x = harbol_tree_get_node_by_val(t, &ord[i], 4); LOG("%s %zu\n", w==0 ? "rm_index" : w==1 ? "rm_val" : w==2 ? "rm_node" : "lookup", i);
		CHECK(x && x==harbol_tree_get_node_by_index(t, i), "child %zu is not found by its value", i);
		if( w==3 ) { uint32_t a = first; CHECK(!harbol_tree_get_node_by_val(t, &a, 4) && !harbol_tree_rm_val(t, &a, 4), "a value no child has is found"); continue; }
		CHECK(w==0 ? harbol_tree_rm_index(t, i) : w==1 ? harbol_tree_rm_val(t, &ord[i], 4) : harbol_tree_rm_node(t, &x), "removing child %zu of %zu failed", i, m); memmove(ord + i, ord + i + 1, (--m - i) * 4);
	}
	for( size_t i=0; i < m; i++ ) { struct HarbolTree *x = harbol_tree_get_node_by_index(t, i); CHECK(x && harbol_tree_len(x)==4 && !memcmp(harbol_tree_get(x), &ord[i], 4), "child %zu of %zu is %s", i, m, x ? "another one" : "missing"); }
	CHECK(!harbol_tree_get_node_by_index(t, m), "more than %zu children", m); harbol_tree_free(&t);
}
struct Target const TARGETS[] = { { "history", history, 3000 }, { "many", many, 1 }, {0} };
