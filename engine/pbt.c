#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <inttypes.h>
#include <time.h>
#include "pbt.h"
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <fcntl.h>
#include <ftw.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>

/* ------------------------------------------------------------------ shared state */
enum { MAXC = 1<<16, MSGN = 8192, TRN = 1<<15, MAXCLS = 192, CLSNAME = 64, MAXW = 64, MAXSAMPLE = 3, SAMPN = 1500 };
enum { EX_FAIL = 77, EX_HANG = 87, EX_RUNAWAY = 88, EX_ASAN = 86 };

struct Slot {
	uint32_t n;                    /* choices drawn by the current case */
	int32_t  target;
	uint64_t iter;                 /* current iteration number */
	uint64_t done;                 /* completed cases */
	uint64_t skipped;
	uint32_t failed, has_msg;
	char     msg[MSGN];
	char     trace[TRN];
	uint32_t trace_n;
	uint64_t edges;
	uint64_t corpus;
	uint64_t c[MAXC];
};
struct Shared {
	volatile uint32_t cls_lock;
	uint32_t ncls;
	char     cls_name[MAXCLS][CLSNAME];
	uint64_t cls_cnt[MAXCLS];
	uint64_t nontrivial, distinct;
	uint64_t tgt_cases[64], tgt_nontriv[64], slowest_us;
	uint32_t nsamples[64];
	char     samples[64][MAXSAMPLE][SAMPN];
	uint64_t hashes[1u << 24];
	struct Slot slots[MAXW + 2];
};
static struct Shared *S;
static struct Slot *slot;
static char scratch_dir[256];

/* ------------------------------------------------------------------ rng */
static uint64_t rng_s[2];
static uint64_t splitmix(uint64_t *x) {
	uint64_t z = (*x += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
static void rng_seed(uint64_t a, uint64_t b, uint64_t c) {
	uint64_t x = a * 0x9e3779b97f4a7c15ull ^ (b + 0x1234567) * 0xd1342543de82ef95ull ^ (c + 0x77) * 0xaf251af3b0f025b5ull;
	rng_s[0] = splitmix(&x); rng_s[1] = splitmix(&x) | 1;
}
static uint64_t rng_next(void) {
	uint64_t s1 = rng_s[0], s0 = rng_s[1];
	uint64_t r = s0 + s1;
	rng_s[0] = s0; s1 ^= s1 << 23;
	rng_s[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
	return r;
}
static uint64_t rng_below(uint64_t n) { return n <= 1 ? 0 : (uint64_t)(((unsigned __int128)rng_next() * n) >> 64); }

/* ------------------------------------------------------------------ choices */
static uint64_t *pre; static uint32_t pre_n; static bool pre_only;
static uint64_t case_hash;

static uint64_t draw(uint64_t n, bool any64) {
	uint32_t const at = slot->n;
	uint64_t v;
	if( at < pre_n ) {
		v = pre[at];
		if( !any64 && v >= n ) v %= n;
	} else if( pre_only || at >= MAXC - 1 ) {
		v = 0;
	} else {
		v = any64 ? rng_next() : rng_below(n);
	}
	if( at < MAXC ) { slot->c[at] = v; slot->n = at + 1; }
	case_hash = (case_hash ^ v) * 0x100000001b3ull + (case_hash >> 29);
	return v;
}
uint64_t g_u(uint64_t n) { return draw(n ? n : 1, false); }
int64_t g_range(int64_t lo, int64_t hi) { return (int64_t)((uint64_t)lo + g_u((uint64_t)hi - (uint64_t)lo + 1)); }
bool g_p(unsigned num, unsigned den) { return g_u(den) >= den - num; }
static bool no_corpus;
bool g_rare(unsigned den) {
	uint32_t const at = slot->n;
	if( draw(den, false)==0 || slot->c[at < MAXC ? at : MAXC - 1] != den - 1 ) return false;
	if( pre_n && !pre_only ) { if( at < MAXC ) slot->c[at] = 0; return false; }
	no_corpus = true; return true;
}
bool g_more(unsigned avg) { return g_u(avg + 1) != 0; }
uint64_t g_u64(void) {
	switch( g_u(8) ) {
		case 0: return g_u(256);
		case 1: return (uint64_t)0 - 1 - g_u(256);
		case 2: { unsigned k = (unsigned)g_u(64); return ((uint64_t)1 << k) + g_u(3) - 1; }
		case 3: return g_u(65536);
		case 4: { unsigned k = (unsigned)g_u(64); return draw(0, true) >> k; }
		case 5: { static uint64_t const e[] = { 0x7f,0x80,0xff,0x7fff,0x8000,0xffff,0x7fffffff,0x80000000u,0xffffffffu,0x7fffffffffffffffull,0x8000000000000000ull }; return e[g_u(11)]; }
		default: return draw(0, true);
	}
}
size_t g_len(size_t max) {
	if( max==0 ) return 0;
	switch( g_u(4) ) {
		case 0: return g_u((max < 4 ? max : 4) + 1);
		case 1: return g_u((max < 16 ? max : 16) + 1);
		case 2: return g_u((max < 64 ? max : 64) + 1);
		default: return g_u(max + 1);
	}
}
unsigned g_pick(unsigned n, ...) {
	unsigned w[64], tot = 0;
	va_list ap; va_start(ap, n);
	for( unsigned i=0; i < n; i++ ) { w[i] = va_arg(ap, unsigned); tot += w[i]; }
	va_end(ap);
	uint64_t v = g_u(tot);
	for( unsigned i=0; i < n; i++ ) { if( v < w[i] ) return i; v -= w[i]; }
	return n - 1;
}

/* ------------------------------------------------------------------ allocation tracking */
typedef struct { void *p; size_t n; uint32_t mark; } Ent;
static Ent *tab; static size_t tab_cap, tab_n, tab_used, live_bytes;
static long fail_at = -1, fail_width = 1, fail_seen; static bool fail_on; static long nalloc;
static uint64_t entropy;
static bool leak_exempt;
enum { ONE_MAX = 256u << 20, LIVE_MAX = 1u << 30 };
#define TOMB ((void*)1)

static size_t hp(void *p) { uint64_t x = (uint64_t)(uintptr_t)p; x ^= x >> 31; x *= 0x9e3779b97f4a7c15ull; return (size_t)(x >> 20); }
static void tab_put(void *p, size_t n);
static void tab_grow(size_t cap) {
	Ent *o = tab; size_t oc = tab_cap;
	tab = calloc(cap, sizeof *tab); tab_cap = cap; tab_n = tab_used = 0;
	for( size_t i=0; i < oc; i++ ) if( o[i].p && o[i].p != TOMB ) { live_bytes -= o[i].n; tab_put(o[i].p, o[i].n); }
	free(o);
}
static void tab_put(void *p, size_t n) {
	if( tab_cap==0 || tab_used * 2 >= tab_cap ) { size_t cap = 4096; while( cap < tab_n * 4 ) cap *= 2; tab_grow(cap); }
	size_t i = hp(p) & (tab_cap - 1);
	while( tab[i].p && tab[i].p != TOMB && tab[i].p != p ) i = (i + 1) & (tab_cap - 1);
	if( tab[i].p == p ) { live_bytes -= tab[i].n; tab[i].n = n; live_bytes += n; return; }
	if( tab[i].p == NULL ) tab_used++;
	tab[i].p = p; tab[i].n = n; tab_n++; live_bytes += n;
}
static bool tab_del(void *p) {
	if( tab_cap==0 ) return false;
	size_t i = hp(p) & (tab_cap - 1);
	while( tab[i].p ) {
		if( tab[i].p == p ) { tab[i].p = TOMB; live_bytes -= tab[i].n; tab_n--; return true; }
		i = (i + 1) & (tab_cap - 1);
	}
	return false;
}
static bool inject(size_t n) {
	nalloc++;
	if( n > ONE_MAX ) return true;
	if( live_bytes + n > LIVE_MAX ) {
		slot->has_msg = 1;
		snprintf(slot->msg, MSGN, "runaway allocation: more than 1 GiB live in one small case");
		_exit(EX_RUNAWAY);
	}
	if( fail_on ) {
		if( fail_at > 0 ) fail_at--;
		else if( fail_width > 0 ) { fail_width--; fail_seen++; return true; }
	}
	return false;
}
void *vf_malloc(size_t n) { if( inject(n) ) return NULL; void *p = malloc(n); if( p ) tab_put(p, n); return p; }
void *vf_calloc(size_t a, size_t b) {
	size_t n; if( __builtin_mul_overflow(a, b, &n) ) n = SIZE_MAX;
	if( inject(n) ) return NULL;
	void *p = calloc(a, b); if( p ) tab_put(p, n); return p;
}
void *vf_realloc(void *p, size_t n) {
	if( inject(n) ) return NULL;
	bool const known = p != NULL && tab_del(p);
	void *q = realloc(p, n);
	(void)known;
	if( q ) tab_put(q, n);
	return q;
}
void vf_free(void *p) { if( p==NULL ) return; tab_del(p); free(p); }
char *vf_strdup(char const *s) { size_t n = strlen(s); char *p = vf_malloc(n + 1); if( p ) memcpy(p, s, n + 1); return p; }
char *vf_strndup(char const *s, size_t m) { size_t n = strnlen(s, m); char *p = vf_malloc(n + 1); if( p ) { memcpy(p, s, n); p[n] = 0; } return p; }
size_t vf_live(void) { return tab_n; }
void vf_fail_after(long n) { fail_at = n; fail_width = 1; fail_on = true; fail_seen = 0; }
void vf_fail_width(long w) { fail_width = w; }
void vf_fail_off(void) { fail_on = false; fail_seen = 0; }
bool vf_fail_hit(void) { return fail_seen > 0; }
long vf_alloc_count(void) { return nalloc; }
void vf_count_reset(void) { nalloc = 0; }
void vf_set_entropy(uint64_t seed) { entropy = seed; }
time_t vf_time(time_t *t) { time_t r = (time_t)(entropy & 0x7fffffff); if( t ) *t = r; return r; }
int vf_rand(void) { uint64_t x = entropy += 0x51ed2701; return (int)(splitmix(&x) & 0x7fffffff); }
void vf_srand(unsigned s) { (void)s; }
void g_leak_exempt(void) { leak_exempt = true; }

/* ------------------------------------------------------------------ case memory */
static void **bufs; static size_t nbufs, cbufs;
static void buf_note(void *p) {
	if( nbufs == cbufs ) { cbufs = cbufs ? cbufs * 2 : 256; bufs = realloc(bufs, cbufs * sizeof *bufs); }
	bufs[nbufs++] = p;
}
void *g_buf(size_t n) { void *p = malloc(n ? n : 1); if( n==0 ) { /* keep distinct, but nothing readable */ } buf_note(p); return p; }
void *g_zbuf(size_t n) { void *p = calloc(n ? n : 1, 1); buf_note(p); return p; }
char *g_cstr(char const *b, size_t n) { char *p = malloc(n + 1); memcpy(p, b, n); p[n] = 0; buf_note(p); return p; }

static void s_room(Str *s, size_t n) {
	if( s->n + n + 1 > s->cap ) {
		size_t c = s->cap ? s->cap * 2 : 32; while( c < s->n + n + 1 ) c *= 2;
		char *q = malloc(c); if( s->n ) memcpy(q, s->p, s->n);
		buf_note(q); s->p = q; s->cap = c; q[s->n] = 0;
	}
}
void s_add(Str *s, void const *p, size_t n) { s_room(s, n); if( n ) memmove(s->p + s->n, p, n); s->n += n; s->p[s->n] = 0; }
void s_addc(Str *s, char c) { s_add(s, &c, 1); }
void s_puts(Str *s, char const *z) { s_add(s, z, strlen(z)); }
void s_printf(Str *s, char const *fmt, ...) {
	va_list ap; va_start(ap, fmt); va_list b; va_copy(b, ap);
	int n = vsnprintf(NULL, 0, fmt, ap); va_end(ap);
	s_room(s, (size_t)n); vsnprintf(s->p + s->n, (size_t)n + 1, fmt, b); va_end(b); s->n += (size_t)n;
}
void s_del(Str *s, size_t at, size_t n) { memmove(s->p + at, s->p + at + n, s->n - at - n); s->n -= n; s->p[s->n] = 0; }
void s_ins(Str *s, size_t at, void const *p, size_t n) {
	s_room(s, n); memmove(s->p + at + n, s->p + at, s->n - at); if( n ) memcpy(s->p + at, p, n); s->n += n; s->p[s->n] = 0;
}
char *s_exact(Str const *s) { return g_cstr(s->p ? s->p : "", s->n); }
bool s_eq(Str const *s, void const *p, size_t n) { return s->n==n && (n==0 || memcmp(s->p, p, n)==0); }

/* ------------------------------------------------------------------ reporting */
bool g_tracing;
void g_trace(char const *fmt, ...) {
	if( slot->trace_n + 300 >= TRN ) return;
	va_list ap; va_start(ap, fmt);
	int n = vsnprintf(slot->trace + slot->trace_n, TRN - slot->trace_n - 8, fmt, ap);
	va_end(ap);
	if( n > 0 ) { slot->trace_n += (uint32_t)n; if( slot->trace_n > TRN - 8 ) slot->trace_n = TRN - 8; slot->trace[slot->trace_n] = 0; }
}
char const *g_q(void const *vp, size_t n) {
	static char ring[6][700]; static int k;
	char *o = ring[k = (k + 1) % 6]; size_t w = 0; unsigned char const *p = vp;
	if( p==NULL ) return "NULL";
	o[w++] = '"';
	for( size_t i=0; i < n && w < 680; i++ ) {
		if( p[i]=='"' || p[i]=='\\' ) { o[w++] = '\\'; o[w++] = (char)p[i]; }
		else if( p[i] >= 32 && p[i] < 127 ) o[w++] = (char)p[i];
		else if( p[i]=='\n' ) { o[w++]='\\'; o[w++]='n'; }
		else w += (size_t)sprintf(o + w, "\\x%02x", p[i]);
	}
	if( w >= 680 ) { memcpy(o + w, "...", 3); w += 3; }
	o[w++] = '"'; o[w] = 0;
	return o;
}
void g_fail(char const *file, int line, char const *fmt, ...) {
	char const *b = strrchr(file, '/');
	int n = snprintf(slot->msg, MSGN, "%s:%d: ", b ? b + 1 : file, line);
	va_list ap; va_start(ap, fmt); vsnprintf(slot->msg + n, MSGN - (size_t)n, fmt, ap); va_end(ap);
	slot->has_msg = 1;
	_exit(EX_FAIL);
}
static bool case_nontriv;
void g_nontrivial(void) { case_nontriv = true; }
void g_classify_(int *id, char const *name) {
	if( *id < 0 ) {
		for( int k=0; k < 20000 && __atomic_exchange_n(&S->cls_lock, 1, __ATOMIC_ACQUIRE); k++ ) usleep(10); /* its holder may have been killed */
		uint32_t i;
		for( i=0; i < S->ncls; i++ ) if( !strcmp(S->cls_name[i], name) ) break;
		if( i==S->ncls && i < MAXCLS ) { snprintf(S->cls_name[i], CLSNAME, "%s", name); S->ncls++; }
		__atomic_store_n(&S->cls_lock, 0, __ATOMIC_RELEASE);
		*id = i < MAXCLS ? (int)i : MAXCLS - 1;
	}
	__atomic_fetch_add(&S->cls_cnt[*id], 1, __ATOMIC_RELAXED);
}
char const *g_scratch(void) { return scratch_dir; }
static int rm_cb(char const *p, struct stat const *st, int f, struct FTW *w) { (void)st; (void)f; (void)w; return remove(p); }
static void scratch_make(int id) {
	snprintf(scratch_dir, sizeof scratch_dir, "/tmp/vfs.%ld.%d", (long)getpid(), id);
	mkdir(scratch_dir, 0700);
}
static void scratch_drop(char const *d) { if( !strncmp(d, "/tmp/vfs.", 9) ) nftw(d, rm_cb, 16, FTW_DEPTH | FTW_PHYS); }

/* ------------------------------------------------------------------ coverage */
static uint8_t *cov_b[64], *cov_e[64]; static unsigned ncov; static uint8_t *cov_seen[64];
void __sanitizer_cov_8bit_counters_init(uint8_t *a, uint8_t *b) {
	for( unsigned i=0; i < ncov; i++ ) if( cov_b[i]==a ) return;
	if( ncov < 64 && a < b ) { cov_b[ncov] = a; cov_e[ncov] = b; cov_seen[ncov] = calloc((size_t)(b - a), 1); ncov++; }
}
static uint8_t bucket(uint8_t c) { return c==0 ? 0 : c==1 ? 1 : c==2 ? 2 : c==3 ? 4 : c < 8 ? 8 : c < 16 ? 16 : c < 32 ? 32 : c < 128 ? 64 : 128; }
static bool cov_collect(void) {
	bool isnew = false;
	for( unsigned k=0; k < ncov; k++ ) {
		size_t n = (size_t)(cov_e[k] - cov_b[k]);
		for( size_t i=0; i < n; i++ ) {
			uint8_t c = cov_b[k][i];
			if( c ) {
				uint8_t bk = bucket(c);
				if( (cov_seen[k][i] & bk)==0 ) { if( cov_seen[k][i]==0 ) slot->edges++; cov_seen[k][i] |= bk; isnew = true; }
				cov_b[k][i] = 0;
			}
		}
	}
	return isnew;
}

/* ------------------------------------------------------------------ running one case */
static volatile uint64_t tick_iter; static uint64_t tick_last = ~0ull; static int tick_secs = 10;
static void on_prof(int sig) {
	(void)sig;
	if( tick_last == tick_iter ) {
		slot->has_msg = 1;
		strcpy(slot->msg, "hang: one small case consumed more than the CPU allowance without finishing");
		_exit(EX_HANG);
	}
	tick_last = tick_iter;
}
/* a case that waits for something that never comes uses no CPU time */
static uint64_t wall_last = ~0ull; static int wall_still;
static void on_wall(int sig) {
	(void)sig;
	if( wall_last != tick_iter ) { wall_last = tick_iter; wall_still = 0; }
	else if( ++wall_still >= 4 ) { slot->has_msg = 1; strcpy(slot->msg, "hang: one small case waits without end"); _exit(EX_HANG); }
}
static void arm(int secs) {
	tick_secs = secs; tick_last = ~0ull; wall_last = ~0ull; wall_still = 0;
	struct sigaction sw = { .sa_handler = on_wall, .sa_flags = SA_RESTART }; sigaction(SIGALRM, &sw, NULL);
	struct itimerval wt = { {secs * 2, 0}, {secs * 2, 0} }; setitimer(ITIMER_REAL, &wt, NULL);
	struct sigaction sa = { .sa_handler = on_prof, .sa_flags = SA_RESTART }; sigaction(SIGPROF, &sa, NULL);
	struct itimerval it = { {secs, 0}, {secs, 0} }; setitimer(ITIMER_PROF, &it, NULL);
}
static unsigned ntargets(void) { unsigned n = 0; while( TARGETS[n].name ) n++; return n; }

/* the lowest free descriptor: the same before and after a case unless it leaves files open or closes others' */
static int free_fd(void) { int const fd = dup(0); if( fd >= 0 ) close(fd); return fd; }
static void run_case(unsigned t) {
	int const fd0 = free_fd();
	slot->n = 0; slot->target = (int)t; slot->has_msg = 0; slot->trace_n = 0; slot->trace[0] = 0;
	case_hash = 0xcbf29ce484222325ull + t; case_nontriv = false; leak_exempt = false; no_corpus = false;
	fail_on = false; entropy = 0x1234;
	size_t const live0 = tab_n;
	tick_iter++;
	TARGETS[t].fn();
	fail_on = false;
	if( !leak_exempt ) {
		if( tab_n > live0 ) FAIL("leak: %zu block(s) allocated by the library are still live at the end of the case", tab_n - live0);
		if( tab_n < live0 ) FAIL("blocks owned outside the case were freed");
	}
	int const fd1 = free_fd();
	if( fd1 > fd0 ) FAIL("a file is still open at the end of the case");
	if( fd1 < fd0 ) FAIL("a file opened outside the case was closed");
	for( size_t i=0; i < nbufs; i++ ) free(bufs[i]);
	nbufs = 0;
}


static void count_case(unsigned t) {
	__atomic_fetch_add(&S->tgt_cases[t], 1, __ATOMIC_RELAXED);
	if( !case_nontriv ) return;
	__atomic_fetch_add(&S->nontrivial, 1, __ATOMIC_RELAXED);
	uint64_t h = case_hash ? case_hash : 1;
	size_t const mask = (1u << 24) - 1;
	size_t i = (size_t)(h >> 17) & mask;
	for( int k=0; k < 64; k++, i = (i + 1) & mask ) {
		uint64_t cur = __atomic_load_n(&S->hashes[i], __ATOMIC_RELAXED);
		if( cur==h ) return;
		if( cur==0 ) {
			uint64_t z = 0;
			if( __atomic_compare_exchange_n(&S->hashes[i], &z, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED) ) {
				__atomic_fetch_add(&S->distinct, 1, __ATOMIC_RELAXED);
				__atomic_fetch_add(&S->tgt_nontriv[t], 1, __ATOMIC_RELAXED);
				return;
			}
			if( z==h ) return;
		}
	}
}

/* ------------------------------------------------------------------ corpus */
typedef struct { uint64_t *c; uint32_t n; unsigned t; } Seq;
enum { MAXCORPUS = 4000 };
static Seq *corpus; static unsigned ncorpus; static unsigned by_t[64][MAXCORPUS], nby_t[64];
static void corpus_add(unsigned t) {
	if( slot->n==0 || slot->n > 4096 ) return;
	if( !corpus ) corpus = calloc(MAXCORPUS, sizeof *corpus);
	if( ncorpus >= MAXCORPUS ) return;
	Seq *s = &corpus[ncorpus];
	s->n = slot->n; s->t = t; s->c = malloc(sizeof(uint64_t) * slot->n);
	memcpy(s->c, slot->c, sizeof(uint64_t) * slot->n);
	by_t[t][nby_t[t]++] = ncorpus;
	ncorpus++; slot->corpus = ncorpus;
}
static uint64_t mutbuf[MAXC];
static uint32_t mutate(unsigned t) {
	Seq *s = &corpus[by_t[t][rng_below(nby_t[t])]];
	uint32_t n = s->n;
	memcpy(mutbuf, s->c, n * sizeof *mutbuf);
	unsigned k = 1 + (unsigned)rng_below(4);
	while( k-- && n ) {
		uint32_t at = (uint32_t)rng_below(n);
		switch( rng_below(8) ) {
			case 0: mutbuf[at] = rng_next(); break;
			case 1: mutbuf[at] = rng_below(8); break;
			case 2: mutbuf[at] += 1; break;
			case 3: mutbuf[at] -= mutbuf[at] > 0; break;
			case 4: { uint32_t l = 1 + (uint32_t)rng_below(n - at < 12 ? n - at : 12); memmove(mutbuf + at, mutbuf + at + l, (n - at - l) * sizeof *mutbuf); n -= l; break; }
			case 5: { uint32_t l = 1 + (uint32_t)rng_below(n - at < 24 ? n - at : 24); if( n + l < MAXC ) { memmove(mutbuf + at + l, mutbuf + at, (n - at) * sizeof *mutbuf); n += l; } break; }
			case 6: { Seq *o = &corpus[by_t[t][rng_below(nby_t[t])]]; uint32_t f = (uint32_t)rng_below(o->n), l = o->n - f; if( at + l < MAXC ) { memcpy(mutbuf + at, o->c + f, l * sizeof *mutbuf); n = at + l; } break; }
			case 7: n = at; break; /* keep a prefix, regenerate the rest */
		}
	}
	return n;
}

/* ------------------------------------------------------------------ worker */
static uint64_t total_deadline_us;
static uint64_t now_us(void) { struct timeval tv; gettimeofday(&tv, NULL); return (uint64_t)tv.tv_sec * 1000000u + (uint64_t)tv.tv_usec; }

static bool want_report;
void __asan_on_error(void) { if( !want_report ) _exit(EX_ASAN); } /* no symbolised report while searching and shrinking */
static void quiet(void) { int fd = open("/dev/null", O_WRONLY); if( fd >= 0 ) { dup2(fd, 1); if( fd > 2 ) close(fd); } }

static void worker(unsigned w, uint64_t seed, uint64_t ncases, int64_t stop_iter) {
	slot = &S->slots[w];
	quiet();
	scratch_make((int)w);
	unsigned nt = ntargets(); unsigned totw = 0;
	for( unsigned i=0; i < nt; i++ ) totw += TARGETS[i].weight;
	arm(10);
	cov_collect(); slot->edges = 0;
	for( uint64_t it=0; it < ncases; it++ ) {
		if( (it & 63)==0 && now_us() > total_deadline_us ) break;
		rng_seed(seed, w, it);
		unsigned t = 0; uint64_t r = rng_below(totw);
		while( r >= TARGETS[t].weight ) { r -= TARGETS[t].weight; t++; }
		pre_n = 0; pre_only = false;
		if( nby_t[t] > 4 && rng_below(100) < 40 ) { pre = mutbuf; pre_n = mutate(t); }
		slot->iter = it;
		bool want_sample = (int64_t)it==stop_iter || (S->nsamples[t] < MAXSAMPLE && (it % 17)==3 && it > 40);
		g_tracing = want_sample;
		uint64_t const began = now_us();
		run_case(t);
		uint64_t const took = now_us() - began; if( took > S->slowest_us ) S->slowest_us = took;
		count_case(t);
		if( want_sample && case_nontriv && slot->trace_n ) {
			uint32_t k = __atomic_fetch_add(&S->nsamples[t], 1, __ATOMIC_RELAXED);
			if( k < MAXSAMPLE ) { snprintf(S->samples[t][k], SAMPN, "%s", slot->trace); }
			else __atomic_fetch_sub(&S->nsamples[t], 1, __ATOMIC_RELAXED);
		}
		if( cov_collect() && !no_corpus ) corpus_add(t);
		slot->done = it + 1;
	}
	scratch_drop(scratch_dir);
	_exit(0);
}

/* runs a stored sequence in a fresh process; returns true if it fails; the failing slot is left filled */
static int replay_secs = 10;
static bool replay_one(struct Slot *sl, unsigned t, uint64_t const *c, uint32_t n, bool tracing) {
	sl->has_msg = 0; sl->msg[0] = 0; sl->trace_n = 0; sl->trace[0] = 0;
	static uint64_t tmp[MAXC];
	memcpy(tmp, c, n * sizeof *tmp);
	pid_t pid = fork();
	if( pid==0 ) {
		slot = sl; pre = tmp; pre_n = n; pre_only = true; g_tracing = tracing; want_report = tracing;
		quiet(); scratch_make(99);
		arm(replay_secs);
		run_case(t);
		_exit(0);
	}
	int st = 0; waitpid(pid, &st, 0);
	char d[64]; snprintf(d, sizeof d, "/tmp/vfs.%ld.99", (long)pid); scratch_drop(d);
	if( WIFEXITED(st) && WEXITSTATUS(st)==0 ) return false;
	if( !sl->has_msg ) {
		if( WIFSIGNALED(st) ) snprintf(sl->msg, MSGN, "killed by signal %d", WTERMSIG(st));
		else if( WEXITSTATUS(st)==EX_ASAN ) {
			char f[300]; snprintf(f, sizeof f, "%s.%ld", getenv("VF_ASAN_LOG") ? getenv("VF_ASAN_LOG") : "/tmp/none", (long)pid);
			FILE *fp = fopen(f, "r"); size_t k = 0;
			if( fp ) { k = fread(sl->msg, 1, 3000, fp); fclose(fp); unlink(f); }
			sl->msg[k] = 0;
			if( k==0 ) strcpy(sl->msg, "sanitizer report (see stderr)");
		} else snprintf(sl->msg, MSGN, "exited with status %d", WEXITSTATUS(st));
	} else if( WIFEXITED(st) && WEXITSTATUS(st)==EX_ASAN ) { }
	if( getenv("VF_ASAN_LOG") ) { char f[300]; snprintf(f, sizeof f, "%s.%ld", getenv("VF_ASAN_LOG"), (long)pid); unlink(f); }
	return true;
}

static uint32_t trim(uint64_t const *c, uint32_t n) { while( n && c[n-1]==0 ) n--; return n; }

static uint64_t sc[MAXC], cand[MAXC];
static uint32_t shrink(struct Slot *sl, unsigned t, uint64_t *c, uint32_t n) {
	unsigned budget = 2500; uint64_t const t0 = now_us(); uint64_t const lim = 40ull * 1000000;
	#define TRY(cn) (budget && now_us() - t0 < lim && (budget--, replay_one(sl, t, cand, (cn), false)))
	bool progress = true;
	n = trim(c, n);
	while( progress && budget && now_us() - t0 < lim ) {
		progress = false;
		for( uint32_t len = n > 64 ? n / 2 : 32; len >= 1; len /= 2 ) {
			for( int64_t at = (int64_t)n - len; at >= 0; ) {
				memcpy(cand, c, (size_t)at * 8); memcpy(cand + at, c + at + len, (n - (size_t)at - len) * 8);
				if( TRY(n - len) ) { n = trim(cand, n - len); memcpy(c, cand, n * 8); progress = true; at = at < (int64_t)n - (int64_t)len ? at : (int64_t)n - (int64_t)len; }
				else at -= len;
				if( at < 0 ) break;
			}
		}
		for( uint32_t len = 8; len >= 1; len /= 2 ) {
			for( uint32_t at=0; at + len <= n; at += len ) {
				bool any = false; for( uint32_t i=0; i < len; i++ ) any |= c[at+i] != 0;
				if( !any ) continue;
				memcpy(cand, c, n * 8); memset(cand + at, 0, len * 8);
				if( TRY(n) ) { memcpy(c, cand, n * 8); progress = true; }
			}
		}
		for( uint32_t i=0; i < n; i++ ) {
			uint64_t lo = 0, hi = c[i];
			while( lo < hi && budget ) {
				uint64_t mid = lo + (hi - lo) / 2;
				memcpy(cand, c, n * 8); cand[i] = mid;
				if( TRY(n) ) { c[i] = mid; hi = mid; progress = true; } else lo = mid + 1;
				if( now_us() - t0 > lim ) break;
			}
		}
		n = trim(c, n);
	}
	return n;
}

static void jstr(FILE *f, char const *s) {
	fputc('"', f);
	for( ; *s; s++ ) {
		unsigned char ch = (unsigned char)*s;
		if( ch=='"' || ch=='\\' ) fprintf(f, "\\%c", ch);
		else if( ch=='\n' ) fputs("\\n", f);
		else if( ch < 32 || ch >= 127 ) fprintf(f, "\\u%04x", ch);
		else fputc(ch, f);
	}
	fputc('"', f);
}

static int do_replay_file(char const *path) {
	FILE *f = fopen(path, "r"); if( !f ) { fprintf(stderr, "cannot open %s\n", path); return 2; }
	char line[256], tn[128] = ""; static uint64_t c[MAXC]; uint32_t n = 0; bool inseq = false;
	unsigned long long seed = 0, w = 0, it = 0; bool stream = false;
	while( fgets(line, sizeof line, f) ) {
		if( !strncmp(line, "target ", 7) ) sscanf(line + 7, "%127s", tn);
		else if( sscanf(line, "stream seed=%llu worker=%llu iter=%llu", &seed, &w, &it)==3 ) stream = true;
		else if( !strncmp(line, "choices", 7) ) inseq = true;
		else if( !strncmp(line, "end", 3) ) inseq = false;
		else if( inseq ) { char *p = line, *e; for(;;) { uint64_t v = strtoull(p, &e, 10); if( e==p ) break; if( n < MAXC ) c[n++] = v; p = e; } }
	}
	fclose(f);
	struct Slot *sl = &S->slots[MAXW];
	bool bad = false;
	if( stream ) {
		pid_t pid = fork();
		if( pid==0 ) worker((unsigned)w, seed, it + 1, (int64_t)it);
		int st; waitpid(pid, &st, 0); bad = !(WIFEXITED(st) && WEXITSTATUS(st)==0); sl = &S->slots[w];
	} else {
		unsigned t = 0; while( TARGETS[t].name && strcmp(TARGETS[t].name, tn) ) t++;
		if( !TARGETS[t].name ) { fprintf(stderr, "unknown target %s\n", tn); return 2; }
		bad = replay_one(sl, t, c, n, true);
	}
	printf("%s\n--- trace\n%s\n--- message\n%s\n", bad ? "FAILS" : "passes", sl->trace, sl->msg);
	return bad ? 1 : 0;
}

/* what is printed stays plain text whatever bytes the case had */
static void plain(char *p) { for( ; *p; p++ ) if( (unsigned char)*p >= 127 || ((unsigned char)*p < 32 && *p != '\n' && *p != '\t') ) *p = '?'; }
int main(int argc, char **argv) {
	S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if( S==MAP_FAILED ) { perror("mmap"); return 2; }
	char const *evidence = getenv("VF_EVIDENCE"), *replay_dir = getenv("VF_REPLAYS");
	if( !replay_dir ) replay_dir = "/tmp";
	uint64_t seed = getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), NULL, 10) : 1;
	bool thorough = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough");
	uint64_t ncases = thorough ? THOROUGH_CASES : QUICK_CASES;
	if( getenv("VF_CASES") ) ncases = strtoull(getenv("VF_CASES"), NULL, 10);
	unsigned nw = 8; /* fixed: the search is a function of the seed, not of the machine */
	double limit = thorough ? 3000 : 420;
	if( getenv("VF_LIMIT") ) limit = atof(getenv("VF_LIMIT"));
	if( argc > 2 && !strcmp(argv[1], "--replay") ) return do_replay_file(argv[2]);
	uint64_t const t0 = now_us();
	total_deadline_us = t0 + (uint64_t)(limit * 1e6);
	fflush(NULL);

	/* known findings are probed first, each in its own process */
	unsigned nknown = 0;
	for( ; KNOWN[nknown].what; nknown++ ) {
		pid_t pid = fork();
		if( pid==0 ) { slot = &S->slots[MAXW]; pre_only = true; quiet(); scratch_make(98); arm(10); bool s = KNOWN[nknown].still(); _exit(s ? 3 : 0); }
		int st; waitpid(pid, &st, 0);
		char d[64]; snprintf(d, sizeof d, "/tmp/vfs.%ld.98", (long)pid); scratch_drop(d);
		if( !(WIFEXITED(st) && WEXITSTATUS(st)==0) ) printf("KNOWN-FINDING: property=%s %s\n", PROPERTY, KNOWN[nknown].what);
	}
	fflush(NULL);

	pid_t pids[MAXW];
	for( unsigned w=0; w < nw; w++ ) {
		pids[w] = fork();
		if( pids[w]==0 ) worker(w, seed, (ncases + nw - 1) / nw, -1);
	}
	int fail_w = -1; unsigned alive = nw; int worker_status[MAXW] = {0};
	while( alive ) {
		int st; pid_t p = waitpid(-1, &st, 0);
		if( p < 0 ) { if( errno==EINTR ) continue; break; }
		for( unsigned w=0; w < nw; w++ ) if( pids[w]==p ) {
			alive--; worker_status[w] = st; pids[w] = 0;
			char d[64]; snprintf(d, sizeof d, "/tmp/vfs.%ld.%u", (long)p, w); scratch_drop(d);
			if( !(WIFEXITED(st) && WEXITSTATUS(st)==0) ) {
				S->slots[w].failed = 1;
				/* let the others stop early: one counterexample is enough */
				if( fail_w < 0 ) { fail_w = (int)w; for( unsigned v=0; v < nw; v++ ) if( pids[v] ) { kill(pids[v], SIGKILL); } }
			}
		}
	}
	S->cls_lock = 0; /* may be held by one that was killed */
	uint64_t evals = 0, edges = 0, corp = 0;
	for( unsigned w=0; w < nw; w++ ) { evals += S->slots[w].done; if( S->slots[w].edges > edges ) edges = S->slots[w].edges; corp += S->slots[w].corpus; }
	int violations = 0, rc = 0; char vpath[512] = ""; 
	static char vmsg[MSGN], vtrace[TRN];
	if( fail_w >= 0 ) {
		struct Slot *fs = &S->slots[fail_w], *sl = &S->slots[MAXW];
		unsigned t = (unsigned)fs->target; uint32_t n = fs->n;
		memcpy(sc, fs->c, n * 8);
		snprintf(vmsg, MSGN, "%s", fs->has_msg ? fs->msg : "crashed"); plain(vmsg);
		int st = worker_status[fail_w];
		bool hang = WIFEXITED(st) && WEXITSTATUS(st)==EX_HANG;
		int hits = 0;
		if( hang ) replay_secs = 5;
		/* a failure that depends on memory contents or addresses may not come back every time: any recurrence is a failure */
		for( int k=0; k < 3; k++ ) hits += replay_one(sl, t, sc, n, false);
		for( int k=0; k < 12 && hits==0 && !hang; k++ ) hits += replay_one(sl, t, sc, n, false);
		snprintf(vpath, sizeof vpath, "%s/%s-seed%llu.replay", replay_dir, PROPERTY, (unsigned long long)seed);
		if( hits > 0 ) {
			if( hang ) replay_secs = 2;
			if( hits==3 && !getenv("VF_NOSHRINK") ) n = shrink(sl, t, sc, n);
			replay_secs = 10;
			for( int k=0; k < 20 && !replay_one(sl, t, sc, n, true); k++ ) { }
			if( !sl->has_msg && !sl->msg[0] ) snprintf(sl->msg, MSGN, "%s (does not fail every time)", fs->has_msg ? fs->msg : "crashed");
			snprintf(vmsg, MSGN, "%s", sl->msg); snprintf(vtrace, TRN, "%s", sl->trace); plain(vmsg); plain(vtrace);
			FILE *f = fopen(vpath, "w");
			if( f ) {
				fprintf(f, "# property %s, target %s\n# replay: python3 run.py %s --replay <this file>\ntarget %s\nchoices", PROPERTY, TARGETS[t].name, PROPERTY, TARGETS[t].name);
				for( uint32_t i=0; i < n; i++ ) { if( i % 16==0 ) fputc('\n', f); fprintf(f, "%llu ", (unsigned long long)sc[i]); }
				fprintf(f, "\nend\n# trace of the minimal case\n# %s\n# message\n", "");
				for( char *p = vtrace; *p; ) { char *e = strchrnul(p, '\n'); fprintf(f, "# %.*s\n", (int)(e - p), p); p = *e ? e + 1 : e; }
				for( char *p = vmsg; *p; ) { char *e = strchrnul(p, '\n'); fprintf(f, "# %.*s\n", (int)(e - p), p); p = *e ? e + 1 : e; }
				fclose(f);
			}
			violations = 1;
		} else {
			/* depends on earlier cases of the same process: replay the deterministic stream up to it */
			uint64_t it = fs->iter; int h2 = 0;
			for( int k=0; k < 3; k++ ) {
				total_deadline_us = now_us() + 600ull * 1000000;
				pid_t pid = fork();
				if( pid==0 ) worker((unsigned)fail_w, seed, it + 1, (int64_t)it);
				int s2; waitpid(pid, &s2, 0);
				char d[64]; snprintf(d, sizeof d, "/tmp/vfs.%ld.%d", (long)pid, fail_w); scratch_drop(d);
				if( !(WIFEXITED(s2) && WEXITSTATUS(s2)==0) && fs->iter==it ) h2++;
			}
			if( h2 > 0 || (fs->has_msg && !hang) || (WIFEXITED(st) && WEXITSTATUS(st)==EX_ASAN) ) {
				snprintf(vmsg, MSGN, "%s (fails only after earlier cases in the same process)", fs->has_msg ? fs->msg : "crashed");
				snprintf(vtrace, TRN, "%s", fs->trace); plain(vmsg); plain(vtrace);
				FILE *f = fopen(vpath, "w");
				if( f ) { fprintf(f, "# property %s\ntarget %s\nstream seed=%llu worker=%d iter=%llu\n", PROPERTY, TARGETS[t].name, (unsigned long long)seed, fail_w, (unsigned long long)it); fclose(f); }
				violations = 1;
			} else {
				printf("%s: a worker stopped (status %d, %s) but the case does not fail again (%d/3, stream %d/3): target %s\n", PROPERTY, st, vmsg, hits, h2, TARGETS[t].name);
				rc = 3;
			}
		}
	}
	double wall = (double)(now_us() - t0) / 1e6;
	if( evidence ) {
		FILE *f = fopen(evidence, "w");
		if( !f ) { perror(evidence); return 2; }
		fprintf(f, "{\"property\":\"%s\",\"tier\":\"%s\",\"seed\":%llu,\"level\":\"exploration\",\n\"coverage\":{\"evaluations\":%llu,\"distinct_nontrivial\":%llu,\n\"rule\":",
			PROPERTY, thorough ? "thorough" : "quick", (unsigned long long)seed, (unsigned long long)evals, (unsigned long long)S->distinct);
		jstr(f, RULE);
		fprintf(f, ",\n\"library_edges_covered\":%llu,\"corpus_entries\":%llu,\n\"targets\":{", (unsigned long long)edges, (unsigned long long)corp);
		for( unsigned t=0; TARGETS[t].name; t++ ) fprintf(f, "%s\"%s\":{\"cases\":%llu,\"distinct_nontrivial\":%llu}", t ? "," : "", TARGETS[t].name, (unsigned long long)S->tgt_cases[t], (unsigned long long)S->tgt_nontriv[t]);
		fprintf(f, "},\n\"classes\":{");
		for( uint32_t i=0; i < S->ncls; i++ ) { fprintf(f, "%s", i ? "," : ""); jstr(f, S->cls_name[i]); fprintf(f, ":%llu", (unsigned long long)S->cls_cnt[i]); }
		fprintf(f, "},\n\"samples\":[");
		bool first = true;
		for( unsigned t=0; TARGETS[t].name; t++ ) for( uint32_t k=0; k < S->nsamples[t] && k < MAXSAMPLE; k++ ) {
			if( !first ) fputc(',', f);
			first = false;
			char b[SAMPN + 128]; snprintf(b, sizeof b, "[%s] %s", TARGETS[t].name, S->samples[t][k]); fputc('\n', f); jstr(f, b);
		}
		fprintf(f, "]},\n\"wall_s\":%.2f,\"violations\":%d}\n", wall, violations);
		fclose(f);
	}
	printf("%s: %llu cases, %llu distinct non-trivial, %llu edges, %.1f s (slowest case %.2f s)\n", PROPERTY, (unsigned long long)evals, (unsigned long long)S->distinct, (unsigned long long)edges, wall, (double)S->slowest_us / 1e6);
	if( violations ) {
		printf("--- minimal case\n%s\n--- %s\n", vtrace, vmsg);
		printf("VIOLATION property=%s replay=%s\n", PROPERTY, vpath);
		return 1;
	}
	return rc;
}
