/* C24: the Mersenne Twister against its recurrence, written as one growing sequence. */
#include "pbt.h"
#include "harbol_common_defines.h"
#include "harbol_common_includes.h"
#include "mtwister/mtwister.h"

char const *const PROPERTY = "C24";
char const *const RULE = "1..4 generators with seeds of all magnitudes, drawn from in a generated interleaving of integers and doubles (up to about 3000 draws, so that the state is regenerated several times), with re-seeding and copying of generators on the way; every draw is compared with the recurrence computed on an unbounded sequence. "
	"Non-trivial: some generator was drawn from past its first block of 624 numbers.";
unsigned const QUICK_CASES = 3600000, THOROUGH_CASES = 20000000;
struct Known const KNOWN[] = { {0} };

typedef struct { struct MTRand g; uint64_t *x; size_t n, next; } Gen;
static Gen G[4];
static void seed(Gen *p, uint64_t s) { p->x[0] = s; for( p->n = 1; p->n < 624; p->n++ ) p->x[p->n] = p->x[p->n-1] * 6069; p->next = 624; }
static uint64_t ref(Gen *p) {
	size_t i = p->next++; uint64_t y = (p->x[i-624] & 0x80000000u) | (p->x[i-623] & 0x7fffffffu);
	uint64_t v = p->x[i] = p->x[i-624+397] ^ (y >> 1) ^ ((y & 1) ? 0x9908b0dfu : 0);
	v ^= v >> 11; v ^= (v << 7) & 0x9d2c5680u; v ^= (v << 15) & 0xefc60000u; v ^= v >> 18; return v;
}
enum { CAP = 5000 };
static void history(void) {
	size_t ng = 1 + g_u(4); bool deep = false;
	for( size_t i=0; i < ng; i++ ) { G[i].x = g_buf(sizeof(uint64_t) * CAP); uint64_t s = g_p(1,4) ? g_u(5000) : g_u64(); LOG("generator %zu seeded with %" PRIu64 "\n", i, s); if( g_p(1,10) ) { /* never seeded: the first draw seeds with the documented default */ memset(&G[i].g, 0xA5, sizeof G[i].g); G[i].g.index = 625 + (g_p(1,2) ? 0 : g_u(1000000)); seed(&G[i], 4357); CLASSIFY("never seeded"); continue; }
		if( g_p(1,2) ) G[i].g = MT_SeedRand(s); else { memset(&G[i].g, 0xA5, sizeof G[i].g); _MT_SeedRand(&G[i].g, s); } seed(&G[i], s); }
	for( int k=0; k < 30 && g_more(8); k++ ) {
		size_t i = g_u(ng);
		switch( g_u(12) ) {
			case 0: { uint64_t s = g_u64(); LOG("seed(%zu, %" PRIu64 ")\n", i, s); _MT_SeedRand(&G[i].g, s); seed(&G[i], s); CLASSIFY("seeded again"); break; }
			case 1: { size_t j = g_u(ng); if( j==i ) break; LOG("copy %zu to %zu\n", i, j); G[j].g = G[i].g; memcpy(G[j].x, G[i].x, G[i].next * 8); G[j].next = G[i].next; CLASSIFY("copied"); break; }
			default: {
				size_t n = g_p(1,3) ? 600 + g_u(60) : 1 + g_u(40); LOG("%zu draws from %zu\n", n, i);
				for( size_t d=0; d < n && G[i].next < CAP; d++ ) {
					size_t at = G[i].next - 624; uint64_t want = ref(&G[i]); deep |= at >= 624;
					if( (d + k) % 5 ) { size_t got = MT_GenRand_UInt(&G[i].g); CHECK(got==want, "draw %zu of generator %zu gives %zu, expected %" PRIu64, at, i, got, want); }
					else { double got = MT_GenRand_F64(&G[i].g), w = (double)want / (double)SIZE_MAX; CHECK(got==w && got >= 0 && got <= 1, "draw %zu of generator %zu gives %.20g, expected %.20g", at, i, got, w); }
				}
			}
		}
	}
	if( deep ) g_nontrivial();
}
struct Target const TARGETS[] = { { "history", history, 1 }, {0} };
