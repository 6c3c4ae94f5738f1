/* Small property-based testing engine: every random decision of a case is a "choice" drawn from
 * one recorded sequence, so a case is replayed, mutated (coverage-guided) and shrunk as that sequence. */
#ifndef PBT_H
#define PBT_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <inttypes.h>
#include <time.h>
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdarg.h>

/* ---- drawing ---- */
uint64_t g_u(uint64_t n);                 /* uniform in [0,n); n>=1; shrinks towards 0 */
int64_t  g_range(int64_t lo, int64_t hi); /* inclusive; shrinks towards lo */
bool     g_p(unsigned num, unsigned den); /* true with probability num/den; shrinks towards false */
bool     g_rare(unsigned den);            /* true in 1 of den cases; for huge cases, which the coverage-guided mutation then leaves alone */
bool     g_more(unsigned avg);            /* "one more step?": true with avg/(avg+1) */
uint64_t g_u64(void);                     /* any 64-bit value, edge-biased */
size_t   g_len(size_t max);               /* 0..max, biased to small */
unsigned g_pick(unsigned n, ...);         /* weighted index: n weights (unsigned) follow */
/* ---- per-case memory (plain heap blocks, exact size so ASan sees overruns; released at case end) ---- */
void *g_buf(size_t n);                    /* uninitialised, exactly n bytes */
void *g_zbuf(size_t n);
char *g_cstr(char const *bytes, size_t n);/* exactly n+1 bytes, NUL terminated */
/* ---- growable byte string for models and text generators (released at case end) ---- */
typedef struct { char *p; size_t n, cap; } Str;
void s_add(Str *s, void const *p, size_t n);
void s_addc(Str *s, char c);
void s_puts(Str *s, char const *z);
void s_printf(Str *s, char const *fmt, ...) __attribute__((format(printf,2,3)));
void s_del(Str *s, size_t at, size_t n);
void s_ins(Str *s, size_t at, void const *p, size_t n);
char *s_exact(Str const *s);              /* exact-size NUL terminated copy */
bool s_eq(Str const *s, void const *p, size_t n);
/* ---- reporting ---- */
extern bool g_tracing;
void g_trace(char const *fmt, ...) __attribute__((format(printf,1,2)));
#define LOG(...) do { if( g_tracing ) g_trace(__VA_ARGS__); } while(0)
char const *g_q(void const *p, size_t n); /* quoted rendering for traces/messages (static ring) */
void g_fail(char const *file, int line, char const *fmt, ...) __attribute__((noreturn, format(printf,3,4)));
#define FAIL(...) g_fail(__FILE__, __LINE__, __VA_ARGS__)
#define CHECK(c, ...) do { if( !(c) ) g_fail(__FILE__, __LINE__, __VA_ARGS__); } while(0)
void g_nontrivial(void);                  /* mark this case as non-trivial */
void g_classify_(int *id, char const *name);
#define CLASSIFY(name) do { static int id_ = -1; g_classify_(&id_, name); } while(0)
#define CLASS_IF(c, name) do { if( c ) CLASSIFY(name); } while(0)
/* ---- allocation control ---- */
size_t vf_live(void);                     /* live tracked blocks */
void   vf_fail_after(long n);             /* n>=0: let n allocations through, then fail `width` of them */
void   vf_fail_width(long w);
void   vf_fail_off(void);
bool   vf_fail_hit(void);                 /* has an injected failure happened since vf_fail_after */
long   vf_alloc_count(void);              /* allocations since vf_count_reset */
void   vf_count_reset(void);
void   vf_set_entropy(uint64_t seed);     /* what time()/rand() return to the library */
void   g_leak_exempt(void);               /* do not check leaks for this case */
/* ---- scratch dir of this process (created and removed by the engine) ---- */
char const *g_scratch(void);
/* ---- property table ---- */
struct Target { char const *name; void (*fn)(void); unsigned weight; };
extern struct Target const TARGETS[];     /* ends with {0} */
extern char const *const PROPERTY;        /* id */
extern char const *const RULE;            /* how cases are made, what is non-trivial */
extern unsigned const QUICK_CASES, THOROUGH_CASES;
/* known findings: probed on every run; return true when the defect is (still) there */
struct Known { char const *what; bool (*still)(void); };
extern struct Known const KNOWN[];        /* ends with {0} */
#endif
