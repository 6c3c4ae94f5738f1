/* C14: integer logarithms, digit counts, rounding helpers and conversions between text and integers. */
#include "pbt.h"
#include "lex/lex.h"

char const *const PROPERTY = "C14";
char const *const RULE = "64-bit values concentrated around powers of 2, of 10 and of the generated base (2..2^63), their neighbours and the extremes, compared with results obtained by repeated division; and numerals written in a generated alphabet (bases 2..64, 2..255 for runes) by repeated division and read back, "
	"well-formed or with a foreign character. Non-trivial: the value is next to a power of its base, or the numeral has at least two digits.";
unsigned const QUICK_CASES = 16000000, THOROUGH_CASES = 100000000;
struct Known const KNOWN[] = { {0} };

static size_t ref_log(size_t x, size_t b) { size_t n = 0; while( x >= b ) { x /= b; n++; } return n; }
static size_t near(size_t b) {
	if( g_p(1,4) ) return (size_t)g_u64();
	size_t p = 1, k = (size_t)g_u(64); g_nontrivial();
	for( size_t i=0; i < k && p <= SIZE_MAX / b; i++ ) p *= b;
	size_t off = g_u(3); return g_p(1,2) ? p + off : p - off;
}
static void logs(void) {
	size_t x = near(g_p(1,2) ? 2 : 10); LOG("x = %zu\n", x); char txt[80];
	CHECK(int_log2(x)==(x ? ref_log(x, 2) : 0), "log2(%zu) = %zu", x, int_log2(x));
	CHECK(int_log10(x)==ref_log(x, 10), "log10(%zu) = %zu, expected %zu", x, int_log10(x), ref_log(x, 10));
	CHECK(base_2_digits(x)==ref_log(x, 2) + 1 && base_2_num_chars(x)==ref_log(x, 2) + 2, "%zu has %zu binary digits, expected %zu", x, base_2_digits(x), ref_log(x, 2) + 1);
	size_t d = (size_t)snprintf(txt, sizeof txt, "%zu", x);
	CHECK(base_10_digits(x)==d, "%zu has %zu digits, expected %zu", x, base_10_digits(x), d);
	CHECK(base_10_num_chars_uint(x) >= d + 1, "%zu characters do not hold %zu", base_10_num_chars_uint(x), x);
	size_t s = (size_t)snprintf(txt, sizeof txt, "%zd", (ssize_t)x);
	if( (ssize_t)x != INT64_MIN ) CHECK(base_10_num_chars_int((ssize_t)x) >= s + 1, "%zu characters do not hold %s", base_10_num_chars_int((ssize_t)x), txt);
	if( x < (size_t)1 << 63 ) { size_t p = next_pow_of_2(x); CHECK(p > x && !(p & (p - 1)) && (x==0 ? p==1 : p / 2 <= x), "the power of 2 after %zu is not %zu", x, p); }
	{ size_t a = (size_t)1 << g_u(20), y = x >> 1; if( y <= SIZE_MAX - a ) { size_t r = harbol_align_size(y, a); CHECK(r % a==0 && r >= y && r - y < a, "%zu aligned to %zu is not %zu", y, a, r); CHECK(harbol_pad_size(y, a)==r - y, "the padding of %zu to %zu is not %zu", y, a, harbol_pad_size(y, a)); }
		CHECK(is_ptr_aligned((void const *)y, a)==(y % a==0), "alignment of %zu to %zu", y, a); }
	{ size_t n = g_u(20), m = bytes_bitmask(n); CHECK(m==(n >= 8 ? SIZE_MAX : ((size_t)1 << 8 * n) - 1), "the mask of %zu bytes is %zx", n, m); }
	{ size_t lo = near(2), hi = near(10), v = g_p(1,2) ? near(10) : g_p(1,2) ? lo - g_u(2) : hi + g_u(2); if( lo > hi ) { size_t t = lo; lo = hi; hi = t; }
		CHECK(is_uint_in_bounds(v, hi, lo)==(v >= lo && v <= hi), "%zu in [%zu, %zu]", v, lo, hi); CHECK(is_uintptr_in_bounds(v, hi, lo)==(v >= lo && v <= hi), "%zu in [%zu, %zu]", v, lo, hi);
		ssize_t sl = (ssize_t)lo, sh = (ssize_t)hi, sv = (ssize_t)v; if( sl > sh ) { ssize_t t = sl; sl = sh; sh = t; } CHECK(is_int_in_bounds(sv, sh, sl)==(sv >= sl && sv <= sh), "%zd in [%zd, %zd]", sv, sl, sh); }
}
static void tables(void) {
	size_t b = 3 + (g_p(2,3) ? g_u(60) : g_p(1,2) ? g_u(1000000) : (size_t)(g_u64() >> 1) % (SIZE_MAX - 4)); 
	if( g_p(1,16) ) b = SIZE_MAX - g_u(4); else if( g_p(1,8) ) { /* the largest bases with k powers */ size_t k = 2 + g_u(39), lo = 1, hi = (size_t)1 << 32; while( hi - lo > 1 ) { size_t m = lo + (hi - lo) / 2, p = 1; bool fits = true; for( size_t i=0; i < k && fits; i++ ) { fits = p <= SIZE_MAX / m; p *= m; } if( fits ) lo = m; else hi = m; } b = lo + g_u(3) - 1; if( b < 3 ) b = 3; CLASSIFY("base with the last power next to the limit"); }
	size_t t[MAX_LOG_TABLE_SIZE], *pw = NULL; memset(t, 0xEE, sizeof t); LOG("base %zu\n", b);
	size_t n = make_int_log_tables(b, &t, &pw); CHECK(n && pw, "no tables for base %zu", b);
	CHECK(n==ref_log(SIZE_MAX, b) + 1, "base %zu has %zu powers, expected %zu", b, n, ref_log(SIZE_MAX, b) + 1);
	{ size_t p = 1; for( size_t i=0; i < n; i++, p *= b ) CHECK(pw[i]==p, "power %zu of %zu is %zu", i, b, pw[i]); }
	for( int k=0; k < 6; k++ ) { size_t x = near(b), w = ref_log(x, b);
		CHECK(int_log(x, (size_t const (*)[MAX_LOG_TABLE_SIZE])&t, pw)==w, "log of %zu to base %zu is %zu, expected %zu", x, b, int_log(x, (size_t const (*)[MAX_LOG_TABLE_SIZE])&t, pw), w);
		CHECK(base_N_digits(x, (size_t const (*)[MAX_LOG_TABLE_SIZE])&t, pw)==w + 1, "digits of %zu in base %zu", x, b);
		CHECK(base_N_num_chars_uint(x, (size_t const (*)[MAX_LOG_TABLE_SIZE])&t, pw) >= w + 2, "characters of %zu in base %zu", x, b);
		ssize_t s = (ssize_t)x; if( s != INT64_MIN ) { size_t m = (size_t)(s < 0 ? -s : s); CHECK(base_N_num_chars_int(s, (size_t const (*)[MAX_LOG_TABLE_SIZE])&t, pw) >= ref_log(m, b) + 2 + (s < 0), "characters of %zd in base %zu", s, b); } }
	free(pw);
	{ size_t *none = NULL; CHECK(make_int_log_tables(g_u(3), &t, &none)==0 && !none, "tables for a base below 3"); }
}
static void numerals(void) {
	bool runes = g_p(1,2); unsigned base = 2 + (unsigned)g_u(runes ? 254 : 63), len = base; int32_t A[260];
	/* an alphabet of different characters */
	for( unsigned i=0; i < len; i++ ) A[i] = runes ? 0x100 + (int32_t)i * 37 : "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_+="[i];
	if( runes ) for( unsigned i=0; i < len && i < 10; i++ ) A[i] = '0' + (int32_t)i;
	if( g_p(1,3) ) for( unsigned i = len - 1; i > 0; i-- ) { unsigned j = (unsigned)g_u(i + 1); int32_t x = A[i]; A[i] = A[j]; A[j] = x; }
	A[len] = 0;
	uint64_t v = g_u64(); bool neg = g_p(1,3), bad = g_p(1,5);
	if( neg && v > (uint64_t)INT64_MAX ) v >>= 1;
	int32_t D[80]; size_t n = 0; uint64_t x = v; do { D[n++] = A[x % base]; x /= base; } while( x ); if( n > 1 ) g_nontrivial();
	for( size_t z = g_p(1,6) ? g_u(4) : 0; z > 0; z-- ) D[n++] = A[0];
	int32_t T[100]; size_t m = 0; if( neg ) T[m++] = '-';
	size_t badat = bad ? g_u(n + 1) : SIZE_MAX; uint64_t prefix = 0; bool seen = false;
	for( size_t i=0; i <= n; i++ ) { if( i==badat ) { T[m++] = runes ? 0x20AC : g_p(1,2) ? '!' : (int32_t)(char)0xE4; seen = true; } if( i < n ) { T[m++] = D[n-1-i]; if( !seen ) { unsigned d = 0; while( A[d] != D[n-1-i] ) d++; prefix = prefix * base + d; } } }
	T[m] = 0; LOG("base %u, value %s%" PRIu64 "%s\n", base, neg ? "-" : "", v, bad ? ", with a foreign character" : "");
	bool res = !bad; uint64_t got;
	if( runes ) { int32_t *t = g_buf((m + 1) * 4), *a = g_buf((len + 1) * 4); memcpy(t, T, (m + 1) * 4); memcpy(a, A, (len + 1) * 4);
		got = neg || g_p(1,2) ? (uint64_t)convert_runes_to_base_int(t, (uint_fast8_t)base, a, &res) : convert_runes_to_base_uint(t, (uint_fast8_t)base, a, &res); }
	else { char *t = g_buf(m + 1), *a = g_buf(len + 1); for( size_t i=0; i <= m; i++ ) t[i] = (char)T[i]; for( size_t i=0; i <= len; i++ ) a[i] = (char)A[i];
		got = neg || g_p(1,2) ? (uint64_t)convert_cstr_to_base_int(t, (uint_fast8_t)base, a, &res) : convert_cstr_to_base_uint(t, (uint_fast8_t)base, a, &res); }
	CHECK(res==!bad, "a numeral %s foreign character was %s", bad ? "with a" : "without", res ? "accepted" : "rejected");
	if( bad ) CHECK(got==prefix || (neg && got==0 - prefix), "the value before the foreign character is %" PRIu64 ", expected %" PRIu64, got, prefix);
	if( !bad ) CHECK(got==(neg ? 0 - v : v), "read back %" PRId64 ", expected %" PRId64, (int64_t)got, (int64_t)(neg ? 0 - v : v));
}
struct Target const TARGETS[] = { { "logs", logs, 3 }, { "tables", tables, 2 }, { "numerals", numerals, 3 }, {0} };
