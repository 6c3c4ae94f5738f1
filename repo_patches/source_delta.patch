From 6d95653b3900542cc7af984230da0d2ca6c9fe2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 001/103] fix: appending a string to itself overran its buffer

---
 str/str.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/str/str.c b/str/str.c
index 8953ce6..86efca5 100644
--- a/str/str.c
+++ b/str/str.c
@@ -76,10 +76,12 @@ HARBOL_EXPORT bool harbol_string_add_char_rep(struct HarbolString *const str, ch
 }
 
 HARBOL_EXPORT bool harbol_string_add_str(struct HarbolString *const strA, struct HarbolString const *const strB) {
-	if( strB->cstr==NULL || !_harbol_resize_string(strA, strA->len + strB->len) ) {
+	size_t const old_len = strA->len, add_len = strB->len;
+	if( strB->cstr==NULL || !_harbol_resize_string(strA, old_len + add_len) ) {
 		return false;
 	}
-	strncat(strA->cstr, strB->cstr, strB->len);
+	/// strA and strB can be the same string.
+	memcpy(&strA->cstr[old_len], strB->cstr, add_len);
 	return true;
 }
 
-- 
2.43.0


From 34a6c0128945a5633b40748e495301c61e521e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 002/103] fix: harbol_string_rm_char left the length unchanged

---
 str/str.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/str/str.c b/str/str.c
index 86efca5..a54bbab 100644
--- a/str/str.c
+++ b/str/str.c
@@ -394,6 +394,7 @@ HARBOL_EXPORT size_t harbol_string_rm_char(struct HarbolString *const str, char
 		}
 	}
 	str->cstr[j] = 0;
+	str->len = j;
 	return counts;
 }
 
-- 
2.43.0


From ec9ca3a1d673d8495a6f6f13c3bd6a1be095e27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 003/103] fix: reading a file into a longer string left it
 unterminated

---
 str/str.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/str/str.c b/str/str.c
index a54bbab..4601519 100644
--- a/str/str.c
+++ b/str/str.c
@@ -211,6 +211,7 @@ HARBOL_EXPORT bool harbol_string_read_from_file(struct HarbolString *const str,
 		return false;
 	}
 	str->len = fread(str->cstr, sizeof *str->cstr, filesize, file);
+	str->cstr[str->len] = 0;
 	return true;
 }
 
-- 
2.43.0


From cbaeedf47c8782862486cb4d801c3b4e3648aada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 004/103] fix: harbol_string_replace_range read past the
 terminator when upper is the length

---
 str/str.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/str/str.c b/str/str.c
index 4601519..03cb704 100644
--- a/str/str.c
+++ b/str/str.c
@@ -430,7 +430,7 @@ HARBOL_EXPORT bool harbol_string_replace_range(struct HarbolString *const restri
 		return false;
 	}
 	
-	if( upper > str->len ) {
+	if( upper >= str->len ) {
 		upper = str->len - 1;
 	}
 	
-- 
2.43.0


From e72fda33f32ffb843c1b1737d4b5ac6844835bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 005/103] fix: counting or replacing an empty substring never
 ended

---
 str/str.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/str/str.c b/str/str.c
index 03cb704..d98f3cb 100644
--- a/str/str.c
+++ b/str/str.c
@@ -318,6 +318,9 @@ HARBOL_EXPORT size_t harbol_string_count_cstr(struct HarbolString const *const r
 	
 	size_t occurrences = 0;
 	size_t const occ_len = strlen(occurrence);
+	if( occ_len==0 ) {
+		return 0;
+	}
 	char const *pos = strstr(str->cstr, occurrence);
 	while( pos != NULL ) {
 		occurrences++;
-- 
2.43.0


From 45c42dba08b75e6f85f0d3dba499e81b37784891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 006/103] fix: harbol_string_replace_cstr replaced one
 occurrence more than asked and overran its buffer

---
 str/str.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/str/str.c b/str/str.c
index d98f3cb..e6f1c84 100644
--- a/str/str.c
+++ b/str/str.c
@@ -251,7 +251,7 @@ HARBOL_EXPORT bool harbol_string_replace_cstr(struct HarbolString *const restric
 	}
 	
 	size_t const counts = harbol_string_count_cstr(str, to_replace);
-	if( counts==0 ) {
+	if( counts==0 || amount==0 ) {
 		return false;
 	} else if( amount > counts ) {
 		amount = counts;
@@ -272,7 +272,7 @@ HARBOL_EXPORT bool harbol_string_replace_cstr(struct HarbolString *const restric
 	
 	strcpy(&rep_str.cstr[rep_len], with);
 	rep_len += with_len;
-	for( size_t i=0; i < amount; i++ ) {
+	for( size_t i=1; i < amount; i++ ) {
 		size_t const saved_offset = offset;
 		size_t const relative_offs = _subcstr_diff(&str->cstr[saved_offset], to_replace);
 		if( relative_offs==SIZE_MAX ) {
-- 
2.43.0


From 4ac5c9902d9f4dd9386629296c0acfc41597ea1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 007/103] fix: removing, trimming, finding and scanning crashed
 on a string without text

---
 str/str.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/str/str.c b/str/str.c
index e6f1c84..90f7ef1 100644
--- a/str/str.c
+++ b/str/str.c
@@ -170,7 +170,7 @@ HARBOL_EXPORT int harbol_string_scan(struct HarbolString const *const restrict s
 
 
 HARBOL_EXPORT int harbol_string_scan_va(struct HarbolString const *const restrict str, char const fmt[const restrict static 1], va_list args) {
-	int const result = vsscanf(str->cstr, fmt, args);
+	int const result = ( str->cstr==NULL )? EOF : vsscanf(str->cstr, fmt, args);
 	va_end(args);
 	return result;
 }
@@ -389,6 +389,9 @@ HARBOL_EXPORT bool harbol_string_reverse(struct HarbolString *const str) {
 
 
 HARBOL_EXPORT size_t harbol_string_rm_char(struct HarbolString *const str, char const c) {
+	if( str->cstr==NULL ) {
+		return 0;
+	}
 	size_t j = 0, counts = 0;
 	for( size_t i=0; str->cstr[i] != 0; i++ ) {
 		if( str->cstr[i] != c ) {
@@ -404,6 +407,9 @@ HARBOL_EXPORT size_t harbol_string_rm_char(struct HarbolString *const str, char
 
 
 HARBOL_EXPORT size_t harbol_string_trim_spaces(struct HarbolString *const str) {
+	if( str->cstr==NULL ) {
+		return 0;
+	}
 	size_t j = 0, counts = 0;
 	for( size_t i=0; str->cstr[i] != 0; i++ ) {
 		if( !isspace(str->cstr[i]) ) {
@@ -424,7 +430,7 @@ static NO_NULL size_t _find_chr(char const src[const static 1], char const c) {
 }
 
 HARBOL_EXPORT size_t harbol_string_find_char(struct HarbolString const *const str, char const c) {
-	return _find_chr(str->cstr, c);
+	return( str->cstr==NULL )? SIZE_MAX : _find_chr(str->cstr, c);
 }
 
 
-- 
2.43.0


From 15ddc04c3df393a07834befa2c6368f3033cf87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 008/103] fix: harbol_string_cmpcstr ordered its operands the
 opposite way of harbol_string_cmpstr

---
 str/str.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/str/str.c b/str/str.c
index 90f7ef1..7982563 100644
--- a/str/str.c
+++ b/str/str.c
@@ -181,7 +181,7 @@ HARBOL_EXPORT int harbol_string_cmpcstr(struct HarbolString const *const str, ch
 		return -1;
 	}
 	size_t const cstr_len = strlen(cstr);
-	return strncmp(cstr, str->cstr, (str->len > cstr_len)? str->len : cstr_len);
+	return strncmp(str->cstr, cstr, (str->len > cstr_len)? str->len : cstr_len);
 }
 
 HARBOL_EXPORT int harbol_string_cmpstr(struct HarbolString const *const strA, struct HarbolString const *const strB) {
-- 
2.43.0


From 2b7bc75bff463af7fb8fd223a12055c3700539a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 009/103] fix: growing an emptied string leaked its buffer

---
 harbol_common_includes.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index ca3199c..5603ea9 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -321,7 +321,8 @@ static inline NO_NULL void *harbol_memccpy(void *const restrict dest, void const
 }
 
 static inline uint8_t *harbol_resize_string(uint8_t *const restrict cstr, size_t const bytes, size_t *const restrict len, size_t const new_size) {
-	uint8_t *restrict new_cstr = harbol_recalloc(cstr, new_size + 1, bytes, *len);
+	/// an emptied string still owns its buffer.
+	uint8_t *restrict new_cstr = harbol_recalloc(cstr, new_size + 1, bytes, *len + 1);
 	if( new_cstr==NULL ) {
 		return NULL;
 	}
-- 
2.43.0


From d01a1ff5072445681e94462e6e18ff8d26ebe1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:23 +0000
Subject: [PATCH 010/103] fix: harbol_array_add refused an addition that
 exactly fits

---
 array/array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/array/array.c b/array/array.c
index e36bf8e..277a7bd 100644
--- a/array/array.c
+++ b/array/array.c
@@ -121,7 +121,7 @@ HARBOL_EXPORT bool harbol_array_full(struct HarbolArray const *const vec) {
 
 /// array to array ops.
 HARBOL_EXPORT bool harbol_array_add(struct HarbolArray *const vecA, struct HarbolArray const *const vecB, size_t const datasize) {
-	if( vecA->table==NULL || vecB->table==NULL || (vecA->len + vecB->len) >= vecA->cap ) {
+	if( vecA->table==NULL || vecB->table==NULL || (vecA->len + vecB->len) > vecA->cap ) {
 		return false;
 	}
 	memcpy(&vecA->table[vecA->len * datasize], vecB->table, vecB->len * datasize);
-- 
2.43.0


From 9cca30c9406b74491fbf2de47df3a2b8d20f1df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:23 +0000
Subject: [PATCH 011/103] fix: resizing an array below its length left the
 length beyond the capacity

---
 array/array.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/array/array.c b/array/array.c
index 277a7bd..3d37e5f 100644
--- a/array/array.c
+++ b/array/array.c
@@ -17,6 +17,9 @@ static NO_NULL bool harbol_array_resizer(struct HarbolArray *const restrict vec,
 	}
 	vec->table = new_table;
 	vec->cap   = new_size;
+	if( vec->len > new_size ) {
+		vec->len = new_size;
+	}
 	return true;
 }
 
-- 
2.43.0


From 109c509d737d11a0ebb63878897bd5f978f410ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:23 +0000
Subject: [PATCH 012/103] fix: deleting a not-found index from an empty array
 underflowed its length

---
 array/array.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/array/array.c b/array/array.c
index 3d37e5f..e77dc7f 100644
--- a/array/array.c
+++ b/array/array.c
@@ -271,7 +271,7 @@ HARBOL_EXPORT size_t harbol_array_index_of(struct HarbolArray const *const vec,
 
 /// deletion funcs.
 HARBOL_EXPORT bool harbol_array_del_by_index(struct HarbolArray *const vec, size_t const index, size_t const datasize) {
-	if( vec->table==NULL ) {
+	if( vec->table==NULL || index >= vec->len ) {
 		return false;
 	} else if( index==vec->len-1 ) {
 		memset(&vec->table[--vec->len * datasize], 0, datasize);
@@ -285,7 +285,7 @@ HARBOL_EXPORT bool harbol_array_del_by_range(struct HarbolArray *const vec, size
 	} else if( index==0 && (index + range >= vec->len) ) {
 		harbol_array_wipe(vec, datasize);
 		return true;
-	} else if( index==vec->len-1 ) {
+	} else if( index < vec->len && index==vec->len-1 ) {
 		memset(&vec->table[--vec->len * datasize], 0, datasize);
 		return true;
 	}
-- 
2.43.0


From 66e48c45ef8c093bb2a5635340dc9c7d8ce910d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:23 +0000
Subject: [PATCH 013/103] fix: shifting an array by a huge amount wrapped
 around and corrupted it

---
 harbol_common_includes.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index 5603ea9..53f9484 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -600,12 +600,12 @@ static inline bool array_shift_up(void *const restrict buf, size_t *const restri
 		j = index
 	;
 	uint8_t *const restrict b = buf;
-	if( i < *len ) {
+	if( amount < *len - index ) {
 		*len -= amount;
 		memmove(&b[j * datasize], &b[i * datasize], (*len - j) * datasize);
 		memset(&b[*len * datasize], 0, amount * datasize);
 	} else {
-		/// if i goes out of range, zero everything after and lower the count.
+		/// if the range goes past the end, zero everything after and lower the count.
 		memset(&b[j * datasize], 0, (*len - j) * datasize);
 		*len = j;
 	}
@@ -628,7 +628,7 @@ static inline bool multi_array_shift_up(size_t *const restrict len, size_t const
 		j = index
 	;
 	
-	if( i < *len ) {
+	if( amount < *len - index ) {
 		*len -= amount;
 		size_t const cur_len = *len;
 		for( size_t n=0; n < n_buffers; n++ ) {
-- 
2.43.0


From 3127125bcd786be17b2a4a87dbfb30ea9817868c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:46 +0000
Subject: [PATCH 014/103] fix: resizing an array without storage ignored the
 requested capacity

---
 array/array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/array/array.c b/array/array.c
index e77dc7f..d32c29d 100644
--- a/array/array.c
+++ b/array/array.c
@@ -93,7 +93,7 @@ HARBOL_EXPORT bool harbol_array_grow(struct HarbolArray *const vec, size_t const
 }
 HARBOL_EXPORT bool harbol_array_resize(struct HarbolArray *const vec, size_t const datasize, size_t const new_cap) {
 	size_t const old_cap = vec->cap;
-	harbol_array_resizer(vec, (vec->cap==0 || new_cap==0? ARRAY_DEFAULT_SIZE : next_pow_of_2(new_cap)), datasize);
+	harbol_array_resizer(vec, (new_cap==0? ARRAY_DEFAULT_SIZE : next_pow_of_2(new_cap)), datasize);
 	return vec->cap != old_cap;
 }
 HARBOL_EXPORT bool harbol_array_shrink(struct HarbolArray *const vec, size_t const datasize, bool const exact_fit) {
-- 
2.43.0


From 3ea69359a2c6d83534cb2eae6c9de16a07101c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:04 +0000
Subject: [PATCH 015/103] fix: resizing a byte buffer to 0 bytes released its
 table but kept the pointer

---
 bytebuffer/bytebuffer.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bytebuffer/bytebuffer.c b/bytebuffer/bytebuffer.c
index d31a1b9..477a22a 100644
--- a/bytebuffer/bytebuffer.c
+++ b/bytebuffer/bytebuffer.c
@@ -40,12 +40,14 @@ HARBOL_EXPORT uint8_t *harbol_bytebuffer_get_buffer(struct HarbolByteBuf const *
 }
 
 static NO_NULL bool _harbol_buffer_resize(struct HarbolByteBuf *const restrict buf, size_t const new_size) {
-	uint8_t *const new_table = harbol_recalloc(buf->table, new_size, sizeof *buf->table, buf->cap);
+	/// reallocating to 0 bytes would release the table.
+	size_t const new_cap = new_size==0? 1 : new_size;
+	uint8_t *const new_table = harbol_recalloc(buf->table, new_cap, sizeof *buf->table, buf->cap);
 	if( new_table==NULL ) {
 		return false;
 	}
 	buf->table = new_table;
-	buf->cap   = new_size;
+	buf->cap   = new_cap;
 	return true;
 }
 
-- 
2.43.0


From b753f8e9dc19a0a1a6dd8b8dcc1c7b04209d8d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:04 +0000
Subject: [PATCH 016/103] fix: removing a map entry broke the lookup of the
 entries after it

---
 map/map.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/map/map.c b/map/map.c
index 905fcad..b750f70 100644
--- a/map/map.c
+++ b/map/map.c
@@ -111,6 +111,18 @@ static bool _harbol_map_insert_entry(struct HarbolMap *const map, size_t const n
 	return true;
 }
 
+static bool _harbol_map_fill_buckets(struct HarbolMap *const map) {
+	for( size_t i=0; i < map->cap; i++ ) {
+		map->buckets[i] = SIZE_MAX;
+	}
+	
+	bool res = false;
+	for( size_t i=0; i < map->len; i++ ) {
+		res |= _harbol_map_insert_entry(map, i);
+	}
+	return res;
+}
+
 HARBOL_EXPORT bool harbol_map_rehash(struct HarbolMap *const map, size_t const new_size) {
 	if( !harbol_multi_recalloc(new_size, map->cap, 6,
 						&map->keys,     sizeof *map->keys,
@@ -232,23 +244,18 @@ HARBOL_EXPORT bool harbol_map_idx_rm(struct HarbolMap *const map, size_t const n
 		return false;
 	}
 	
-	size_t const mask    = map->cap - 1;
-	size_t const bkt_idx = map->hashes[n] & mask;
-	size_t const val_idx = map->buckets[bkt_idx];
-	if( val_idx==SIZE_MAX ) {
-		return false;
-	}
-	
 	free(map->keys[n]);  map->keys[n]  = NULL;
 	free(map->datum[n]); map->datum[n] = NULL;
 	map->hashes[n] = map->keylens[n] = map->datalens[n] = 0;
-	map->buckets[bkt_idx] = SIZE_MAX;
 	
-	return multi_array_shift_up(&map->len, n, 1, 5,
+	multi_array_shift_up(&map->len, n, 1, 5,
 			map->keys,     sizeof *map->keys,
 			map->datum,    sizeof *map->datum,
 			map->hashes,   sizeof *map->hashes,
 			map->keylens,  sizeof *map->keylens,
 			map->datalens, sizeof *map->datalens
 	);
+	/// every later entry has moved down an index & any entry can be away from its home bucket.
+	_harbol_map_fill_buckets(map);
+	return true;
 }
\ No newline at end of file
-- 
2.43.0


From ab04ec8ba1861dda0f6e1a9c173f7d62ce4923f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 017/103] fix: map capacities that are 0, not a power of 2 or
 exactly the number of entries lost or crashed on entries

---
 map/map.c | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/map/map.c b/map/map.c
index b750f70..4cb1ba8 100644
--- a/map/map.c
+++ b/map/map.c
@@ -6,6 +6,14 @@
 #endif
 
 
+/// bucket indices are masked so the capacity must be a non-zero power of 2.
+static size_t _harbol_map_cap(size_t const size) {
+	if( size <= 1 ) {
+		return 1;
+	}
+	return( size > (SIZE_MAX >> 1) )? size : next_pow_of_2(size - 1);
+}
+
 HARBOL_EXPORT struct HarbolMap *harbol_map_new(size_t const init_size) {
 	struct HarbolMap *map = calloc(1, sizeof *map);
 	if( map==NULL || !harbol_map_init(map, init_size) ) {
@@ -20,7 +28,8 @@ HARBOL_EXPORT struct HarbolMap harbol_map_make(size_t const init_size, bool *con
 	return map;
 }
 
-HARBOL_EXPORT bool harbol_map_init(struct HarbolMap *const map, size_t const init_size) {
+HARBOL_EXPORT bool harbol_map_init(struct HarbolMap *const map, size_t init_size) {
+	init_size = _harbol_map_cap(init_size);
 	if( !harbol_multi_calloc(init_size, 6,
 						&map->keys,     sizeof *map->keys,
 						&map->keylens,  sizeof *map->keylens,
@@ -95,7 +104,7 @@ HARBOL_EXPORT bool harbol_map_has_key(struct HarbolMap const *const map, void co
 }
 
 static bool _harbol_map_insert_entry(struct HarbolMap *const map, size_t const n) {
-	if( map->len >= map->cap ) {
+	if( n >= map->cap ) {
 		return false;
 	}
 	
@@ -116,14 +125,18 @@ static bool _harbol_map_fill_buckets(struct HarbolMap *const map) {
 		map->buckets[i] = SIZE_MAX;
 	}
 	
-	bool res = false;
+	bool res = true;
 	for( size_t i=0; i < map->len; i++ ) {
-		res |= _harbol_map_insert_entry(map, i);
+		res &= _harbol_map_insert_entry(map, i);
 	}
 	return res;
 }
 
-HARBOL_EXPORT bool harbol_map_rehash(struct HarbolMap *const map, size_t const new_size) {
+HARBOL_EXPORT bool harbol_map_rehash(struct HarbolMap *const map, size_t new_size) {
+	if( new_size < map->len ) {
+		return false;
+	}
+	new_size = _harbol_map_cap(new_size);
 	if( !harbol_multi_recalloc(new_size, map->cap, 6,
 						&map->keys,     sizeof *map->keys,
 						&map->keylens,  sizeof *map->keylens,
@@ -139,9 +152,9 @@ HARBOL_EXPORT bool harbol_map_rehash(struct HarbolMap *const map, size_t const n
 		map->buckets[i] = SIZE_MAX;
 	}
 	
-	bool res = false;
+	bool res = true;
 	for( size_t i=0; i < map->len; i++ ) {
-		res |= _harbol_map_insert_entry(map, i);
+		res &= _harbol_map_insert_entry(map, i);
 	}
 	return res;
 }
-- 
2.43.0


From 1075b79c796f089bacdd1acdbbb7929edd60438f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 018/103] fix: replacing a map value kept the length of the old
 value

---
 map/map.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/map/map.c b/map/map.c
index 4cb1ba8..4d33a7f 100644
--- a/map/map.c
+++ b/map/map.c
@@ -244,6 +244,7 @@ HARBOL_EXPORT bool harbol_map_idx_set(struct HarbolMap *const restrict map, size
 	}
 	free(map->datum[index]);
 	map->datum[index] = data;
+	map->datalens[index] = datasize;
 	return true;
 }
 
-- 
2.43.0


From 768aff92591af62540a45a1f499a1dfe1001d369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:48 +0000
Subject: [PATCH 019/103] fix: map lookups starting at the last bucket skipped
 the first one

---
 map/map.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/map/map.c b/map/map.c
index 4d33a7f..e712512 100644
--- a/map/map.c
+++ b/map/map.c
@@ -83,12 +83,7 @@ HARBOL_EXPORT size_t harbol_map_get_entry_index(struct HarbolMap const *const ma
 		return val_idx;
 	}
 	
-	for( size_t i = bkt_idx+1; i != bkt_idx; (i = (i+1 >= mask)? ((i+1) & mask) : i+1) ) {
-		/// sometimes the `bkt_idx` is at the mask index. Account for that.
-		if( i > mask ) {
-			continue;
-		}
-		
+	for( size_t i = (bkt_idx+1) & mask; i != bkt_idx; i = (i+1) & mask ) {
 		size_t const idx = map->buckets[i];
 		if( idx==SIZE_MAX ) {
 			continue;
-- 
2.43.0


From 5d7f2e610918bc9b59b15cbcbeb5039871068a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:09 +0000
Subject: [PATCH 020/103] fix: the only node of a deque kept links to free
 nodes

---
 deque/deque.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deque/deque.c b/deque/deque.c
index 05177dc..65552eb 100644
--- a/deque/deque.c
+++ b/deque/deque.c
@@ -145,6 +145,7 @@ HARBOL_EXPORT size_t harbol_deque_prepend(struct HarbolDeque *const restrict deq
 	deque->datum[i] = dup_data(val, datasize);
 	if( deque->head==SIZE_MAX ) {
 		deque->head = deque->tail = i;
+		deque->nexts[i] = deque->prevs[i] = SIZE_MAX;
 	} else {
 		deque->nexts[i] = deque->head;
 		deque->prevs[i] = SIZE_MAX;
@@ -168,6 +169,7 @@ HARBOL_EXPORT size_t harbol_deque_append(struct HarbolDeque *const restrict dequ
 	deque->datum[i] = dup_data(val, datasize);
 	if( deque->tail==SIZE_MAX ) {
 		deque->head = deque->tail = i;
+		deque->nexts[i] = deque->prevs[i] = SIZE_MAX;
 	} else {
 		deque->prevs[i] = deque->tail;
 		deque->nexts[i] = SIZE_MAX;
-- 
2.43.0


From 79296cfe1ae6f11da02ea35613c992c3fdc2169e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:09 +0000
Subject: [PATCH 021/103] fix: resetting a deque kept its node count

---
 deque/deque.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deque/deque.c b/deque/deque.c
index 65552eb..804451e 100644
--- a/deque/deque.c
+++ b/deque/deque.c
@@ -46,6 +46,7 @@ HARBOL_EXPORT void harbol_deque_reset(struct HarbolDeque *const deque) {
 	}
 	deque->head = deque->tail = deque->nexts[deque->cap - 1] = SIZE_MAX;
 	deque->freed = deque->cap - 1;
+	deque->len = 0;
 }
 
 HARBOL_EXPORT void harbol_deque_clear(struct HarbolDeque *const deque) {
-- 
2.43.0


From 04864440d4788baf3b8ac7a5fd8d4836a185ba98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:09 +0000
Subject: [PATCH 022/103] fix: a deque of initial size 0 wrote out of bounds
 and could never grow

---
 deque/deque.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/deque/deque.c b/deque/deque.c
index 804451e..44be703 100644
--- a/deque/deque.c
+++ b/deque/deque.c
@@ -13,7 +13,10 @@ HARBOL_EXPORT struct HarbolDeque *harbol_deque_new(size_t const init_size) {
 	return deque;
 }
 
-HARBOL_EXPORT bool harbol_deque_init(struct HarbolDeque *const deque, size_t const init_size) {
+HARBOL_EXPORT bool harbol_deque_init(struct HarbolDeque *const deque, size_t init_size) {
+	if( init_size==0 ) {
+		init_size = 1; /// the capacity grows by doubling.
+	}
 	if( !harbol_multi_recalloc(init_size, deque->cap, 3,
 						&deque->nexts, sizeof *deque->nexts,
 						&deque->prevs, sizeof *deque->prevs,
@@ -21,8 +24,8 @@ HARBOL_EXPORT bool harbol_deque_init(struct HarbolDeque *const deque, size_t con
 		return false;
 	}
 	
-	
 	deque->cap = init_size;
+	deque->len = 0;
 	for( size_t i=0; i < init_size; i++ ) {
 		deque->prevs[i] = i - 1;
 		deque->nexts[i] = i + 1;
-- 
2.43.0


From 8390f12aeed9de3fea2bea66c69da2826caa2093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:09 +0000
Subject: [PATCH 023/103] fix: a deque gained a node without data when the
 allocation of the data failed

---
 deque/deque.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/deque/deque.c b/deque/deque.c
index 44be703..f5ee62f 100644
--- a/deque/deque.c
+++ b/deque/deque.c
@@ -147,6 +147,10 @@ HARBOL_EXPORT size_t harbol_deque_prepend(struct HarbolDeque *const restrict deq
 	}
 	
 	deque->datum[i] = dup_data(val, datasize);
+	if( deque->datum[i]==NULL ) {
+		_harbol_deque_free_node(deque, i);
+		return SIZE_MAX;
+	}
 	if( deque->head==SIZE_MAX ) {
 		deque->head = deque->tail = i;
 		deque->nexts[i] = deque->prevs[i] = SIZE_MAX;
@@ -171,6 +175,10 @@ HARBOL_EXPORT size_t harbol_deque_append(struct HarbolDeque *const restrict dequ
 	}
 	
 	deque->datum[i] = dup_data(val, datasize);
+	if( deque->datum[i]==NULL ) {
+		_harbol_deque_free_node(deque, i);
+		return SIZE_MAX;
+	}
 	if( deque->tail==SIZE_MAX ) {
 		deque->head = deque->tail = i;
 		deque->nexts[i] = deque->prevs[i] = SIZE_MAX;
-- 
2.43.0


From 9b10c732e117f7d98dce72eb2e5ca987e9c18929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:09 +0000
Subject: [PATCH 024/103] fix: tuples never remembered that they are packed

---
 tuple/tuple.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tuple/tuple.c b/tuple/tuple.c
index 27e8b70..f516263 100644
--- a/tuple/tuple.c
+++ b/tuple/tuple.c
@@ -52,6 +52,7 @@ HARBOL_EXPORT bool harbol_tuple_init(struct HarbolTuple *const tuple, size_t con
 	}
 	
 	tuple->len = packed? total_size : aligned_total;
+	tuple->packed = packed;
 	tuple->fields = harbol_array_make(sizeof(uint32_t), tuple->len, &( bool ){false});
 	uint32_t offset = 0;
 	for( size_t i=0; i < len; i++ ) {
-- 
2.43.0


From f03b63b8547909cadf355c55c1b7c8d33d70f467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:24 +0000
Subject: [PATCH 025/103] fix: a failed harbol_multi_recalloc released buffers
 the caller still uses

---
 harbol_common_includes.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index 53f9484..7c7b610 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -241,24 +241,29 @@ static inline bool harbol_multi_calloc(size_t const size, size_t const n_buffers
 static inline bool harbol_multi_recalloc(size_t const new_size, size_t const old_size, size_t const n_buffers, ...) {
 	va_list ap; va_start(ap, n_buffers);
 	va_list cp; va_copy(cp, ap);
-	bool res = true;
 	void **bufs = calloc(n_buffers, sizeof *bufs);
-	for( size_t i=0; i < n_buffers; i++ ) {
+	bool res = bufs != NULL;
+	for( size_t i=0; res && i < n_buffers; i++ ) {
 		void **buf = va_arg(ap, void**);
 		size_t const elem_size = va_arg(ap, size_t);
-		bufs[i] = harbol_recalloc(*buf, new_size, elem_size, old_size);
+		/// the old block has to outlive a failure of a later one.
+		bufs[i] = calloc(new_size, elem_size);
 		res &= bufs[i] != NULL;
+		if( res && *buf != NULL ) {
+			memcpy(bufs[i], *buf, (old_size < new_size? old_size : new_size) * elem_size);
+		}
 	}
 	va_end(ap);
 	
 	if( !res ) {
-		for( size_t i=0; i < n_buffers; i++ ) {
+		for( size_t i=0; bufs != NULL && i < n_buffers; i++ ) {
 			free(bufs[i]); bufs[i] = NULL;
 		}
 	} else {
 		for( size_t i=0; i < n_buffers; i++ ) {
 			void **buf = va_arg(cp, void**);
 			va_arg(cp, size_t);
+			free(*buf);
 			*buf = bufs[i];
 		}
 	}
-- 
2.43.0


From 1f5760e89f499826b01f3f24cd871224ad758d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:24 +0000
Subject: [PATCH 026/103] fix: tuples beyond 64K silently corrupted the sizes
 and offsets of their fields

---
 tuple/tuple.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tuple/tuple.c b/tuple/tuple.c
index f516263..3d229dd 100644
--- a/tuple/tuple.c
+++ b/tuple/tuple.c
@@ -46,6 +46,10 @@ HARBOL_EXPORT bool harbol_tuple_init(struct HarbolTuple *const tuple, size_t con
 	
 	/// now do a final size alignment with the largest member.
 	size_t const aligned_total = harbol_align_size(total_size, largest_memb >= ptr_size? ptr_size : largest_memb);
+	/// a field is stored as a 16-bit size & a 16-bit offset.
+	if( total_size > UINT16_MAX || aligned_total > UINT16_MAX ) {
+		return false;
+	}
 	tuple->datum = calloc(packed? total_size : aligned_total, sizeof *tuple->datum);
 	if( tuple->datum==NULL ) {
 		return false;
-- 
2.43.0


From 871e34f8939a1d3b316512b4d0bce6b2428f751d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:24 +0000
Subject: [PATCH 027/103] fix: tuples without memory for their fields were
 reported as usable

---
 tuple/tuple.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tuple/tuple.c b/tuple/tuple.c
index 3d229dd..83103e7 100644
--- a/tuple/tuple.c
+++ b/tuple/tuple.c
@@ -57,7 +57,13 @@ HARBOL_EXPORT bool harbol_tuple_init(struct HarbolTuple *const tuple, size_t con
 	
 	tuple->len = packed? total_size : aligned_total;
 	tuple->packed = packed;
-	tuple->fields = harbol_array_make(sizeof(uint32_t), tuple->len, &( bool ){false});
+	bool res = false;
+	tuple->fields = harbol_array_make(sizeof(uint32_t), tuple->len, &res);
+	if( !res ) {
+		free(tuple->datum); tuple->datum = NULL;
+		tuple->len = 0;
+		return false;
+	}
 	uint32_t offset = 0;
 	for( size_t i=0; i < len; i++ ) {
 		uint32_t const size_pack = (( uint32_t )(sizes[i]) << 16) | offset;
-- 
2.43.0


From bbb26954e1a9a54bff2f1a0388982def08d92da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:02 +0000
Subject: [PATCH 028/103] fix: setting a larger value on a tree node overran
 its buffer

---
 tree/tree.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/tree/tree.c b/tree/tree.c
index ab3546d..71219f8 100644
--- a/tree/tree.c
+++ b/tree/tree.c
@@ -59,14 +59,13 @@ HARBOL_EXPORT bool harbol_tree_set(struct HarbolTree *const restrict tree, void
 		return false;
 	}
 	
-	if( tree->data==NULL ) {
-		tree->data = calloc(datasize, sizeof *tree->data);
-		if( tree->data==NULL ) {
-			return false;
-		}
+	uint8_t *const data = dup_data(val, datasize);
+	if( data==NULL ) {
+		return false;
 	}
-	memcpy(tree->data, val, datasize);
-	tree->len = datasize;
+	free(tree->data);
+	tree->data = data;
+	tree->len  = datasize;
 	return true;
 }
 
-- 
2.43.0


From 25bb30bc8d2175b549284d4bd7e9bbf6597ec790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:02 +0000
Subject: [PATCH 029/103] fix: looking up tree nodes by value ignored the size
 of the value

---
 tree/tree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tree/tree.c b/tree/tree.c
index 71219f8..69698ca 100644
--- a/tree/tree.c
+++ b/tree/tree.c
@@ -105,7 +105,7 @@ HARBOL_EXPORT bool harbol_tree_rm_val(struct HarbolTree *const restrict tree, vo
 	}
 	for( size_t i=0; i < tree->kids.len; i++ ) {
 		struct HarbolTree **const child_ref = harbol_array_get(&tree->kids, i, sizeof *child_ref);
-		if( !memcmp((*child_ref)->data, val, (*child_ref)->len) ) {
+		if( (*child_ref)->len==datasize && !memcmp((*child_ref)->data, val, datasize) ) {
 			harbol_tree_free(child_ref);
 			return harbol_array_del_by_index(&tree->kids, i, sizeof *child_ref);
 		}
@@ -124,7 +124,7 @@ HARBOL_EXPORT struct HarbolTree *harbol_tree_get_node_by_val(struct HarbolTree c
 	}
 	for( size_t i=0; i < tree->kids.len; i++ ) {
 		struct HarbolTree **const child_ref = harbol_array_get(&tree->kids, i, sizeof *child_ref);
-		if( !memcmp((*child_ref)->data, val, (*child_ref)->len) ) {
+		if( (*child_ref)->len==datasize && !memcmp((*child_ref)->data, val, datasize) ) {
 			return *child_ref;
 		}
 	}
-- 
2.43.0


From 51f8345e27cd18fd09c0bb0e084655157fddeebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 030/103] fix: regions whose size is not a multiple of the word
 size handed out misaligned memory

---
 allocators/region/region.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/allocators/region/region.c b/allocators/region/region.c
index 55e6141..82f0ef9 100644
--- a/allocators/region/region.c
+++ b/allocators/region/region.c
@@ -5,6 +5,12 @@
 #endif
 
 
+/// allocations are handed out from the end so the end has to be aligned.
+static size_t _harbol_region_end(uint8_t const *const mem, size_t const size) {
+	size_t const excess = ( uintptr_t )(mem + size) & (sizeof(uintptr_t) - 1);
+	return( excess > size )? 0 : size - excess;
+}
+
 HARBOL_EXPORT struct HarbolRegion harbol_region_make(size_t const size) {
 	struct HarbolRegion region = {0};
 	if( size==0 ) {
@@ -16,7 +22,8 @@ HARBOL_EXPORT struct HarbolRegion harbol_region_make(size_t const size) {
 		return region;
 	}
 	
-	region.size = region.offs = size;
+	region.size = size;
+	region.offs = _harbol_region_end(region.mem, size);
 	return region;
 }
 
@@ -25,8 +32,9 @@ HARBOL_EXPORT struct HarbolRegion harbol_region_make_from_buffer(void *const buf
 	if( size==0 ) {
 		return region;
 	}
-	region.size = region.offs = size;
+	region.size = size;
 	region.mem  = buf;
+	region.offs = _harbol_region_end(region.mem, size);
 	return region;
 }
 
-- 
2.43.0


From ca258404ce392ef929798887213a970362ec1f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 031/103] fix: harbol_bistack_init left the front margin
 uninitialized

---
 allocators/bistack/bistack.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/allocators/bistack/bistack.c b/allocators/bistack/bistack.c
index 32e032a..1b42324 100644
--- a/allocators/bistack/bistack.c
+++ b/allocators/bistack/bistack.c
@@ -13,7 +13,8 @@ HARBOL_EXPORT bool harbol_bistack_init(struct HarbolBiStack *const bistk, size_t
 	if( bistk->mem==NULL ) {
 		return false;
 	}
-	bistk->size = bistk->back = len;
+	bistk->size  = bistk->back = len;
+	bistk->front = 0;
 	return true;
 }
 
-- 
2.43.0


From 6166f9abd445437f482d927a7b80f9f7ddbc0d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 032/103] fix: the front of a bistack refused an exact fit and
 wrapped around on huge sizes

---
 allocators/bistack/bistack.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/allocators/bistack/bistack.c b/allocators/bistack/bistack.c
index 1b42324..eba46f8 100644
--- a/allocators/bistack/bistack.c
+++ b/allocators/bistack/bistack.c
@@ -47,7 +47,8 @@ HARBOL_EXPORT void *harbol_bistack_alloc_front(struct HarbolBiStack *const bistk
 	
 	size_t const aligned_size = harbol_align_size(size, sizeof aligned_size);
 	/// front end arena is too high!
-	if( bistk->front + aligned_size >= bistk->back ) {
+	size_t const margin = bistk->back - bistk->front;
+	if( size > margin || aligned_size > margin ) {
 		return NULL;
 	}
 	size_t const f = bistk->front;
-- 
2.43.0


From a82f147f1531615dbbf8185ac73f7453e000fd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 033/103] fix: the back of a bistack handed out memory before
 its buffer, and misaligned memory

---
 allocators/bistack/bistack.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/allocators/bistack/bistack.c b/allocators/bistack/bistack.c
index eba46f8..0cb1406 100644
--- a/allocators/bistack/bistack.c
+++ b/allocators/bistack/bistack.c
@@ -62,11 +62,14 @@ HARBOL_EXPORT void *harbol_bistack_alloc_back(struct HarbolBiStack *const restri
 	}
 	
 	size_t const aligned_size = harbol_align_size(size, sizeof aligned_size);
+	/// the end of the memory is not necessarily aligned.
+	size_t const aligned_back = bistk->back & ~(sizeof aligned_size - 1);
 	/// back end arena is too low
-	if( bistk->back - aligned_size <= bistk->front ) {
+	size_t const margin = ( aligned_back < bistk->front )? 0 : aligned_back - bistk->front;
+	if( size > margin || aligned_size > margin ) {
 		return NULL;
 	}
-	bistk->back -= aligned_size;
+	bistk->back = aligned_back - aligned_size;
 	return bistk->mem + bistk->back;
 }
 
-- 
2.43.0


From f3e3bed93b17e533a22fabd1d46e265ec4d277f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 034/103] fix: resizing a bistack to 0 bytes released its
 memory but kept the pointer

---
 allocators/bistack/bistack.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/allocators/bistack/bistack.c b/allocators/bistack/bistack.c
index 0cb1406..015a9d5 100644
--- a/allocators/bistack/bistack.c
+++ b/allocators/bistack/bistack.c
@@ -101,6 +101,9 @@ HARBOL_EXPORT size_t harbol_bistack_get_margins(struct HarbolBiStack const bistk
 
 
 HARBOL_EXPORT bool harbol_bistack_resize(struct HarbolBiStack *const restrict bistk, size_t const new_size) {
+	if( new_size==0 ) {
+		return false;
+	}
 	uint8_t *const new_buf = harbol_recalloc(( void* )(bistk->mem), new_size, sizeof *new_buf, bistk->size);
 	if( new_buf==NULL ) {
 		return false;
-- 
2.43.0


From bf3b71d60f53fcfbbc4c59f846a1bc12e34862c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 035/103] fix: object pools accepted pointers that are not one
 of their objects

---
 allocators/objpool/objpool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allocators/objpool/objpool.c b/allocators/objpool/objpool.c
index d4f4de6..b67792d 100644
--- a/allocators/objpool/objpool.c
+++ b/allocators/objpool/objpool.c
@@ -81,7 +81,7 @@ HARBOL_EXPORT void *harbol_objpool_alloc(struct HarbolObjPool *const objpool) {
 
 HARBOL_EXPORT void harbol_objpool_free(struct HarbolObjPool *const restrict objpool, void *const restrict ptr) {
 	uintptr_t const p = ( uintptr_t )(ptr);
-	if( ptr==NULL || p < objpool->mem || p > objpool->mem + (objpool->size * objpool->objsize) ) {
+	if( ptr==NULL || p < objpool->mem || p >= objpool->mem + (objpool->size * objpool->objsize) || (p - objpool->mem) % objpool->objsize != 0 ) {
 		return;
 	}
 	/// when we free our pointer, we recycle the pointer space to store the previous index
-- 
2.43.0


From 10890ea70d8eee5a6717fc78a7b5e0eeda4896c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 036/103] fix: object pools of huge objects wrapped around to
 objects of 0 bytes

---
 allocators/objpool/objpool.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/allocators/objpool/objpool.c b/allocators/objpool/objpool.c
index b67792d..bc2ff2e 100644
--- a/allocators/objpool/objpool.c
+++ b/allocators/objpool/objpool.c
@@ -11,6 +11,9 @@ HARBOL_EXPORT NO_NULL bool harbol_objpool_init(struct HarbolObjPool *const objpo
 	}
 	
 	size_t const aligned_objsize = harbol_align_size(objsize, sizeof(size_t));
+	if( aligned_objsize < objsize ) {
+		return false;
+	}
 	objpool->mem = ( uintptr_t )(calloc(len, aligned_objsize));
 	if( objpool->mem==NIL ) {
 		return false;
-- 
2.43.0


From 87a0890629b9e21040dca7e701ae60658286b1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:53 +0000
Subject: [PATCH 037/103] fix: harbol_mempool_mem_remaining reported the
 negated remaining memory

---
 allocators/mempool/mempool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allocators/mempool/mempool.c b/allocators/mempool/mempool.c
index 21cf32d..9db052c 100644
--- a/allocators/mempool/mempool.c
+++ b/allocators/mempool/mempool.c
@@ -294,7 +294,7 @@ HARBOL_EXPORT bool harbol_mempool_cleanup(struct HarbolMemPool *const restrict m
 }
 
 HARBOL_EXPORT size_t harbol_mempool_mem_remaining(struct HarbolMemPool const *mempool) {
-	size_t total_remaining = mempool->stack.mem - (mempool->stack.mem + mempool->stack.offs);
+	size_t total_remaining = harbol_region_remaining(&mempool->stack);
 	for( struct HarbolMemNode *n = mempool->large.head; n != NULL; n = n->next ) {
 		total_remaining += n->size;
 	}
-- 
2.43.0


From 00a808f29393bc73bea7c657d77f2a55f7683807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:53 +0000
Subject: [PATCH 038/103] fix: a memory pool without memory was reported as
 usable and kept old free lists

---
 allocators/mempool/mempool.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/allocators/mempool/mempool.c b/allocators/mempool/mempool.c
index 9db052c..541aeb6 100644
--- a/allocators/mempool/mempool.c
+++ b/allocators/mempool/mempool.c
@@ -164,8 +164,9 @@ HARBOL_EXPORT bool harbol_mempool_init(struct HarbolMemPool *const mempool, size
 	if( size==0 )
 		return false;
 	
+	*mempool = ( struct HarbolMemPool ){0};
 	mempool->stack = harbol_region_make(size);
-	return true;
+	return mempool->stack.mem != NULL;
 }
 
 HARBOL_EXPORT struct HarbolMemPool harbol_mempool_make(size_t const size, bool *const res) {
@@ -178,6 +179,7 @@ HARBOL_EXPORT bool harbol_mempool_init_from_buffer(struct HarbolMemPool *const m
 	if( size==0 || size<=sizeof(struct HarbolMemNode) )
 		return false;
 	
+	*mempool = ( struct HarbolMemPool ){0};
 	mempool->stack = harbol_region_make_from_buffer(buf, size);
 	return true;
 }
-- 
2.43.0


From 0f6f2fc3c9b652519b2397cfa7607521d9bfe8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:53 +0000
Subject: [PATCH 039/103] fix: the free lists of memory pools dropped and
 corrupted blocks

---
 allocators/mempool/mempool.c | 120 +++++++++++++----------------------
 1 file changed, 44 insertions(+), 76 deletions(-)

diff --git a/allocators/mempool/mempool.c b/allocators/mempool/mempool.c
index 541aeb6..88ea125 100644
--- a/allocators/mempool/mempool.c
+++ b/allocators/mempool/mempool.c
@@ -28,10 +28,10 @@ HARBOL_EXPORT void harbol_memnode_replace(struct HarbolMemNode *const old, struc
 /// makes a current node into the next node.
 HARBOL_EXPORT void harbol_freelist_insert_before(struct HarbolFreeList *const list, struct HarbolMemNode *const curr, struct HarbolMemNode *const insert) {
 	insert->next = curr;
+	insert->prev = curr->prev;
 	if( curr->prev==NULL ) {
 		list->head = insert;
 	} else {
-		insert->prev = curr->prev;
 		curr->prev->next = insert;
 	}
     curr->prev = insert;
@@ -45,81 +45,48 @@ static void _harbol_freelist_transfer_node(struct HarbolMemPool *const mempool,
 
 
 HARBOL_EXPORT void harbol_freelist_insert(struct HarbolMemPool *const mempool, struct HarbolFreeList *const list, struct HarbolMemNode *const node, bool const is_bucket) {
-	if( list->head==NULL ) {
-		list->head = node;
-		list->len++;
+	/// give back the blocks that lie at the top of the stack.
+	while( list->head != NULL && ( uint8_t* )(list->head)==mempool->stack.mem + mempool->stack.offs ) {
+		mempool->stack.offs += harbol_freelist_remove(list, list->head)->size;
+	}
+	if( ( uint8_t* )(node)==mempool->stack.mem + mempool->stack.offs ) {
+		mempool->stack.offs += node->size;
 		return;
 	}
 	
-	for( struct HarbolMemNode *iter = list->head; iter != NULL; iter = iter->next ) {
-		if( ( uintptr_t )(iter)==mempool->stack.offs ) {
-			mempool->stack.offs += iter->size;
-			harbol_freelist_remove(list, iter);
-			iter = list->head;
-			if( iter==NULL ) {
-				list->head = node;    
-				return;
-            }
-			continue;
-		}
-		uintptr_t const inode = ( uintptr_t )(node);
-		uintptr_t const iiter = ( uintptr_t )(iter);
-		uintptr_t const iter_end = iiter + iter->size;
-		uintptr_t const node_end = inode + node->size;
-		
-		if( iter==node ) {
-			return;
-		} else if( iter < node ) {
-			if( iter_end > inode ) {
-				/// node was coalesced prior.
-				return;
-			} else if( iter_end==inode ) {
-				/// if we can coalesce, do so.
-				iter->size += node->size;
-				return;
-			} else if (iter->next == NULL) {
-				// we reached the end of the free list -> append the node
-				iter->next = node;
-				node->prev = iter;
-				list->len++;
-				return;    
-            }
-		} else if( iter > node ) {
-			/// Address sort, lowest to highest aka ascending order.
-			if( iter==list->head ) {
-				if( iter_end==inode ) {
-					iter->size += node->size;
-					if( is_bucket ) {
-						_harbol_freelist_transfer_node(mempool, harbol_freelist_remove(list, iter));
-					}
-				} else if( node_end==iiter ) {
-					node->size += list->head->size;
-					node->next = list->head->next;
-					node->prev = NULL;
-					list->head = node;
-					if( is_bucket ) {
-						_harbol_freelist_transfer_node(mempool, harbol_freelist_remove(list, list->head));
-					}
-				} else {
-					node->next = iter;
-					node->prev = NULL;
-					iter->prev = node;
-					list->head = node;
-					list->len++;
-				}
-				return;
-			} else if( iter_end==inode ) {
-				iter->size += node->size;
-				if( is_bucket ) {
-					_harbol_freelist_transfer_node(mempool, harbol_freelist_remove(list, iter));
-				}
-				return;
-			} else {
-				harbol_freelist_insert_before(list, node, iter);
-				list->len++;
-				return;
-			}
-		}
+	/// Address sort, lowest to highest aka ascending order.
+	struct HarbolMemNode *prev = NULL, *next = list->head;
+	while( next != NULL && next < node ) {
+		prev = next;
+		next = next->next;
+	}
+	if( next==node || (prev != NULL && ( uint8_t* )(prev) + prev->size > ( uint8_t* )(node)) ) {
+		/// node was freed or coalesced prior.
+		return;
+	}
+	
+	if( next != NULL ) {
+		harbol_freelist_insert_before(list, next, node);
+	} else {
+		node->next = NULL;
+		node->prev = prev;
+		*( prev==NULL? &list->head : &prev->next ) = node;
+		list->tail = node;
+	}
+	list->len++;
+	
+	/// if we can coalesce, do so.
+	struct HarbolMemNode *merged = NULL;
+	if( next != NULL && ( uint8_t* )(node) + node->size==( uint8_t* )(next) ) {
+		node->size += harbol_freelist_remove(list, next)->size;
+		merged = node;
+	}
+	if( prev != NULL && ( uint8_t* )(prev) + prev->size==( uint8_t* )(node) ) {
+		prev->size += harbol_freelist_remove(list, node)->size;
+		merged = prev;
+	}
+	if( is_bucket && merged != NULL ) {
+		_harbol_freelist_transfer_node(mempool, harbol_freelist_remove(list, merged));
 	}
 }
 
@@ -268,15 +235,16 @@ HARBOL_EXPORT bool harbol_mempool_free(struct HarbolMemPool *const restrict memp
 	}
 	/// behind the actual pointer data is the allocation info.
 	struct HarbolMemNode *mem_node = ( struct HarbolMemNode* )(( uint8_t* )(ptr) - sizeof *mem_node);
-	size_t const slot = (mem_node->size >> HARBOL_BUCKET_BITS) - 1;
 	
 	/// make sure the pointer data is valid.
-	if( !is_uintptr_in_bounds(( uintptr_t )(mem_node), ( uintptr_t )(mempool->stack.mem + mempool->stack.size), ( uintptr_t )(mempool->stack.offs))
+	uintptr_t const offs = ( uintptr_t )(mem_node) - ( uintptr_t )(mempool->stack.mem);
+	if( offs < mempool->stack.offs || offs >= mempool->stack.size
 			|| !is_uint_in_bounds(mem_node->size, mempool->stack.size, sizeof(struct HarbolMemNode)) )
 		return false;
 	
 	/// if the mem_node is right at the stack base ptr, then add it to the stack.
-	if( ( uintptr_t )(mem_node)==mempool->stack.offs ) {
+	size_t const slot = (mem_node->size >> HARBOL_BUCKET_BITS) - 1;
+	if( ( uint8_t* )(mem_node)==mempool->stack.mem + mempool->stack.offs ) {
 		mempool->stack.offs += mem_node->size;
 	} else {
 		/// try to place it into bucket or large freelist.
-- 
2.43.0


From f67c82b4286bc1052726a844d06bb457327b95c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:53 +0000
Subject: [PATCH 040/103] fix: memory pools never reused coalesced blocks for
 small requests

---
 allocators/mempool/mempool.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/allocators/mempool/mempool.c b/allocators/mempool/mempool.c
index 88ea125..eff9496 100644
--- a/allocators/mempool/mempool.c
+++ b/allocators/mempool/mempool.c
@@ -164,9 +164,14 @@ HARBOL_EXPORT void harbol_mempool_clear(struct HarbolMemPool *const mempool) {
 
 static NO_NULL void *_get_freenode(struct HarbolMemPool *const mempool, size_t const bytes) {
 	/// check if we have a good sized node from the buckets.
-	size_t const slot = (bytes >> HARBOL_BUCKET_BITS) - 1;
-	struct HarbolFreeList *const l = (slot < HARBOL_BUCKET_SIZE)? &mempool->buckets[slot] : &mempool->large;
-	struct HarbolMemNode *new_mem = harbol_freelist_find(l, bytes);
+	/// blocks that were coalesced are in the buckets of larger sizes.
+	struct HarbolMemNode *new_mem = NULL;
+	for( size_t slot = (bytes >> HARBOL_BUCKET_BITS) - 1; new_mem==NULL && slot < HARBOL_BUCKET_SIZE; slot++ ) {
+		new_mem = harbol_freelist_find(&mempool->buckets[slot], bytes);
+	}
+	if( new_mem==NULL ) {
+		new_mem = harbol_freelist_find(&mempool->large, bytes);
+	}
 	if( new_mem==NULL ) {
 		return NULL;
 	} else {
-- 
2.43.0


From 4c8904c9ab63db7fdc4cd8fab06dfd1edbc644cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:37 +0000
Subject: [PATCH 041/103] fix: the first node added to the tail of a linked
 list kept its old link

---
 harbol_common_includes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index 7c7b610..3554037 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -997,8 +997,8 @@ static inline NO_NULL void harbol_link_add_to_tail(void *const h, void *const n,
 		**const tail = t,
 		 *const node = n
 	;
+	node->a = NULL;
 	if( *head != NULL ) {
-		node->a = NULL;
 		(*tail)->a = node;
 		*tail = node;
 	} else {
-- 
2.43.0


From c9646ebf7816bb22e614e755e0b8bed46bef22f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:37 +0000
Subject: [PATCH 042/103] fix: bytes_bitmask overflowed an int from 4 bytes on

---
 harbol_common_includes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index 3554037..589b0ae 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -1119,7 +1119,7 @@ static inline NEVER_NULL(1) void harbol_trilink_set_c(void *const p, void *const
 
 
 static inline size_t bytes_bitmask(size_t const bytes) {
-	return (1 << (bytes * CHAR_BIT)) - 1;
+	return( bytes >= sizeof(size_t) )? SIZE_MAX : (( size_t )(1) << (bytes * CHAR_BIT)) - 1;
 }
 
 #endif /** HARBOL_COMMON_INCLUDES_INCLUDED */
-- 
2.43.0


From 7d11f1aaf7e278bfb8230378c2c6a92073d149d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:37 +0000
Subject: [PATCH 043/103] fix: integer logarithm tables were off by one for
 large bases

---
 harbol_common_includes.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index 589b0ae..d32f5f9 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -832,7 +832,11 @@ static inline NO_NULL size_t make_int_log_tables(size_t const base, size_t (*con
 		return 0;
 	}
 	/// floor( log ~0 / log base ) === highest power of the base `size_t` or other int types can reach.
-	size_t const num_exp = ( size_t )(log(SIZE_MAX) / log(base)) + 1;
+	/// counted with integers, the ratio of rounded logarithms can be off.
+	size_t num_exp = 1;
+	for( size_t x = SIZE_MAX; x >= base; x /= base ) {
+		num_exp++;
+	}
 	size_t *powers = calloc(num_exp + 1, sizeof *powers);
 	if( powers==NULL ) {
 		return 0;
@@ -848,7 +852,11 @@ static inline NO_NULL size_t make_int_log_tables(size_t const base, size_t (*con
 	
 	/// generate log of N table.
 	for( size_t i=0; i < MAX_LOG_TABLE_SIZE; i++ ) {
-		(*logN_table)[i] = floor( log(1UL << i) / log(base) );
+		size_t n = 0;
+		while( i < MAX_LOG_TABLE_SIZE - 1 && n + 1 < num_exp && powers[n + 1] <= ( size_t )(1) << i ) {
+			n++;
+		}
+		(*logN_table)[i] = n;
 	}
 	return num_exp;
 }
-- 
2.43.0


From ab5c21b5b71bd3e6818a61d6e364748185111e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:51 +0000
Subject: [PATCH 044/103] fix: reading malformed UTF-8 ran past the end of the
 text

---
 lex/lex.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index c8dc42c..5667cad 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -60,8 +60,10 @@ HARBOL_EXPORT size_t get_utf8_len(char const c) {
 HARBOL_EXPORT size_t get_str_rune_len(char const cstr[const static 1]) {
 	size_t runes = 0;
 	for( size_t i=0; cstr[i] != 0; ) {
-		size_t const read = get_utf8_len(cstr[i]);
-		i += read;
+		/// a truncated sequence must not step over the null terminator.
+		for( size_t n=get_utf8_len(cstr[i]); n > 0 && cstr[i] != 0; n-- ) {
+			i++;
+		}
 		runes++;
 	}
 	return runes;
@@ -324,7 +326,7 @@ HARBOL_EXPORT size_t read_utf8(char const cstr[const restrict static 1], size_t
 		return 0;
 	}
 	size_t const utf8len = get_utf8_len(cstr[0]);
-	return( utf8len > cstrlen )? 0 : _prechecked_utf8_read(cstr, rune);
+	return( utf8len > 4 || utf8len > cstrlen )? 0 : _prechecked_utf8_read(cstr, rune);
 }
 
 HARBOL_EXPORT int32_t read_utf8_rune(char const cstr[], size_t cstrlen) {
@@ -333,7 +335,7 @@ HARBOL_EXPORT int32_t read_utf8_rune(char const cstr[], size_t cstrlen) {
 	}
 	
 	size_t const utf8len = get_utf8_len(cstr[0]);
-	if( utf8len > cstrlen ) {
+	if( utf8len > 4 || utf8len > cstrlen ) {
 		return -1;
 	}
 	
@@ -356,15 +358,15 @@ HARBOL_EXPORT int32_t *utf8_cstr_to_rune(char const cstr[const restrict static 1
 	while( cstr[iter_len] != 0 && rune_iter < rune_count ) {
 		int32_t rune = 0;
 		size_t const bytes_read = read_utf8(&cstr[iter_len], cstr_len - iter_len, &rune);
-		if( rune==0 ) {
+		if( bytes_read==0 || rune==0 ) {
 			break;
 		}
 		iter_len += bytes_read;
 		runes[rune_iter] = rune;
 		rune_iter++;
 	}
-	*rune_len = rune_count;
-	runes[rune_count] = 0;
+	*rune_len = rune_iter;
+	runes[rune_iter] = 0;
 	return runes;
 }
 
@@ -394,7 +396,7 @@ HARBOL_EXPORT int32_t utf8_to_rune_iter(char const cstr[const restrict static 1]
 		return -1;
 	}
 	int32_t rune = -1;
-	size_t const bytes_read = read_utf8(&cstr[*idx], cstr_len, &rune);
+	size_t const bytes_read = read_utf8(&cstr[*idx], cstr_len - *idx, &rune);
 	if( bytes_read > 0 ) {
 		*idx += bytes_read;
 	}
-- 
2.43.0


From e8eeece1c5a866d27f7f991349b38f3ac910746c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:51 +0000
Subject: [PATCH 045/103] fix: text read from a file was not null terminated

---
 harbol_common_includes.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index d32f5f9..964ac68 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -454,9 +454,10 @@ static inline NO_NULL uint8_t *make_buffer_from_file(FILE *const restrict file,
 	}
 	
 #ifdef __cplusplus
-	uint8_t *restrict stream = reinterpret_cast< decltype(stream) >(calloc(filesize, sizeof *stream));
+	uint8_t *restrict stream = reinterpret_cast< decltype(stream) >(calloc(filesize + 1, sizeof *stream));
 #else
-	uint8_t *restrict stream = calloc(filesize, sizeof *stream);
+	/// text has to be null terminated.
+	uint8_t *restrict stream = calloc(filesize + 1, sizeof *stream);
 #endif
 	if( stream==NULL ) {
 		*bytes = SIZE_MAX;
-- 
2.43.0


From 8ca24d8e68411f5052f1a5103f6f1f50db32a9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:51 +0000
Subject: [PATCH 046/103] fix: code points beyond U+10FFFF passed as valid
 unicode

---
 lex/lex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lex/lex.c b/lex/lex.c
index 5667cad..4926347 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -37,7 +37,7 @@ HARBOL_EXPORT bool is_valid_unicode(int32_t const u) {
 	/// It's not allowed to encode ASCII characters using \U or \u.
 	/// Some characters not in the basic character set (C11 5.2.1p3)
 	/// are allowed as exceptions.
-	return 0xA0u <= c || c=='$' || c=='@' || c=='`';
+	return (0xA0u <= c && c <= 0x10FFFFu) || c=='$' || c=='@' || c=='`';
 }
 
 HARBOL_EXPORT bool check_is_char(char const str[static 1], size_t const len, size_t const idx, int32_t const c) {
-- 
2.43.0


From da4875eeb0278dbac765df3e9a0bede84c0ccf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:51 +0000
Subject: [PATCH 047/103] fix: out of range hex and octal escapes overflowed or
 left the end unset

---
 lex/lex.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index 4926347..9f32b7d 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -406,12 +406,16 @@ HARBOL_EXPORT int32_t utf8_to_rune_iter(char const cstr[const restrict static 1]
 
 HARBOL_EXPORT int32_t lex_hex_escape_char(char const str[static 1], char const **const end) {
 	int32_t r = 0;
-	size_t count = 0;
 	if( !is_hex(*str) ) {
 		r = -1;
 	} else {
-		for( ; *str != 0; count++ ) {
+		while( is_hex(*str) ) {
 			int_fast8_t const c = *str;
+			if( r < 0 || r > 0x10FFFF ) {
+				r = -1; /// out of range.
+				str++;
+				continue;
+			}
 			switch( c ) {
 				case '0': case '1': case '2': case '3': case '4':
 				case '5': case '6': case '7': case '8': case '9':
@@ -420,15 +424,12 @@ HARBOL_EXPORT int32_t lex_hex_escape_char(char const str[static 1], char const *
 					r = (r << 4) | (c - 'a' + 10); break;
 				case 'A': case 'B': case 'C': case 'D': case 'E': case 'F':
 					r = (r << 4) | (c - 'A' + 10); break;
-				default:
-					goto exit;
 			}
 			str++;
 		}
 	}
-exit:;
 	*end = str;
-	return r;
+	return( r > 0x10FFFF )? -1 : r;
 }
 
 HARBOL_EXPORT int32_t lex_octal_escape_char(char const str[static 1], char const **const end) {
@@ -440,7 +441,8 @@ HARBOL_EXPORT int32_t lex_octal_escape_char(char const str[static 1], char const
 		for( ; *str != 0; count++ ) {
 			int_fast8_t const c = *str;
 			if( count > 3 ) {
-				return -1; /// out of range.
+				r = -1; /// out of range.
+				goto exit;
 			} else {
 				switch( c ) {
 					case '0': case '1': case '2': case '3':
-- 
2.43.0


From f4cde6f0b569018378f496f448fffd1f429f12b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:51 +0000
Subject: [PATCH 048/103] fix: skipping comments and strings cut short by the
 end of the text ran past it

---
 lex/lex.c | 45 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index 9f32b7d..c3a4926 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -101,10 +101,13 @@ HARBOL_EXPORT char const *skip_chars_until_newline(char const str[static 1], boo
 }
 
 HARBOL_EXPORT char const *skip_string_literal(char const str[static 1], char const esc) {
+	if( *str==0 ) {
+		return str;
+	}
 	int_fast8_t const quote = *str++;
 	while( *str != 0 && *str != quote ) {
 		int_fast8_t const c = *str;
-		str += ( c==esc )? 2 : 1;
+		str += ( c==esc && str[1] != 0 )? 2 : 1;
 	}
 	return str;
 }
@@ -113,16 +116,22 @@ HARBOL_EXPORT char const *skip_single_line_comment(char const str[static 1], uin
 	char const *begin = str;
 	while( *begin != 0 && *begin != '\n' ) {
 		if( *begin=='\\' ) {
-			while( *++begin != '\n' );
-			if( *begin=='\n' ) {
-				++*lines;
+			do {
+				begin++;
+			} while( *begin != 0 && *begin != '\n' );
+			if( *begin==0 ) {
+				break;
 			}
+			++*lines;
 		}
 		begin++;
 	}
 	return begin;
 }
 HARBOL_EXPORT char const *skip_multi_line_comment(char const str[static 1], char const end_token[static 1], size_t const end_len, uint32_t *const restrict lines) {
+	if( *str==0 ) {
+		return str;
+	}
 	char const *begin = str + 1;
 	while( *begin != 0 && strncmp(end_token, begin, end_len) != 0 ) {
 		if( *begin=='\n' ) {
@@ -140,9 +149,12 @@ HARBOL_EXPORT char *clear_single_line_comment(char str[static 1]) {
 	char *begin = str;
 	while( *begin != 0 && *begin != '\n' ) {
 		if( *begin=='\\' ) {
-			while( *++begin != '\n' );
+			do {
+				begin++;
+			} while( *begin != 0 && *begin != '\n' );
 			memset(str, ' ', begin-str);
-			str = ++begin;
+			begin += *begin != 0;
+			str = begin;
 		} else {
 			begin++;
 		}
@@ -152,6 +164,9 @@ HARBOL_EXPORT char *clear_single_line_comment(char str[static 1]) {
 }
 
 HARBOL_EXPORT char *clear_multi_line_comment(char str[static 1], char const end_token[static 1], size_t const end_len) {
+	if( *str==0 ) {
+		return str;
+	}
 	char *begin = str + 1;
 	while( *begin != 0 && strncmp(end_token, begin, end_len) != 0 ) {
 		if( *begin=='\n' ) {
@@ -171,7 +186,7 @@ HARBOL_EXPORT char *clear_multi_line_comment(char str[static 1], char const end_
 HARBOL_EXPORT char const *skip_multiquote_string(char const str[static 1], char const quote[static 1], size_t const quote_len, char const esc) {
 	while( *str != 0 && strncmp(quote, str, quote_len) != 0 ) {
 		int_fast8_t const c = *str;
-		str += ( c==esc )? 2 : 1;
+		str += ( c==esc && str[1] != 0 )? 2 : 1;
 	}
 	if( *str != 0 ) {
 		str += quote_len;
@@ -182,13 +197,13 @@ HARBOL_EXPORT char const *skip_multiquote_string(char const str[static 1], char
 HARBOL_EXPORT bool lex_single_line_comment(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, uint32_t *const restrict lines) {
 	while( *str != 0 && *str != '\n' ) {
 		if( *str=='\\' ) {
-			harbol_string_add_char(buf, *str);
-			while( *++str != '\n' ) {
-				harbol_string_add_char(buf, *str);
-			}
-			if( *str=='\n' ) {
-				++*lines;
+			do {
+				harbol_string_add_char(buf, *str++);
+			} while( *str != 0 && *str != '\n' );
+			if( *str==0 ) {
+				break;
 			}
+			++*lines;
 		}
 		harbol_string_add_char(buf, *str++);
 	}
@@ -197,6 +212,10 @@ HARBOL_EXPORT bool lex_single_line_comment(char const str[static 1], char const
 }
 
 HARBOL_EXPORT bool lex_multi_line_comment(char const str[static 1], char const **const end, char const end_token[static 1], size_t const end_len, struct HarbolString *const restrict buf, uint32_t *const restrict lines) {
+	if( *str==0 ) {
+		*end = str;
+		return buf->len > 0;
+	}
 	harbol_string_add_char(buf, *str++);
 	while( *str != 0 && strncmp(end_token, str, end_len) != 0 ) {
 		if( *str=='\n' ) {
-- 
2.43.0


From e7c295b3e089c9b88ed9bf490c1c4224925edc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:51 +0000
Subject: [PATCH 049/103] fix: lex_multiquote_string doubled every newline

---
 lex/lex.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lex/lex.c b/lex/lex.c
index c3a4926..c7cb24f 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -242,7 +242,6 @@ HARBOL_EXPORT bool lex_multiquote_string(char const str[static 1], char const **
 		} else if( c=='\n' ) {
 			/// make sure you converted all carriage returns '\r' to '\n'.
 			++*line;
-			harbol_string_add_char(buf, c);
 		}
 		harbol_string_add_char(buf, *str);
 		str++;
-- 
2.43.0


From 255889997b60f12ad867cba295330f9da74514d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:51 +0000
Subject: [PATCH 050/103] fix: a string literal ending in a backslash was read
 past its end

---
 lex/lex.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lex/lex.c b/lex/lex.c
index c7cb24f..07dc7c5 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -1416,6 +1416,10 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_number(char const str[static 1]
 
 static NO_NULL enum HarbolLexErrType _lex_str(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool const raw) {
 	int result = HarbolLexNoErr;
+	if( *str==0 ) {
+		result = HarbolLexSuddenEoFStr;
+		goto lex_str_err;
+	}
 	for( int_fast8_t const quote = *str++; *str != quote; str++ ) {
 		int_fast8_t const c = *str;
 		if( c==0 ) {
@@ -1423,7 +1427,10 @@ static NO_NULL enum HarbolLexErrType _lex_str(char const str[static 1], char con
 			goto lex_str_err;
 		} else if( c=='\\' ) {
 			char const esc = *++str;
-			if( raw ) {
+			if( esc==0 ) {
+				result = HarbolLexSuddenEoFStr;
+				goto lex_str_err;
+			} else if( raw ) {
 				harbol_string_add_char(buf, c);
 				harbol_string_add_char(buf, esc);
 			} else {
-- 
2.43.0


From e01e848ad90b3b216a2ff4c4a2e7fd8ad28ce7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 051/103] fix: number lexers stepped over the null terminator
 or left the end unset

---
 lex/lex.c | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index 07dc7c5..d1a4f8d 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -503,6 +503,7 @@ exit:;
 HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool *const restrict is_float) {
 	int result = HarbolLexNoErr;
 	if( *str==0 ) {
+		*end = str;
 		return HarbolLexEoF;
 	} else if( *str != '0' ) {
 		/// missing initial 0.
@@ -515,7 +516,9 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], ch
 	
 	if( *str != 'x' && *str != 'X' ) {
 		/// missing following `x`.
-		harbol_string_add_char(buf, *str++);
+		if( *str != 0 ) {
+			harbol_string_add_char(buf, *str++);
+		}
 		result = HarbolLexMissingX;
 		goto lex_c_style_hex_err;
 	} else {
@@ -702,6 +705,7 @@ lex_c_style_hex_err:;
 HARBOL_EXPORT enum HarbolLexErrType lex_go_style_hex(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool *const restrict is_float) {
 	int result = HarbolLexNoErr;
 	if( *str==0 ) {
+		*end = str;
 		return HarbolLexEoF;
 	} else if( *str != '0' ) {
 		harbol_string_add_char(buf, *str++);
@@ -712,7 +716,9 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_hex(char const str[static 1], c
 	}
 	
 	if( *str != 'x' && *str != 'X' ) {
-		harbol_string_add_char(buf, *str++);
+		if( *str != 0 ) {
+			harbol_string_add_char(buf, *str++);
+		}
 		result = HarbolLexMissingX;
 		goto lex_go_style_hex_err;
 	} else {
@@ -814,6 +820,7 @@ lex_go_style_hex_err:;
 HARBOL_EXPORT enum HarbolLexErrType lex_c_style_octal(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool *const restrict is_float) {
 	int result = HarbolLexNoErr;
 	if( *str==0 ) {
+		*end = str;
 		return HarbolLexEoF;
 	} else if( *str != '0' ) {
 		harbol_string_add_char(buf, *str++);
@@ -901,6 +908,7 @@ lex_c_style_octal_err:;
 HARBOL_EXPORT enum HarbolLexErrType lex_go_style_octal(char const str[static 1], char const **const end, struct HarbolString *const restrict buf) {
 	int result = HarbolLexNoErr;
 	if( *str==0 ) {
+		*end = str;
 		return HarbolLexEoF;
 	} else if( *str != '0' ) {
 		harbol_string_add_char(buf, *str++);
@@ -911,7 +919,9 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_octal(char const str[static 1],
 	}
 	
 	if( *str != 'o' && *str != 'O' ) {
-		harbol_string_add_char(buf, *str++);
+		if( *str != 0 ) {
+			harbol_string_add_char(buf, *str++);
+		}
 		result = HarbolLexMissingO;
 		goto lex_go_style_octal_err;
 	} else {
@@ -961,6 +971,7 @@ lex_go_style_octal_err:;
 HARBOL_EXPORT enum HarbolLexErrType lex_c_style_binary(char const str[static 1], char const **const end, struct HarbolString *const restrict buf) {
 	int result = HarbolLexNoErr;
 	if( *str==0 ) {
+		*end = str;
 		return HarbolLexEoF;
 	} else if( *str != '0' ) {
 		harbol_string_add_char(buf, *str++);
@@ -971,7 +982,9 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_binary(char const str[static 1],
 	}
 	
 	if( *str != 'b' && *str != 'B' ) {
-		harbol_string_add_char(buf, *str++);
+		if( *str != 0 ) {
+			harbol_string_add_char(buf, *str++);
+		}
 		result = HarbolLexMissingB;
 		goto lex_c_style_binary_err;
 	} else {
@@ -1053,6 +1066,7 @@ lex_c_style_binary_err:;
 HARBOL_EXPORT enum HarbolLexErrType lex_go_style_binary(char const str[static 1], char const **const end, struct HarbolString *const restrict buf) {
 	int result = HarbolLexNoErr;
 	if( *str==0 ) {
+		*end = str;
 		return HarbolLexEoF;
 	} else if( *str != '0' ) {
 		harbol_string_add_char(buf, *str++);
@@ -1064,7 +1078,9 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_binary(char const str[static 1]
 	
 	if( *str != 'b' && *str != 'B' ) {
 		result = HarbolLexMissingB;
-		harbol_string_add_char(buf, *str++);
+		if( *str != 0 ) {
+			harbol_string_add_char(buf, *str++);
+		}
 		goto lex_go_style_binary_err;
 	} else {
 		harbol_string_add_char(buf, *str++);
@@ -1112,6 +1128,7 @@ lex_go_style_binary_err:;
 HARBOL_EXPORT enum HarbolLexErrType lex_c_style_decimal(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool *const restrict is_float) {
 	int result = HarbolLexNoErr;
 	if( *str==0 ) {
+		*end = str;
 		return HarbolLexEoF;
 	}
 	size_t lit_flags = 0;
@@ -1279,6 +1296,7 @@ lex_c_style_decimal_err:;
 HARBOL_EXPORT enum HarbolLexErrType lex_go_style_decimal(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool *const restrict is_float) {
 	int result = HarbolLexNoErr;
 	if( *str==0 ) {
+		*end = str;
 		return HarbolLexEoF;
 	}
 	size_t lit_flags = 0;
@@ -1393,6 +1411,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_number(char const str[static 1],
 			return lex_c_style_decimal(str, end, buf, is_float);
 		}
 	}
+	*end = str;
 	return HarbolLexNoErr;
 }
 
@@ -1411,6 +1430,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_number(char const str[static 1]
 			return lex_go_style_decimal(str, end, buf, is_float);
 		}
 	}
+	*end = str;
 	return HarbolLexNoErr;
 }
 
-- 
2.43.0


From 99d29db24c754b6dc8625cf4c2cf63d13b7ca64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 052/103] fix: number lexers swallowed an operator after a
 float or a suffix

---
 lex/lex.c | 80 ++++++++++++++++++++++---------------------------------
 1 file changed, 32 insertions(+), 48 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index d1a4f8d..6b266a2 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -534,8 +534,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], ch
 		exponent_p = 1u << 4u, /// xxx.xpxxx
 		one_hex    = 1u << 5u,
 		f_suffix   = 1u << 6u,
-		math_op    = 1u << 7u,
-		digit_sep  = 1u << 8u
+		digit_sep  = 1u << 7u
 	;
 	while( *str != 0 && (isalnum(*str) || *str=='.' || *str=='+' || *str=='-' || *str==DigitSep_C) ) {
 		int_fast8_t const chr = *str;
@@ -573,19 +572,18 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], ch
 				}
 				break;
 			case '+': case '-':
-				if( lit_flags & math_op ) {
-					goto lex_c_style_hex_err;
-				} else if( !(lit_flags & (exponent_p|flt_dot)) ) { /// bad +/- placement.
+				if( !(lit_flags & exponent_p) ) { /// bad +/- placement.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexBadPlusMinusPlace;
 					goto lex_c_style_hex_err;
-				} else if( !is_decimal(str[1]) && !(lit_flags & math_op) ) { /// no number after exponent?
+				} else if( str[-1] != 'p' && str[-1] != 'P' ) { /// an operator after the literal.
+					goto lex_c_style_hex_end;
+				} else if( !is_decimal(str[1]) ) { /// no number after exponent?
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexNoNumAfterExp;
 					goto lex_c_style_hex_err;
 				} else {
 					harbol_string_add_char(buf, chr);
-					lit_flags |= math_op;
 				}
 				break;
 			case 'U': case 'u':
@@ -687,6 +685,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], ch
 		}
 		str++;
 	}
+lex_c_style_hex_end:;
 	if( (lit_flags & flt_dot) && !(lit_flags & exponent_p) ) { /// missing exponent...
 		result = HarbolLexHexFltNoExp;
 		goto lex_c_style_hex_err;
@@ -730,8 +729,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_hex(char const str[static 1], c
 		flt_dot    = 1u << 0u,
 		exponent_p = 1u << 1u, /** xxx.xpxxx */
 		digit_sep  = 1u << 2u,
-		math_op    = 1u << 3u,
-		one_hex    = 1u << 4u
+		one_hex    = 1u << 3u
 	;
 	while( *str != 0 && (isalnum(*str) || *str=='.' || *str=='+' || *str=='-' || *str==DigitSep_Go) ) {
 		int_fast8_t const chr = *str;
@@ -763,19 +761,14 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_hex(char const str[static 1], c
 				}
 				break;
 			case '+': case '-':
-				if( lit_flags & math_op ) {
+				if( str[-1] != 'p' && str[-1] != 'P' ) { /// an operator after the literal.
+					goto lex_go_style_hex_end;
+				} else if( !is_decimal(str[1]) ) { /// no number after exponent?
+					result = HarbolLexNoNumAfterExp;
+					harbol_string_add_char(buf, chr);
 					goto lex_go_style_hex_err;
-				} else if( lit_flags & (exponent_p|flt_dot) ) {
-					if( !is_decimal(str[1]) ) { /// no number after exponent?
-						result = HarbolLexNoNumAfterExp;
-						harbol_string_add_char(buf, chr);
-						goto lex_go_style_hex_err;
-					} else {
-						lit_flags |= math_op;
-						harbol_string_add_char(buf, chr);
-					}
 				} else {
-					goto lex_go_style_hex_err;
+					harbol_string_add_char(buf, chr);
 				}
 				break;
 			case 'a': case 'b': case 'c': case 'd': case 'e': case 'f':
@@ -805,6 +798,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_hex(char const str[static 1], c
 		}
 		str++;
 	}
+lex_go_style_hex_end:;
 	if( (lit_flags & flt_dot) && !(lit_flags & exponent_p) ) { /// hex float missing exponent.
 		result = HarbolLexHexFltNoExp;
 		goto lex_go_style_hex_err;
@@ -1140,8 +1134,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_decimal(char const str[static 1]
 		flt_f_flag  = 1u << 4u,
 		flt_e_flag  = 1u << 5u,
 		got_exp_num = 1u << 6u,
-		math_op     = 1u << 7u,
-		digit_sep   = 1u << 8u
+		digit_sep   = 1u << 7u
 	;
 	while( *str != 0 && (isalnum(*str) || *str=='.' || *str=='+' || *str=='-' || *str==DigitSep_C) ) {
 		int_fast8_t const chr = *str;
@@ -1162,17 +1155,14 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_decimal(char const str[static 1]
 				}
 				break;
 			case '-': case '+':
-				if( (lit_flags & (math_op|got_exp_num)) || lit_flags==0 ) {
+				if( !(lit_flags & flt_e_flag) || (str[-1] != 'e' && str[-1] != 'E') ) { /// an operator after the literal.
+					goto lex_c_style_decimal_end;
+				} else if( !is_decimal(str[1]) ) { /// no number after exponent?
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexNoNumAfterExp;
 					goto lex_c_style_decimal_err;
-				} else if( lit_flags & (flt_e_flag|flt_dot) ) {
-					if( !is_decimal(str[1]) ) { /// no number after exponent?
-						harbol_string_add_char(buf, chr);
-						result = HarbolLexNoNumAfterExp;
-						goto lex_c_style_decimal_err;
-					} else {
-						lit_flags |= math_op;
-						harbol_string_add_char(buf, chr);
-					}
+				} else {
+					harbol_string_add_char(buf, chr);
 				}
 				break;
 			case 'F': case 'f':
@@ -1281,6 +1271,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_decimal(char const str[static 1]
 		str++;
 	}
 	
+lex_c_style_decimal_end:;
 	if( (lit_flags & flt_e_flag) && (str[-1]=='e'||str[-1]=='E') ) { /// float missing exponent!
 		result = HarbolLexNoNumAfterExp;
 		goto lex_c_style_decimal_err;
@@ -1303,9 +1294,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_decimal(char const str[static 1
 	size_t const
 		flt_dot = 1u << 0u,
 		flt_e_flag = 1u << 1u,
-		got_exp_num = 1u << 2u,
-		math_op = 1u << 3u,
-		digit_sep = 1u << 4u
+		digit_sep = 1u << 2u
 	;
 	while( *str != 0 && (isalnum(*str) || *str=='.' || *str=='+' || *str=='-' || *str==DigitSep_Go) ) {
 		int_fast8_t const chr = *str;
@@ -1326,17 +1315,14 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_decimal(char const str[static 1
 				}
 				break;
 			case '-': case '+':
-				if( (lit_flags & math_op) || lit_flags==0 ) {
+				if( !(lit_flags & flt_e_flag) || (str[-1] != 'e' && str[-1] != 'E') ) { /// an operator after the literal.
+					goto lex_go_style_decimal_end;
+				} else if( !is_decimal(str[1]) ) { /// no number after exponent?
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexNoNumAfterExp;
 					goto lex_go_style_decimal_err;
-				} else if( lit_flags & (flt_e_flag|flt_dot) ) {
-					if( !is_decimal(str[1]) ) { /// no number after exponent?
-						harbol_string_add_char(buf, chr);
-						result = HarbolLexNoNumAfterExp;
-						goto lex_go_style_decimal_err;
-					} else {
-						lit_flags |= math_op;
-						harbol_string_add_char(buf, chr);
-					}
+				} else {
+					harbol_string_add_char(buf, chr);
 				}
 				break;
 			case 'E': case 'e':
@@ -1356,9 +1342,6 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_decimal(char const str[static 1
 				break;
 			case '0': case '1': case '2': case '3': case '4':
 			case '5': case '6': case '7': case '8': case '9':
-				if( lit_flags & flt_e_flag ) {
-					lit_flags |= got_exp_num;
-				}
 				harbol_string_add_char(buf, chr);
 				lit_flags &= ~digit_sep;
 				break;
@@ -1381,6 +1364,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_decimal(char const str[static 1
 		str++;
 	}
 	
+lex_go_style_decimal_end:;
 	if( (lit_flags & flt_e_flag) && (str[-1]=='e'||str[-1]=='E') ) { /// e mark missing exponent!
 		result = HarbolLexNoNumAfterExp;
 		goto lex_go_style_decimal_err;
-- 
2.43.0


From 276bed137d968b538d4fd45dab4858896eca862e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:44 +0000
Subject: [PATCH 053/103] fix: convert_runes_to_base_int was declared but not
 defined

---
 lex/lex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lex/lex.c b/lex/lex.c
index 6b266a2..44a8a1b 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -1660,7 +1660,7 @@ HARBOL_EXPORT void lex_fix_newlines(struct HarbolString *const str, bool const r
 }
 
  
-HARBOL_EXPORT intmax_t convert_runes_to_base(
+HARBOL_EXPORT intmax_t convert_runes_to_base_int(
 	int32_t const        runes[const restrict static 1],
 	uint_fast8_t const   base,
 	int32_t const        numerals[const restrict static 1],
-- 
2.43.0


From c17f0a09528da250bb08eb01744c9129eedbb17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:44 +0000
Subject: [PATCH 054/103] fix: number lexers accepted extra dots, extra
 exponents and hex literals without digits

---
 lex/lex.c | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index 44a8a1b..7e53181 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -541,7 +541,11 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], ch
 		switch( chr ) {
 			case '.':
 				*is_float = true;
-				if( !(lit_flags & one_hex) ) { /// missing at least one hex number before float dot.
+				if( lit_flags & (flt_dot|exponent_p) ) { /// too many float dots.
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexExtraFltDot;
+					goto lex_c_style_hex_err;
+				} else if( !(lit_flags & one_hex) ) { /// missing at least one hex number before float dot.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexMissingHexB4dot;
 					goto lex_c_style_hex_err;
@@ -736,7 +740,11 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_hex(char const str[static 1], c
 		switch( chr ) {
 			case '.':
 				*is_float = true;
-				if( (lit_flags & digit_sep) || str[1]==DigitSep_Go ) { /// digit sep before or after dot.
+				if( lit_flags & (flt_dot|exponent_p) ) { /// too many float dots.
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexExtraFltDot;
+					goto lex_go_style_hex_err;
+				} else if( (lit_flags & digit_sep) || str[1]==DigitSep_Go ) { /// digit sep before or after dot.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexDigitSepNearDot;
 					goto lex_go_style_hex_err;
@@ -747,7 +755,11 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_hex(char const str[static 1], c
 				break;
 			case 'P': case 'p':
 				*is_float = true;
-				if( !(lit_flags & one_hex) ) { /// missing at least one hex number before hex exponent.
+				if( lit_flags & exponent_p ) { /// too many P's.
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexTooManyPs;
+					goto lex_go_style_hex_err;
+				} else if( !(lit_flags & one_hex) ) { /// missing at least one hex number before hex exponent.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexHexNoDigitsB4Exp;
 					goto lex_go_style_hex_err;
@@ -757,6 +769,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_hex(char const str[static 1], c
 					goto lex_go_style_hex_err;
 				} else {
 					lit_flags |= exponent_p;
+					lit_flags &= ~one_hex;
 					harbol_string_add_char(buf, chr);
 				}
 				break;
@@ -802,6 +815,9 @@ lex_go_style_hex_end:;
 	if( (lit_flags & flt_dot) && !(lit_flags & exponent_p) ) { /// hex float missing exponent.
 		result = HarbolLexHexFltNoExp;
 		goto lex_go_style_hex_err;
+	} else if( !(lit_flags & one_hex) ) { /// hex float or int with no digits.
+		result = HarbolLexHexMissingDigits;
+		goto lex_go_style_hex_err;
 	} else if( lit_flags & digit_sep ) { /// digit seps can only separate digits.
 		result = HarbolLexDigitSepNotSepDigits;
 		goto lex_go_style_hex_err;
@@ -1140,7 +1156,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_decimal(char const str[static 1]
 		int_fast8_t const chr = *str;
 		switch( chr ) {
 			case '.':
-				if( lit_flags & flt_dot ) { /// too many float dots.
+				if( lit_flags & (flt_dot|flt_e_flag) ) { /// too many float dots.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexExtraFltDot;
 					goto lex_c_style_decimal_err;
@@ -1225,7 +1241,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_decimal(char const str[static 1]
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexTooManyLs;
 					goto lex_c_style_decimal_err;
-				} else if( (lit_flags & (flt_dot|flt_f_flag|flt_e_flag)) && (lit_flags & (long2|uflag)) ) { /// int suffix on float literal.
+				} else if( (lit_flags & (flt_dot|flt_f_flag|flt_e_flag)) && (lit_flags & (long1|uflag)) ) { /// int suffix on float literal.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexIntSuffixOnFlt;
 					goto lex_c_style_decimal_err;
@@ -1301,7 +1317,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_decimal(char const str[static 1
 		switch( chr ) {
 			case '.':
 				*is_float = true;
-				if( lit_flags & flt_dot ) { /// too many float dots.
+				if( lit_flags & (flt_dot|flt_e_flag) ) { /// too many float dots.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexExtraFltDot;
 					goto lex_go_style_decimal_err;
-- 
2.43.0


From 48da24985cdc4ff7a4b5a75d478f4665befd224e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 055/103] fix: converting a literal with digit separators
 stopped at the first separator

---
 lex/lex.c | 43 ++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 38 insertions(+), 5 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index 7e53181..b9d5f60 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -1611,37 +1611,70 @@ HARBOL_EXPORT bool lex_until(char const str[static 1], char const **const end, s
 	return buf->len > 0;
 }
 
+/// `strtoll` & co. don't know about digit separators: makes a copy without them if there are any.
+static char *_remove_digit_seps(char const digits[static 1], char const seps[static 1]) {
+	if( digits[strcspn(digits, seps)]==0 ) {
+		return NULL;
+	}
+	char *const copy = calloc(strlen(digits) + 1, sizeof *copy);
+	for( size_t i=0, n=0; copy != NULL && digits[i] != 0; i++ ) {
+		if( strchr(seps, digits[i])==NULL ) {
+			copy[n++] = digits[i];
+		}
+	}
+	return copy;
+}
+
+static uintmax_t _string_to_int(char const digits[static 1], char **const end, int const base, char const seps[static 1], bool const is_signed) {
+	char *const copy = _remove_digit_seps(digits, seps);
+	char const *const text = copy != NULL? copy : digits;
+	char *stop = NULL;
+	uintmax_t const value = is_signed? ( uintmax_t )(strtoll(text, &stop, base)) : strtoull(text, &stop, base);
+	if( end != NULL ) {
+		/// find the end in the original text.
+		size_t i = 0;
+		for( size_t n = stop - text; n > 0; i++ ) {
+			n -= copy==NULL || strchr(seps, digits[i])==NULL;
+		}
+		*end = ( char* )(&digits[i]);
+	}
+	free(copy);
+	return value;
+}
+
 HARBOL_EXPORT intmax_t lex_c_string_to_int(struct HarbolString const *const str, char **const end) {
 	bool const is_binary = !strncmp(str->cstr, "0b", 2) || !strncmp(str->cstr, "0B", 2);
 	size_t const extra = (is_binary)? 2 : 0;
-	return strtoll(&str->cstr[extra], end, is_binary? 2 : 0);
+	return _string_to_int(&str->cstr[extra], end, is_binary? 2 : 0, ( char[] ){DigitSep_C, 0}, true);
 }
 
 HARBOL_EXPORT intmax_t lex_go_string_to_int(struct HarbolString const *const str, char **const end) {
 	bool const is_octal  = !strncmp(str->cstr, "0o", 2) || !strncmp(str->cstr, "0O", 2);
 	bool const is_binary = !strncmp(str->cstr, "0b", 2) || !strncmp(str->cstr, "0B", 2);
 	size_t const extra = (is_octal || is_binary)? 2 : 0;
-	return strtoll(&str->cstr[extra], end, is_octal? 8 : is_binary? 2 : 0);
+	return _string_to_int(&str->cstr[extra], end, is_octal? 8 : is_binary? 2 : 0, ( char[] ){DigitSep_Go, 0}, true);
 }
 
 
 HARBOL_EXPORT uintmax_t lex_c_string_to_uint(struct HarbolString const *const str, char **const end) {
 	bool const is_binary = !strncmp(str->cstr, "0b", 2) || !strncmp(str->cstr, "0B", 2);
 	size_t const extra = (is_binary)? 2 : 0;
-	return strtoull(&str->cstr[extra], end, is_binary? 2 : 0);
+	return _string_to_int(&str->cstr[extra], end, is_binary? 2 : 0, ( char[] ){DigitSep_C, 0}, false);
 }
 
 HARBOL_EXPORT uintmax_t lex_go_string_to_uint(struct HarbolString const *const str, char **const end) {
 	bool const is_octal  = !strncmp(str->cstr, "0o", 2) || !strncmp(str->cstr, "0O", 2);
 	bool const is_binary = !strncmp(str->cstr, "0b", 2) || !strncmp(str->cstr, "0B", 2);
 	size_t const extra = (is_octal || is_binary)? 2 : 0;
-	return strtoull(&str->cstr[extra], end, is_octal? 8 : is_binary? 2 : 0);
+	return _string_to_int(&str->cstr[extra], end, is_octal? 8 : is_binary? 2 : 0, ( char[] ){DigitSep_Go, 0}, false);
 }
 
 HARBOL_EXPORT floatmax_t lex_string_to_float(struct HarbolString const *const str) {
 	bool const is_hex = !strncmp(str->cstr, "0x", 2) || !strncmp(str->cstr, "0X", 2);
 	floatmax_t f = 0;
-	harbol_string_scan(str, is_hex? "%" SCNxfMAX "" : "%" SCNfMAX "", &f);
+	char *const copy = _remove_digit_seps(str->cstr, ( char[] ){DigitSep_C, DigitSep_Go, 0});
+	sscanf(copy != NULL? copy : str->cstr, is_hex? "%" SCNxfMAX "" : "%" SCNfMAX "", &f);
+	free(copy);
 	return f;
 }
 
-- 
2.43.0


From fdf96a323a774ae7fc0b0bfeb34e5623d7288dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:14 +0000
Subject: [PATCH 056/103] fix: base_2_digits counted no digit for 0

---
 harbol_common_includes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index 964ac68..c997566 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -710,7 +710,7 @@ static inline size_t int_log2(size_t const x) {
 
 static inline size_t base_2_digits(size_t const x) {
 #if defined(COMPILER_CLANG) || defined(COMPILER_GCC)
-	return x > 0? (sizeof(size_t) * CHAR_BIT) - __builtin_clzl(x) : 0;
+	return x > 0? (sizeof(size_t) * CHAR_BIT) - __builtin_clzl(x) : 1;
 #else
 	return int_log2(x) + 1;
 #endif
-- 
2.43.0


From 5205de9955e965744cd5234541ba0d581c8f2b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:02 +0000
Subject: [PATCH 057/103] fix: long numbers and names in math expressions
 overran the lexeme buffer

---
 math/math_parser.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/math/math_parser.c b/math/math_parser.c
index fd733da..3ba41d3 100644
--- a/math/math_parser.c
+++ b/math/math_parser.c
@@ -38,14 +38,21 @@ struct HarbolMathLexer {
 };
 
 
+/// keeps the lexeme null terminated.
+static NO_NULL void _harbol_math_add_char(struct HarbolMathLexer *const restrict ls, char const c) {
+	if( ls->tok.size < LEXEME_SIZE - 1 ) {
+		ls->tok.lexeme[ls->tok.size] = c;
+		ls->tok.size++;
+	}
+}
+
 static NO_NULL bool _harbol_math_lex_decimal(struct HarbolMathLexer *const restrict ls, char const expression[const restrict static 1]) {
 	bool has_dot = false;
 	while( expression[ls->idx] != 0 && (isalnum(expression[ls->idx]) || expression[ls->idx]=='.') ) {
 		switch( expression[ls->idx] ) {
 			case '0': case '1': case '2': case '3': case '4':
 			case '5': case '6': case '7': case '8': case '9': {
-				ls->tok.lexeme[ls->tok.size] = expression[ls->idx];
-				ls->tok.size++;
+				_harbol_math_add_char(ls, expression[ls->idx]);
 				ls->idx++;
 				break;
 			}
@@ -54,15 +61,13 @@ static NO_NULL bool _harbol_math_lex_decimal(struct HarbolMathLexer *const restr
 					//LogError("ConfigMap-Math :: extra dot in decimal literal");
 					return false;
 				}
-				ls->tok.lexeme[ls->tok.size] = expression[ls->idx];
-				ls->tok.size++;
+				_harbol_math_add_char(ls, expression[ls->idx]);
 				ls->idx++;
 				has_dot = true;
 				break;
 			}
 			default: {
-				ls->tok.lexeme[ls->tok.size] = expression[ls->idx];
-				ls->tok.size++;
+				_harbol_math_add_char(ls, expression[ls->idx]);
 				//LogError("ConfigMap-Math :: invalid decimal literal: '%s'", ls->tok.lexeme);
 				return false;
 			}
@@ -87,9 +92,11 @@ static NO_NULL bool _harbol_math_get_token(struct HarbolMathLexer *const restric
 			case '5': case '6': case '7': case '8': case '9': {
 				ls->tok.tag = TokenNum;
 				/// Decimal/Float.
+				size_t const start = ls->idx;
 				bool const res = _harbol_math_lex_decimal(ls, expression);
 				if( res ) {
-					ls->tok.val = strtofmax(ls->tok.lexeme, NULL);
+					/// the lexeme might not hold every digit.
+					ls->tok.val = strtofmax(&expression[start], NULL);
 				}
 				return res;
 			}
@@ -158,7 +165,7 @@ static NO_NULL bool _harbol_math_get_token(struct HarbolMathLexer *const restric
 			}
 			default: {
 				bool got_something = false;
-				while( expression[ls->idx] != 0 && isalnum(expression[ls->idx]) && ls->tok.size < LEXEME_SIZE ) {
+				while( expression[ls->idx] != 0 && isalnum(expression[ls->idx]) && ls->tok.size < LEXEME_SIZE - 1 ) {
 					ls->tok.lexeme[ls->tok.size] = expression[ls->idx];
 					ls->idx++;
 					ls->tok.size++;
-- 
2.43.0


From 161ba0eb571c9c3c09635892cd9470edf33237c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:34 +0000
Subject: [PATCH 058/103] fix: resizing a block that holds no elements yet
 leaked it

---
 harbol_common_includes.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index c997566..f616af1 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -174,7 +174,7 @@
 
 
 static inline void *harbol_recalloc(void *const arr, size_t const new_size, size_t const element_size, size_t const old_size) {
-	if( arr==NULL || old_size==0 ) {
+	if( arr==NULL ) {
 		return calloc(new_size, element_size);
 	}
 #ifdef __cplusplus
@@ -193,7 +193,7 @@ static inline void *harbol_recalloc(void *const arr, size_t const new_size, size
 #ifdef __cplusplus
 template< typename T >
 static inline T *harbol_tg_recalloc(T *const arr, size_t const new_size, size_t const old_size) {
-	if( arr==nullptr || old_size==0 ) {
+	if( arr==nullptr ) {
 		return ( T* )(calloc(new_size, sizeof *arr));
 	}
 	
-- 
2.43.0


From b756b96c79a0570e7fbc3481a489e666352d5c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:34 +0000
Subject: [PATCH 059/103] fix: resizing to more bytes than fit a size wrapped
 around to a small block

---
 harbol_common_includes.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index f616af1..c6cc29e 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -176,6 +176,8 @@
 static inline void *harbol_recalloc(void *const arr, size_t const new_size, size_t const element_size, size_t const old_size) {
 	if( arr==NULL ) {
 		return calloc(new_size, element_size);
+	} else if( element_size != 0 && new_size > SIZE_MAX / element_size ) {
+		return NULL;
 	}
 #ifdef __cplusplus
 	uint8_t *const restrict new_block = reinterpret_cast< decltype(new_block) >(realloc(arr, new_size * element_size));
-- 
2.43.0


From 5d0dc3b56ed90336597c125c80d8e34c68f95bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:07 +0000
Subject: [PATCH 060/103] fix: message spans garbled texts of one line, cut
 their code and crashed on empty or missing ones

---
 msg_span/msg_span.c | 49 +++++++++++++++++++--------------------------
 1 file changed, 21 insertions(+), 28 deletions(-)

diff --git a/msg_span/msg_span.c b/msg_span/msg_span.c
index 21fbc8e..53b5684 100644
--- a/msg_span/msg_span.c
+++ b/msg_span/msg_span.c
@@ -25,47 +25,40 @@ HARBOL_EXPORT struct HarbolMsgSpan harbol_msg_span_make(char const cstr[const re
 }
 
 HARBOL_EXPORT bool harbol_msg_span_init(struct HarbolMsgSpan *const restrict msgspan, char const cstr[const restrict static 1], bool const is_filename, bool const free_src_str) {
-	(( is_filename )? harbol_string_read_file : harbol_string_copy_cstr)(&msgspan->src.code, cstr);
-	if( is_filename ) {
-		harbol_string_copy_cstr(&msgspan->src.filename, cstr);
-	}
-	lex_fix_newlines(&msgspan->src.code, true);
-	
-	size_t newlines = harbol_string_count_cstr(&msgspan->src.code, "\n");
-	if( newlines==0 ) {
-		newlines = 1;
-	}
-	
-	size_t *newline_offs = calloc(newlines, sizeof *newline_offs);
-	if( newline_offs==NULL ) {
+	bool const loaded = (( is_filename )? harbol_string_read_file : harbol_string_copy_cstr)(&msgspan->src.code, cstr);
+	/// an empty text is still a text of one (empty) line.
+	if( !loaded && (is_filename || cstr[0] != 0) ) {
 		harbol_string_clear(&msgspan->src.code);
 		return false;
 	}
+	lex_fix_newlines(&msgspan->src.code, true);
 	
-	harbol_string_cstr_offsets(&msgspan->src.code, "\n", newline_offs, newlines);
-	for( size_t i=0; i < newlines; i++ ) {
-		size_t const offs = newline_offs[i];
-		msgspan->src.code.cstr[offs] = 0;
-	}
-	
-	msgspan->src.lines = calloc(newlines + 1, sizeof *msgspan->src.lines);
+	size_t const num_lines = harbol_string_count_cstr(&msgspan->src.code, "\n") + 1;
+	msgspan->src.lines = calloc(num_lines, sizeof *msgspan->src.lines);
 	if( msgspan->src.lines==NULL ) {
 		harbol_string_clear(&msgspan->src.code);
-		free(newline_offs); newline_offs = NULL;
 		return false;
 	}
 	
-	msgspan->src.len = newlines + 1;
-	harbol_string_copy_cstr(&msgspan->src.lines[0], msgspan->src.code.cstr);
-	for( size_t i=1; i < newlines; i++ ) {
-		size_t const offs = newline_offs[i-1] + 1;
-		harbol_string_copy_cstr(&msgspan->src.lines[i], &msgspan->src.code.cstr[offs]);
+	msgspan->src.len = num_lines;
+	char *line = msgspan->src.code.cstr;
+	for( size_t i=0; i < num_lines && line != NULL; i++ ) {
+		char *const end = strchr(line, '\n');
+		if( end != NULL ) {
+			*end = 0;
+		}
+		harbol_string_copy_cstr(&msgspan->src.lines[i], line);
+		if( end != NULL ) {
+			*end = '\n';
+		}
+		line = ( end==NULL )? NULL : end + 1;
+	}
+	if( is_filename ) {
+		harbol_string_copy_cstr(&msgspan->src.filename, cstr);
 	}
-	harbol_string_copy_cstr(&msgspan->src.lines[newlines], &msgspan->src.code.cstr[newline_offs[newlines-1] + 1]);
 	if( free_src_str ) {
 		harbol_string_clear(&msgspan->src.code);
 	}
-	free(newline_offs); newline_offs = NULL;
 	return true;
 }
 
-- 
2.43.0


From 7a6b3ae758450f2021708032f2615190c692e297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:07 +0000
Subject: [PATCH 061/103] fix: clearing a message span kept its number of lines

---
 msg_span/msg_span.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/msg_span/msg_span.c b/msg_span/msg_span.c
index 53b5684..9ff898e 100644
--- a/msg_span/msg_span.c
+++ b/msg_span/msg_span.c
@@ -94,6 +94,7 @@ HARBOL_EXPORT void harbol_msg_span_clear(struct HarbolMsgSpan *const msgspan) {
 		harbol_string_clear(&msgspan->src.lines[i]);
 	}
 	free(msgspan->src.lines); msgspan->src.lines = NULL;
+	msgspan->src.len = 0;
 	_harbol_msg_span_purge_labels(msgspan, true);
 	_harbol_msg_span_purge_notes(msgspan, true);
 }
-- 
2.43.0


From bf15ee39528bd55c378c469ac103d8ea734d6939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:07 +0000
Subject: [PATCH 062/103] fix: message spans crashed on lines outside of the
 code, printed (null) for empty ones and hung on spans ending left of their
 start

---
 msg_span/msg_span.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/msg_span/msg_span.c b/msg_span/msg_span.c
index 9ff898e..a93e00d 100644
--- a/msg_span/msg_span.c
+++ b/msg_span/msg_span.c
@@ -176,12 +176,17 @@ static NEVER_NULL(1) void _print_file_margins(FILE *const restrict stream, char
 }
 
 
+/// strings without text have no buffer.
+static NO_NULL char const *_str_text(struct HarbolString const *const str) {
+	return( str->cstr==NULL )? "" : str->cstr;
+}
+
 static NO_NULL void _output_span(struct HarbolMsgSpan const *const msgspan, struct HarbolTokenSpan const span, size_t const len, FILE *const stream) {
 	for( uint32_t line = span.line_start; line <= span.line_end; line++ ) {
 		struct HarbolString line_num_pad = {0};
 		harbol_string_add_char_rep(&line_num_pad, ' ', len - base_10_digits(line));
 		struct HarbolString const *code_line = harbol_msg_span_get_line(msgspan, line-1);
-		fprintf(stream, "%u%s|%s\n", line, line_num_pad.cstr, code_line->cstr);
+		fprintf(stream, "%u%s|%s\n", line, _str_text(&line_num_pad), code_line==NULL? "" : _str_text(code_line));
 		harbol_string_clear(&line_num_pad);
 	}
 }
@@ -240,12 +245,12 @@ HARBOL_EXPORT void harbol_msg_span_emit_to_stream(
 			/// here we emit the label msgs.
 			struct HarbolString colm_pad={0}, hilighter={0};
 			harbol_string_add_char_rep(&colm_pad, ' ', span.colm_start);
-			for( size_t n=0; n < (span.colm_end - span.colm_start); n++ ) {
+			for( size_t n=span.colm_start; n < span.colm_end; n++ ) {
 				write_utf8_str(&hilighter, labels[i].sym);
 			}
 			
 			char const *const restrict sym_color = labels[i].sym_color;
-			fprintf(stream, "%s|%s%s%s%s %s\n", span_pad.cstr, colm_pad.cstr, sym_color==NULL? "" : sym_color, hilighter.cstr, COLOR_RESET, labels[i].msg.cstr);
+			fprintf(stream, "%s|%s%s%s%s %s\n", span_pad.cstr, colm_pad.cstr, sym_color==NULL? "" : sym_color, _str_text(&hilighter), COLOR_RESET, _str_text(&labels[i].msg));
 			harbol_string_clear(&colm_pad);
 			harbol_string_clear(&hilighter);
 		}
-- 
2.43.0


From 50d272558437ace5e25b1d783240d0fcd4fd7d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:07 +0000
Subject: [PATCH 063/103] fix: messages without a type printed (null)

---
 msg_sys/msg_sys.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msg_sys/msg_sys.c b/msg_sys/msg_sys.c
index 103b7f4..88668d7 100644
--- a/msg_sys/msg_sys.c
+++ b/msg_sys/msg_sys.c
@@ -21,7 +21,7 @@ static NEVER_NULL(1) void _print_file_margins(FILE *const restrict file, char co
 HARBOL_EXPORT void harbol_write_msg(size_t *const restrict msg_cnt, FILE *const restrict stream, char const filename[const restrict], char const msgtype[const restrict], char const msg_color[const restrict], uint32_t const *const line, uint32_t const *const col, char const msg_fmt[const restrict static 1], ...) {
 	va_list args; va_start(args, msg_fmt);
 	_print_file_margins(stream, filename, line, col);
-	fprintf(stream, "%s%s%s: **** ", msg_color, msgtype, COLOR_RESET);
+	fprintf(stream, "%s%s%s: **** ", msg_color, msgtype==NULL? "" : msgtype, COLOR_RESET);
 	vfprintf(stream, msg_fmt, args);
 	fprintf(stream, " ****\n");
 	va_end(args);
-- 
2.43.0


From 7f9039ffe01d6438c1515b124092597130e83e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:09 +0000
Subject: [PATCH 064/103] fix: spans declared their optional file name and note
 color as never NULL, which removed the checks for NULL

---
 msg_span/msg_span.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msg_span/msg_span.c b/msg_span/msg_span.c
index a93e00d..5aff228 100644
--- a/msg_span/msg_span.c
+++ b/msg_span/msg_span.c
@@ -140,7 +140,7 @@ HARBOL_EXPORT bool harbol_msg_span_add_label(struct HarbolMsgSpan *const restric
 	return res;
 }
 
-HARBOL_EXPORT bool harbol_msg_span_add_note(struct HarbolMsgSpan *const restrict msgspan, char const msg_color[const restrict static 1], char const msg[const restrict static 1], ...) {
+HARBOL_EXPORT bool harbol_msg_span_add_note(struct HarbolMsgSpan *const restrict msgspan, char const msg_color[const restrict], char const msg[const restrict static 1], ...) {
 	struct HarbolString note = {0};
 	if( harbol_array_full(&msgspan->notes) && !harbol_array_grow(&msgspan->notes, sizeof note) ) {
 		return false;
@@ -163,7 +163,7 @@ HARBOL_EXPORT bool harbol_msg_span_add_note(struct HarbolMsgSpan *const restrict
 }
 
 
-static NEVER_NULL(1) void _print_file_margins(FILE *const restrict stream, char const filename[const restrict static 1], uint32_t const *const restrict line, uint32_t const *const restrict col) {
+static NEVER_NULL(1) void _print_file_margins(FILE *const restrict stream, char const filename[const restrict], uint32_t const *const restrict line, uint32_t const *const restrict col) {
 	if( filename != NULL ) {
 		fprintf(stream, "\n--> %s", filename);
 		if( line != NULL ) {
-- 
2.43.0


From 5da5420d7ed35eb2efab52ab859a8634de5c1353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:28 +0000
Subject: [PATCH 065/103] fix: config values that could not be inserted (keys
 made equal by enum or math, double includes) leaked

---
 cfg/cfg.c | 65 ++++++++++++++++++++++++++++---------------------------
 1 file changed, 33 insertions(+), 32 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 69ddaa3..2b65eea 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -76,6 +76,23 @@ static bool NO_NULL _lex_number(char const **restrict strref, struct HarbolStrin
 	return str->len > 0;
 }
 
+/// takes over the value: if it can't be inserted, it's destroyed.
+static NO_NULL bool _harbol_cfg_insert(struct HarbolMap *const map, struct HarbolString const *const key, void *const val, size_t const len, enum HarbolCfgType const type, HarbolCfgState *const parse_state) {
+	bool made = false;
+	struct HarbolVariant var = harbol_variant_make(val, len, type, &made);
+	if( made && harbol_map_insert(map, key->cstr, key->len+1, &var, sizeof var) ) {
+		return true;
+	}
+	harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "parse error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: unable to insert value for key '%s'.\n", key->cstr);
+	switch( type ) {
+		case HarbolCfgType_Map:    harbol_cfg_free(val);    break;
+		case HarbolCfgType_String: harbol_string_free(val); break;
+		default:                   break;
+	}
+	harbol_variant_clear(&var);
+	return false;
+}
+
 static NO_NULL bool harbol_cfg_parse_section(struct HarbolMap *cfg, char const **code_ref, HarbolCfgState *parse_state);
 static NO_NULL bool harbol_cfg_parse_number(struct HarbolMap *cfg, struct HarbolString const *key, char const **code_ref, HarbolCfgState *parse_state);
 
@@ -194,8 +211,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			harbol_string_clear(&file_path);
 			return true;
 		} else {
-			struct HarbolVariant var = harbol_variant_make(&included_cfg, sizeof included_cfg, HarbolCfgType_Map, &( bool ){0});
-			bool const inclusion_res = harbol_map_insert(map, file_path.cstr, file_path.len+1, &var, sizeof var);
+			bool const inclusion_res = _harbol_cfg_insert(map, &file_path, &included_cfg, sizeof included_cfg, HarbolCfgType_Map, parse_state);
 			harbol_string_clear(&file_path);
 			return inclusion_res;
 		}
@@ -237,13 +253,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		}
 		
 		res = harbol_cfg_parse_section(subsection, cfgcoderef, parse_state);
-		struct HarbolVariant var = harbol_variant_make(&subsection, sizeof subsection, HarbolCfgType_Map, &( bool ){0});
-		if( !harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var) ) {
-			harbol_write_msg(NULL, stderr, parse_state->cfg_filename, "memory warning", COLOR_MAGENTA, &parse_state->curr_line, NULL, "Harbol Config Parser :: some how failed to insert subsection for key '%s', destroying...\n", keystr.cstr);
-			harbol_cfg_free(&subsection);
-			harbol_string_clear(&keystr);
-			harbol_variant_clear(&var);
-		}
+		res &= _harbol_cfg_insert(map, &keystr, &subsection, sizeof subsection, HarbolCfgType_Map, parse_state);
 		parse_state->local_iota = old_iota;
 		parse_state->local_enum = old_enum;
 	} else if( **cfgcoderef=='"' || **cfgcoderef=='\'' ) {
@@ -276,9 +286,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			harbol_string_replace_range(str, math_marker - str->cstr, ( size_t )(math_end - str->cstr), number);
 			free(number); number = NULL;
 		}
-		struct HarbolVariant var = harbol_variant_make(&str, sizeof str, HarbolCfgType_String, &( bool ){0});
-		harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var);
-		res = true;
+		res = _harbol_cfg_insert(map, &keystr, &str, sizeof str, HarbolCfgType_String, parse_state);
 	} else if( **cfgcoderef=='c' || **cfgcoderef=='v' ) {
 		/// color or vector value!
 		char const valtype = *(*cfgcoderef)++;
@@ -330,10 +338,9 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		}
 		(*cfgcoderef)++;
 		
-		struct HarbolVariant var = (valtype=='c')?
-			  harbol_variant_make(&matrix_value.color, sizeof matrix_value.color, HarbolCfgType_Color, &( bool ){0})
-			: harbol_variant_make(&matrix_value.vec4d, sizeof matrix_value.vec4d, HarbolCfgType_Vec4D, &( bool ){0});
-		res = harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var);
+		res = (valtype=='c')?
+			  _harbol_cfg_insert(map, &keystr, &matrix_value.color, sizeof matrix_value.color, HarbolCfgType_Color, parse_state)
+			: _harbol_cfg_insert(map, &keystr, &matrix_value.vec4d, sizeof matrix_value.vec4d, HarbolCfgType_Vec4D, parse_state);
 	} else if( **cfgcoderef=='t' ) {
 		/// true bool value.
 		if( strncmp("true", *cfgcoderef, sizeof("true")-1) ) {
@@ -342,8 +349,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			return false;
 		}
 		*cfgcoderef += sizeof("true") - 1;
-		struct HarbolVariant var = harbol_variant_make(&( bool ){true}, sizeof(bool), HarbolCfgType_Bool, &( bool ){0});
-		res = harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var);
+		res = _harbol_cfg_insert(map, &keystr, &( bool ){true}, sizeof(bool), HarbolCfgType_Bool, parse_state);
 	} else if( **cfgcoderef=='f' ) {
 		/// false bool value
 		if( strncmp("false", *cfgcoderef, sizeof("false")-1) ) {
@@ -352,8 +358,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			return false;
 		}
 		*cfgcoderef += sizeof("false") - 1;
-		struct HarbolVariant var = harbol_variant_make(&( bool ){false}, sizeof(bool), HarbolCfgType_Bool, &( bool ){0});
-		res = harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var);
+		res = _harbol_cfg_insert(map, &keystr, &( bool ){false}, sizeof(bool), HarbolCfgType_Bool, parse_state);
 	} else if( **cfgcoderef=='n' ) {
 		/// null value.
 		if( strncmp("null", *cfgcoderef, sizeof("null")-1) ) {
@@ -362,8 +367,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			return false;
 		}
 		*cfgcoderef += sizeof("null") - 1;
-		struct HarbolVariant var = harbol_variant_make(&( char ){0}, sizeof(char), HarbolCfgType_Null, &( bool ){0});
-		res = harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var);
+		res = _harbol_cfg_insert(map, &keystr, &( char ){0}, sizeof(char), HarbolCfgType_Null, parse_state);
 	} else if( **cfgcoderef=='I' ) {
 		/// local iota value.
 		if( strncmp("IOTA", *cfgcoderef, sizeof("IOTA")-1) ) {
@@ -372,9 +376,8 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			return false;
 		}
 		*cfgcoderef += sizeof("IOTA") - 1;
-		struct HarbolVariant var = harbol_variant_make(&parse_state->global_iota, sizeof parse_state->global_iota, HarbolCfgType_Int, &( bool ){0});
+		res = _harbol_cfg_insert(map, &keystr, &parse_state->global_iota, sizeof parse_state->global_iota, HarbolCfgType_Int, parse_state);
 		parse_state->global_iota++;
-		res = harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var);
 	} else if( **cfgcoderef=='i' ) {
 		/// local iota value.
 		if( strncmp("iota", *cfgcoderef, sizeof("iota")-1) ) {
@@ -383,9 +386,8 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			return false;
 		}
 		*cfgcoderef += sizeof("iota") - 1;
-		struct HarbolVariant var = harbol_variant_make(parse_state->local_iota, sizeof *parse_state->local_iota, HarbolCfgType_Int, &( bool ){0});
+		res = _harbol_cfg_insert(map, &keystr, parse_state->local_iota, sizeof *parse_state->local_iota, HarbolCfgType_Int, parse_state);
 		++*parse_state->local_iota;
-		res = harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var);
 	} else if( is_decimal(**cfgcoderef) || **cfgcoderef=='.' || **cfgcoderef=='-' || **cfgcoderef=='+' ) {
 		/// numeric value.
 		res = harbol_cfg_parse_number(map, &keystr, cfgcoderef, parse_state);
@@ -405,8 +407,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			}
 			
 			harbol_string_copy_cstr(str, ( parse_state->cfg_filename==NULL )? "C-string-cfg" : parse_state->cfg_filename);
-			struct HarbolVariant var = harbol_variant_make(&str, sizeof str, HarbolCfgType_String, &( bool ){0});
-			res = harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var);
+			res = _harbol_cfg_insert(map, &keystr, &str, sizeof str, HarbolCfgType_String, parse_state);
 			*cfgcoderef += file_cstr_len;
 		} else {
 			harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "syntax error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: unknown control/command '%c'.\n", (*cfgcoderef)[1]);
@@ -430,16 +431,16 @@ static bool harbol_cfg_parse_number(struct HarbolMap *const restrict map, struct
 		return false;
 	}
 	
-	struct HarbolVariant var = {0};
+	bool res = false;
 	if( type==HarbolCfgType_Float ) {
 		floatmax_t f = lex_string_to_float(&numstr);
-		var = harbol_variant_make(&f, sizeof f, type, &( bool ){0});
+		res = _harbol_cfg_insert(map, key, &f, sizeof f, type, parse_state);
 	} else {
 		intmax_t i = strtoll(numstr.cstr, NULL, 0);
-		var = harbol_variant_make(&i, sizeof i, HarbolCfgType_Int, &( bool ){0});
+		res = _harbol_cfg_insert(map, key, &i, sizeof i, HarbolCfgType_Int, parse_state);
 	}
 	harbol_string_clear(&numstr);
-	return harbol_map_insert(map, key->cstr, key->len+1, &var, sizeof var);
+	return res;
 }
 
 /// section = '{' <keyval> '}' ;
-- 
2.43.0


From 5058a7d545aa133c87bfaac275bf697b630eec50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:28 +0000
Subject: [PATCH 066/103] fix: invalid strings in configs leaked

---
 cfg/cfg.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 2b65eea..da53973 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -199,6 +199,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		int const str_res = lex_c_style_str(*cfgcoderef, cfgcoderef, &file_path);
 		if( str_res > HarbolLexNoErr ) {
 			harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "syntax error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: invalid string value '%s' for key '%s' %s.\n", file_path.cstr, keystr.cstr, lex_get_err(str_res));
+			harbol_string_clear(&file_path);
 			harbol_string_clear(&keystr);
 			return false;
 		}
@@ -268,6 +269,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		int const str_res = lex_c_style_str(*cfgcoderef, cfgcoderef, str);
 		if( str_res > HarbolLexNoErr ) {
 			harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "syntax error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: invalid string value '%s' for key '%s' %s.\n", str->cstr, keystr.cstr, lex_get_err(str_res));
+			harbol_string_free(&str);
 			harbol_string_clear(&keystr);
 			return false;
 		}
-- 
2.43.0


From 5e935dd23081da0964f7301e1d06f2b55705be46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:28 +0000
Subject: [PATCH 067/103] fix: inline math in configs cut keys, shortened long
 results and crashed on empty strings and a missing '>'

---
 cfg/cfg.c | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index da53973..11f77ae 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -132,7 +132,8 @@ static NO_NULL floatmax_t _harbol_cfg_parse_inline_math(struct HarbolString *con
 		uintmax_t  u;
 		floatmax_t f;
 	} const c = { -1ULL };
-	char const *math_str = strstr(str->cstr, "<math");
+	/// empty strings have no text.
+	char const *math_str = ( str->cstr==NULL )? NULL : strstr(str->cstr, "<math");
 	if( math_str==NULL ) {
 		return c.f;
 	}
@@ -148,9 +149,12 @@ static NO_NULL floatmax_t _harbol_cfg_parse_inline_math(struct HarbolString *con
 	math_end[0] = '>';
 	if( replace_str_with_res ) {
 		size_t const start = ( size_t )(math_str - str->cstr);
-		char result_str[30] = {0};
-		snprintf(&result_str[0],  sizeof result_str - 1,  "%" PRIfMAX "", result);
-		harbol_string_replace_range(str, start, (math_end==NULL)? SIZE_MAX : ( size_t )(math_end - math_str), result_str);
+		size_t const end   = ( size_t )(math_end - str->cstr);
+		char *result_str = sprintf_alloc("%" PRIfMAX "", result);
+		if( result_str != NULL ) {
+			harbol_string_replace_range(str, start, end, result_str);
+		}
+		free(result_str); result_str = NULL;
 	}
 	return result;
 }
@@ -273,21 +277,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			harbol_string_clear(&keystr);
 			return false;
 		}
-		char *math_marker = strstr(str->cstr, "<math");
-		if( math_marker != NULL ) {
-			char *const math_start = math_marker + sizeof "<math"-1;
-			char *const math_end = strchr(math_start, '>');
-			if( math_end != NULL ) {
-				*math_end = 0;
-			}
-			floatmax_t const expr_result = harbol_math_parse_expr(math_start, _harbol_cfg_math_var_func, parse_state, sizeof *parse_state);
-			if( math_end != NULL ) {
-				*math_end = '>';
-			}
-			char *number = sprintf_alloc("%" PRIfMAX "", expr_result);
-			harbol_string_replace_range(str, math_marker - str->cstr, ( size_t )(math_end - str->cstr), number);
-			free(number); number = NULL;
-		}
+		_harbol_cfg_parse_inline_math(str, parse_state, true);
 		res = _harbol_cfg_insert(map, &keystr, &str, sizeof str, HarbolCfgType_String, parse_state);
 	} else if( **cfgcoderef=='c' || **cfgcoderef=='v' ) {
 		/// color or vector value!
-- 
2.43.0


From 1d5d9e29ca49cb8d689484c20dd61020fd2dafdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:28 +0000
Subject: [PATCH 068/103] fix: an include at the end of a section broke the
 config, an include of nothing crashed

---
 cfg/cfg.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 11f77ae..1180dac 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -209,7 +209,8 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		}
 		
 		harbol_string_clear(&keystr);
-		struct HarbolMap *included_cfg = harbol_cfg_parse_file(file_path.cstr);
+		skip_ws_and_comments(cfgcoderef, parse_state);
+		struct HarbolMap *included_cfg = harbol_string_empty(&file_path)? NULL : harbol_cfg_parse_file(file_path.cstr);
 		if( included_cfg==NULL ) {
 			/// if we failed somehow, warn, and set the value as a null.
 			harbol_write_msg(NULL, stderr, parse_state->cfg_filename, "parse warning", COLOR_MAGENTA, &parse_state->curr_line, NULL, "Harbol Config Parser :: failed to include cfg file '%s'\n", file_path.cstr);
-- 
2.43.0


From 2bf134dc75660ea84ba31a14725a3dbd17cad2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:28 +0000
Subject: [PATCH 069/103] fix: colors and vectors with something else than
 numbers crashed the config parser

---
 cfg/cfg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 1180dac..68978f6 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -303,7 +303,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			struct HarbolString numstr = {0};
 			enum HarbolCfgType type = HarbolCfgType_Null;
 			bool const result = _lex_number(cfgcoderef, &numstr, &type, parse_state);
-			if( iterations < 4 ) {
+			if( result && iterations < 4 ) {
 				if( valtype=='c' ) {
 					matrix_value.color.array[iterations] = ( uint8_t )(strtoul(numstr.cstr, NULL, 0));
 				} else {
-- 
2.43.0


From 1ca63c055331c52437910dd61d8e979b11da2763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:28 +0000
Subject: [PATCH 070/103] fix: binary integers and integers with digit
 separators in configs lost their value

---
 cfg/cfg.c | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 68978f6..9899a79 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -93,6 +93,27 @@ static NO_NULL bool _harbol_cfg_insert(struct HarbolMap *const map, struct Harbo
 	return false;
 }
 
+/// C string conversions know neither digit separators nor binary literals.
+static NO_NULL intmax_t _number_to_int(struct HarbolString const *const numstr) {
+	char const *iter = numstr->cstr;
+	struct HarbolString digits = {0};
+	if( *iter=='-' || *iter=='+' ) {
+		harbol_string_add_char(&digits, *iter++);
+	}
+	bool const is_binary = *iter=='0' && (iter[1]=='b' || iter[1]=='B');
+	if( is_binary ) {
+		iter += 2;
+	}
+	for( ; *iter != 0; iter++ ) {
+		if( *iter != '\'' ) {
+			harbol_string_add_char(&digits, *iter);
+		}
+	}
+	intmax_t const value = ( digits.cstr==NULL )? 0 : strtoll(digits.cstr, NULL, is_binary? 2 : 0);
+	harbol_string_clear(&digits);
+	return value;
+}
+
 static NO_NULL bool harbol_cfg_parse_section(struct HarbolMap *cfg, char const **code_ref, HarbolCfgState *parse_state);
 static NO_NULL bool harbol_cfg_parse_number(struct HarbolMap *cfg, struct HarbolString const *key, char const **code_ref, HarbolCfgState *parse_state);
 
@@ -305,7 +326,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			bool const result = _lex_number(cfgcoderef, &numstr, &type, parse_state);
 			if( result && iterations < 4 ) {
 				if( valtype=='c' ) {
-					matrix_value.color.array[iterations] = ( uint8_t )(strtoul(numstr.cstr, NULL, 0));
+					matrix_value.color.array[iterations] = ( uint8_t )(_number_to_int(&numstr));
 				} else {
 					switch( iterations ) {
 						case 0: matrix_value.vec4d.x = lex_string_to_float(&numstr); break;
@@ -429,7 +450,7 @@ static bool harbol_cfg_parse_number(struct HarbolMap *const restrict map, struct
 		floatmax_t f = lex_string_to_float(&numstr);
 		res = _harbol_cfg_insert(map, key, &f, sizeof f, type, parse_state);
 	} else {
-		intmax_t i = strtoll(numstr.cstr, NULL, 0);
+		intmax_t i = _number_to_int(&numstr);
 		res = _harbol_cfg_insert(map, key, &i, sizeof i, HarbolCfgType_Int, parse_state);
 	}
 	harbol_string_clear(&numstr);
-- 
2.43.0


From eadcf35381448cb8058e055861a81526a7cf057f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:28 +0000
Subject: [PATCH 071/103] fix: config paths stopped at the first equal name,
 went through values, missed escaped dots and top-level null values

---
 cfg/cfg.c | 66 +++++++------------------------------------------------
 1 file changed, 8 insertions(+), 58 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 9899a79..b7dbc72 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -611,60 +611,17 @@ HARBOL_EXPORT struct HarbolString harbol_cfg_to_str(struct HarbolMap const *cons
 	return cfg_str;
 }
 
-static NO_NULL bool harbol_cfg_parse_target_path(char const key[static 1], struct HarbolString *const restrict str) {
-	/// parse something like: "root.section1.section2.section3.\\.dotsection"
-	char const *iter = key;
-	iter += strlen(key) - 1;
-	while( iter != key ) {
-		if( *iter=='.' ) {
-			if( iter[-1]=='\\' ) {
-				iter--;
-			} else {
-				iter++;
-				break;
-			}
-		} else {
-			iter--;
-		}
-	}
-	
-	/// now we save the target section and then use the resulting string.
-	while( *iter != 0 ) {
-		if( *iter=='\\' ) {
-			iter++;
-			continue;
-		}
-		harbol_string_add_char(str, *iter++);
-	}
-	return str->len > 0;
-}
-
 static NO_NULL struct HarbolVariant *_get_var(struct HarbolMap const *const cfgmap, char const key[const]) {
-	/// first check if we're getting a singular value OR we iterate through a sectional path.
-	char const *dot = strchr(key, '.');
-	
-	/// Patch: dot and escaped dot glitching out the hashmap hashing...
-	if( dot==NULL || (dot > key && (dot[-1] == '\\')) ) {
-		struct HarbolVariant *const restrict var = harbol_map_key_get(cfgmap, key, strlen(key)+1);
-		return( var==NULL || var->tag==HarbolCfgType_Null )? NULL : var;
-	}
-	
-	/// ok, not a singular value, iterate to the specific map section then.
-	/// parse the target key first.
+	/// walk something like: "root.section1.section2.section3.\\.dotsection"
 	char const *iter = key;
-	struct HarbolString
-		sectionstr = {0},
-		targetstr = {0}
-	;
-	
-	harbol_cfg_parse_target_path(key, &targetstr);
+	struct HarbolString sectionstr = {0};
 	struct HarbolMap const *itermap = cfgmap;
 	struct HarbolVariant *restrict var = NULL;
-	while( itermap != NULL ) {
+	do {
 		harbol_string_clear(&sectionstr);
 		/// Patch: allow keys to use dot without interfering with dot path.
 		while( *iter != 0 ) {
-			if( *iter=='\\' && iter[1] != 0 && iter[1]=='.' ) {
+			if( *iter=='\\' && iter[1]=='.' ) {
 				iter++;
 				harbol_string_add_char(&sectionstr, *iter++);
 			} else if( *iter=='.' ) {
@@ -674,18 +631,11 @@ static NO_NULL struct HarbolVariant *_get_var(struct HarbolMap const *const cfgm
 				harbol_string_add_char(&sectionstr, *iter++);
 			}
 		}
-		if( harbol_string_empty(&sectionstr) ) {
-			break;
-		}
-		var = harbol_map_key_get(itermap, sectionstr.cstr, sectionstr.len+1);
-		if( var==NULL || !harbol_string_cmpstr(&sectionstr, &targetstr) ) {
-			break;
-		} else if( var->tag==HarbolCfgType_Map ) {
-			itermap = *( struct HarbolMap const** )(var->data);
-		}
-	}
+		var = ( itermap==NULL || harbol_string_empty(&sectionstr) )? NULL : harbol_map_key_get(itermap, sectionstr.cstr, sectionstr.len+1);
+		/// only sections have something to continue with.
+		itermap = ( var==NULL || var->tag != HarbolCfgType_Map )? NULL : *( struct HarbolMap const** )(var->data);
+	} while( var != NULL && *iter != 0 );
 	harbol_string_clear(&sectionstr);
-	harbol_string_clear(&targetstr);
 	return var;
 }
 
-- 
2.43.0


From 2be4c5da9c5c5e45f495e43f77ce722efd206663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:28 +0000
Subject: [PATCH 072/103] fix: setting a config value to an empty string kept
 the old text, evaluating an empty one crashed

---
 cfg/cfg.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index b7dbc72..687d9d8 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -693,7 +693,7 @@ HARBOL_EXPORT enum HarbolCfgType harbol_cfg_get_type(struct HarbolMap const *con
 }
 
 HARBOL_EXPORT bool harbol_cfg_set_str(struct HarbolMap *const restrict cfgmap, char const keypath[restrict static 1], struct HarbolString const str, bool const override_convert) {
-	return harbol_cfg_set_cstr(cfgmap, keypath, str.cstr, override_convert);
+	return harbol_cfg_set_cstr(cfgmap, keypath, ( str.cstr==NULL )? "" : str.cstr, override_convert);
 }
 
 HARBOL_EXPORT bool harbol_cfg_set_cstr(struct HarbolMap *const restrict cfgmap, char const key[static 1], char const cstr[static 1], bool const override_convert) {
@@ -709,8 +709,12 @@ HARBOL_EXPORT bool harbol_cfg_set_cstr(struct HarbolMap *const restrict cfgmap,
 		}
 		return false;
 	}
-	harbol_string_copy_cstr(*( struct HarbolString** )(var->data), cstr);
-	return true;
+	struct HarbolString *const str = *( struct HarbolString** )(var->data);
+	if( cstr[0]==0 ) {
+		harbol_string_clear(str);
+		return true;
+	}
+	return harbol_string_copy_cstr(str, cstr);
 }
 
 HARBOL_EXPORT bool harbol_cfg_set_float(struct HarbolMap *const restrict cfgmap, char const key[static 1], floatmax_t const val, bool const override_convert) {
@@ -864,5 +868,5 @@ HARBOL_EXPORT floatmax_t harbol_cfg_calc_math(struct HarbolMap const *const rest
 		} const c = { -1ULL };
 		return c.f;
 	}
-	return harbol_math_parse_expr(str->cstr, var_func==NULL? harbol_math_default_var_func : var_func, data, data_len);
+	return harbol_math_parse_expr(( str->cstr==NULL )? "" : str->cstr, var_func==NULL? harbol_math_default_var_func : var_func, data, data_len);
 }
-- 
2.43.0


From d8e2cf9b0f030d4308f5b4648e9da6e9a9f28e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:37 +0000
Subject: [PATCH 073/103] fix: strings with quotes, backslashes, tabs or line
 ends and empty ones were written to configs as something else

---
 cfg/cfg.c | 68 ++++++++++++++++++++-----------------------------------
 1 file changed, 25 insertions(+), 43 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 687d9d8..483dcff 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -562,6 +562,22 @@ static NO_NULL void _concat_tabs(struct HarbolString *const str, size_t const ta
 	}
 }
 
+/// strings have to be escaped or they won't be parsed as what they are.
+static NO_NULL void _concat_quoted(struct HarbolString *const str, char const text[const static 1]) {
+	harbol_string_add_char(str, '"');
+	for( char const *iter=text; *iter != 0; iter++ ) {
+		switch( *iter ) {
+			case '"':  harbol_string_add_cstr(str, "\\\""); break;
+			case '\\': harbol_string_add_cstr(str, "\\\\"); break;
+			case '\n': harbol_string_add_cstr(str, "\\n");  break;
+			case '\r': harbol_string_add_cstr(str, "\\r");  break;
+			case '\t': harbol_string_add_cstr(str, "\\t");  break;
+			default:   harbol_string_add_char(str, *iter);
+		}
+	}
+	harbol_string_add_char(str, '"');
+}
+
 HARBOL_EXPORT struct HarbolString harbol_cfg_to_str(struct HarbolMap const *const map) {
 	static size_t tabs = 0;
 	struct HarbolString cfg_str = harbol_string_make(NULL, &( bool ){false});
@@ -571,7 +587,8 @@ HARBOL_EXPORT struct HarbolString harbol_cfg_to_str(struct HarbolMap const *cons
 		union ConfigVal const cv = { var->data };
 		
 		_concat_tabs(str, tabs);
-		harbol_string_format(str, false, "\"%s\": ", ( char const* )(map->keys[i]));
+		_concat_quoted(str, ( char const* )(map->keys[i]));
+		harbol_string_add_cstr(str, ": ");
 		switch( var->tag ) {
 			case HarbolCfgType_Null:
 				harbol_string_add_cstr(str, "null\n");
@@ -589,7 +606,8 @@ HARBOL_EXPORT struct HarbolString harbol_cfg_to_str(struct HarbolMap const *cons
 				break;
 			}
 			case HarbolCfgType_String:
-				harbol_string_format(str, false, "\"%s\"\n", (*cv.str)->cstr);
+				_concat_quoted(str, ( (*cv.str)->cstr==NULL )? "" : (*cv.str)->cstr);
+				harbol_string_add_cstr(str, "\n");
 				break;
 			case HarbolCfgType_Float:
 				harbol_string_format(str, false, "%" PRIfMAX "\n", *cv.f);
@@ -809,53 +827,17 @@ HARBOL_EXPORT bool harbol_cfg_set_to_null(struct HarbolMap *const restrict cfgma
 	return true;
 }
 
-static NO_NULL void _write_tabs(FILE *const file, size_t const tabs) {
-	for( size_t i=0; i < tabs; i++ ) {
-		fputs("\t", file);
-	}
-}
-
-static NO_NULL bool _harbol_cfg_build_file(struct HarbolMap const *const map, FILE *const file, size_t const tabs) {
-	for( size_t i=0; i < map->len; i++ ) {
-		struct HarbolVariant const *const v = ( struct HarbolVariant const* )(map->datum[i]);
-		int32_t const type = v->tag;
-		_write_tabs(file, tabs);
-		/// using double pointer iterators as we need the key.
-		fprintf(file, "\"%s\": ", ( char const* )(map->keys[i]));
-		
-		union ConfigVal const cv = { v->data };
-		switch( type ) {
-			case HarbolCfgType_Null:
-				fputs("null\n", file); break;
-			case HarbolCfgType_Map:
-				fputs("{\n", file);
-				_harbol_cfg_build_file(*cv.section, file, tabs+1);
-				_write_tabs(file, tabs);
-				fputs("}\n", file);
-				break;
-			
-			case HarbolCfgType_String: fprintf(file, "\"%s\"\n", (*cv.str)->cstr);       break;
-			case HarbolCfgType_Float:  fprintf(file, "%" PRIfMAX "\n", *cv.f);           break;
-			case HarbolCfgType_Int:    fprintf(file, "%" PRIiMAX "\n", *cv.i);           break;
-			case HarbolCfgType_Bool:   fprintf(file, "%s\n", (*cv.b)? "true" : "false"); break;
-			case HarbolCfgType_Color:
-				fprintf(file, "c[ %u, %u, %u, %u ]\n", cv.c->bytes.r, cv.c->bytes.g, cv.c->bytes.b, cv.c->bytes.a); break;
-			case HarbolCfgType_Vec4D:
-				fprintf(file, "v[ %" PRIf32 ", %" PRIf32 ", %" PRIf32 ", %" PRIf32 " ]\n", cv.v->x, cv.v->y, cv.v->z, cv.v->w); break;
-		}
-	}
-	return true;
-}
-
 HARBOL_EXPORT bool harbol_cfg_build_file(struct HarbolMap const *const cfg, char const filename[static 1], bool const overwrite) {
 	FILE *restrict cfgfile = fopen(filename, overwrite? "w+" : "a+");
 	if( cfgfile==NULL ) {
 		fputs("harbol_cfg_build_file :: unable to create file.\n", stderr);
 		return false;
 	}
-	bool const result = _harbol_cfg_build_file(cfg, cfgfile, 0);
-	fclose(cfgfile); cfgfile=NULL;
-	return result;
+	struct HarbolString text = harbol_cfg_to_str(cfg);
+	bool const wrote = fwrite(text.cstr, sizeof *text.cstr, text.len, cfgfile)==text.len;
+	harbol_string_clear(&text);
+	bool const closed = fclose(cfgfile)==0; cfgfile=NULL;
+	return wrote && closed;
 }
 
 
-- 
2.43.0


From e94628a0ab58aa03ea1164b0aafa070e4c920576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:37 +0000
Subject: [PATCH 074/103] fix: small and long floats in configs were rounded to
 6 decimals when written

---
 cfg/cfg.c | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 483dcff..fd539d6 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -578,6 +578,19 @@ static NO_NULL void _concat_quoted(struct HarbolString *const str, char const te
 	harbol_string_add_char(str, '"');
 }
 
+/// numbers that the usual 6 decimals would change get as many digits as needed.
+static NO_NULL void _concat_float(struct HarbolString *const str, long double const value, bool const is_float32) {
+	char *number = sprintf_alloc("%Lf", value);
+	long double const written = ( number==NULL )? value : strtold(number, NULL);
+	bool const is_exact = ( is_float32 )? ( float32_t )(written)==( float32_t )(value) : written==value;
+	if( is_exact ) {
+		harbol_string_add_cstr(str, number);
+	} else {
+		harbol_string_format(str, false, "%.*Le", DECIMAL_DIG - 1, value);
+	}
+	free(number); number = NULL;
+}
+
 HARBOL_EXPORT struct HarbolString harbol_cfg_to_str(struct HarbolMap const *const map) {
 	static size_t tabs = 0;
 	struct HarbolString cfg_str = harbol_string_make(NULL, &( bool ){false});
@@ -610,7 +623,8 @@ HARBOL_EXPORT struct HarbolString harbol_cfg_to_str(struct HarbolMap const *cons
 				harbol_string_add_cstr(str, "\n");
 				break;
 			case HarbolCfgType_Float:
-				harbol_string_format(str, false, "%" PRIfMAX "\n", *cv.f);
+				_concat_float(str, *cv.f, false);
+				harbol_string_add_cstr(str, "\n");
 				break;
 			case HarbolCfgType_Int:
 				harbol_string_format(str, false, "%" PRIiMAX "\n", *cv.i);
@@ -622,7 +636,15 @@ HARBOL_EXPORT struct HarbolString harbol_cfg_to_str(struct HarbolMap const *cons
 				harbol_string_format(str, false, "c[ %u, %u, %u, %u ]\n", cv.c->bytes.r, cv.c->bytes.g, cv.c->bytes.b, cv.c->bytes.a);
 				break;
 			case HarbolCfgType_Vec4D:
-				harbol_string_format(str, false, "v[ %" PRIf32 ", %" PRIf32 ", %" PRIf32 ", %" PRIf32 " ]\n", cv.v->x, cv.v->y, cv.v->z, cv.v->w);
+				harbol_string_add_cstr(str, "v[ ");
+				_concat_float(str, cv.v->x, true);
+				harbol_string_add_cstr(str, ", ");
+				_concat_float(str, cv.v->y, true);
+				harbol_string_add_cstr(str, ", ");
+				_concat_float(str, cv.v->z, true);
+				harbol_string_add_cstr(str, ", ");
+				_concat_float(str, cv.v->w, true);
+				harbol_string_add_cstr(str, " ]\n");
 				break;
 		}
 	}
-- 
2.43.0


From 601b95fb4624f6b620c6f1f88ceea76f826b868a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:37 +0000
Subject: [PATCH 075/103] fix: configs including themselves and very deep
 sections exhausted the stack

---
 cfg/cfg.c | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index fd539d6..a6530de 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -17,11 +17,15 @@ math    = "<math" expression ">" . /// See HarbolMath module for math parser's g
 ```
  */
 
-typedef struct {
+enum { MAX_CFG_DEPTH = 256 }; /// how far sections and included files can be nested.
+
+typedef struct HarbolCfgState {
 	size_t      errc;
 	intmax_t   *local_iota, *local_enum, global_iota, global_enum;
 	char const *cfg_filename;
 	uint32_t    curr_line;
+	size_t      depth;
+	struct HarbolCfgState const *includer;
 } HarbolCfgState;
 
 
@@ -115,6 +119,7 @@ static NO_NULL intmax_t _number_to_int(struct HarbolString const *const numstr)
 }
 
 static NO_NULL bool harbol_cfg_parse_section(struct HarbolMap *cfg, char const **code_ref, HarbolCfgState *parse_state);
+static NEVER_NULL(1) struct HarbolMap *_harbol_cfg_parse_file(char const filename[], HarbolCfgState const *includer);
 static NO_NULL bool harbol_cfg_parse_number(struct HarbolMap *cfg, struct HarbolString const *key, char const **code_ref, HarbolCfgState *parse_state);
 
 
@@ -231,7 +236,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		
 		harbol_string_clear(&keystr);
 		skip_ws_and_comments(cfgcoderef, parse_state);
-		struct HarbolMap *included_cfg = harbol_string_empty(&file_path)? NULL : harbol_cfg_parse_file(file_path.cstr);
+		struct HarbolMap *included_cfg = harbol_string_empty(&file_path)? NULL : _harbol_cfg_parse_file(file_path.cstr, parse_state);
 		if( included_cfg==NULL ) {
 			/// if we failed somehow, warn, and set the value as a null.
 			harbol_write_msg(NULL, stderr, parse_state->cfg_filename, "parse warning", COLOR_MAGENTA, &parse_state->curr_line, NULL, "Harbol Config Parser :: failed to include cfg file '%s'\n", file_path.cstr);
@@ -462,16 +467,21 @@ static bool harbol_cfg_parse_section(struct HarbolMap *const restrict map, char
 	if( **cfgcoderef!='{' ) {
 		harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "syntax error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: missing '{' but got '%c' for section.\n", **cfgcoderef);
 		return false;
+	} else if( parse_state->depth >= MAX_CFG_DEPTH ) {
+		harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "syntax error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: sections are nested too deep.\n");
+		return false;
 	}
 	(*cfgcoderef)++;
 	skip_ws_and_comments(cfgcoderef, parse_state);
 	
+	parse_state->depth++;
 	while( **cfgcoderef != 0 && **cfgcoderef != '}' ) {
 		bool const res = harbol_cfg_parse_key_val(map, cfgcoderef, parse_state);
 		if( !res ) {
 			return false;
 		}
 	}
+	parse_state->depth--;
 	
 	if( **cfgcoderef==0 ) {
 		harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "syntax error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: unexpected end of file with missing '}' for section.\n");
@@ -494,8 +504,15 @@ static struct HarbolMap *_harbol_cfg_parse(char const cfgcode[static 1], HarbolC
 	return objs;
 }
 
-HARBOL_EXPORT struct HarbolMap *harbol_cfg_parse_file(char const filename[static 1]) {
-	HarbolCfgState parse_state = {0};
+static struct HarbolMap *_harbol_cfg_parse_file(char const filename[static 1], HarbolCfgState const *const includer) {
+	HarbolCfgState parse_state = { .includer = includer, .depth = ( includer==NULL )? 0 : includer->depth + 1 };
+	for( HarbolCfgState const *iter = includer; iter != NULL; iter = iter->includer ) {
+		bool const same_file = iter->cfg_filename != NULL && !strcmp(iter->cfg_filename, filename);
+		if( same_file || parse_state.depth > MAX_CFG_DEPTH ) {
+			harbol_write_msg(&parse_state.errc, stderr, NULL, "parse error", COLOR_RED, NULL, NULL, "Harbol Config Parser :: file '%s' includes itself or is included too deep.\n", filename);
+			return NULL;
+		}
+	}
 	FILE *restrict cfgfile = fopen(filename, "r");
 	if( cfgfile==NULL ) {
 		harbol_write_msg(&parse_state.errc, stderr, NULL, "parse error", COLOR_RED, NULL, NULL, "Harbol Config Parser :: unable to find file '%s'.\n", filename);
@@ -518,6 +535,10 @@ HARBOL_EXPORT struct HarbolMap *harbol_cfg_parse_file(char const filename[static
 }
 
 
+HARBOL_EXPORT struct HarbolMap *harbol_cfg_parse_file(char const filename[static 1]) {
+	return _harbol_cfg_parse_file(filename, NULL);
+}
+
 HARBOL_EXPORT struct HarbolMap *harbol_cfg_parse_cstr(char const cfgcode[static 1]) {
 	HarbolCfgState parse_state = {0};
 	return _harbol_cfg_parse(cfgcode, &parse_state);
-- 
2.43.0


From f397e204851ff4b3a11379fea051a4d196bde7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:56 +0000
Subject: [PATCH 076/103] fix: a file that can't be read in a plugin directory
 was tried forever

---
 plugins/plugins.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plugins/plugins.c b/plugins/plugins.c
index 868a5f5..4dd457f 100644
--- a/plugins/plugins.c
+++ b/plugins/plugins.c
@@ -118,7 +118,8 @@ static NEVER_NULL(1) void _dir_open(tinydir_dir *const restrict dir, HarbolPlugi
 	while( dir->has_next ) {
 		tinydir_file *file = &( tinydir_file ){0};
 		if( tinydir_readfile(dir, file) < 0 ) {
-			continue;
+			/// a file that can't be read (like a dangling link) is skipped.
+			goto dir_iter_loop;
 		} else if( file->is_dir ) {
 			if( file->name[0]=='.' ) {
 				/// advance if parent dir dot.
-- 
2.43.0


From 117bed3396420769964385a4b1f5f068c611ecd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:56 +0000
Subject: [PATCH 077/103] fix: a plugin directory that couldn't be opened was
 reported as opened

---
 plugins/plugins.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/plugins/plugins.c b/plugins/plugins.c
index 4dd457f..14e18d4 100644
--- a/plugins/plugins.c
+++ b/plugins/plugins.c
@@ -157,14 +157,15 @@ HARBOL_EXPORT bool harbol_plugin_dir_open(char const dir[static 1], HarbolPlugin
 			return false;
 		
 		tinydir_dir *const restrict dir_handle = &( tinydir_dir ){0};
-		if( tinydir_open(dir_handle, pl_dir) < 0 ) {
+		bool const opened = tinydir_open(dir_handle, pl_dir) >= 0;
+		if( !opened ) {
 			fprintf(stderr, "Harbol Plugin Directory Error: **** unable to open dir: '%s' ****\n", pl_dir);
 			tinydir_close(dir_handle);
 		} else {
 			_dir_open(dir_handle, dir_fn, userdata, custom_ext==NULL? LIB_EXT : custom_ext);
 		}
 		free(pl_dir); pl_dir = NULL;
-		return true;
+		return opened;
 	}
 	return false;
 }
-- 
2.43.0


From 622036266173be19a7f82bd65053e42d3ccb2263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:56 +0000
Subject: [PATCH 078/103] fix: a plugin whose path couldn't be allocated was
 reported as loaded

---
 plugins/plugins.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/plugins.c b/plugins/plugins.c
index 14e18d4..b0d98c4 100644
--- a/plugins/plugins.c
+++ b/plugins/plugins.c
@@ -14,7 +14,7 @@ HARBOL_EXPORT bool harbol_plugin_load(struct HarbolPlugin *const restrict pl, ch
 	
 	pl->path = dup_cstr(strlen(path), path);
 	struct stat result;
-	if( !stat(path, &result) ) {
+	if( pl->path != NULL && !stat(path, &result) ) {
 		pl->last_write = result.st_mtime;
 	} else {
 		MODULE_CLOSE(pl->dll); pl->dll = NULL;
-- 
2.43.0


From 3b3ab61727a4672d234ab157a7efb937292ca821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:56 +0000
Subject: [PATCH 079/103] fix: a plugin kept the error of an earlier attempt
 after it was loaded

---
 plugins/plugins.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/plugins/plugins.c b/plugins/plugins.c
index b0d98c4..45bf4c9 100644
--- a/plugins/plugins.c
+++ b/plugins/plugins.c
@@ -23,6 +23,7 @@ HARBOL_EXPORT bool harbol_plugin_load(struct HarbolPlugin *const restrict pl, ch
 		return false;
 	}
 	
+	pl->err = HarbolPluginErrNone;
 	if( load_fn != NULL ) {
 		(*load_fn)(pl, userdata, false);
 	}
@@ -76,6 +77,7 @@ HARBOL_EXPORT bool harbol_plugin_reload(struct HarbolPlugin *const restrict pl,
 		pl->err = HarbolPluginErrCantReload;
 		return false;
 	}
+	pl->err = HarbolPluginErrNone;
 	if( load_fn != NULL ) {
 		(*load_fn)(pl, userdata, true);
 	}
-- 
2.43.0


From f893c59649e1d8e3d4d4f41b9293ca8b0bba6908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:17 +0000
Subject: [PATCH 080/103] fix: the optional extension of plugins was declared
 as never NULL

---
 plugins/plugins.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/plugins.c b/plugins/plugins.c
index 45bf4c9..4d5a1c4 100644
--- a/plugins/plugins.c
+++ b/plugins/plugins.c
@@ -145,7 +145,7 @@ static NEVER_NULL(1) void _dir_open(tinydir_dir *const restrict dir, HarbolPlugi
 	tinydir_close(dir);
 }
 
-HARBOL_EXPORT bool harbol_plugin_dir_open(char const dir[static 1], HarbolPluginDirEvent dir_fn, void *const restrict userdata, char const custom_ext[static 1]) {
+HARBOL_EXPORT bool harbol_plugin_dir_open(char const dir[static 1], HarbolPluginDirEvent dir_fn, void *const restrict userdata, char const custom_ext[]) {
 	/// 'FILENAME_MAX' is defined in stdio.h
 	char currdir[FILENAME_MAX] = {0};
 #ifdef OS_WINDOWS
-- 
2.43.0


From 18e2e8acbbdb806c2e7e61be7fff1f4b1da97417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 081/103] fix: C floats with leading zeros were taken for octal
 literals

---
 lex/lex.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index b9d5f60..5923f62 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -1400,9 +1400,16 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_number(char const str[static 1],
 				case 'x': case 'X': return lex_c_style_hex(str, end, buf, is_float);
 				case 'b': case 'B': return lex_c_style_binary(str, end, buf);
 				case '.':           return lex_c_style_decimal(str, end, buf, is_float);
-				case '1': case '2': case '3': case '4':
+				case '0': case '1': case '2': case '3': case '4':
 				case '5': case '6': case '7': case '8': case '9':
-									return lex_c_style_octal(str, end, buf, is_float);
+				case DigitSep_C: {
+					/// floats can start with zeros as well.
+					char const *iter = str;
+					while( is_decimal(*iter) || *iter==DigitSep_C ) {
+						iter++;
+					}
+					return( *iter=='.' || *iter=='e' || *iter=='E' )? lex_c_style_decimal(str, end, buf, is_float) : lex_c_style_octal(str, end, buf, is_float);
+				}
 				default:            return lex_c_style_decimal(str, end, buf, is_float);
 			}
 		}
-- 
2.43.0


From 454e27e78b28a85164b6287981e1ecdf57741d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 082/103] fix: hex literals without digits before the exponent
 or with hex digits in it were accepted

---
 lex/lex.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lex/lex.c b/lex/lex.c
index 5923f62..ac2456a 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -565,6 +565,10 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], ch
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexTooManyPs;
 					goto lex_c_style_hex_err;
+				} else if( !(lit_flags & (one_hex|flt_dot)) ) { /// missing at least one hex number before hex exponent.
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexHexNoDigitsB4Exp;
+					goto lex_c_style_hex_err;
 				} else if( (lit_flags & digit_sep) || str[1]==DigitSep_C ) { /// digit sep before or after exponent.
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexDigitSepNearExp;
@@ -634,6 +638,10 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], ch
 						result = HarbolLexFltExtraSuffix;
 						harbol_string_add_char(buf, chr);
 						goto lex_c_style_hex_err;
+					} else { /// exponents are decimal.
+						result = HarbolLexHexFltBadSuffix;
+						harbol_string_add_char(buf, chr);
+						goto lex_c_style_hex_err;
 					}
 				}
 				if( !(lit_flags & one_hex) ) {
@@ -786,6 +794,12 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_hex(char const str[static 1], c
 				break;
 			case 'a': case 'b': case 'c': case 'd': case 'e': case 'f':
 			case 'A': case 'B': case 'C': case 'D': case 'E': case 'F':
+				if( lit_flags & exponent_p ) { /// exponents are decimal.
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexHexFltBadSuffix;
+					goto lex_go_style_hex_err;
+				}
+				/// fallthrough
 			case '0': case '1': case '2': case '3': case '4':
 			case '5': case '6': case '7': case '8': case '9':
 				if( !(lit_flags & one_hex) ) {
-- 
2.43.0


From 3af97ccf07b3aecefa4496be9607fe1093e8ee9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 083/103] fix: C literals with contradictory integer and float
 suffixes were accepted

---
 lex/lex.c | 47 ++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 46 insertions(+), 1 deletion(-)

diff --git a/lex/lex.c b/lex/lex.c
index ac2456a..d16d875 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -553,6 +553,10 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], ch
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexDigitSepNearDot;
 					goto lex_c_style_hex_err;
+				} else if( lit_flags & (uflag|long1) ) { /// extraneous suffix before float dot.
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexIntExtraSuffix;
+					goto lex_c_style_hex_err;
 				} else {
 					lit_flags |= flt_dot;
 					lit_flags &= ~one_hex;
@@ -573,6 +577,10 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], ch
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexDigitSepNearExp;
 					goto lex_c_style_hex_err;
+				} else if( lit_flags & (uflag|long1) ) { /// extraneous suffix before exponent.
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexIntExtraSuffix;
+					goto lex_c_style_hex_err;
 				} else {
 					lit_flags |= exponent_p;
 					lit_flags &= ~one_hex;
@@ -603,6 +611,10 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], ch
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexUBetweenLs;
 					goto lex_c_style_hex_err;
+				} else if( lit_flags & (flt_dot|exponent_p) ) { /// int suffix on float literal.
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexIntSuffixOnFlt;
+					goto lex_c_style_hex_err;
 				} else {
 					lit_flags |= uflag;
 					harbol_string_add_char(buf, chr);
@@ -613,6 +625,14 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], ch
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexTooManyLs;
 					goto lex_c_style_hex_err;
+				} else if( lit_flags & f_suffix ) { /// already have a float suffix.
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexFltExtraSuffix;
+					goto lex_c_style_hex_err;
+				} else if( (lit_flags & (flt_dot|exponent_p)) && (lit_flags & long1) ) { /// int suffix on float literal.
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexIntSuffixOnFlt;
+					goto lex_c_style_hex_err;
 				} else {
 					lit_flags |= ( (lit_flags & long1)? long2 : long1 );
 					harbol_string_add_char(buf, chr);
@@ -627,7 +647,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], ch
 						goto lex_c_style_hex_err;
 					} else if( (chr=='F'||chr=='f') ) { /// invalid hex float suffix!
 						harbol_string_add_char(buf, chr);
-						if( lit_flags & f_suffix ) {
+						if( lit_flags & (f_suffix|long1) ) {
 							result = HarbolLexFltExtraSuffix;
 							goto lex_c_style_hex_err;
 						} else {
@@ -875,6 +895,15 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_octal(char const str[static 1],
 				}
 				break;
 			case '.':
+				if( lit_flags & digit_sep ) { /// digit sep before dot.
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexDigitSepNearDot;
+					goto lex_c_style_octal_err;
+				} else if( lit_flags & (uflag|long1) ) { /// extraneous suffix before float dot.
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexIntExtraSuffix;
+					goto lex_c_style_octal_err;
+				}
 				return lex_c_style_decimal(str, end, buf, is_float);
 			case 'U': case 'u':
 				if( lit_flags & uflag ) { /// too many Us.
@@ -1178,6 +1207,10 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_decimal(char const str[static 1]
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexDigitSepNearDot;
 					goto lex_c_style_decimal_err;
+				} else if( lit_flags & (uflag|long1) ) { /// extraneous suffix before float dot.
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexIntExtraSuffix;
+					goto lex_c_style_decimal_err;
 				} else {
 					lit_flags |= flt_dot;
 					harbol_string_add_char(buf, chr);
@@ -1208,6 +1241,10 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_decimal(char const str[static 1]
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexFltSuffixAfterExpNoDigits;
 					goto lex_c_style_decimal_err;
+				} else if( lit_flags & long1 ) { /// already have a float suffix.
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexExtraFltSuffix;
+					goto lex_c_style_decimal_err;
 				} else {
 					lit_flags |= flt_f_flag;
 					harbol_string_add_char(buf, chr);
@@ -1226,6 +1263,10 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_decimal(char const str[static 1]
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexDigitSepNotSepDigits;
 					goto lex_c_style_decimal_err;
+				} else if( lit_flags & (uflag|long1) ) { /// extraneous suffix before exponent.
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexIntExtraSuffix;
+					goto lex_c_style_decimal_err;
 				} else {
 					lit_flags |= flt_e_flag;
 					harbol_string_add_char(buf, chr);
@@ -1259,6 +1300,10 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_decimal(char const str[static 1]
 					harbol_string_add_char(buf, chr);
 					result = HarbolLexIntSuffixOnFlt;
 					goto lex_c_style_decimal_err;
+				} else if( lit_flags & flt_f_flag ) { /// already have a float suffix.
+					harbol_string_add_char(buf, chr);
+					result = HarbolLexExtraFltSuffix;
+					goto lex_c_style_decimal_err;
 				} else {
 					lit_flags |= ( (lit_flags & long1)? long2 : long1 );
 					harbol_string_add_char(buf, chr);
-- 
2.43.0


From a0d9cce4e7db49f79abc360f8598be1e2597fbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 084/103] fix: harbol_string_replace_range lost the text when
 memory ran out

---
 str/str.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/str/str.c b/str/str.c
index 7982563..26090a6 100644
--- a/str/str.c
+++ b/str/str.c
@@ -448,13 +448,15 @@ HARBOL_EXPORT bool harbol_string_replace_range(struct HarbolString *const restri
 		return false;
 	}
 	
-	char *start = &str->cstr[lower];
-	start[0] = 0;
-	char const *end = &str->cstr[upper];
+	size_t const with_len = strlen(with);
+	size_t const end_len  = str->len - upper - 1;
 	struct HarbolString s = {0};
-	harbol_string_add_cstr(&s, str->cstr);
-	harbol_string_add_cstr(&s, with);
-	harbol_string_add_cstr(&s, &end[1]);
+	if( !_harbol_resize_string(&s, lower + with_len + end_len) ) {
+		return false;
+	}
+	memcpy(&s.cstr[0], str->cstr, lower);
+	memcpy(&s.cstr[lower], with, with_len);
+	memcpy(&s.cstr[lower + with_len], &str->cstr[upper + 1], end_len);
 	harbol_string_clear(str);
 	*str = s;
 	return true;
-- 
2.43.0


From 0fa5d9029bf2651e7d839f15a3c2d1bf3270c89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 085/103] fix: harbol_string_replace_cstr wrote through NULL
 when memory ran out

---
 str/str.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/str/str.c b/str/str.c
index 26090a6..290e8c8 100644
--- a/str/str.c
+++ b/str/str.c
@@ -263,7 +263,9 @@ HARBOL_EXPORT bool harbol_string_replace_cstr(struct HarbolString *const restric
 	
 	size_t offset = _subcstr_diff(&str->cstr[0], to_replace);
 	size_t const len_calc = str->len + (amount * (with_len - replace_len));
-	_harbol_resize_string(&rep_str, len_calc);
+	if( !_harbol_resize_string(&rep_str, len_calc) ) {
+		return false;
+	}
 	size_t rep_len = 0;
 	/// first copy contents up to the first offset.
 	strncpy(&rep_str.cstr[0], &str->cstr[0], offset);
-- 
2.43.0


From cef12ea895060dad1f51f0c1b198b29c9c61a1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 086/103] fix: harbol_string_new gave an empty string when
 memory ran out for its text

---
 str/str.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/str/str.c b/str/str.c
index 290e8c8..036a320 100644
--- a/str/str.c
+++ b/str/str.c
@@ -19,7 +19,10 @@ HARBOL_EXPORT struct HarbolString *harbol_string_new(char const cstr[]) {
 	if( str==NULL ) {
 		return NULL;
 	}
-	harbol_string_init(str, cstr);
+	if( !harbol_string_init(str, cstr) && cstr != NULL && cstr[0] != 0 ) {
+		free(str);
+		return NULL;
+	}
 	return str;
 }
 
-- 
2.43.0


From 28bd8a1fee72b7eb03161224f3b8705239296ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:36 +0000
Subject: [PATCH 087/103] fix: labels and notes of a message span lost their
 color when memory ran out

---
 msg_span/msg_span.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/msg_span/msg_span.c b/msg_span/msg_span.c
index 5aff228..79d5a10 100644
--- a/msg_span/msg_span.c
+++ b/msg_span/msg_span.c
@@ -125,15 +125,16 @@ HARBOL_EXPORT bool harbol_msg_span_add_label(struct HarbolMsgSpan *const restric
 	}
 	
 	va_list ap; va_start(ap, msg);
-	if( msg_color != NULL ) {
-		harbol_string_add_cstr(&label.msg, msg_color);
+	bool colored = true;
+	if( msg_color != NULL && msg_color[0] != 0 ) {
+		colored = harbol_string_add_cstr(&label.msg, msg_color);
 	}
 	int const format_res = harbol_string_format_va(&label.msg, false, msg, ap);
 	if( msg_color != NULL ) {
-		harbol_string_add_cstr(&label.msg, COLOR_RESET);
+		colored &= harbol_string_add_cstr(&label.msg, COLOR_RESET);
 	}
 	
-	bool const res = format_res >= 0 && harbol_array_insert(&msgspan->labels, &label, sizeof label);
+	bool const res = colored && format_res >= 0 && harbol_array_insert(&msgspan->labels, &label, sizeof label);
 	if( !res ) {
 		harbol_string_clear(&label.msg);
 	}
@@ -147,15 +148,16 @@ HARBOL_EXPORT bool harbol_msg_span_add_note(struct HarbolMsgSpan *const restrict
 	}
 	
 	va_list ap; va_start(ap, msg);
-	if( msg_color != NULL ) {
-		harbol_string_add_cstr(&note, msg_color);
+	bool colored = true;
+	if( msg_color != NULL && msg_color[0] != 0 ) {
+		colored = harbol_string_add_cstr(&note, msg_color);
 	}
 	int const format_res = harbol_string_format_va(&note, false, msg, ap);
 	if( msg_color != NULL ) {
-		harbol_string_add_cstr(&note, COLOR_RESET);
+		colored &= harbol_string_add_cstr(&note, COLOR_RESET);
 	}
 	
-	bool const res = format_res >= 0 && harbol_array_insert(&msgspan->notes, &note, sizeof note);
+	bool const res = colored && format_res >= 0 && harbol_array_insert(&msgspan->notes, &note, sizeof note);
 	if( !res ) {
 		harbol_string_clear(&note);
 	}
-- 
2.43.0


From 048c216c557a97e8a4c22ab31e6949e963465ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:36 +0000
Subject: [PATCH 088/103] fix: message spans silently lost lines of the source
 when memory ran out

---
 msg_span/msg_span.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/msg_span/msg_span.c b/msg_span/msg_span.c
index 79d5a10..96957fd 100644
--- a/msg_span/msg_span.c
+++ b/msg_span/msg_span.c
@@ -47,14 +47,19 @@ HARBOL_EXPORT bool harbol_msg_span_init(struct HarbolMsgSpan *const restrict msg
 		if( end != NULL ) {
 			*end = 0;
 		}
-		harbol_string_copy_cstr(&msgspan->src.lines[i], line);
+		bool const copied = line[0]==0 || harbol_string_copy_cstr(&msgspan->src.lines[i], line);
 		if( end != NULL ) {
 			*end = '\n';
 		}
+		if( !copied ) {
+			harbol_msg_span_clear(msgspan);
+			return false;
+		}
 		line = ( end==NULL )? NULL : end + 1;
 	}
-	if( is_filename ) {
-		harbol_string_copy_cstr(&msgspan->src.filename, cstr);
+	if( is_filename && !harbol_string_copy_cstr(&msgspan->src.filename, cstr) ) {
+		harbol_msg_span_clear(msgspan);
+		return false;
 	}
 	if( free_src_str ) {
 		harbol_string_clear(&msgspan->src.code);
-- 
2.43.0


From afda9526b88dd05abae7f48ddd2d34953712d991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:23 +0000
Subject: [PATCH 089/103] fix: config values were lost when memory ran out
 while converting them

---
 cfg/cfg.c | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index a6530de..7c08f2d 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -753,6 +753,18 @@ HARBOL_EXPORT enum HarbolCfgType harbol_cfg_get_type(struct HarbolMap const *con
 	return( var==NULL )? HarbolCfgType_Invalid : var->tag;
 }
 
+/// the old value is only given up when there's a new one to replace it.
+static NO_NULL bool _convert_var(struct HarbolVariant *const restrict var, void const *const val, size_t const datasize, enum HarbolCfgType const type) {
+	bool made = false;
+	struct HarbolVariant const converted = harbol_variant_make(val, datasize, type, &made);
+	if( !made ) {
+		return false;
+	}
+	_harbol_cfgkey_clear(var);
+	*var = converted;
+	return true;
+}
+
 HARBOL_EXPORT bool harbol_cfg_set_str(struct HarbolMap *const restrict cfgmap, char const keypath[restrict static 1], struct HarbolString const str, bool const override_convert) {
 	return harbol_cfg_set_cstr(cfgmap, keypath, ( str.cstr==NULL )? "" : str.cstr, override_convert);
 }
@@ -763,9 +775,11 @@ HARBOL_EXPORT bool harbol_cfg_set_cstr(struct HarbolMap *const restrict cfgmap,
 		return false;
 	} else if( var->tag != HarbolCfgType_String ) {
 		if( override_convert ) {
-			_harbol_cfgkey_clear(var);
 			struct HarbolString *str = harbol_string_new(cstr);
-			*var = harbol_variant_make(&str, sizeof str, HarbolCfgType_String, &( bool ){0});
+			if( str==NULL || !_convert_var(var, &str, sizeof str, HarbolCfgType_String) ) {
+				harbol_string_free(&str);
+				return false;
+			}
 			return true;
 		}
 		return false;
@@ -784,9 +798,7 @@ HARBOL_EXPORT bool harbol_cfg_set_float(struct HarbolMap *const restrict cfgmap,
 		return false;
 	} else if( var->tag != HarbolCfgType_Float ) {
 		if( override_convert ) {
-			_harbol_cfgkey_clear(var);
-			*var = harbol_variant_make(&val, sizeof val, HarbolCfgType_Float, &( bool ){0});
-			return true;
+			return _convert_var(var, &val, sizeof val, HarbolCfgType_Float);
 		}
 		return false;
 	}
@@ -800,9 +812,7 @@ HARBOL_EXPORT bool harbol_cfg_set_int(struct HarbolMap *const restrict cfgmap, c
 		return false;
 	} else if( var->tag != HarbolCfgType_Int ) {
 		if( override_convert ) {
-			_harbol_cfgkey_clear(var);
-			*var = harbol_variant_make(&val, sizeof val, HarbolCfgType_Int, &( bool ){0});
-			return true;
+			return _convert_var(var, &val, sizeof val, HarbolCfgType_Int);
 		}
 		return false;
 	}
@@ -816,9 +826,7 @@ HARBOL_EXPORT bool harbol_cfg_set_bool(struct HarbolMap *const restrict cfgmap,
 		return false;
 	} else if( var->tag != HarbolCfgType_Bool ) {
 		if( override_convert ) {
-			_harbol_cfgkey_clear(var);
-			*var = harbol_variant_make(&val, sizeof val, HarbolCfgType_Bool, &( bool ){0});
-			return true;
+			return _convert_var(var, &val, sizeof val, HarbolCfgType_Bool);
 		}
 		return false;
 	}
@@ -832,9 +840,7 @@ HARBOL_EXPORT bool harbol_cfg_set_color(struct HarbolMap *const restrict cfgmap,
 		return false;
 	} else if( var->tag != HarbolCfgType_Color ) {
 		if( override_convert ) {
-			_harbol_cfgkey_clear(var);
-			*var = harbol_variant_make(&val, sizeof val, HarbolCfgType_Color, &( bool ){0});
-			return true;
+			return _convert_var(var, &val, sizeof val, HarbolCfgType_Color);
 		}
 		return false;
 	}
@@ -848,9 +854,7 @@ HARBOL_EXPORT bool harbol_cfg_set_vec4D(struct HarbolMap *const restrict cfgmap,
 		return false;
 	} else if( var->tag != HarbolCfgType_Vec4D ) {
 		if( override_convert ) {
-			_harbol_cfgkey_clear(var);
-			*var = harbol_variant_make(&val, sizeof val, HarbolCfgType_Vec4D, &( bool ){0});
-			return true;
+			return _convert_var(var, &val, sizeof val, HarbolCfgType_Vec4D);
 		}
 		return false;
 	}
@@ -865,9 +869,7 @@ HARBOL_EXPORT bool harbol_cfg_set_to_null(struct HarbolMap *const restrict cfgma
 		return false;
 	}
 	
-	_harbol_cfgkey_clear(var);
-	*var = harbol_variant_make(&( char ){0}, 1, HarbolCfgType_Null, &( bool ){0});
-	return true;
+	return _convert_var(var, &( char ){0}, 1, HarbolCfgType_Null);
 }
 
 HARBOL_EXPORT bool harbol_cfg_build_file(struct HarbolMap const *const cfg, char const filename[static 1], bool const overwrite) {
-- 
2.43.0


From 8d70cf7f42b8ed79ed66ee90fc718261c0489287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:23 +0000
Subject: [PATCH 090/103] fix: config paths named other entries when memory ran
 out

---
 cfg/cfg.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 7c08f2d..a0e650f 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -678,21 +678,22 @@ static NO_NULL struct HarbolVariant *_get_var(struct HarbolMap const *const cfgm
 	struct HarbolString sectionstr = {0};
 	struct HarbolMap const *itermap = cfgmap;
 	struct HarbolVariant *restrict var = NULL;
+	bool whole = true;
 	do {
 		harbol_string_clear(&sectionstr);
 		/// Patch: allow keys to use dot without interfering with dot path.
 		while( *iter != 0 ) {
 			if( *iter=='\\' && iter[1]=='.' ) {
 				iter++;
-				harbol_string_add_char(&sectionstr, *iter++);
+				whole &= harbol_string_add_char(&sectionstr, *iter++);
 			} else if( *iter=='.' ) {
 				iter++;
 				break;
 			} else {
-				harbol_string_add_char(&sectionstr, *iter++);
+				whole &= harbol_string_add_char(&sectionstr, *iter++);
 			}
 		}
-		var = ( itermap==NULL || harbol_string_empty(&sectionstr) )? NULL : harbol_map_key_get(itermap, sectionstr.cstr, sectionstr.len+1);
+		var = ( !whole || itermap==NULL || harbol_string_empty(&sectionstr) )? NULL : harbol_map_key_get(itermap, sectionstr.cstr, sectionstr.len+1);
 		/// only sections have something to continue with.
 		itermap = ( var==NULL || var->tag != HarbolCfgType_Map )? NULL : *( struct HarbolMap const** )(var->data);
 	} while( var != NULL && *iter != 0 );
-- 
2.43.0


From 103c3bf7a79dd43f5c443ef7f9c0840ba5d3555a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 091/103] fix: formatting text that cannot be formatted
 released the text of the string

---
 str/str.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/str/str.c b/str/str.c
index 036a320..c40eb09 100644
--- a/str/str.c
+++ b/str/str.c
@@ -155,7 +155,7 @@ HARBOL_EXPORT int harbol_string_format_va(struct HarbolString *const restrict st
 	va_end(va_l);
 	
 	size_t const old_size = clear? 0 : str->len;
-	if( !_harbol_resize_string(str, size + old_size) ) {
+	if( size < 0 || !_harbol_resize_string(str, size + old_size) ) {
 		va_end(st);
 		return -1;
 	}
-- 
2.43.0


From 4826b5fa45d6ce0aa102673d2649792ad2f18a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 092/103] fix: repeating a character a huge number of times
 wrote outside of the string

---
 str/str.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/str/str.c b/str/str.c
index c40eb09..dc8cc6c 100644
--- a/str/str.c
+++ b/str/str.c
@@ -69,7 +69,7 @@ HARBOL_EXPORT bool harbol_string_add_char(struct HarbolString *const str, char c
 }
 
 HARBOL_EXPORT bool harbol_string_add_char_rep(struct HarbolString *const str, char const c, size_t const amount) {
-	if( !_harbol_resize_string(str, str->len + amount) ) {
+	if( amount >= SIZE_MAX - str->len || !_harbol_resize_string(str, str->len + amount) ) {
 		return false;
 	}
 	for( size_t i=0; i < amount; i++ ) {
-- 
2.43.0


From d6ecd850553910793b2758d0ff450b76843cfe28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 093/103] fix: adding a huge number of zeros wrote outside of
 the byte buffer

---
 bytebuffer/bytebuffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bytebuffer/bytebuffer.c b/bytebuffer/bytebuffer.c
index 477a22a..452ed41 100644
--- a/bytebuffer/bytebuffer.c
+++ b/bytebuffer/bytebuffer.c
@@ -114,7 +114,7 @@ HARBOL_EXPORT bool harbol_bytebuffer_insert_obj(struct HarbolByteBuf *const rest
 }
 
 HARBOL_EXPORT bool harbol_bytebuffer_insert_zeros(struct HarbolByteBuf *const buf, size_t const amount) {
-	if( buf->len + amount >= buf->cap && !_harbol_buffer_resize(buf, buf->len + amount) ) {
+	if( amount > SIZE_MAX - buf->len || (buf->len + amount >= buf->cap && !_harbol_buffer_resize(buf, buf->len + amount)) ) {
 		return false;
 	}
 	memset(&buf->table[buf->len], 0, amount);
-- 
2.43.0


From 4364ce4bed246166e94f08a3cb5dd82ad3be252c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:39 +0000
Subject: [PATCH 094/103] fix: configs were written in part when memory ran out

---
 cfg/cfg.c | 100 +++++++++++++++++++++++++++++++-----------------------
 1 file changed, 57 insertions(+), 43 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index a0e650f..2ace41e 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -577,98 +577,107 @@ HARBOL_EXPORT void harbol_cfg_free(struct HarbolMap **const cfg_ref) {
 	harbol_map_free(cfg_ref);
 }
 
-static NO_NULL void _concat_tabs(struct HarbolString *const str, size_t const tabs) {
+static NO_NULL bool _concat_tabs(struct HarbolString *const str, size_t const tabs) {
+	bool whole = true;
 	for( size_t i=0; i < tabs; i++ ) {
-		harbol_string_add_cstr(str, "\t");
+		whole &= harbol_string_add_cstr(str, "\t");
 	}
+	return whole;
 }
 
 /// strings have to be escaped or they won't be parsed as what they are.
-static NO_NULL void _concat_quoted(struct HarbolString *const str, char const text[const static 1]) {
-	harbol_string_add_char(str, '"');
+static NO_NULL bool _concat_quoted(struct HarbolString *const str, char const text[const static 1]) {
+	bool whole = harbol_string_add_char(str, '"');
 	for( char const *iter=text; *iter != 0; iter++ ) {
 		switch( *iter ) {
-			case '"':  harbol_string_add_cstr(str, "\\\""); break;
-			case '\\': harbol_string_add_cstr(str, "\\\\"); break;
-			case '\n': harbol_string_add_cstr(str, "\\n");  break;
-			case '\r': harbol_string_add_cstr(str, "\\r");  break;
-			case '\t': harbol_string_add_cstr(str, "\\t");  break;
-			default:   harbol_string_add_char(str, *iter);
+			case '"':  whole &= harbol_string_add_cstr(str, "\\\""); break;
+			case '\\': whole &= harbol_string_add_cstr(str, "\\\\"); break;
+			case '\n': whole &= harbol_string_add_cstr(str, "\\n");  break;
+			case '\r': whole &= harbol_string_add_cstr(str, "\\r");  break;
+			case '\t': whole &= harbol_string_add_cstr(str, "\\t");  break;
+			default:   whole &= harbol_string_add_char(str, *iter);
 		}
 	}
-	harbol_string_add_char(str, '"');
+	return whole & harbol_string_add_char(str, '"');
 }
 
 /// numbers that the usual 6 decimals would change get as many digits as needed.
-static NO_NULL void _concat_float(struct HarbolString *const str, long double const value, bool const is_float32) {
+static NO_NULL bool _concat_float(struct HarbolString *const str, long double const value, bool const is_float32) {
 	char *number = sprintf_alloc("%Lf", value);
-	long double const written = ( number==NULL )? value : strtold(number, NULL);
-	bool const is_exact = ( is_float32 )? ( float32_t )(written)==( float32_t )(value) : written==value;
-	if( is_exact ) {
-		harbol_string_add_cstr(str, number);
-	} else {
-		harbol_string_format(str, false, "%.*Le", DECIMAL_DIG - 1, value);
+	if( number==NULL ) {
+		return false;
 	}
+	long double const written = strtold(number, NULL);
+	bool const is_exact = ( is_float32 )? ( float32_t )(written)==( float32_t )(value) : written==value;
+	bool const whole = ( is_exact )? harbol_string_add_cstr(str, number) : harbol_string_format(str, false, "%.*Le", DECIMAL_DIG - 1, value) >= 0;
 	free(number); number = NULL;
+	return whole;
 }
 
 HARBOL_EXPORT struct HarbolString harbol_cfg_to_str(struct HarbolMap const *const map) {
 	static size_t tabs = 0;
 	struct HarbolString cfg_str = harbol_string_make(NULL, &( bool ){false});
 	struct HarbolString *str = &cfg_str;
+	bool whole = true;
 	for( size_t i=0; i < map->len; i++ ) {
 		struct HarbolVariant const *const var = ( struct HarbolVariant const* )(map->datum[i]);
 		union ConfigVal const cv = { var->data };
 		
-		_concat_tabs(str, tabs);
-		_concat_quoted(str, ( char const* )(map->keys[i]));
-		harbol_string_add_cstr(str, ": ");
+		whole &= _concat_tabs(str, tabs);
+		whole &= _concat_quoted(str, ( char const* )(map->keys[i]));
+		whole &= harbol_string_add_cstr(str, ": ");
 		switch( var->tag ) {
 			case HarbolCfgType_Null:
-				harbol_string_add_cstr(str, "null\n");
+				whole &= harbol_string_add_cstr(str, "null\n");
 				break;
 			case HarbolCfgType_Map: {
-				harbol_string_add_cstr(str, "{\n");
+				whole &= harbol_string_add_cstr(str, "{\n");
 				tabs++;
 				struct HarbolString inner_str = harbol_cfg_to_str(*cv.section);
 				if( !harbol_string_empty(&inner_str) ) {
-					harbol_string_add_str(str, &inner_str);
+					whole &= harbol_string_add_str(str, &inner_str);
+				} else {
+					whole &= (*cv.section)->len==0;
 				}
 				harbol_string_clear(&inner_str);
-				_concat_tabs(str, --tabs);
-				harbol_string_add_cstr(str, "}\n");
+				whole &= _concat_tabs(str, --tabs);
+				whole &= harbol_string_add_cstr(str, "}\n");
 				break;
 			}
 			case HarbolCfgType_String:
-				_concat_quoted(str, ( (*cv.str)->cstr==NULL )? "" : (*cv.str)->cstr);
-				harbol_string_add_cstr(str, "\n");
+				whole &= _concat_quoted(str, ( (*cv.str)->cstr==NULL )? "" : (*cv.str)->cstr);
+				whole &= harbol_string_add_cstr(str, "\n");
 				break;
 			case HarbolCfgType_Float:
-				_concat_float(str, *cv.f, false);
-				harbol_string_add_cstr(str, "\n");
+				whole &= _concat_float(str, *cv.f, false);
+				whole &= harbol_string_add_cstr(str, "\n");
 				break;
 			case HarbolCfgType_Int:
-				harbol_string_format(str, false, "%" PRIiMAX "\n", *cv.i);
+				whole &= harbol_string_format(str, false, "%" PRIiMAX "\n", *cv.i) >= 0;
 				break;
 			case HarbolCfgType_Bool:
-				harbol_string_add_cstr(str, *cv.b? "true\n" : "false\n");
+				whole &= harbol_string_add_cstr(str, *cv.b? "true\n" : "false\n");
 				break;
 			case HarbolCfgType_Color:
-				harbol_string_format(str, false, "c[ %u, %u, %u, %u ]\n", cv.c->bytes.r, cv.c->bytes.g, cv.c->bytes.b, cv.c->bytes.a);
+				whole &= harbol_string_format(str, false, "c[ %u, %u, %u, %u ]\n", cv.c->bytes.r, cv.c->bytes.g, cv.c->bytes.b, cv.c->bytes.a) >= 0;
 				break;
 			case HarbolCfgType_Vec4D:
-				harbol_string_add_cstr(str, "v[ ");
-				_concat_float(str, cv.v->x, true);
-				harbol_string_add_cstr(str, ", ");
-				_concat_float(str, cv.v->y, true);
-				harbol_string_add_cstr(str, ", ");
-				_concat_float(str, cv.v->z, true);
-				harbol_string_add_cstr(str, ", ");
-				_concat_float(str, cv.v->w, true);
-				harbol_string_add_cstr(str, " ]\n");
+				whole &= harbol_string_add_cstr(str, "v[ ");
+				whole &= _concat_float(str, cv.v->x, true);
+				whole &= harbol_string_add_cstr(str, ", ");
+				whole &= _concat_float(str, cv.v->y, true);
+				whole &= harbol_string_add_cstr(str, ", ");
+				whole &= _concat_float(str, cv.v->z, true);
+				whole &= harbol_string_add_cstr(str, ", ");
+				whole &= _concat_float(str, cv.v->w, true);
+				whole &= harbol_string_add_cstr(str, " ]\n");
 				break;
 		}
 	}
+	/// a part of a config isn't the config.
+	if( !whole ) {
+		harbol_string_clear(&cfg_str);
+	}
 	return cfg_str;
 }
 
@@ -874,12 +883,17 @@ HARBOL_EXPORT bool harbol_cfg_set_to_null(struct HarbolMap *const restrict cfgma
 }
 
 HARBOL_EXPORT bool harbol_cfg_build_file(struct HarbolMap const *const cfg, char const filename[static 1], bool const overwrite) {
+	struct HarbolString text = harbol_cfg_to_str(cfg);
+	if( harbol_string_empty(&text) && cfg->len > 0 ) {
+		fputs("harbol_cfg_build_file :: unable to write config as text.\n", stderr);
+		return false;
+	}
 	FILE *restrict cfgfile = fopen(filename, overwrite? "w+" : "a+");
 	if( cfgfile==NULL ) {
 		fputs("harbol_cfg_build_file :: unable to create file.\n", stderr);
+		harbol_string_clear(&text);
 		return false;
 	}
-	struct HarbolString text = harbol_cfg_to_str(cfg);
 	bool const wrote = fwrite(text.cstr, sizeof *text.cstr, text.len, cfgfile)==text.len;
 	harbol_string_clear(&text);
 	bool const closed = fclose(cfgfile)==0; cfgfile=NULL;
-- 
2.43.0


From 5f206aea6b6f8a6d210fe1633290c7b7fac65c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:13 +0000
Subject: [PATCH 095/103] fix: deeply nested math expressions exhausted the
 stack

---
 math/math_parser.c | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/math/math_parser.c b/math/math_parser.c
index 3ba41d3..e689f45 100644
--- a/math/math_parser.c
+++ b/math/math_parser.c
@@ -7,6 +7,7 @@
 
 enum {
 	LEXEME_SIZE = 64,
+	MAX_NESTING = 1000, /// how far brackets and function calls can be nested.
 };
 
 enum HarbolMathTokenType {
@@ -34,7 +35,7 @@ struct HarbolMathLexer {
 	struct HarbolMathToken   tok;
 	HarbolMathVarFunc       *var_func;
 	void                    *data;
-	size_t                   expr_len, idx, data_len;
+	size_t                   expr_len, idx, data_len, depth;
 };
 
 
@@ -249,23 +250,32 @@ floatmax_t harbol_math_parse_pow_expr(struct HarbolMathLexer *const restrict ls,
 
 /// UnaryExpr = *( '-' | '+' ) Factor .
 floatmax_t harbol_math_parse_unary_expr(struct HarbolMathLexer *const restrict ls, char const expression[const restrict static 1]) {
-	if( ls->tok.tag==TokenSub ) {
-		_harbol_math_get_token(ls, expression);
-		return -harbol_math_parse_unary_expr(ls, expression);
-	} else if( ls->tok.tag==TokenPlus ) {
+	bool negative = false, absolute = false;
+	while( ls->tok.tag==TokenSub || ls->tok.tag==TokenPlus ) {
+		if( ls->tok.tag==TokenPlus ) {
+			/// signs further inside make no difference.
+			absolute = true;
+		} else if( !absolute ) {
+			negative = !negative;
+		}
 		_harbol_math_get_token(ls, expression);
-		return fabs( harbol_math_parse_unary_expr(ls, expression) );
 	}
-	return harbol_math_parse_factor(ls, expression);
+	floatmax_t const factor = harbol_math_parse_factor(ls, expression);
+	floatmax_t const val    = absolute? fabs(factor) : factor;
+	return negative? -val : val;
 }
 
 
 /// Factor = number | ident | func ( '(' | '[' )? UnaryExpr , PowExpr | '(' Expr ')' | '[' Expr ']' .
-floatmax_t harbol_math_parse_factor(struct HarbolMathLexer *const restrict ls, char const expression[const restrict static 1]) {
+static NO_NULL floatmax_t _harbol_math_parse_factor(struct HarbolMathLexer *const restrict ls, char const expression[const restrict static 1]) {
 	union {
 		uintmax_t  u;
 		floatmax_t f;
 	} value = { UINTMAX_MAX };
+	if( ls->depth > MAX_NESTING ) {
+		//LogError("ConfigMap-Math :: expression is nested too deep");
+		return value.f;
+	}
 	switch( ls->tok.tag ) {
 		case TokenNum: {
 			floatmax_t const f = ls->tok.val;
@@ -314,3 +324,10 @@ floatmax_t harbol_math_parse_factor(struct HarbolMathLexer *const restrict ls, c
 		}
 	}
 }
+
+floatmax_t harbol_math_parse_factor(struct HarbolMathLexer *const restrict ls, char const expression[const restrict static 1]) {
+	ls->depth++;
+	floatmax_t const val = _harbol_math_parse_factor(ls, expression);
+	ls->depth--;
+	return val;
+}
-- 
2.43.0


From 575e1e8874ecab4c5ebfdee176abdb39c3f02436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:50 +0000
Subject: [PATCH 096/103] fix: opening a file by a long path overran the buffer
 of its name

---
 plugins/tinydir.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/tinydir.h b/plugins/tinydir.h
index ffcd9df..d279f68 100644
--- a/plugins/tinydir.h
+++ b/plugins/tinydir.h
@@ -646,7 +646,7 @@ int tinydir_file_open(tinydir_file *file, const _tinydir_char_t *path)
 	int result = 0;
 	int found = 0;
 	_tinydir_char_t dir_name_buf[_TINYDIR_PATH_MAX];
-	_tinydir_char_t file_name_buf[_TINYDIR_FILENAME_MAX];
+	_tinydir_char_t file_name_buf[_TINYDIR_PATH_MAX];
 	_tinydir_char_t *dir_name;
 	_tinydir_char_t *base_name;
 #if (defined _MSC_VER || defined __MINGW32__)
-- 
2.43.0


From 35fde0d812544948299a0c68df6713b2e01d09ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:27 +0000
Subject: [PATCH 097/103] fix: opening a file by path failed when another file
 of its directory could not be read

---
 plugins/tinydir.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/plugins/tinydir.h b/plugins/tinydir.h
index d279f68..bac0489 100644
--- a/plugins/tinydir.h
+++ b/plugins/tinydir.h
@@ -724,12 +724,8 @@ if (errno)
 	/* Read through the parent directory and look for the file */
 	while (dir.has_next)
 	{
-		if (tinydir_readfile(&dir, file) == -1)
-		{
-			result = -1;
-			goto bail;
-		}
-		if (_tinydir_strcmp(file->name, base_name) == 0)
+		/* other files that can't be read (like dangling links) are skipped */
+		if (tinydir_readfile(&dir, file) == 0 && _tinydir_strcmp(file->name, base_name) == 0)
 		{
 			/* File found */
 			found = 1;
@@ -743,7 +739,6 @@ if (errno)
 		errno = ENOENT;
 	}
 
-bail:
 	tinydir_close(&dir);
 	return result;
 }
-- 
2.43.0


From cbd33a2099cc1f9f1b697a57afa1b885e28e7850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:55 +0000
Subject: [PATCH 098/103] fix: directories whose names end with a backslash
 could not be listed

---
 plugins/tinydir.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/plugins/tinydir.h b/plugins/tinydir.h
index bac0489..0631912 100644
--- a/plugins/tinydir.h
+++ b/plugins/tinydir.h
@@ -300,7 +300,11 @@ int tinydir_open(tinydir_dir *dir, const _tinydir_char_t *path)
 	_tinydir_strcpy(dir->path, path);
 	/* Remove trailing slashes */
 	pathp = &dir->path[_tinydir_strlen(dir->path) - 1];
-	while (pathp != dir->path && (*pathp == TINYDIR_STRING('\\') || *pathp == TINYDIR_STRING('/')))
+	while (pathp != dir->path && (*pathp == TINYDIR_STRING('/')
+#if (defined _MSC_VER || defined __MINGW32__)
+		|| *pathp == TINYDIR_STRING('\\')
+#endif
+	))
 	{
 		*pathp = TINYDIR_STRING('\0');
 		pathp++;
-- 
2.43.0


From 32c583f6f911e0e07ed959ab932189895ed9c01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:49 +0000
Subject: [PATCH 099/103] fix: config diagnostics count the line of a single
 line comment once

---
 cfg/cfg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 2ace41e..3b29164 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -44,8 +44,8 @@ static NO_NULL bool skip_ws_and_comments(char const **strref, HarbolCfgState *co
 				}*/
 				*strref = skip_chars(*strref, is_whitespace, &parse_state->curr_line);
 			} else if( **strref=='#' || (**strref=='/' && (*strref)[1]=='/') ) {
+				/// the newline that ends it is counted as whitespace.
 				*strref = skip_single_line_comment(*strref, &parse_state->curr_line);
-				parse_state->curr_line++;
 			} else if( **strref=='/' && (*strref)[1]=='*' ) {
 				*strref = skip_multi_line_comment(*strref, "*/", sizeof "*/"-1, &parse_state->curr_line);
 			} else if( **strref==':' || **strref==',' ) {
-- 
2.43.0


From e1b111a7c072bf8fd22ba76c43c9021e20bdd673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:49 +0000
Subject: [PATCH 100/103] fix: config diagnostics count the lines of texts over
 several lines

---
 cfg/cfg.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 3b29164..594acc6 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -56,6 +56,18 @@ static NO_NULL bool skip_ws_and_comments(char const **strref, HarbolCfgState *co
 	}
 }
 
+/// quoted texts can go over several lines.
+static NO_NULL int _lex_quoted(char const **const strref, struct HarbolString *const restrict str, HarbolCfgState *const restrict parse_state) {
+	char const *iter = *strref;
+	int const res = lex_c_style_str(iter, strref, str);
+	for( ; iter < *strref; iter++ ) {
+		if( *iter=='\n' ) {
+			parse_state->curr_line++;
+		}
+	}
+	return res;
+}
+
 static bool NO_NULL _lex_number(char const **restrict strref, struct HarbolString *const restrict str, enum HarbolCfgType *const typeref, HarbolCfgState *const restrict parse_state) {
 	if( *strref==NULL || **strref==0 ) {
 		return false;
@@ -202,7 +214,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 	}
 	
 	struct HarbolString keystr = {0};
-	int const str_res = lex_c_style_str(*cfgcoderef, cfgcoderef, &keystr);
+	int const str_res = _lex_quoted(cfgcoderef, &keystr, parse_state);
 	if( str_res > HarbolLexNoErr ) {
 		harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "syntax error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: invalid string key '%s' %s.\n", keystr.cstr, lex_get_err(str_res));
 		harbol_string_clear(&keystr);
@@ -226,7 +238,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		}
 		
 		struct HarbolString file_path = harbol_string_make(NULL, &( bool ){false});
-		int const str_res = lex_c_style_str(*cfgcoderef, cfgcoderef, &file_path);
+		int const str_res = _lex_quoted(cfgcoderef, &file_path, parse_state);
 		if( str_res > HarbolLexNoErr ) {
 			harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "syntax error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: invalid string value '%s' for key '%s' %s.\n", file_path.cstr, keystr.cstr, lex_get_err(str_res));
 			harbol_string_clear(&file_path);
@@ -297,7 +309,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			return false;
 		}
 		
-		int const str_res = lex_c_style_str(*cfgcoderef, cfgcoderef, str);
+		int const str_res = _lex_quoted(cfgcoderef, str, parse_state);
 		if( str_res > HarbolLexNoErr ) {
 			harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "syntax error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: invalid string value '%s' for key '%s' %s.\n", str->cstr, keystr.cstr, lex_get_err(str_res));
 			harbol_string_free(&str);
-- 
2.43.0


From 636da2197b2f83070c913c16a043c3ba320e5c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:13 +0000
Subject: [PATCH 101/103] fix: harbol_string_add takes a single character

Adding 0 promoted the char to an int, which matches no function.
---
 str/str.c | 2 +-
 str/str.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/str/str.c b/str/str.c
index dc8cc6c..be14770 100644
--- a/str/str.c
+++ b/str/str.c
@@ -102,7 +102,7 @@ HARBOL_EXPORT bool harbol_string_add_cstr(struct HarbolString *const restrict st
 }
 
 #ifdef C11
-#	define harbol_string_add(str, val)  _Generic((val)+0, \
+#	define harbol_string_add(str, val)  _Generic((val), \
 											char                       : harbol_string_add_char, \
 											struct HarbolString*       : harbol_string_add_str, \
 											struct HarbolString const* : harbol_string_add_str, \
diff --git a/str/str.h b/str/str.h
index 4407306..4162014 100644
--- a/str/str.h
+++ b/str/str.h
@@ -32,7 +32,7 @@ HARBOL_EXPORT NO_NULL bool harbol_string_add_str(struct HarbolString *strA, stru
 HARBOL_EXPORT NEVER_NULL(1) bool harbol_string_add_cstr(struct HarbolString *str, char const cstr[]);
 
 #ifdef C11
-#	define harbol_string_add(str, val)  _Generic((val)+0, \
+#	define harbol_string_add(str, val)  _Generic((val), \
 											char                       : harbol_string_add_char, \
 											struct HarbolString*       : harbol_string_add_str, \
 											struct HarbolString const* : harbol_string_add_str, \
-- 
2.43.0


From 8910a9f670ddf5778410387dea085df4713f35b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:14 +0000
Subject: [PATCH 102/103] fix: harbol_bytebuffer_insert inserts small integers
 with their own size

Adding 0 promoted 8 and 16 bit values to int, so they were written as 4 bytes.
---
 bytebuffer/bytebuffer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bytebuffer/bytebuffer.h b/bytebuffer/bytebuffer.h
index 235bd9c..2c94b20 100644
--- a/bytebuffer/bytebuffer.h
+++ b/bytebuffer/bytebuffer.h
@@ -40,7 +40,8 @@ HARBOL_EXPORT NO_NULL bool harbol_bytebuffer_insert_obj(struct HarbolByteBuf *bu
 HARBOL_EXPORT NO_NULL bool harbol_bytebuffer_insert_zeros(struct HarbolByteBuf *buf, size_t amount);
 
 #ifdef C11
-#	define harbol_bytebuffer_insert(buf, val)    _Generic((val)+0, \
+#	define harbol_bytebuffer_insert(buf, val)    _Generic((val), \
+													bool        : harbol_bytebuffer_insert_byte,     \
 													uint8_t     : harbol_bytebuffer_insert_byte,     \
 													int8_t      : harbol_bytebuffer_insert_byte,     \
 													char        : harbol_bytebuffer_insert_byte,     \
-- 
2.43.0


From cd8cee2f4d00e85391687fec0ba649986827f298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:14 +0000
Subject: [PATCH 103/103] fix: harbol_cfg_set compiles

int64_t and intmax_t are the same type, and 0 can't be added to structs.
---
 cfg/cfg.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cfg/cfg.h b/cfg/cfg.h
index 030fc2a..cf79ef1 100644
--- a/cfg/cfg.h
+++ b/cfg/cfg.h
@@ -74,7 +74,7 @@ HARBOL_EXPORT NO_NULL bool harbol_cfg_set_to_null(struct HarbolMap *cfg, char co
 HARBOL_EXPORT NEVER_NULL(1, 2) floatmax_t harbol_cfg_calc_math(struct HarbolMap const *cfg, char const keypath[], HarbolMathVarFunc *var_func, void *data, size_t data_len);
 
 #ifdef C11
-#	define harbol_cfg_set(cfg, keypath, val, override)  _Generic((val)+0, \
+#	define harbol_cfg_set(cfg, keypath, val, override)  _Generic((val), \
 															struct HarbolString : harbol_cfg_set_str,   \
 															char*               : harbol_cfg_set_cstr,  \
 															char const*         : harbol_cfg_set_cstr,  \
@@ -84,7 +84,6 @@ HARBOL_EXPORT NEVER_NULL(1, 2) floatmax_t harbol_cfg_calc_math(struct HarbolMap
 															int32_t             : harbol_cfg_set_int,   \
 															uint32_t            : harbol_cfg_set_int,   \
 															int64_t             : harbol_cfg_set_int,   \
-															intmax_t            : harbol_cfg_set_int,   \
 															bool                : harbol_cfg_set_bool,  \
 															union HarbolColor   : harbol_cfg_set_color, \
 															struct HarbolVec4D  : harbol_cfg_set_vec4D) \
-- 
2.43.0

