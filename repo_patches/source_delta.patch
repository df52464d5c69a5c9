From 0513ab9f23adc7fe751ef532fae6bca674b67342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:28 +0000
Subject: [PATCH 01/63] fix: delete every matching element of a wrapped queue

cf_queue_delete() with only_one == false walks the queue once.
Deleting an element that lies after the wrap point moves the rest of
the tail down by one, so the element that followed it was skipped and
could survive although it matched. Look at the same offset again after
the tail was moved.
---
 src/main/citrusleaf/cf_queue.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/main/citrusleaf/cf_queue.c b/src/main/citrusleaf/cf_queue.c
index 99f9f07..b75cc4d 100644
--- a/src/main/citrusleaf/cf_queue.c
+++ b/src/main/citrusleaf/cf_queue.c
@@ -674,9 +674,16 @@ cf_queue_delete(cf_queue *q, const void *ptr, bool only_one)
 			}
 
 			if (rv == 0) {
+				uint32_t write_offset = q->write_offset;
+
 				cf_queue_delete_offset(q, i);
 				found = true;
 
+				// If the tail was moved down, the next element is now at i.
+				if (q->write_offset != write_offset) {
+					i--;
+				}
+
 				if (only_one) {
 					break;
 				}
-- 
2.43.0


From 86b858f32f3f5384086c90218916977a434307cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:37 +0000
Subject: [PATCH 02/63] fix: keep the opening bracket when appending zero bytes
 as hex

as_string_builder_append_bytes() always dropped the last character
before writing the closing bracket, assuming it was a separator. For an
empty byte array that character is the opening bracket, so the text
became "]" instead of "[]". Drop a separator only when one was written
and reserve room for both brackets.
---
 src/main/aerospike/as_string_builder.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/main/aerospike/as_string_builder.c b/src/main/aerospike/as_string_builder.c
index d7a8b58..03632ef 100644
--- a/src/main/aerospike/as_string_builder.c
+++ b/src/main/aerospike/as_string_builder.c
@@ -165,7 +165,7 @@ as_string_builder_append_bytes(as_string_builder* sb, uint8_t* src, uint32_t siz
 		// Ensure buffer is large enough to receive bytes.
 		// min capacity = old length + 3 chars per byte including separator + 2 bracket chars
 		// - 1 extra separator + 1 null byte.
-		uint32_t min_capacity = sb->length + (size * 3) + 2;
+		uint32_t min_capacity = sb->length + (size > 0 ? (size * 3) + 2 : 3);
 
 		if (min_capacity > sb->capacity) {
 			if (! as_sb_increase_capacity(sb, min_capacity)) {
@@ -182,7 +182,10 @@ as_string_builder_append_bytes(as_string_builder* sb, uint8_t* src, uint32_t siz
 			*trg++ = as_hex_chars[b & 0xf];
 			*trg++ = ' ';
 		}
-		trg--; // truncate last separator
+
+		if (size > 0) {
+			trg--; // truncate last separator
+		}
 		*trg++ = ']';
 		*trg = 0;
 		sb->length = (int)(trg - sb->data);
@@ -197,7 +200,10 @@ as_string_builder_append_bytes(as_string_builder* sb, uint8_t* src, uint32_t siz
 				return false;
 			}
 		}
-		sb->length--; // truncate last separator
+
+		if (size > 0) {
+			sb->length--; // truncate last separator
+		}
 
 		if (! as_sb_append_char(sb, ']')) {
 			return false;
-- 
2.43.0


From 508d475cdf1a8fc81cbef0cc27c76b9ac906ece0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:40 +0000
Subject: [PATCH 03/63] fix: copy the elements in as_arraylist_tail()

The new list's own (unset, partly out of bounds) slots were copied
instead of the source list's elements, and the size of the new list was
never set, so the tail of every list was empty and the references taken
on its elements were leaked.
---
 src/main/aerospike/as_arraylist.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_arraylist.c b/src/main/aerospike/as_arraylist.c
index 230bdfd..397bc82 100644
--- a/src/main/aerospike/as_arraylist.c
+++ b/src/main/aerospike/as_arraylist.c
@@ -434,10 +434,11 @@ as_arraylist_tail(const as_arraylist* list)
 
 	as_arraylist* list2 = as_arraylist_new(list->size-1, list->block_size);
 
+	list2->size = list->size-1;
 	for(uint32_t i = 1, j = 0; i < list->size; i++, j++) {
 		if (list->elements[i]) {
 			as_val_reserve(list->elements[i]);
-			list2->elements[j] = list2->elements[i];
+			list2->elements[j] = list->elements[i];
 		}
 		else {
 			list2->elements[j] = 0;
-- 
2.43.0


From 30a3362bd94468f5248d7734831590113686f3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:40 +0000
Subject: [PATCH 04/63] fix: stop as_arraylist_concat() when a list is appended
 to itself

The loop was bounded by the size of the source list, which grows with
every element when source and target are the same list. The loop ran
past the end of the storage.
---
 src/main/aerospike/as_arraylist.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/aerospike/as_arraylist.c b/src/main/aerospike/as_arraylist.c
index 397bc82..4eb9bae 100644
--- a/src/main/aerospike/as_arraylist.c
+++ b/src/main/aerospike/as_arraylist.c
@@ -385,13 +385,15 @@ as_arraylist_remove(as_arraylist* list, uint32_t index)
 int
 as_arraylist_concat(as_arraylist* list, const as_arraylist* list2)
 {
-	int rc = as_arraylist_ensure(list, list2->size);
+	// The lists may be the same, so don't use a size that changes below.
+	uint32_t size2 = list2->size;
+	int rc = as_arraylist_ensure(list, size2);
 
 	if (rc != AS_ARRAYLIST_OK) {
 		return rc;
 	}
 
-	for (uint32_t i = 0; i < list2->size; i++) {
+	for (uint32_t i = 0; i < size2; i++) {
 		if (list2->elements[i]) {
 			as_val_reserve(list2->elements[i]);
 		}
-- 
2.43.0


From 23424fefdebf0c09673c7de6cd4baea942442523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:40 +0000
Subject: [PATCH 05/63] fix: return no element as the head of an empty list

as_arraylist_head() dereferenced the element array of a list that has
none, for example one created with capacity 0.
---
 src/main/aerospike/as_arraylist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_arraylist.c b/src/main/aerospike/as_arraylist.c
index 4eb9bae..7a47dd8 100644
--- a/src/main/aerospike/as_arraylist.c
+++ b/src/main/aerospike/as_arraylist.c
@@ -426,7 +426,7 @@ as_arraylist_trim(as_arraylist* list, uint32_t index)
 as_val*
 as_arraylist_head(const as_arraylist* list)
 {
-	return list->elements[0];
+	return list->size > 0 ? list->elements[0] : NULL;
 }
 
 as_arraylist*
-- 
2.43.0


From f33b001670a5f9403ce57b6998f57feccce9baeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:20 +0000
Subject: [PATCH 06/63] fix: free the value when a typed list operation is
 refused

as_arraylist_set/insert/append/prepend_int64/double/str() create the
value themselves. When the list could not take it, for example because
it is full and may not grow, nobody could free that value.
---
 src/main/aerospike/as_arraylist.c | 60 ++++++++++++++++++++++++-------
 1 file changed, 48 insertions(+), 12 deletions(-)

diff --git a/src/main/aerospike/as_arraylist.c b/src/main/aerospike/as_arraylist.c
index 7a47dd8..b81989b 100644
--- a/src/main/aerospike/as_arraylist.c
+++ b/src/main/aerospike/as_arraylist.c
@@ -139,6 +139,18 @@ as_arraylist_ensure(as_arraylist* list, uint32_t delta)
 	return AS_ARRAYLIST_OK;
 }
 
+/**
+ * Destroy a value created on behalf of the caller if it was not stored.
+ */
+static inline int
+as_arraylist_check(int rc, as_val* value)
+{
+	if (rc != AS_ARRAYLIST_OK) {
+		as_val_destroy(value);
+	}
+	return rc;
+}
+
 /*******************************************************************************
  * INFO FUNCTIONS
  ******************************************************************************/
@@ -225,19 +237,25 @@ as_arraylist_set(as_arraylist* list, uint32_t index, as_val* value)
 int
 as_arraylist_set_int64(as_arraylist* list, uint32_t index, int64_t value)
 {
-	return as_arraylist_set(list, index, (as_val*) as_integer_new(value));
+	as_val* val = (as_val*) as_integer_new(value);
+
+	return as_arraylist_check(as_arraylist_set(list, index, val), val);
 }
 
 int
 as_arraylist_set_double(as_arraylist* list, uint32_t index, double value)
 {
-	return as_arraylist_set(list, index, (as_val*) as_double_new(value));
+	as_val* val = (as_val*) as_double_new(value);
+
+	return as_arraylist_check(as_arraylist_set(list, index, val), val);
 }
 
 int
 as_arraylist_set_str(as_arraylist* list, uint32_t index, const char * value)
 {
-	return as_arraylist_set(list, index, (as_val*) as_string_new_strdup(value));
+	as_val* val = (as_val*) as_string_new_strdup(value);
+
+	return as_arraylist_check(as_arraylist_set(list, index, val), val);
 }
 
 /*******************************************************************************
@@ -282,19 +300,25 @@ as_arraylist_insert(as_arraylist* list, uint32_t index, as_val* value)
 int
 as_arraylist_insert_int64(as_arraylist* list, uint32_t index, int64_t value)
 {
-	return as_arraylist_insert(list, index, (as_val*) as_integer_new(value));
+	as_val* val = (as_val*) as_integer_new(value);
+
+	return as_arraylist_check(as_arraylist_insert(list, index, val), val);
 }
 
 int
 as_arraylist_insert_double(as_arraylist* list, uint32_t index, double value)
 {
-	return as_arraylist_insert(list, index, (as_val*) as_double_new(value));
+	as_val* val = (as_val*) as_double_new(value);
+
+	return as_arraylist_check(as_arraylist_insert(list, index, val), val);
 }
 
 int
 as_arraylist_insert_str(as_arraylist* list, uint32_t index, const char * value)
 {
-	return as_arraylist_insert(list, index, (as_val*) as_string_new_strdup(value));
+	as_val* val = (as_val*) as_string_new_strdup(value);
+
+	return as_arraylist_check(as_arraylist_insert(list, index, val), val);
 }
 
 /*******************************************************************************
@@ -310,19 +334,25 @@ as_arraylist_append(as_arraylist* list, as_val* value)
 int
 as_arraylist_append_int64(as_arraylist* list, int64_t value)
 {
-	return as_arraylist_append(list, (as_val*) as_integer_new(value));
+	as_val* val = (as_val*) as_integer_new(value);
+
+	return as_arraylist_check(as_arraylist_append(list, val), val);
 }
 
 int
 as_arraylist_append_double(as_arraylist* list, double value)
 {
-	return as_arraylist_append(list, (as_val*) as_double_new(value));
+	as_val* val = (as_val*) as_double_new(value);
+
+	return as_arraylist_check(as_arraylist_append(list, val), val);
 }
 
 int
 as_arraylist_append_str(as_arraylist* list, const char * value)
 {
-	return as_arraylist_append(list, (as_val*) as_string_new_strdup(value));
+	as_val* val = (as_val*) as_string_new_strdup(value);
+
+	return as_arraylist_check(as_arraylist_append(list, val), val);
 }
 
 /*******************************************************************************
@@ -338,19 +368,25 @@ as_arraylist_prepend(as_arraylist* list, as_val* value)
 int
 as_arraylist_prepend_int64(as_arraylist* list, int64_t value)
 {
-	return as_arraylist_prepend(list, (as_val*) as_integer_new(value));
+	as_val* val = (as_val*) as_integer_new(value);
+
+	return as_arraylist_check(as_arraylist_prepend(list, val), val);
 }
 
 int
 as_arraylist_prepend_double(as_arraylist* list, double value)
 {
-	return as_arraylist_prepend(list, (as_val*) as_double_new(value));
+	as_val* val = (as_val*) as_double_new(value);
+
+	return as_arraylist_check(as_arraylist_prepend(list, val), val);
 }
 
 int
 as_arraylist_prepend_str(as_arraylist* list, const char * value)
 {
-	return as_arraylist_prepend(list, (as_val*) as_string_new_strdup(value));
+	as_val* val = (as_val*) as_string_new_strdup(value);
+
+	return as_arraylist_check(as_arraylist_prepend(list, val), val);
 }
 
 /*******************************************************************************
-- 
2.43.0


From 433473fa5d9d26362609f5094faeba69f03367ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:45 +0000
Subject: [PATCH 07/63] fix: refuse list positions whose storage size overflows

Setting or inserting at a position near the end of the 32-bit range
overflowed the computed capacity. The list was then left too small, or
even shrunk, and the element was written outside its storage. Compute
the capacity in 64 bits and report an allocation error when it does not
fit.
---
 src/main/aerospike/as_arraylist.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/main/aerospike/as_arraylist.c b/src/main/aerospike/as_arraylist.c
index b81989b..ae14f7a 100644
--- a/src/main/aerospike/as_arraylist.c
+++ b/src/main/aerospike/as_arraylist.c
@@ -106,7 +106,7 @@ as_arraylist_destroy(as_arraylist* l)
  ******************************************************************************/
 
 static int
-as_arraylist_ensure(as_arraylist* list, uint32_t delta)
+as_arraylist_ensure(as_arraylist* list, uint64_t delta)
 {
 	// Check for capacity (in terms of elements, NOT size in bytes), and if we
 	// need to allocate more, do a realloc.
@@ -117,11 +117,14 @@ as_arraylist_ensure(as_arraylist* list, uint32_t delta)
 			return AS_ARRAYLIST_ERR_MAX;
 		}
 		// Compute how much room we're missing for the new stuff
-		int new_room = (list->size + delta) - list->capacity;
+		uint64_t new_room = (list->size + delta) - list->capacity;
 		// Compute new capacity in terms of multiples of block_size
 		// This will get us (conservatively) at least one block
-		int new_blocks = (new_room + list->block_size) / list->block_size;
-		int new_capacity = list->capacity + (new_blocks * list->block_size);
+		uint64_t new_blocks = (new_room + list->block_size) / list->block_size;
+		uint64_t new_capacity = list->capacity + (new_blocks * list->block_size);
+		if (new_capacity > UINT32_MAX) {
+			return AS_ARRAYLIST_ERR_ALLOC;
+		}
 		size_t new_bytes = sizeof(as_val*) * new_capacity;
 		as_val** elements = (as_val**) cf_realloc(list->elements, new_bytes);
 		if (! elements) {
@@ -132,7 +135,7 @@ as_arraylist_ensure(as_arraylist* list, uint32_t delta)
 		memset((uint8_t *)elements + old_bytes, 0, new_bytes - old_bytes);
 		// Set the new array pointer and capacity.
 		list->elements = elements;
-		list->capacity = new_capacity;
+		list->capacity = (uint32_t)new_capacity;
 		list->free = true;
 	}
 
@@ -205,7 +208,7 @@ as_arraylist_set(as_arraylist* list, uint32_t index, as_val* value)
 	int rc = AS_ARRAYLIST_OK;
 
 	if (index >= list->capacity) {
-		rc = as_arraylist_ensure(list, (index + 1) - list->size);
+		rc = as_arraylist_ensure(list, ((uint64_t)index + 1) - list->size);
 
 		if (rc != AS_ARRAYLIST_OK) {
 			return rc;
@@ -265,10 +268,10 @@ as_arraylist_set_str(as_arraylist* list, uint32_t index, const char * value)
 int
 as_arraylist_insert(as_arraylist* list, uint32_t index, as_val* value)
 {
-	uint32_t delta = 1;
+	uint64_t delta = 1;
 
 	if (index > list->size) {
-		delta = index + 1 - list->size;
+		delta = (uint64_t)index + 1 - list->size;
 	}
 
 	int rc = as_arraylist_ensure(list, delta);
-- 
2.43.0


From f6e4f6af2fd9644b001e7635e4059b42b92ec30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:16 +0000
Subject: [PATCH 08/63] fix: refuse byte ranges whose end exceeds 32 bits

as_bytes_copy and as_bytes_set added position and length as 32-bit numbers.
The sum could wrap around and pass the bounds check, so memory far outside
the buffer was read or written.
---
 src/main/aerospike/as_bytes.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/main/aerospike/as_bytes.c b/src/main/aerospike/as_bytes.c
index fc814bc..a51a1e7 100644
--- a/src/main/aerospike/as_bytes.c
+++ b/src/main/aerospike/as_bytes.c
@@ -153,10 +153,9 @@ as_bytes * as_bytes_new_wrap(uint8_t * value, uint32_t size, bool free)
  */
 uint32_t as_bytes_copy(const as_bytes * bytes, uint32_t index, uint8_t * value, uint32_t size)
 {
-	uint32_t sz = index + size > bytes->size ? 0 : size;
-	if ( sz == 0 ) return sz;
-	memcpy(value, &bytes->value[index], sz);
-    return sz;
+	if ( size == 0 || (uint64_t)index + size > bytes->size ) return 0;
+	memcpy(value, &bytes->value[index], size);
+    return size;
 }
 
 /**
@@ -218,7 +217,7 @@ uint32_t as_bytes_get_var_int(const as_bytes * bytes, uint32_t index, uint32_t *
  */
 bool as_bytes_set(as_bytes * bytes, uint32_t index, const uint8_t * value, uint32_t size)
 {
-    if ( index + size > bytes->capacity ) return false;
+    if ( (uint64_t)index + size > bytes->capacity ) return false;
     memcpy(&bytes->value[index], value, size);
     if ( index + size > bytes->size ) {
     	bytes->size = index + size;
-- 
2.43.0


From 7e88ee08241c10eb881d0eefa0910f0ad4474738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:16 +0000
Subject: [PATCH 09/63] fix: keep variable-length integer reads inside the
 buffer

as_bytes_get_var_int followed continuation bits past the end of the buffer
and shifted by more than the width of the result. It now returns zero, the
documented error value, in both cases.
---
 src/main/aerospike/as_bytes.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/main/aerospike/as_bytes.c b/src/main/aerospike/as_bytes.c
index a51a1e7..756f94d 100644
--- a/src/main/aerospike/as_bytes.c
+++ b/src/main/aerospike/as_bytes.c
@@ -176,13 +176,21 @@ uint32_t as_bytes_copy(const as_bytes * bytes, uint32_t index, uint8_t * value,
  */
 uint32_t as_bytes_get_var_int(const as_bytes * bytes, uint32_t index, uint32_t * value)
 {
+	if (index >= bytes->capacity) {
+		return 0;
+	}
+
 	uint8_t* begin = bytes->value + index;
+	uint8_t* end = bytes->value + bytes->capacity;
 	uint8_t* p = begin;
 	uint32_t val = 0;
 	uint32_t shift = 0;
 	uint8_t b;
 	
 	do {
+		if (p == end || shift >= 32) {
+			return 0;
+		}
 		b = *p++;
 		val |= (b & 0x7F) << shift;
 		shift += 7;
-- 
2.43.0


From fbb50e67dc9d12a20e9ff5eae1b2a07507981250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:16 +0000
Subject: [PATCH 10/63] fix: leave the buffer alone when a variable-length
 integer does not fit

as_bytes_set_var_int wrote the leading bytes of a number before it found
that the rest does not fit, overwriting contents of a call it then refused.
---
 src/main/aerospike/as_bytes.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/main/aerospike/as_bytes.c b/src/main/aerospike/as_bytes.c
index 756f94d..09c6124 100644
--- a/src/main/aerospike/as_bytes.c
+++ b/src/main/aerospike/as_bytes.c
@@ -251,20 +251,26 @@ bool as_bytes_set(as_bytes * bytes, uint32_t index, const uint8_t * value, uint3
  */
 uint32_t as_bytes_set_var_int(const as_bytes * bytes, uint32_t index, uint32_t value)
 {
+	uint32_t len = 1;
+
+	for (uint32_t v = value; v >= 0x80; v >>= 7) {
+		len++;
+	}
+
+	if ((uint64_t)index + len > bytes->capacity) {
+		return 0;
+	}
+
 	uint8_t* begin = bytes->value + index;
-	uint8_t* end = bytes->value + bytes->capacity;
 	uint8_t* p = begin;
 	
-	while (p < end && value >= 0x80) {
+	while (value >= 0x80) {
 		*p++ = (uint8_t)(value | 0x80);
 		value >>= 7;
 	}
 	
-	if (p < end) {
-		*p++ = (uint8_t)value;
-		return (uint32_t)(p - begin);
-	}
-	return 0;
+	*p++ = (uint8_t)value;
+	return (uint32_t)(p - begin);
 }
 
 /******************************************************************************
-- 
2.43.0


From 65baf1e74eb256ba3f19041effdadd363f544d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:16 +0000
Subject: [PATCH 11/63] fix: honour targets smaller than the prefix when
 printing bytes as hex

With a target of zero or one character the remaining size wrapped around to
a huge number and the text was written outside the target.
---
 src/main/aerospike/as_bytes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_bytes.c b/src/main/aerospike/as_bytes.c
index 09c6124..7bc2190 100644
--- a/src/main/aerospike/as_bytes.c
+++ b/src/main/aerospike/as_bytes.c
@@ -471,7 +471,7 @@ as_bytes_to_string_with_prefix(
 	const uint8_t* bytes, uint32_t bytes_size, char* str, uint32_t str_size
 	)
 {
-	if (as_bytes_to_string(bytes, bytes_size, str + 2, str_size - 2)) {
+	if (str_size >= 2 && as_bytes_to_string(bytes, bytes_size, str + 2, str_size - 2)) {
 		*str++ = '0';
 		*str = 'x';
 		return true;
-- 
2.43.0


From 63fb2e6a5f830bb5512d48ae801789570a25b674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:16 +0000
Subject: [PATCH 12/63] fix: compute the hex text length of large byte arrays
 without overflow

For arrays of 2 GB and more the needed length wrapped around 32 bits and a
small target was accepted.
---
 src/main/aerospike/as_bytes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_bytes.c b/src/main/aerospike/as_bytes.c
index 7bc2190..eaf5821 100644
--- a/src/main/aerospike/as_bytes.c
+++ b/src/main/aerospike/as_bytes.c
@@ -449,7 +449,7 @@ bool
 as_bytes_to_string(const uint8_t* bytes, uint32_t bytes_size, char* str, uint32_t str_size)
 {
 	// Ensure hex string has enough space including null terminator.
-	if ((bytes_size * 2 + 1) > str_size) {
+	if (((uint64_t)bytes_size * 2 + 1) > str_size) {
 		if (str_size > 0) {
 			*str = 0;
 		}
-- 
2.43.0


From 152a25870169e9c1ba9ea7eedf00eb8075ace30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:27 +0000
Subject: [PATCH 13/63] fix: print map entries that have no printable form of
 their own

A key or value without a printable form, such as an empty byte value, ended
the printing of the map: that entry and all following ones were missing.
Print "<NULL>" in its place, as lists do.
---
 src/main/aerospike/as_map.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/main/aerospike/as_map.c b/src/main/aerospike/as_map.c
index a436ff2..8cf747a 100644
--- a/src/main/aerospike/as_map.c
+++ b/src/main/aerospike/as_map.c
@@ -68,21 +68,22 @@ typedef struct as_map_val_tostring_data_s {
 	bool		sep;
 } as_map_val_tostring_data;
 
+extern const char NULL_STR[];
+
 static bool as_map_val_tostring_foreach(const as_val* key, const as_val* val, void* udata)
 {
 	as_map_val_tostring_data * data = (as_map_val_tostring_data *) udata;
 
 	char * keystr = as_val_tostring(key);
 	if (!keystr) {
-		return false;
+		keystr = (char *)NULL_STR;
 	}
 	int keylen = (int)strlen(keystr);
 
 	char * valstr = as_val_tostring(val);
-    if (!valstr) {
-		cf_free(keystr);
-    	return false;
-    }
+	if (!valstr) {
+		valstr = (char *)NULL_STR;
+	}
 	int vallen = (int)strlen(valstr);
 
 	uint32_t entlen = keylen + 2 + vallen + 2;
@@ -111,11 +112,13 @@ static bool as_map_val_tostring_foreach(const as_val* key, const as_val* val, vo
 
 	data->sep = true;
 
-	cf_free(keystr);
-	keystr = NULL;
+	if (keystr != NULL_STR) {
+		cf_free(keystr);
+	}
 
-	cf_free(valstr);
-	valstr = NULL;
+	if (valstr != NULL_STR) {
+		cf_free(valstr);
+	}
 
 	return true;
 }
-- 
2.43.0


From de8d843c5515cd48f462e8ee6b7b19efc22b4353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:27 +0000
Subject: [PATCH 14/63] fix: print pairs whose parts have no printable form

Printing a pair with a missing part or an empty byte value dereferenced a
null pointer. Print "<NULL>" in its place, and release both parts when the
result cannot be allocated.
---
 src/main/aerospike/as_pair.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/main/aerospike/as_pair.c b/src/main/aerospike/as_pair.c
index 0e8c017..a2af984 100644
--- a/src/main/aerospike/as_pair.c
+++ b/src/main/aerospike/as_pair.c
@@ -60,19 +60,27 @@ uint32_t as_pair_val_hashcode(const as_val * v)
 	return 0;
 }
 
+extern const char NULL_STR[];
+
 char *as_pair_val_tostring(const as_val * v)
 {
 	as_pair * p = as_pair_fromval(v);
 	if ( p == NULL ) return NULL;
 
 	char * a = as_val_tostring(p->_1);
+	if (!a) {
+		a = (char *)NULL_STR;
+	}
 	size_t al = strlen(a);
 	char * b = as_val_tostring(p->_2);
+	if (!b) {
+		b = (char *)NULL_STR;
+	}
 	size_t bl = strlen(b);
 	
 	size_t l = al + bl + 5;
 	char * str = (char *) cf_malloc(sizeof(char) * l);
-	if (!str) return str;
+	if (!str) goto Cleanup;
 
 	strcpy(str, "(");
 	strcpy(str+1, a);
@@ -81,8 +89,13 @@ char *as_pair_val_tostring(const as_val * v)
 	strcpy(str+1+al+2+bl,")");
 	*(str+1+al+2+bl+1) = '\0';
 	
-	cf_free(a);
-	cf_free(b);
+Cleanup:
+	if (a != NULL_STR) {
+		cf_free(a);
+	}
+	if (b != NULL_STR) {
+		cf_free(b);
+	}
 
 	return str;
 }
-- 
2.43.0


From c8e435b367885a27e484b1a5b232eb2a0195c118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:19 +0000
Subject: [PATCH 15/63] fix: skip the rest of deeply nested lists only once
 when comparing

Below the depth at which comparison stops recursing, the outermost remaining
list was skipped twice. When the lists had different lengths, or ended in a
wildcard, comparison failed or left the cursors past the end of the values.
---
 src/main/aerospike/as_msgpack.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index b4e6fbf..1c4628e 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -2813,14 +2813,15 @@ msgpack_compare_non_recursive(as_unpacker *pk1, as_unpacker *pk2,
 {
 	while (state) {
 		while (state->index >= state->len) {
-			if (! msgpack_compare_unwind(pk1, pk2, state)) {
-				return MSGPACK_COMPARE_ERROR;
-			}
-
 			if (! msgpack_parse_memblock_has_prev(*block)) {
+				// The caller unwinds the last state.
 				return state->default_compare_type;
 			}
 
+			if (! msgpack_compare_unwind(pk1, pk2, state)) {
+				return MSGPACK_COMPARE_ERROR;
+			}
+
 			uint32_t len1 = state->len1;
 			uint32_t len2 = state->len2;
 
@@ -2888,14 +2889,15 @@ msgpack_compare_non_recursive(as_unpacker *pk1, as_unpacker *pk2,
 				return MSGPACK_COMPARE_ERROR;
 			}
 
-			if (! msgpack_compare_unwind(pk1, pk2, state)) {
-				return MSGPACK_COMPARE_ERROR;
-			}
-
 			if (! msgpack_parse_memblock_has_prev(*block)) {
+				// The caller unwinds the last state.
 				return MSGPACK_COMPARE_EQUAL;
 			}
 
+			if (! msgpack_compare_unwind(pk1, pk2, state)) {
+				return MSGPACK_COMPARE_ERROR;
+			}
+
 			state = msgpack_parse_memblock_prev(block);
 			continue;
 		}
-- 
2.43.0


From fb0979931802aab68cd2149ad99816c88d305f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:19 +0000
Subject: [PATCH 16/63] fix: leave cursors past both maps after comparing them

Map entries are two elements each, but maps of different sizes or with
different metadata were skipped as if they were one. After a metadata pair
the remaining entry count was one too high, so that comparing two ordered
maps with a differing entry failed.
---
 src/main/aerospike/as_msgpack.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 1c4628e..a27902a 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -2696,11 +2696,11 @@ msgpack_compare_map(as_unpacker *pk1, as_unpacker *pk2, size_t depth)
 	}
 
 	if (len1 != len2) {
-		if (! msgpack_skip(pk1, len1)) {
+		if (! msgpack_skip(pk1, 2 * len1)) {
 			return MSGPACK_COMPARE_ERROR;
 		}
 
-		if (! msgpack_skip(pk2, len2)) {
+		if (! msgpack_skip(pk2, 2 * len2)) {
 			return MSGPACK_COMPARE_ERROR;
 		}
 
@@ -2723,17 +2723,19 @@ msgpack_compare_map(as_unpacker *pk1, as_unpacker *pk2, size_t depth)
 		}
 
 		if (ret != MSGPACK_COMPARE_EQUAL) {
-			if (! msgpack_skip(pk1, len1 - 1)) {
+			if (! msgpack_skip(pk1, 2 * (len1 - 1))) {
 				return MSGPACK_COMPARE_ERROR;
 			}
 
-			if (! msgpack_skip(pk2, len2 - 1)) {
+			if (! msgpack_skip(pk2, 2 * (len2 - 1))) {
 				return MSGPACK_COMPARE_ERROR;
 			}
 
 			return ret;
 		}
 
+		len1--;
+		len2--;
 		minlen--;
 	}
 
-- 
2.43.0


From 94b0f05dd1a8f3d07fbaeab5c33fe5a8b3f41daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:19 +0000
Subject: [PATCH 17/63] fix: compare deeply nested maps without recursion and
 with their metadata

Maps did not count towards the nesting depth at which comparison stops
recursing, so that deeply nested maps exhausted the stack. Comparison without
recursion did not accept the metadata pair of ordered maps.
---
 src/main/aerospike/as_msgpack.c | 87 ++++++++++++++++++++++++++-------
 1 file changed, 69 insertions(+), 18 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index a27902a..548a285 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -89,7 +89,10 @@ static inline msgpack_compare_t msgpack_compare_int64_t(int64_t x1, int64_t x2);
 static bool msgpack_skip(as_unpacker *pk, size_t n);
 static bool msgpack_compare_unwind(as_unpacker *pk1, as_unpacker *pk2, const msgpack_parse_state *state);
 static bool msgpack_compare_unwind_all(as_unpacker *pk1, as_unpacker *pk2, msgpack_parse_memblock **block);
+static msgpack_compare_t msgpack_compare_deep(as_unpacker *pk1, as_unpacker *pk2, as_val_t type);
 static msgpack_compare_t msgpack_compare_list(as_unpacker *pk1, as_unpacker *pk2, size_t depth);
+static msgpack_compare_t compare_ext(as_unpacker *pk1, as_unpacker *pk2);
+static msgpack_compare_t msgpack_compare_map_metadata(as_unpacker *pk1, as_unpacker *pk2, msgpack_parse_state *state);
 static msgpack_compare_t msgpack_compare_map(as_unpacker *pk1, as_unpacker *pk2, size_t depth);
 static inline msgpack_compare_t msgpack_peek_compare_type(const as_unpacker *pk1, const as_unpacker *pk2, as_val_t *type);
 static msgpack_compare_t msgpack_compare_non_recursive(as_unpacker *pk1, as_unpacker *pk2, msgpack_parse_memblock **block, msgpack_parse_state *state);
@@ -2594,30 +2597,44 @@ msgpack_compare_unwind_all(as_unpacker *pk1, as_unpacker *pk2,
 	return true;
 }
 
+// Compare lists or maps without recursion.
 static msgpack_compare_t
-msgpack_compare_list(as_unpacker *pk1, as_unpacker *pk2, size_t depth)
+msgpack_compare_deep(as_unpacker *pk1, as_unpacker *pk2, as_val_t type)
 {
-	if (++depth > MSGPACK_COMPARE_MAX_DEPTH) {
-		msgpack_parse_memblock *block = msgpack_parse_memblock_create(NULL);
-		msgpack_parse_state *state = msgpack_parse_memblock_next(&block);
+	msgpack_parse_memblock *block = msgpack_parse_memblock_create(NULL);
+	msgpack_parse_state *state = msgpack_parse_memblock_next(&block);
+	msgpack_compare_t ret;
 
-		if (! msgpack_parse_state_list_cmp_init(state, pk1, pk2)) {
-			msgpack_parse_memblock_destroy(block);
-			return MSGPACK_COMPARE_ERROR;
-		}
-
-		msgpack_compare_t ret = msgpack_compare_non_recursive(pk1, pk2, &block,
-				state);
+	if (type == AS_LIST) {
+		ret = msgpack_parse_state_list_cmp_init(state, pk1, pk2) ?
+				MSGPACK_COMPARE_EQUAL : MSGPACK_COMPARE_ERROR;
+	}
+	else {
+		ret = msgpack_parse_state_map_cmp_init(state, pk1, pk2) ?
+				msgpack_compare_map_metadata(pk1, pk2, state) :
+				MSGPACK_COMPARE_ERROR;
+	}
 
-		if (ret == MSGPACK_COMPARE_ERROR ||
-				! msgpack_compare_unwind_all(pk1, pk2, &block)) {
-			msgpack_parse_memblock_destroy(block);
-			return MSGPACK_COMPARE_ERROR;
-		}
+	if (ret == MSGPACK_COMPARE_EQUAL) {
+		ret = msgpack_compare_non_recursive(pk1, pk2, &block, state);
+	}
 
+	if (ret == MSGPACK_COMPARE_ERROR ||
+			! msgpack_compare_unwind_all(pk1, pk2, &block)) {
 		msgpack_parse_memblock_destroy(block);
+		return MSGPACK_COMPARE_ERROR;
+	}
 
-		return ret;
+	msgpack_parse_memblock_destroy(block);
+
+	return ret;
+}
+
+static msgpack_compare_t
+msgpack_compare_list(as_unpacker *pk1, as_unpacker *pk2, size_t depth)
+{
+	if (++depth > MSGPACK_COMPARE_MAX_DEPTH) {
+		return msgpack_compare_deep(pk1, pk2, AS_LIST);
 	}
 
 	int64_t len1 = as_unpack_list_header_element_count(pk1);
@@ -2684,9 +2701,38 @@ compare_ext(as_unpacker *pk1, as_unpacker *pk2)
 	return MSGPACK_COMPARE_EQUAL;
 }
 
+// Compare map sizes and the metadata pair which may come first. The headers have
+// already been extracted.
+static msgpack_compare_t
+msgpack_compare_map_metadata(as_unpacker *pk1, as_unpacker *pk2,
+		msgpack_parse_state *state)
+{
+	MSGPACK_COMPARE_RET_LESS_OR_GREATER(state->len1, state->len2);
+
+	if (state->len == 0 || as_unpack_peek_type(pk1) != AS_CMP_EXT ||
+			as_unpack_peek_type(pk2) != AS_CMP_EXT) {
+		return MSGPACK_COMPARE_EQUAL;
+	}
+
+	msgpack_compare_t ret = compare_ext(pk1, pk2);
+
+	if (ret == MSGPACK_COMPARE_ERROR ||
+			! msgpack_skip(pk1, 1) || ! msgpack_skip(pk2, 1)) {
+		return MSGPACK_COMPARE_ERROR;
+	}
+
+	state->index++;
+
+	return ret;
+}
+
 static msgpack_compare_t
 msgpack_compare_map(as_unpacker *pk1, as_unpacker *pk2, size_t depth)
 {
+	if (++depth > MSGPACK_COMPARE_MAX_DEPTH) {
+		return msgpack_compare_deep(pk1, pk2, AS_MAP);
+	}
+
 	int64_t len1 = as_unpack_map_header_element_count(pk1);
 	int64_t len2 = as_unpack_map_header_element_count(pk2);
 	int64_t minlen = (len1 < len2) ? len1 : len2;
@@ -2882,7 +2928,12 @@ msgpack_compare_non_recursive(as_unpacker *pk1, as_unpacker *pk2,
 				return MSGPACK_COMPARE_ERROR;
 			}
 
-			MSGPACK_COMPARE_RET_LESS_OR_GREATER(state->len1, state->len2);
+			ret = msgpack_compare_map_metadata(pk1, pk2, state);
+
+			if (ret != MSGPACK_COMPARE_EQUAL) {
+				return ret;
+			}
+
 			continue;
 		}
 
-- 
2.43.0


From cfb88a90cd590401d58ad1e2bae517ccd06e52b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:19 +0000
Subject: [PATCH 18/63] fix: compare the values of in-memory maps, not only
 their keys

Two maps with the same keys and different values were reported as equal,
unlike their encodings.
---
 src/main/aerospike/as_msgpack.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 548a285..de014c7 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -673,6 +673,20 @@ as_map_cmp(const as_map* map1, const as_map* map2)
 		if (cmp != MSGPACK_COMPARE_EQUAL) {
 			return cmp;
 		}
+
+		as_val* v1 = as_pair_2(p1);
+		as_val* v2 = as_pair_2(p2);
+
+		if (as_val_type(v1) == AS_CMP_WILDCARD ||
+				as_val_type(v2) == AS_CMP_WILDCARD) {
+			return MSGPACK_COMPARE_EQUAL;
+		}
+
+		cmp = as_val_cmp(v1, v2);
+
+		if (cmp != MSGPACK_COMPARE_EQUAL) {
+			return cmp;
+		}
 	}
 
 	return MSGPACK_COMPARE_EQUAL;
-- 
2.43.0


From 6c69005d8ccd1913beec05058102ee0fc030c65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:20 +0000
Subject: [PATCH 19/63] fix: let a wildcard equal any in-memory value

The test for a wildcard on either side came after the types were compared and
so never applied. Two infinite values compared as an error.
---
 src/main/aerospike/as_msgpack.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index de014c7..3b555b0 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -698,14 +698,15 @@ as_val_cmp(const as_val* v1, const as_val* v2)
 	as_val_t t1 = as_val_type(v1);
 	as_val_t t2 = as_val_type(v2);
 
-	MSGPACK_COMPARE_RET_LESS_OR_GREATER(t1, t2);
-
 	if (t1 == AS_CMP_WILDCARD || t2 == AS_CMP_WILDCARD) {
 		return MSGPACK_COMPARE_EQUAL;
 	}
 
+	MSGPACK_COMPARE_RET_LESS_OR_GREATER(t1, t2);
+
 	switch (t1) {
 	case AS_NIL:
+	case AS_CMP_INF:
 		break;
 	case AS_BOOLEAN:
 		MSGPACK_COMPARE_RET_LESS_OR_GREATER(
-- 
2.43.0


From 1759f811a6419f0f41f557f6dcfd79dd450f9322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:10:26 +0000
Subject: [PATCH 20/63] fix: release all parse blocks after measuring a deeply
 nested value

Only the first block was released by the caller. When measuring failed more
than 256 levels further down, the caller released a block which was no longer
the latest one and leaked the others.
---
 src/main/aerospike/as_msgpack.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 3b555b0..5861d0f 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -110,7 +110,7 @@ static inline int pack_ext_header_internal(as_packer *pk, uint32_t content_size,
 static int64_t unpack_list_elements_size(as_unpacker *pk, uint32_t ele_count, uint32_t depth);
 static int64_t unpack_map_elements_size(as_unpacker *pk, uint32_t ele_count, uint32_t depth);
 static inline as_val_t bytes_internal_type_to_as_val_t(uint8_t type);
-static int64_t unpack_size_non_recursive(as_unpacker *pk, msgpack_parse_memblock *block, msgpack_parse_state *state);
+static int64_t unpack_size_non_recursive(as_unpacker *pk, msgpack_parse_memblock **block, msgpack_parse_state *state);
 static inline int64_t unpack_size_internal(as_unpacker *pk, uint32_t depth);
 static inline const uint8_t *unpack_str_bin(as_unpacker *pk, uint32_t *sz_r);
 
@@ -1601,7 +1601,7 @@ unpack_list_elements_size(as_unpacker *pk, uint32_t ele_count, uint32_t depth)
 		state->len = ele_count;
 		state->type = AS_LIST;
 
-		int64_t ret = unpack_size_non_recursive(pk, block, state);
+		int64_t ret = unpack_size_non_recursive(pk, &block, state);
 
 		msgpack_parse_memblock_destroy(block);
 
@@ -1640,7 +1640,7 @@ unpack_map_elements_size(as_unpacker *pk, uint32_t ele_count, uint32_t depth)
 		state->len = ele_count;
 		state->type = AS_MAP;
 
-		int64_t ret = unpack_size_non_recursive(pk, block, state);
+		int64_t ret = unpack_size_non_recursive(pk, &block, state);
 		msgpack_parse_memblock_destroy(block);
 
 		return ret;
@@ -1805,18 +1805,18 @@ as_unpack_buf_peek_type(const uint8_t *buf, uint32_t size)
 }
 
 static int64_t
-unpack_size_non_recursive(as_unpacker *pk, msgpack_parse_memblock *block,
+unpack_size_non_recursive(as_unpacker *pk, msgpack_parse_memblock **block,
 		msgpack_parse_state *state)
 {
 	int start = pk->offset;
 
 	while (state) {
 		while (state->index >= state->len) {
-			if (! msgpack_parse_memblock_has_prev(block)) {
+			if (! msgpack_parse_memblock_has_prev(*block)) {
 				return (int64_t)(pk->offset - start);
 			}
 
-			state = msgpack_parse_memblock_prev(&block);
+			state = msgpack_parse_memblock_prev(block);
 		}
 
 		if (state->type == AS_LIST) {
@@ -1842,7 +1842,7 @@ unpack_size_non_recursive(as_unpacker *pk, msgpack_parse_memblock *block,
 		}
 
 		if (type == AS_LIST ) {
-			state = msgpack_parse_memblock_next(&block);
+			state = msgpack_parse_memblock_next(block);
 
 			if (! msgpack_parse_state_list_size_init(state, pk)) {
 				return -3;
@@ -1852,7 +1852,7 @@ unpack_size_non_recursive(as_unpacker *pk, msgpack_parse_memblock *block,
 		}
 
 		if (type == AS_MAP) {
-			state = msgpack_parse_memblock_next(&block);
+			state = msgpack_parse_memblock_next(block);
 
 			if (! msgpack_parse_state_map_size_init(state, pk)) {
 				return -4;
-- 
2.43.0


From 200d698a0733972a24ecbe2a24e8df4a037fffd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:10:26 +0000
Subject: [PATCH 21/63] fix: reject strings and extensions whose length wraps
 around

The range test was done in 32 bits, so that a length close to 4 GB passed it
and the returned data lay outside the buffer.
---
 src/main/aerospike/as_msgpack.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 5861d0f..9858950 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -2251,14 +2251,14 @@ unpack_str_bin(as_unpacker *pk, uint32_t *sz_r)
 		return NULL;
 	}
 
+	if (*sz_r > pk->length - pk->offset) {
+		return NULL;
+	}
+
 	const uint8_t *buf = &pk->buffer[pk->offset];
 
 	pk->offset += *sz_r;
 
-	if (pk->offset > pk->length) {
-		return NULL;
-	}
-
 	return buf;
 }
 
@@ -2317,7 +2317,7 @@ as_unpack_ext(as_unpacker *pk, as_msgpack_ext *ext)
 		return -3;
 	}
 
-	if (pk->length - pk->offset < 1 + ext->size) {
+	if (pk->length - pk->offset < 1 + (uint64_t)ext->size) {
 		return -4;
 	}
 
-- 
2.43.0


From 85b1eb16b51a27ff97699e800a100571064f8dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:10:26 +0000
Subject: [PATCH 22/63] fix: do not read booleans and nils past the end of the
 buffer

---
 src/main/aerospike/as_msgpack.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 9858950..66e8c9d 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -2033,6 +2033,10 @@ unpack_size_internal(as_unpacker *pk, uint32_t depth)
 int
 as_unpack_boolean(as_unpacker *pk, bool *value)
 {
+	if (pk->offset >= pk->length) {
+		return -1;
+	}
+
 	uint8_t type = pk->buffer[pk->offset++];
 
 	if (type == 0xc3 || type == 0xc2) {
@@ -2046,6 +2050,10 @@ as_unpack_boolean(as_unpacker *pk, bool *value)
 int
 as_unpack_nil(as_unpacker *pk)
 {
+	if (pk->offset >= pk->length) {
+		return -1;
+	}
+
 	uint8_t type = pk->buffer[pk->offset++];
 
 	return type == 0xc0 ? 0 : -1;
-- 
2.43.0


From 08c06e2b2547ee4b752e62dc702f0434168cf63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:10:26 +0000
Subject: [PATCH 23/63] fix: peek the type of empty and truncated blobs without
 reading past them

A blob of no bytes has no type byte: the type was taken from whatever follows
it, and comparing it failed although it can be decoded. A truncated blob was
read past the end of the buffer.
---
 src/main/aerospike/as_msgpack.c | 60 +++++++++++++++++++++++----------
 1 file changed, 43 insertions(+), 17 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 66e8c9d..b8dfe62 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -1682,6 +1682,33 @@ bytes_internal_type_to_as_val_t(uint8_t type)
 	return AS_BYTES;
 }
 
+// Peek type of string/raw bytes at size_sz bytes of big-endian size, which start
+// at offset + 1.
+static as_val_t
+peek_blob_type(const as_unpacker *pk, uint32_t size_sz)
+{
+	if (pk->length - pk->offset < 1 + size_sz) {
+		return AS_UNDEF;
+	}
+
+	const uint8_t *p = pk->buffer + pk->offset;
+	uint32_t size = size_sz == 0 ? *p & 0x1f : 0;
+
+	for (uint32_t i = 0; i < size_sz; i++) {
+		size = (size << 8) | *++p;
+	}
+
+	if (size == 0) { // no type byte
+		return AS_BYTES;
+	}
+
+	if (pk->length - pk->offset < 2 + size_sz) {
+		return AS_UNDEF;
+	}
+
+	return bytes_internal_type_to_as_val_t(p[1]);
+}
+
 as_val_t
 as_unpack_peek_type(const as_unpacker *pk)
 {
@@ -1714,22 +1741,16 @@ as_unpack_peek_type(const as_unpacker *pk)
 		return AS_DOUBLE;
 
 	case 0xc4:
-	case 0xd9: { // string/raw bytes with 8 bit header
-		uint8_t type1 = pk->buffer[pk->offset + 2];
-		return bytes_internal_type_to_as_val_t(type1);
-	}
+	case 0xd9: // string/raw bytes with 8 bit header
+		return peek_blob_type(pk, 1);
 
 	case 0xc5:
-	case 0xda: { // string/raw bytes with 16 bit header
-		uint8_t type1 = pk->buffer[pk->offset + 3];
-		return bytes_internal_type_to_as_val_t(type1);
-	}
+	case 0xda: // string/raw bytes with 16 bit header
+		return peek_blob_type(pk, 2);
 
 	case 0xc6:
-	case 0xdb: { // string/raw bytes with 32 bit header
-		uint8_t type1 = pk->buffer[pk->offset + 5];
-		return bytes_internal_type_to_as_val_t(type1);
-	}
+	case 0xdb: // string/raw bytes with 32 bit header
+		return peek_blob_type(pk, 4);
 
 	case 0xdc: // list with 16 bit header
 	case 0xdd: // list with 32 bit header
@@ -1740,6 +1761,10 @@ as_unpack_peek_type(const as_unpacker *pk)
 		return AS_MAP;
 
 	case 0xd4: { // fixext1
+		if (pk->length - pk->offset < 3) {
+			return AS_UNDEF;
+		}
+
 		uint8_t ext_type = pk->buffer[pk->offset + 1];
 
 		if (ext_type == ASVAL_CMP_EXT_TYPE) {
@@ -1766,8 +1791,7 @@ as_unpack_peek_type(const as_unpacker *pk)
 		return AS_CMP_EXT;
 	default:
 		if ((type & 0xe0) == 0xa0) { // raw bytes with 8 bit combined header
-			uint8_t type1 = pk->buffer[pk->offset + 1];
-			return bytes_internal_type_to_as_val_t(type1);
+			return peek_blob_type(pk, 0);
 		}
 
 		if ((type & 0xf0) == 0x80) { // map with 8 bit combined header
@@ -2492,13 +2516,15 @@ msgpack_get_blob_len(as_unpacker *pk)
 {
 	int64_t len = as_unpack_blob_size(pk);
 
-	if (len == 0) {
+	if (len < 0) {
 		return -1;
 	}
 
 	// Adjust for 1 byte type.
-	len--;
-	pk->offset++;
+	if (len != 0) {
+		len--;
+		pk->offset++;
+	}
 
 	int64_t left = pk->length - pk->offset;
 
-- 
2.43.0


From 43e1a3d39b1daa8df847d57bc45e7fd7d04362df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:10:26 +0000
Subject: [PATCH 24/63] fix: fail instead of measuring values past the end of
 the buffer

as_unpack_size only tested that the first byte of each element was in range.
A truncated element was read past the end of the buffer and reported with a
size larger than the input.
---
 src/main/aerospike/as_msgpack.c | 93 +++++++++++++++++++++++++++------
 1 file changed, 78 insertions(+), 15 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index b8dfe62..742ba23 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -862,6 +862,59 @@ as_pack_val(as_packer *pk, const as_val *val)
  * UNPACK FUNCTIONS
  ******************************************************************************/
 
+// Get number of bytes of fixed size which follow the type byte: the value of a
+// scalar, the length of a blob, ext, list or map, all of a fixext.
+static inline uint32_t
+unpack_fixed_size(uint8_t type)
+{
+	switch (type) {
+	case 0xc4:
+	case 0xc7:
+	case 0xcc:
+	case 0xd0:
+	case 0xd9:
+		return 1;
+
+	case 0xc5:
+	case 0xc8:
+	case 0xcd:
+	case 0xd1:
+	case 0xda:
+	case 0xdc:
+	case 0xde:
+		return 2;
+
+	case 0xc6:
+	case 0xc9:
+	case 0xca:
+	case 0xce:
+	case 0xd2:
+	case 0xdb:
+	case 0xdd:
+	case 0xdf:
+		return 4;
+
+	case 0xcb:
+	case 0xcf:
+	case 0xd3:
+		return 8;
+
+	case 0xd4:
+		return 1 + 1;
+	case 0xd5:
+		return 1 + 2;
+	case 0xd6:
+		return 1 + 4;
+	case 0xd7:
+		return 1 + 8;
+	case 0xd8:
+		return 1 + 16;
+
+	default:
+		return 0;
+	}
+}
+
 static inline uint16_t
 extract_uint16(as_unpacker *pk)
 {
@@ -1893,6 +1946,20 @@ unpack_size_non_recursive(as_unpacker *pk, msgpack_parse_memblock **block,
 	return -6;
 }
 
+// Skip content_sz bytes after a header of header_sz bytes.
+// Return total size or negative on failure.
+static inline int64_t
+unpack_size_skip(as_unpacker *pk, uint32_t header_sz, uint64_t content_sz)
+{
+	if (pk->length - pk->offset < content_sz) {
+		return -1;
+	}
+
+	pk->offset += (uint32_t)content_sz;
+
+	return (int64_t)(header_sz + content_sz);
+}
+
 static inline int64_t
 unpack_size_internal(as_unpacker *pk, uint32_t depth)
 {
@@ -1902,6 +1969,10 @@ unpack_size_internal(as_unpacker *pk, uint32_t depth)
 
 	uint8_t type = pk->buffer[pk->offset++];
 
+	if (pk->length - pk->offset < unpack_fixed_size(type)) {
+		return -1;
+	}
+
 	switch (type) {
 	case 0xc0: // nil
 	case 0xc3: // boolean true
@@ -1933,22 +2004,19 @@ unpack_size_internal(as_unpacker *pk, uint32_t depth)
 	case 0xc4:
 	case 0xd9: { // string/raw bytes with 8 bit header
 		uint8_t length = pk->buffer[pk->offset++];
-		pk->offset += length;
-		return 1 + 1 + length;
+		return unpack_size_skip(pk, 1 + 1, length);
 	}
 
 	case 0xc5:
 	case 0xda: { // string/raw bytes with 16 bit header
 		uint16_t length = extract_uint16(pk);
-		pk->offset += length;
-		return 1 + 2 + length;
+		return unpack_size_skip(pk, 1 + 2, length);
 	}
 
 	case 0xc6:
 	case 0xdb: { // string/raw bytes with 32 bit header
 		uint32_t length = extract_uint32(pk);
-		pk->offset += length;
-		return 1 + 4 + length;
+		return unpack_size_skip(pk, 1 + 4, length);
 	}
 
 	case 0xdc: { // list with 16 bit header
@@ -2004,27 +2072,22 @@ unpack_size_internal(as_unpacker *pk, uint32_t depth)
 		return 1 + 1 + 16;
 	case 0xc7: { // ext 8
 		uint8_t length = pk->buffer[pk->offset++];
-		pk->offset += 1 + length;
-		return 1 + 1 + 1 + length;
+		return unpack_size_skip(pk, 1 + 1, 1 + (uint64_t)length);
 	}
 	case 0xc8: { // ext 16
 		uint16_t length = extract_uint16(pk);
-		pk->offset += 1 + length;
-		return 1 + 2 + 1 + length;
+		return unpack_size_skip(pk, 1 + 2, 1 + (uint64_t)length);
 	}
 	case 0xc9: { // ext 32
 		uint32_t length = extract_uint32(pk);
-		pk->offset += 1 + length;
-		return 1 + 4 + 1 + length;
+		return unpack_size_skip(pk, 1 + 4, 1 + (uint64_t)length);
 	}
 	default:
 		break;
 	}
 
 	if ((type & 0xe0) == 0xa0) { // raw bytes with 8 bit combined header
-		int length = type & 0x1f;
-		pk->offset += length;
-		return 1 + length;
+		return unpack_size_skip(pk, 1, type & 0x1f);
 	}
 
 	if ((type & 0xf0) == 0x80) { // map with 8 bit combined header
-- 
2.43.0


From 65229bc4da12e5cfb59925ef9f3dd9bfad5463a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:10:26 +0000
Subject: [PATCH 25/63] fix: fail instead of decoding values past the end of
 the buffer

as_unpack_val did not look at the length of its input at all. Truncated input
was read past the end of the buffer, and a short input announcing billions of
elements made it allocate memory for all of them.
---
 src/main/aerospike/as_msgpack.c | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 742ba23..62b0f77 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -1013,6 +1013,10 @@ unpack_blob(as_unpacker *pk, uint32_t size, as_val **val)
 {
 	unsigned char type = 0;
 
+	if (pk->length - pk->offset < size) {
+		return -1;
+	}
+
 	if (size != 0) {
 		type = pk->buffer[pk->offset++];
 		size--;
@@ -1070,6 +1074,11 @@ unpack_list(as_unpacker *pk, uint32_t size, as_val **val)
 {
 	uint8_t flags = 0;
 
+	// Every element has at least 1 byte.
+	if (pk->length - pk->offset < size) {
+		return -1;
+	}
+
 	// Skip ext element key which is only at the start for metadata.
 	if (size != 0 && as_unpack_peek_is_ext(pk)) {
 		as_msgpack_ext ext;
@@ -1189,6 +1198,11 @@ unpack_map(as_unpacker* pk, uint32_t ele_count, as_val** val)
 {
 	uint8_t flags = 0;
 
+	// Every key and value has at least 1 byte.
+	if (pk->length - pk->offset < 2 * (uint64_t)ele_count) {
+		return -1;
+	}
+
 	// Skip ext element key which is only at the start for metadata.
 	if (ele_count != 0 && as_unpack_peek_is_ext(pk)) {
 		as_msgpack_ext ext;
@@ -1212,14 +1226,25 @@ unpack_map(as_unpacker* pk, uint32_t ele_count, as_val** val)
 int
 as_unpack_val(as_unpacker *pk, as_val **val)
 {
+	if (pk->offset >= pk->length) {
+		return -1;
+	}
+
 	if (as_unpack_peek_is_ext(pk)) {
-		as_unpack_size(pk);
+		if (as_unpack_size(pk) < 0) {
+			return -1;
+		}
+
 		*val = NULL;
 		return 0;
 	}
 
 	uint8_t type = pk->buffer[pk->offset++];
 
+	if (pk->length - pk->offset < unpack_fixed_size(type)) {
+		return -1;
+	}
+
 	switch (type) {
 	case 0xc0: // nil
 		return unpack_nil(val);
-- 
2.43.0


From 810450bb639d6a58e3b6d73ebc44fd47432506cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:10:26 +0000
Subject: [PATCH 26/63] fix: fail when a string or blob does not fit its fixed
 buffer

as_pack_str and as_pack_bytes allocated another buffer when only the header did
not fit, unlike all other direct packing functions: they reported success, the
caller's buffer lacked the value and the new buffer was leaked.
---
 src/main/aerospike/as_msgpack.c | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 62b0f77..97fe7e1 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -479,35 +479,35 @@ pack_as_double(as_packer *pk, const as_double *d)
 }
 
 static int
-pack_string_header(as_packer *pk, uint32_t size)
+pack_string_header(as_packer *pk, uint32_t size, bool resize)
 {
 	if (size < 32) {
-		return pack_byte(pk, (uint8_t)(0xa0 | size), true);
+		return pack_byte(pk, (uint8_t)(0xa0 | size), resize);
 	}
 
 	if (size < 256) {
-		return pack_type_uint8(pk, 0xd9, (uint8_t)size, true);
+		return pack_type_uint8(pk, 0xd9, (uint8_t)size, resize);
 	}
 
 	if (size < 65536) {
-		return pack_type_uint16(pk, 0xda, (uint16_t)size, true);
+		return pack_type_uint16(pk, 0xda, (uint16_t)size, resize);
 	}
 
-	return pack_type_uint32(pk, 0xdb, size, true);
+	return pack_type_uint32(pk, 0xdb, size, resize);
 }
 
 static inline int
-pack_byte_array_header(as_packer *pk, uint32_t size)
+pack_byte_array_header(as_packer *pk, uint32_t size, bool resize)
 {
 	// Use string header codes for byte arrays.
-	return pack_string_header(pk, size);
+	return pack_string_header(pk, size, resize);
 }
 
 static int
 pack_string(as_packer *pk, as_string *s)
 {
 	uint32_t length = (uint32_t)as_string_len(s);
-	int rc = pack_string_header(pk, length + 1);
+	int rc = pack_string_header(pk, length + 1, true);
 
 	if (rc == 0) {
 		rc = pack_byte(pk, AS_BYTES_STRING, true);
@@ -524,7 +524,7 @@ static int
 pack_geojson(as_packer *pk, as_geojson *s)
 {
 	uint32_t length = (uint32_t)as_geojson_len(s);
-	int rc = pack_byte_array_header(pk, length + 1);
+	int rc = pack_byte_array_header(pk, length + 1, true);
 
 	if (rc == 0) {
 		rc = pack_byte(pk, AS_BYTES_GEOJSON, true);
@@ -540,7 +540,7 @@ pack_geojson(as_packer *pk, as_geojson *s)
 static int
 pack_bytes(as_packer *pk, const as_bytes *b)
 {
-	int rc = pack_byte_array_header(pk, b->size + 1);
+	int rc = pack_byte_array_header(pk, b->size + 1, true);
 
 	if (rc == 0) {
 		rc = pack_byte(pk, b->type, true);
@@ -1450,10 +1450,10 @@ as_pack_double(as_packer *pk, double val)
 int
 as_pack_bytes(as_packer *pk, const uint8_t *buf, uint32_t sz)
 {
-	int rc = pack_byte_array_header(pk, sz + 1);
+	int rc = pack_byte_array_header(pk, sz + 1, false);
 
 	if (rc == 0) {
-		rc = pack_byte(pk, AS_BYTES_BLOB, true);
+		rc = pack_byte(pk, AS_BYTES_BLOB, false);
 	}
 
 	if (rc == 0) {
@@ -1489,7 +1489,7 @@ as_pack_bin_size(uint32_t buf_sz)
 int
 as_pack_str(as_packer *pk, const uint8_t *buf, uint32_t sz)
 {
-	int rc = pack_string_header(pk, sz);
+	int rc = pack_string_header(pk, sz, false);
 
 	if (rc == 0 && buf) {
 		return pack_append(pk, buf, sz, false);
-- 
2.43.0


From e5db693439d5a941784f5a1f0e59805674864deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:10:26 +0000
Subject: [PATCH 27/63] fix: test the room left for appended bytes without
 overflow

Appending close to 4 GB to a partly filled buffer wrapped the 32-bit sum and
wrote past the end of the buffer.
---
 src/main/aerospike/as_msgpack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 97fe7e1..f99fb2d 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -305,7 +305,7 @@ static inline int
 pack_append(as_packer *pk, const unsigned char *src, uint32_t sz, bool resize)
 {
 	if (pk->buffer) {
-		if (pk->offset + sz > pk->capacity) {
+		if (sz > pk->capacity - pk->offset) {
 			if (! resize || pack_resize(pk, sz) != 0) {
 				return -1;
 			}
-- 
2.43.0


From 1e5410374a3c49e228cd73aeff9ba57c8cf81070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:13:03 +0000
Subject: [PATCH 28/63] fix: carry a nanosecond sum of exactly one second into
 the seconds

The deadline helpers only carried when the sum exceeded one billion, so a sum
of exactly one billion nanoseconds gave an invalid timespec. A timed wait with
such a deadline fails at once instead of waiting.
---
 src/include/citrusleaf/cf_clock.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/include/citrusleaf/cf_clock.h b/src/include/citrusleaf/cf_clock.h
index f8a14af..9dd26d8 100644
--- a/src/include/citrusleaf/cf_clock.h
+++ b/src/include/citrusleaf/cf_clock.h
@@ -91,7 +91,7 @@ cf_set_wait_timespec(int ms_wait, struct timespec* out)
 	out->tv_sec += ms_wait / 1000;
 	out->tv_nsec += (ms_wait % 1000) * 1000 * 1000;
 
-	if (out->tv_nsec > (1000 * 1000 * 1000)) {
+	if (out->tv_nsec >= (1000 * 1000 * 1000)) {
 		out->tv_nsec -= 1000 * 1000 * 1000;
 		out->tv_sec++;
 	}
@@ -104,7 +104,7 @@ cf_clock_current_add(struct timespec* delta, struct timespec* out)
 	out->tv_sec += delta->tv_sec;
 	out->tv_nsec += delta->tv_nsec;
 
-	if (out->tv_nsec > (1000 * 1000 * 1000)) {
+	if (out->tv_nsec >= (1000 * 1000 * 1000)) {
 		out->tv_nsec -= 1000 * 1000 * 1000;
 		out->tv_sec++;
 	}
@@ -167,7 +167,7 @@ cf_set_wait_timespec(int ms_wait, struct timespec* out)
 	out->tv_sec = now.tv_sec + (ms_wait / 1000);
 	out->tv_nsec = now.tv_usec * 1000 + (ms_wait % 1000) * 1000 * 1000;
 
-	if (out->tv_nsec > (1000 * 1000 * 1000)) {
+	if (out->tv_nsec >= (1000 * 1000 * 1000)) {
 		out->tv_nsec -= 1000 * 1000 * 1000;
 		out->tv_sec++;
 	}
@@ -182,7 +182,7 @@ cf_clock_current_add(struct timespec* delta, struct timespec* out)
 	out->tv_sec = now.tv_sec + delta->tv_sec;
 	out->tv_nsec = now.tv_usec * 1000 + delta->tv_nsec;
 
-	if (out->tv_nsec > (1000 * 1000 * 1000)) {
+	if (out->tv_nsec >= (1000 * 1000 * 1000)) {
 		out->tv_nsec -= 1000 * 1000 * 1000;
 		out->tv_sec++;
 	}
@@ -275,7 +275,7 @@ cf_clock_current_add(struct timespec* delta, struct timespec* out)
 	out->tv_sec = nanos / (1000 * 1000 * 1000) + delta->tv_sec;
 	out->tv_nsec = (nanos % (1000 * 1000 * 1000)) + delta->tv_nsec;
 
-	if (out->tv_nsec > (1000 * 1000 * 1000)) {
+	if (out->tv_nsec >= (1000 * 1000 * 1000)) {
 		out->tv_nsec -= 1000 * 1000 * 1000;
 		out->tv_sec++;
 	}
-- 
2.43.0


From 12d39ff3c98e6702a8722fc2469979b74258c877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:13:03 +0000
Subject: [PATCH 29/63] fix: let every negative wait of a queue pop wait
 forever

The interface documents that a negative wait means forever, but only -1 was
treated so. Other negative values used a deadline that was never set.
---
 src/main/citrusleaf/cf_queue.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/citrusleaf/cf_queue.c b/src/main/citrusleaf/cf_queue.c
index b75cc4d..64f0698 100644
--- a/src/main/citrusleaf/cf_queue.c
+++ b/src/main/citrusleaf/cf_queue.c
@@ -437,7 +437,7 @@ cf_queue_pop(cf_queue *q, void *buf, int ms_wait)
 		// others will find the queue empty and go back to waiting.
 
 		while (CF_Q_EMPTY(q)) {
-			if (CF_QUEUE_FOREVER == ms_wait) {
+			if (ms_wait < 0) {
 				pthread_cond_wait(&q->CV, &q->LOCK);
 			}
 			else if (CF_QUEUE_NOWAIT == ms_wait) {
@@ -570,7 +570,7 @@ cf_queue_reduce_pop(cf_queue *q, void *buf, int ms_wait, cf_queue_reduce_fn cb,
 		// others will find the queue empty and go back to waiting.
 
 		while (CF_Q_EMPTY(q)) {
-			if (CF_QUEUE_FOREVER == ms_wait) {
+			if (ms_wait < 0) {
 				pthread_cond_wait(&q->CV, &q->LOCK);
 			}
 			else if (CF_QUEUE_NOWAIT == ms_wait) {
-- 
2.43.0


From f80333335ca01ccb33d50315d6d31de02456bc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:13:06 +0000
Subject: [PATCH 30/63] fix: keep a timed queue pop waiting until its deadline

A timed pop gave up after the first wake-up that found the queue empty, for
example because another thread took the item. It now waits on until the
deadline.
---
 src/main/aerospike/as_queue_mt.c | 8 +++++++-
 src/main/citrusleaf/cf_queue.c   | 8 ++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/main/aerospike/as_queue_mt.c b/src/main/aerospike/as_queue_mt.c
index 6e341e8..8e9f9b6 100644
--- a/src/main/aerospike/as_queue_mt.c
+++ b/src/main/aerospike/as_queue_mt.c
@@ -48,7 +48,13 @@ as_queue_mt_wait(as_queue_mt* queue, int wait_ms)
 
 	struct timespec tp;
 	cf_set_wait_timespec(wait_ms, &tp);
-	pthread_cond_timedwait(&queue->cond, &queue->lock, &tp);
+
+	// As above, a wake-up may find the queue empty. Go on until the deadline.
+	while (as_queue_empty(&queue->queue)) {
+		if (pthread_cond_timedwait(&queue->cond, &queue->lock, &tp) != 0) {
+			break;
+		}
+	}
 }
 
 /******************************************************************************
diff --git a/src/main/citrusleaf/cf_queue.c b/src/main/citrusleaf/cf_queue.c
index 64f0698..1de127e 100644
--- a/src/main/citrusleaf/cf_queue.c
+++ b/src/main/citrusleaf/cf_queue.c
@@ -445,9 +445,9 @@ cf_queue_pop(cf_queue *q, void *buf, int ms_wait)
 				return CF_QUEUE_EMPTY;
 			}
 			else {
-				pthread_cond_timedwait(&q->CV, &q->LOCK, &tp);
+				int rv = pthread_cond_timedwait(&q->CV, &q->LOCK, &tp);
 
-				if (CF_Q_EMPTY(q)) {
+				if (rv != 0 && CF_Q_EMPTY(q)) {
 					pthread_mutex_unlock(&q->LOCK);
 					return CF_QUEUE_EMPTY;
 				}
@@ -578,9 +578,9 @@ cf_queue_reduce_pop(cf_queue *q, void *buf, int ms_wait, cf_queue_reduce_fn cb,
 				return CF_QUEUE_EMPTY;
 			}
 			else {
-				pthread_cond_timedwait(&q->CV, &q->LOCK, &tp);
+				int rv = pthread_cond_timedwait(&q->CV, &q->LOCK, &tp);
 
-				if (CF_Q_EMPTY(q)) {
+				if (rv != 0 && CF_Q_EMPTY(q)) {
 					pthread_mutex_unlock(&q->LOCK);
 					return CF_QUEUE_EMPTY;
 				}
-- 
2.43.0


From 16241521ddde0ec60dc4ec5c194c20a894b23286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:05:44 +0000
Subject: [PATCH 31/63] fix: run tasks queued by running tasks while the thread
 pool shuts down

---
 src/main/aerospike/as_thread_pool.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_thread_pool.c b/src/main/aerospike/as_thread_pool.c
index 5a81e42..247d81b 100644
--- a/src/main/aerospike/as_thread_pool.c
+++ b/src/main/aerospike/as_thread_pool.c
@@ -47,7 +47,20 @@ as_thread_worker(void* data)
 	while (cf_queue_pop(pool->dispatch_queue, &task, CF_QUEUE_FOREVER) == CF_QUEUE_OK) {
 		// A null task indicates thread should be shut down.
 		if (! task.task_fn) {
-			break;
+			// A running task may have queued another task behind the null tasks.
+			// Put the null task back and run the other task first.
+			as_thread_pool_task next;
+
+			if (cf_queue_pop(pool->dispatch_queue, &next, CF_QUEUE_NOWAIT) != CF_QUEUE_OK) {
+				break;
+			}
+
+			cf_queue_push(pool->dispatch_queue, &task);
+
+			if (! next.task_fn) {
+				break;
+			}
+			task = next;
 		}
 
 		// Run task
-- 
2.43.0


From f4d5509b6b5f84536b35f9bae1776029440921eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:05:44 +0000
Subject: [PATCH 32/63] fix: thread pool with threads that failed to start

---
 src/main/aerospike/as_thread_pool.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_thread_pool.c b/src/main/aerospike/as_thread_pool.c
index 247d81b..666ded3 100644
--- a/src/main/aerospike/as_thread_pool.c
+++ b/src/main/aerospike/as_thread_pool.c
@@ -90,10 +90,18 @@ as_thread_pool_init(as_thread_pool* pool, uint32_t thread_size)
 
 	// Start threads.
 	for (uint32_t i = 0; i < thread_size; i++) {
-		if (pthread_create(&pool->threads[i], NULL, as_thread_worker, pool) == 0) {
+		if (pthread_create(&pool->threads[pool->thread_size], NULL, as_thread_worker, pool) == 0) {
 			pool->thread_size++;
 		}
 	}
+
+	// Destroy does nothing for a pool without threads, so release resources here.
+	if (thread_size != 0 && pool->thread_size == 0) {
+		cf_free(pool->threads);
+		cf_queue_destroy(pool->dispatch_queue);
+		pool->threads = NULL;
+		pool->dispatch_queue = NULL;
+	}
 	return (pool->thread_size == thread_size)? 0 : -3;
 }
 
-- 
2.43.0


From 0bf1e33335d786dffe7fa52859d6509139cbad29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:09:36 +0000
Subject: [PATCH 33/63] fix: buffer pool sizes that exceed 32 bits with their
 header

---
 src/main/aerospike/as_buffer_pool.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/main/aerospike/as_buffer_pool.c b/src/main/aerospike/as_buffer_pool.c
index 08691ef..9d19289 100644
--- a/src/main/aerospike/as_buffer_pool.c
+++ b/src/main/aerospike/as_buffer_pool.c
@@ -35,18 +35,18 @@ as_buffer_pool_init(as_buffer_pool* pool, uint32_t header_size, uint32_t buffer_
 int
 as_buffer_pool_pop(as_buffer_pool* pool, uint32_t size, as_buffer_result* buffer)
 {
-	size += pool->header_size;
+	uint64_t total = (uint64_t)size + pool->header_size;
 	
-	if (size > pool->buffer_size) {
+	if (total > pool->buffer_size) {
 		// Requested size is greater than fixed buffer size.
 		// Allocate new buffer, but don't put back into pool.
-		buffer->data = cf_malloc(size);
+		buffer->data = cf_malloc(total);
 		
 		if (! buffer->data) {
 			return -1;
 		}
 		
-		buffer->capacity = size - pool->header_size;
+		buffer->capacity = size;
 		return 2;
 	}
 	
@@ -76,7 +76,7 @@ as_buffer_pool_pop(as_buffer_pool* pool, uint32_t size, as_buffer_result* buffer
 int
 as_buffer_pool_push(as_buffer_pool* pool, void* buffer, uint32_t capacity)
 {
-	if (capacity + pool->header_size <= pool->buffer_size) {
+	if ((uint64_t)capacity + pool->header_size <= pool->buffer_size) {
 		// Put buffer back into pool.
 		if (cf_queue_push(pool->queue, &buffer) == CF_QUEUE_OK) {
 			return 0;
@@ -96,7 +96,7 @@ as_buffer_pool_push(as_buffer_pool* pool, void* buffer, uint32_t capacity)
 int
 as_buffer_pool_push_limit(as_buffer_pool* pool, void* buffer, uint32_t capacity, uint32_t max_buffers)
 {
-	if (capacity + pool->header_size <= pool->buffer_size) {
+	if ((uint64_t)capacity + pool->header_size <= pool->buffer_size) {
 		// Put buffer back into pool up to a limit.
 		if (cf_queue_push_limit(pool->queue, &buffer, max_buffers)) {
 			// Success.
-- 
2.43.0


From ec39d55f3236990c22f2c673a0a8c7408f42f97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:13:41 +0000
Subject: [PATCH 34/63] fix: keep queue contents when growing fails for lack of
 memory

---
 src/main/aerospike/as_queue.c  | 5 +++--
 src/main/citrusleaf/cf_queue.c | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/main/aerospike/as_queue.c b/src/main/aerospike/as_queue.c
index ff47756..46f9f98 100644
--- a/src/main/aerospike/as_queue.c
+++ b/src/main/aerospike/as_queue.c
@@ -75,11 +75,12 @@ as_queue_increase_capacity(as_queue* queue)
 		// Check for The rare case where the queue is not fragmented, and realloc makes sense
 		// and none of the offsets need to move.
 		if (queue->head % queue->capacity == 0) {
-			queue->data = cf_realloc(queue->data, new_capacity * queue->item_size);
+			uint8_t* tmp = cf_realloc(queue->data, new_capacity * queue->item_size);
 			
-			if (! queue->data) {
+			if (! tmp) {
 				return false;
 			}
+			queue->data = tmp;
 			queue->head = 0;
 			queue->tail = queue->capacity;
 			queue->capacity = new_capacity;
diff --git a/src/main/citrusleaf/cf_queue.c b/src/main/citrusleaf/cf_queue.c
index 1de127e..4038e4a 100644
--- a/src/main/citrusleaf/cf_queue.c
+++ b/src/main/citrusleaf/cf_queue.c
@@ -129,12 +129,13 @@ cf_queue_resize(cf_queue *q, uint32_t new_sz)
 	// The rare case where the queue is not fragmented, and realloc makes sense
 	// and none of the offsets need to move.
 	if (0 == q->read_offset % q->alloc_sz) {
-		q->elements = (uint8_t*)cf_realloc(q->elements, new_sz * q->element_sz);
+		uint8_t *newq = (uint8_t*)cf_realloc(q->elements, new_sz * q->element_sz);
 
-		if (! q->elements) {
+		if (! newq) {
 			return CF_QUEUE_ERR;
 		}
 
+		q->elements = newq;
 		q->read_offset = 0;
 		q->write_offset = q->alloc_sz;
 	}
-- 
2.43.0


From bf005d2c4326aff22160ca2235ec79fca92daacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:15:49 +0000
Subject: [PATCH 35/63] fix: order freeing of reference counted memory after
 its last use

---
 src/main/citrusleaf/cf_alloc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/citrusleaf/cf_alloc.c b/src/main/citrusleaf/cf_alloc.c
index 745c8e1..c1c3886 100644
--- a/src/main/citrusleaf/cf_alloc.c
+++ b/src/main/citrusleaf/cf_alloc.c
@@ -130,6 +130,8 @@ cf_rc_releaseandfree(void* addr)
 	uint32_t rc = as_aaf_uint32_rls(&head->count, -1);
 
 	if (rc == 0) {
+		// Freeing must not overtake other threads' use of the memory.
+		as_fence_acq();
 		free(head);
 	}
 
-- 
2.43.0


From b068b2b8c51ec4d53db73b363efe6d36d9b7f5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:16:31 +0000
Subject: [PATCH 36/63] fix: count references to heap allocated booleans

---
 src/main/aerospike/as_val.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_val.c b/src/main/aerospike/as_val.c
index 87a91ef..be299ea 100644
--- a/src/main/aerospike/as_val.c
+++ b/src/main/aerospike/as_val.c
@@ -48,6 +48,7 @@ static uint32_t as_val_hashcode_noop(const as_val *);
 static char *   as_val_tostring_noop(const as_val *);
 static as_val * as_val_reserve_noop(as_val * v);
 static as_val * as_val_reserve_count(as_val * v);
+static as_val * as_val_reserve_boolean(as_val * v);
 
 /******************************************************************************
  *	VARIABLES
@@ -107,7 +108,7 @@ static const as_val_hashcode_callback as_val_hashcode_callbacks[] = {
 static const as_val_reserve_callback as_val_reserve_callbacks[] = {
 	[AS_UNKNOWN]	= as_val_reserve_noop,
 	[AS_NIL]		= as_val_reserve_noop,
-	[AS_BOOLEAN]	= as_val_reserve_noop,
+	[AS_BOOLEAN]	= as_val_reserve_boolean,
 	[AS_INTEGER]	= as_val_reserve_count,
 	[AS_STRING]		= as_val_reserve_count,
 	[AS_BYTES]		= as_val_reserve_count,
@@ -142,6 +143,12 @@ static as_val * as_val_reserve_count(as_val * v)
 	return v;
 }
 
+static as_val * as_val_reserve_boolean(as_val * v)
+{
+	// The constants as_true and as_false are not reference counted.
+	return v->count == 0 ? v : as_val_reserve_count(v);
+}
+
 static uint32_t as_val_hashcode_noop(const as_val * v)
 { 
 	return 0;
-- 
2.43.0


From dd14bf7546fbaff8b69524ae68c682439611b114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:19:12 +0000
Subject: [PATCH 37/63] fix: Report failed allocations in as_arraylist

Creating a list, deriving one, or storing a typed value used the result of
the allocation without checking it. A list without its element array was
returned as if it were usable, and a failed value was stored as nil.
---
 src/main/aerospike/as_arraylist.c | 59 +++++++++++++++++++++++++++++++
 1 file changed, 59 insertions(+)

diff --git a/src/main/aerospike/as_arraylist.c b/src/main/aerospike/as_arraylist.c
index ae14f7a..45ab188 100644
--- a/src/main/aerospike/as_arraylist.c
+++ b/src/main/aerospike/as_arraylist.c
@@ -43,6 +43,10 @@ as_arraylist_init(as_arraylist* list, uint32_t capacity, uint32_t block_size)
 	if (list->capacity > 0) {
 		list->free = true;
 		list->elements = (as_val**) cf_calloc(capacity, sizeof(as_val*));
+		if (!list->elements) {
+			list->capacity = 0;
+			return NULL;
+		}
 	}
 	else {
 		list->free = false;
@@ -64,6 +68,10 @@ as_arraylist_new(uint32_t capacity, uint32_t block_size)
 	if (list->capacity > 0) {
 		list->free = true;
 		list->elements = (as_val**) cf_calloc(capacity, sizeof(as_val*));
+		if (!list->elements) {
+			cf_free(list);
+			return NULL;
+		}
 	}
 	else {
 		list->free = false;
@@ -242,6 +250,10 @@ as_arraylist_set_int64(as_arraylist* list, uint32_t index, int64_t value)
 {
 	as_val* val = (as_val*) as_integer_new(value);
 
+	if (! val) {
+		return AS_ARRAYLIST_ERR_ALLOC;
+	}
+
 	return as_arraylist_check(as_arraylist_set(list, index, val), val);
 }
 
@@ -250,6 +262,10 @@ as_arraylist_set_double(as_arraylist* list, uint32_t index, double value)
 {
 	as_val* val = (as_val*) as_double_new(value);
 
+	if (! val) {
+		return AS_ARRAYLIST_ERR_ALLOC;
+	}
+
 	return as_arraylist_check(as_arraylist_set(list, index, val), val);
 }
 
@@ -258,6 +274,10 @@ as_arraylist_set_str(as_arraylist* list, uint32_t index, const char * value)
 {
 	as_val* val = (as_val*) as_string_new_strdup(value);
 
+	if (! val) {
+		return AS_ARRAYLIST_ERR_ALLOC;
+	}
+
 	return as_arraylist_check(as_arraylist_set(list, index, val), val);
 }
 
@@ -305,6 +325,10 @@ as_arraylist_insert_int64(as_arraylist* list, uint32_t index, int64_t value)
 {
 	as_val* val = (as_val*) as_integer_new(value);
 
+	if (! val) {
+		return AS_ARRAYLIST_ERR_ALLOC;
+	}
+
 	return as_arraylist_check(as_arraylist_insert(list, index, val), val);
 }
 
@@ -313,6 +337,10 @@ as_arraylist_insert_double(as_arraylist* list, uint32_t index, double value)
 {
 	as_val* val = (as_val*) as_double_new(value);
 
+	if (! val) {
+		return AS_ARRAYLIST_ERR_ALLOC;
+	}
+
 	return as_arraylist_check(as_arraylist_insert(list, index, val), val);
 }
 
@@ -321,6 +349,10 @@ as_arraylist_insert_str(as_arraylist* list, uint32_t index, const char * value)
 {
 	as_val* val = (as_val*) as_string_new_strdup(value);
 
+	if (! val) {
+		return AS_ARRAYLIST_ERR_ALLOC;
+	}
+
 	return as_arraylist_check(as_arraylist_insert(list, index, val), val);
 }
 
@@ -339,6 +371,10 @@ as_arraylist_append_int64(as_arraylist* list, int64_t value)
 {
 	as_val* val = (as_val*) as_integer_new(value);
 
+	if (! val) {
+		return AS_ARRAYLIST_ERR_ALLOC;
+	}
+
 	return as_arraylist_check(as_arraylist_append(list, val), val);
 }
 
@@ -347,6 +383,10 @@ as_arraylist_append_double(as_arraylist* list, double value)
 {
 	as_val* val = (as_val*) as_double_new(value);
 
+	if (! val) {
+		return AS_ARRAYLIST_ERR_ALLOC;
+	}
+
 	return as_arraylist_check(as_arraylist_append(list, val), val);
 }
 
@@ -355,6 +395,10 @@ as_arraylist_append_str(as_arraylist* list, const char * value)
 {
 	as_val* val = (as_val*) as_string_new_strdup(value);
 
+	if (! val) {
+		return AS_ARRAYLIST_ERR_ALLOC;
+	}
+
 	return as_arraylist_check(as_arraylist_append(list, val), val);
 }
 
@@ -373,6 +417,10 @@ as_arraylist_prepend_int64(as_arraylist* list, int64_t value)
 {
 	as_val* val = (as_val*) as_integer_new(value);
 
+	if (! val) {
+		return AS_ARRAYLIST_ERR_ALLOC;
+	}
+
 	return as_arraylist_check(as_arraylist_prepend(list, val), val);
 }
 
@@ -381,6 +429,10 @@ as_arraylist_prepend_double(as_arraylist* list, double value)
 {
 	as_val* val = (as_val*) as_double_new(value);
 
+	if (! val) {
+		return AS_ARRAYLIST_ERR_ALLOC;
+	}
+
 	return as_arraylist_check(as_arraylist_prepend(list, val), val);
 }
 
@@ -389,6 +441,10 @@ as_arraylist_prepend_str(as_arraylist* list, const char * value)
 {
 	as_val* val = (as_val*) as_string_new_strdup(value);
 
+	if (! val) {
+		return AS_ARRAYLIST_ERR_ALLOC;
+	}
+
 	return as_arraylist_check(as_arraylist_prepend(list, val), val);
 }
 
@@ -474,6 +530,7 @@ as_arraylist_tail(const as_arraylist* list)
 	if (list->size == 0) return NULL;
 
 	as_arraylist* list2 = as_arraylist_new(list->size-1, list->block_size);
+	if (!list2) return NULL;
 
 	list2->size = list->size-1;
 	for(uint32_t i = 1, j = 0; i < list->size; i++, j++) {
@@ -495,6 +552,7 @@ as_arraylist_drop(const as_arraylist* list, uint32_t n)
 	uint32_t		sz		= list->size;
 	uint32_t		c		= n < sz ? n : sz;
 	as_arraylist*	list2	= as_arraylist_new(sz-c, list->block_size);
+	if (!list2) return NULL;
 	
 	list2->size = sz-c;
 	for(uint32_t i = c, j = 0; j < list2->size; i++, j++) {
@@ -516,6 +574,7 @@ as_arraylist_take(const as_arraylist* list, uint32_t n)
 	uint32_t		sz		= list->size;
 	uint32_t		c		= n < sz ? n : sz;
 	as_arraylist*	list2	= as_arraylist_new(c, list->block_size);
+	if (!list2) return NULL;
 
 	list2->size = c;
 	for(uint32_t i = 0; i < c; i++) {
-- 
2.43.0


From 6fe4f0af8142e72a7352679144f6271a7dc7d838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:19:12 +0000
Subject: [PATCH 38/63] fix: Report failed allocations when copying text into a
 new value

The copy leaked when the value itself could not be allocated, and a failed
copy produced a value without text.
---
 src/main/aerospike/as_geojson.c | 7 ++++++-
 src/main/aerospike/as_string.c  | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/main/aerospike/as_geojson.c b/src/main/aerospike/as_geojson.c
index 3212643..f3f0507 100644
--- a/src/main/aerospike/as_geojson.c
+++ b/src/main/aerospike/as_geojson.c
@@ -69,7 +69,12 @@ as_geojson * as_geojson_new_wlen(char * value, size_t len, bool free)
 
 as_geojson *as_geojson_new_strdup(const char * s)
 {
-	return as_geojson_new(cf_strdup(s), true);
+	char * str = cf_strdup(s);
+	if (!str) return NULL;
+
+	as_geojson * string = as_geojson_new(str, true);
+	if (!string) cf_free(str);
+	return string;
 }
 
 /******************************************************************************
diff --git a/src/main/aerospike/as_string.c b/src/main/aerospike/as_string.c
index a37c542..9587fab 100644
--- a/src/main/aerospike/as_string.c
+++ b/src/main/aerospike/as_string.c
@@ -57,7 +57,12 @@ as_string * as_string_new_wlen(char * value, size_t len, bool free)
 
 as_string *as_string_new_strdup(const char * s)
 {
-	return as_string_new(cf_strdup(s), true);
+	char * str = cf_strdup(s);
+	if (!str) return NULL;
+
+	as_string * string = as_string_new(str, true);
+	if (!string) cf_free(str);
+	return string;
 }
 
 /******************************************************************************
-- 
2.43.0


From 0df16debd762dbd39a3e1fcddcf872a8f2cdc446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:19:12 +0000
Subject: [PATCH 39/63] fix: Report a failed buffer allocation when creating
 as_bytes

The bytes claimed the requested capacity but had no buffer, so the first
write used a null pointer.
---
 src/main/aerospike/as_bytes.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main/aerospike/as_bytes.c b/src/main/aerospike/as_bytes.c
index eaf5821..cfd85af 100644
--- a/src/main/aerospike/as_bytes.c
+++ b/src/main/aerospike/as_bytes.c
@@ -44,6 +44,11 @@ static inline as_bytes * as_bytes_cons(
 
     if ( value == NULL && size == 0 && capacity > 0 ) {
 	    bytes->value = cf_calloc(capacity, sizeof(uint8_t));
+	    if ( !bytes->value ) {
+	    	bytes->capacity = 0;
+	    	if ( free ) cf_free(bytes);
+	    	return NULL;
+	    }
     }
     
 	return bytes;
-- 
2.43.0


From 3a117ed27476eea4defd00eac4ef26529f659072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:19:12 +0000
Subject: [PATCH 40/63] fix: Keep as_orderedmap intact when an allocation fails

The capacity was doubled before the larger table existed, so the next set
wrote past the end of the old one. The tables for held entries were not
checked, a new map leaked when its table could not be allocated, and a map
whose merge failed once refused far inserts even after memory was available.
---
 src/main/aerospike/as_orderedmap.c | 33 ++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/main/aerospike/as_orderedmap.c b/src/main/aerospike/as_orderedmap.c
index 01217a0..99a4801 100644
--- a/src/main/aerospike/as_orderedmap.c
+++ b/src/main/aerospike/as_orderedmap.c
@@ -60,16 +60,11 @@ as_orderedmap_cons(as_orderedmap* map, uint32_t capacity)
 	size_t size = map->capacity * sizeof(map_entry);
 
 	map->table = (map_entry*)cf_malloc(size);
-
-	if (map->table == NULL) {
-		return NULL;
-	}
-
 	map->hold_count = 0;
 	map->hold_table = NULL;
 	map->hold_locations = NULL;
 
-	return map;
+	return map->table == NULL ? NULL : map;
 }
 
 static bool
@@ -214,7 +209,12 @@ as_orderedmap_new(uint32_t capacity)
 
 	as_map_cons((as_map*)map, true, 1, &as_orderedmap_map_hooks);
 
-	return as_orderedmap_cons(map, capacity);
+	if (as_orderedmap_cons(map, capacity) == NULL) {
+		cf_free(map);
+		return NULL;
+	}
+
+	return map;
 }
 
 bool
@@ -296,15 +296,16 @@ as_orderedmap_set(as_orderedmap* map, const as_val* key, const as_val* val)
 		// Near end of main table - insert directly.
 
 		if (map->count == map->capacity) {
-			map->capacity *= 2;
+			uint32_t new_capacity = map->capacity * 2;
 
 			map_entry* table = (map_entry*)cf_realloc(map->table,
-					map->capacity * sizeof(map_entry));
+					new_capacity * sizeof(map_entry));
 
 			if (table == NULL) {
 				return -1;
 			}
 
+			map->capacity = new_capacity;
 			map->table = table;
 		}
 
@@ -322,6 +323,14 @@ as_orderedmap_set(as_orderedmap* map, const as_val* key, const as_val* val)
 	if (map->hold_table == NULL) {
 		map->hold_table = cf_malloc(HOLD_TABLE_CAP * sizeof(map_entry));
 		map->hold_locations = cf_malloc(HOLD_TABLE_CAP * sizeof(uint32_t));
+
+		if (map->hold_table == NULL || map->hold_locations == NULL) {
+			cf_free(map->hold_table);
+			cf_free(map->hold_locations);
+			map->hold_table = NULL;
+			map->hold_locations = NULL;
+			return -1;
+		}
 	}
 
 	uint32_t hold_ix;
@@ -342,7 +351,9 @@ as_orderedmap_set(as_orderedmap* map, const as_val* key, const as_val* val)
 	}
 
 	if (map->hold_count == HOLD_TABLE_CAP) {
-		return -1; // previous merge failed
+		// Previous merge failed, try again.
+		return as_orderedmap_merge(map) ?
+				as_orderedmap_set(map, key, val) : -1;
 	}
 
 	memmove(&map->hold_table[hold_ix + 1], &map->hold_table[hold_ix],
@@ -358,7 +369,7 @@ as_orderedmap_set(as_orderedmap* map, const as_val* key, const as_val* val)
 
 	if (map->hold_count == HOLD_TABLE_CAP) {
 		as_orderedmap_merge(map);
-		// Ignore merge allocation failure, next insert will fail.
+		// Ignore merge allocation failure, next insert will try again.
 	}
 
 	return 0;
-- 
2.43.0


From 428b49e549039f85b9bee8ccbb900ade6f6f152f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:21:19 +0000
Subject: [PATCH 41/63] fix: Release what as_stringmap created when a set fails

The key, and the value of the typed variants, leaked when the map refused
them, and a value that could not be allocated was stored as nil.
---
 src/include/aerospike/as_stringmap.h | 40 +++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/include/aerospike/as_stringmap.h b/src/include/aerospike/as_stringmap.h
index 7b60f8d..1db699d 100644
--- a/src/include/aerospike/as_stringmap.h
+++ b/src/include/aerospike/as_stringmap.h
@@ -39,7 +39,12 @@ extern "C" {
  */
 static inline int as_stringmap_set(as_map * m, const char * k, as_val * v) 
 {
-	return as_util_hook(set, 1, m, (as_val *) as_string_new_strdup(k), v);
+	as_val * key = (as_val *) as_string_new_strdup(k);
+	if ( !key ) return 1;
+
+	int rc = as_util_hook(set, 1, m, key, v);
+	if ( rc != 0 ) as_val_destroy(key);
+	return rc;
 }
 
 /**
@@ -47,7 +52,12 @@ static inline int as_stringmap_set(as_map * m, const char * k, as_val * v)
  */
 static inline int as_stringmap_set_int64(as_map * m, const char * k, int64_t v) 
 {
-	return as_util_hook(set, 1, m, (as_val *) as_string_new_strdup(k), (as_val *) as_integer_new(v));
+	as_val * val = (as_val *) as_integer_new(v);
+	if ( !val ) return 1;
+
+	int rc = as_stringmap_set(m, k, val);
+	if ( rc != 0 ) as_val_destroy(val);
+	return rc;
 }
 
 /**
@@ -55,7 +65,12 @@ static inline int as_stringmap_set_int64(as_map * m, const char * k, int64_t v)
  */
 static inline int as_stringmap_set_double(as_map * m, const char * k, double v)
 {
-	return as_util_hook(set, 1, m, (as_val *) as_string_new_strdup(k), (as_val *) as_double_new(v));
+	as_val * val = (as_val *) as_double_new(v);
+	if ( !val ) return 1;
+
+	int rc = as_stringmap_set(m, k, val);
+	if ( rc != 0 ) as_val_destroy(val);
+	return rc;
 }
 
 /**
@@ -63,7 +78,12 @@ static inline int as_stringmap_set_double(as_map * m, const char * k, double v)
  */
 static inline int as_stringmap_set_str(as_map * m, const char * k, const char * v) 
 {
-	return as_util_hook(set, 1, m, (as_val *) as_string_new_strdup(k), (as_val *) as_string_new_strdup(v));
+	as_val * val = (as_val *) as_string_new_strdup(v);
+	if ( !val ) return 1;
+
+	int rc = as_stringmap_set(m, k, val);
+	if ( rc != 0 ) as_val_destroy(val);
+	return rc;
 }
 
 /**
@@ -71,7 +91,7 @@ static inline int as_stringmap_set_str(as_map * m, const char * k, const char *
  */
 static inline int as_stringmap_set_integer(as_map * m, const char * k, as_integer * v) 
 {
-	return as_util_hook(set, 1, m, (as_val *) as_string_new_strdup(k), (as_val *) v);
+	return as_stringmap_set(m, k, (as_val *) v);
 }
 
 /**
@@ -79,7 +99,7 @@ static inline int as_stringmap_set_integer(as_map * m, const char * k, as_intege
  */
 static inline int as_stringmap_set_as_double(as_map * m, const char * k, as_double * v)
 {
-	return as_util_hook(set, 1, m, (as_val *) as_string_new_strdup(k), (as_val *) v);
+	return as_stringmap_set(m, k, (as_val *) v);
 }
 	
 /**
@@ -87,7 +107,7 @@ static inline int as_stringmap_set_as_double(as_map * m, const char * k, as_doub
  */
 static inline int as_stringmap_set_string(as_map * m, const char * k, as_string * v) 
 {
-	return as_util_hook(set, 1, m, (as_val *) as_string_new_strdup(k), (as_val *) v);
+	return as_stringmap_set(m, k, (as_val *) v);
 }
 
 /**
@@ -95,7 +115,7 @@ static inline int as_stringmap_set_string(as_map * m, const char * k, as_string
  */
 static inline int as_stringmap_set_bytes(as_map * m, const char * k, as_bytes * v) 
 {
-	return as_util_hook(set, 1, m, (as_val *) as_string_new_strdup(k), (as_val *) v);
+	return as_stringmap_set(m, k, (as_val *) v);
 }
 
 /**
@@ -103,7 +123,7 @@ static inline int as_stringmap_set_bytes(as_map * m, const char * k, as_bytes *
  */
 static inline int as_stringmap_set_list(as_map * m, const char * k, as_list * v) 
 {
-	return as_util_hook(set, 1, m, (as_val *) as_string_new_strdup(k), (as_val *) v);
+	return as_stringmap_set(m, k, (as_val *) v);
 }
 
 /**
@@ -111,7 +131,7 @@ static inline int as_stringmap_set_list(as_map * m, const char * k, as_list * v)
  */
 static inline int as_stringmap_set_map(as_map * m, const char * k, as_map * v) 
 {
-	return as_util_hook(set, 1, m, (as_val *) as_string_new_strdup(k), (as_val *) v);
+	return as_stringmap_set(m, k, (as_val *) v);
 }
 
 /******************************************************************************
-- 
2.43.0


From d10d9e483ffde4e912dfdc760da681a62a59700b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:26:34 +0000
Subject: [PATCH 42/63] fix: Report failed allocations when growing or
 combining serializer buffers

---
 src/main/aerospike/as_msgpack.c            |  5 ++++-
 src/main/aerospike/as_msgpack_serializer.c | 16 ++++++++++++----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index f99fb2d..614b1bd 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -281,11 +281,14 @@ pack_resize(as_packer *pk, uint32_t sz)
 
 	size_t newcap = (size_t)((sz > (uint32_t)pk->capacity) ? sz : pk->capacity);
 
-	if (! (pk->buffer = (unsigned char *)cf_malloc(newcap))) {
+	unsigned char *buffer = (unsigned char *)cf_malloc(newcap);
+
+	if (! buffer) {
 		cf_free(entry);
 		return -1;
 	}
 
+	pk->buffer = buffer;
 	pk->capacity = (int)newcap;
 	pk->offset = 0;
 
diff --git a/src/main/aerospike/as_msgpack_serializer.c b/src/main/aerospike/as_msgpack_serializer.c
index 4371f85..296294b 100644
--- a/src/main/aerospike/as_msgpack_serializer.c
+++ b/src/main/aerospike/as_msgpack_serializer.c
@@ -154,9 +154,11 @@ static int as_msgpack_serializer_serialize(as_serializer *s, const as_val *v, as
 		int offset = 0;
 
 		while (p) {
-			memcpy(target + offset, p->buffer, p->length);
-			offset += p->length;
-			
+			if (target) {
+				memcpy(target + offset, p->buffer, p->length);
+				offset += p->length;
+			}
+
 			as_packer_buffer *tmp = p;
 			p = p->next;
 			
@@ -165,11 +167,17 @@ static int as_msgpack_serializer_serialize(as_serializer *s, const as_val *v, as
 			cf_free(tmp);
 		}
 
-		memcpy(target + offset, packer.buffer, packer.offset);
+		if (target) {
+			memcpy(target + offset, packer.buffer, packer.offset);
+		}
 
 		// Free original main buffer.
 		cf_free(packer.buffer);
 
+		if (! target) {
+			return 1;
+		}
+
 		// Transfer new buffer.
 		buff->data = target;
 		buff->size = size;
-- 
2.43.0


From 061310102ca22376f9a936c151853014b8f210b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:26:34 +0000
Subject: [PATCH 43/63] fix: Report failed allocations when unpacking a value

---
 src/main/aerospike/as_msgpack.c | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 614b1bd..9e745a8 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -994,21 +994,21 @@ static inline int
 unpack_boolean(bool b, as_val **v)
 {
 	*v = (as_val *)as_boolean_new(b);
-	return 0;
+	return *v ? 0 : -1;
 }
 
 static inline int
 unpack_integer_val(int64_t i, as_val **v)
 {
 	*v = (as_val *)as_integer_new(i);
-	return 0;
+	return *v ? 0 : -1;
 }
 
 static inline int
 unpack_double_val(double d, as_val **v)
 {
 	*v = (as_val *)as_double_new(d);
-	return 0;
+	return *v ? 0 : -1;
 }
 
 static int
@@ -1027,11 +1027,29 @@ unpack_blob(as_unpacker *pk, uint32_t size, as_val **val)
 
 	if (type == AS_BYTES_STRING) {
 		char *v = cf_strndup((const char *)pk->buffer + pk->offset, size);
+
+		if (! v) {
+			return -1;
+		}
+
 		*val = (as_val*)as_string_new(v, true);
+
+		if (! *val) {
+			cf_free(v);
+		}
 	}
 	else if (type == AS_BYTES_GEOJSON) {
 		char *v = cf_strndup((const char *)pk->buffer + pk->offset, size);
+
+		if (! v) {
+			return -1;
+		}
+
 		*val = (as_val *)as_geojson_new(v, true);
+
+		if (! *val) {
+			cf_free(v);
+		}
 	}
 	else {
 		as_bytes *b;
-- 
2.43.0


From 9283da958e493830e2cf9428d7117d50d008621f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:26:34 +0000
Subject: [PATCH 44/63] fix: Report failed allocations when measuring or
 comparing deeply nested values

---
 src/main/aerospike/as_msgpack.c | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 9e745a8..3f03a7b 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -123,6 +123,11 @@ static msgpack_parse_memblock *
 msgpack_parse_memblock_create(msgpack_parse_memblock *prev)
 {
 	msgpack_parse_memblock *p = cf_malloc(sizeof(msgpack_parse_memblock));
+
+	if (! p) {
+		return NULL;
+	}
+
 	p->prev = prev;
 	p->count = 0;
 	return p;
@@ -145,6 +150,11 @@ msgpack_parse_memblock_next(msgpack_parse_memblock **block)
 
 	if (ptr->count >= MSGPACK_PARSE_MEMBLOCK_STATE_COUNT) {
 		ptr = msgpack_parse_memblock_create(ptr);
+
+		if (! ptr) {
+			return NULL;
+		}
+
 		*block = ptr;
 	}
 
@@ -1693,6 +1703,11 @@ unpack_list_elements_size(as_unpacker *pk, uint32_t ele_count, uint32_t depth)
 {
 	if (++depth > MSGPACK_COMPARE_MAX_DEPTH) {
 		msgpack_parse_memblock *block = msgpack_parse_memblock_create(NULL);
+
+		if (! block) {
+			return -1;
+		}
+
 		msgpack_parse_state *state = msgpack_parse_memblock_next(&block);
 
 		state->index = 0;
@@ -1732,6 +1747,11 @@ unpack_map_elements_size(as_unpacker *pk, uint32_t ele_count, uint32_t depth)
 {
 	if (++depth > MSGPACK_COMPARE_MAX_DEPTH) {
 		msgpack_parse_memblock *block = msgpack_parse_memblock_create(NULL);
+
+		if (! block) {
+			return -1;
+		}
+
 		msgpack_parse_state *state = msgpack_parse_memblock_next(&block);
 
 		state->index = 0;
@@ -1967,7 +1987,7 @@ unpack_size_non_recursive(as_unpacker *pk, msgpack_parse_memblock **block,
 		if (type == AS_LIST ) {
 			state = msgpack_parse_memblock_next(block);
 
-			if (! msgpack_parse_state_list_size_init(state, pk)) {
+			if (! state || ! msgpack_parse_state_list_size_init(state, pk)) {
 				return -3;
 			}
 
@@ -1977,7 +1997,7 @@ unpack_size_non_recursive(as_unpacker *pk, msgpack_parse_memblock **block,
 		if (type == AS_MAP) {
 			state = msgpack_parse_memblock_next(block);
 
-			if (! msgpack_parse_state_map_size_init(state, pk)) {
+			if (! state || ! msgpack_parse_state_map_size_init(state, pk)) {
 				return -4;
 			}
 
@@ -2760,6 +2780,11 @@ static msgpack_compare_t
 msgpack_compare_deep(as_unpacker *pk1, as_unpacker *pk2, as_val_t type)
 {
 	msgpack_parse_memblock *block = msgpack_parse_memblock_create(NULL);
+
+	if (! block) {
+		return MSGPACK_COMPARE_ERROR;
+	}
+
 	msgpack_parse_state *state = msgpack_parse_memblock_next(&block);
 	msgpack_compare_t ret;
 
@@ -3072,7 +3097,7 @@ msgpack_compare_non_recursive(as_unpacker *pk1, as_unpacker *pk2,
 		if (type == AS_LIST ) {
 			state = msgpack_parse_memblock_next(block);
 
-			if (! msgpack_parse_state_list_cmp_init(state, pk1, pk2)) {
+			if (! state || ! msgpack_parse_state_list_cmp_init(state, pk1, pk2)) {
 				return MSGPACK_COMPARE_ERROR;
 			}
 
@@ -3082,7 +3107,7 @@ msgpack_compare_non_recursive(as_unpacker *pk1, as_unpacker *pk2,
 		if (type == AS_MAP) {
 			state = msgpack_parse_memblock_next(block);
 
-			if (! msgpack_parse_state_map_cmp_init(state, pk1, pk2)) {
+			if (! state || ! msgpack_parse_state_map_cmp_init(state, pk1, pk2)) {
 				return MSGPACK_COMPARE_ERROR;
 			}
 
-- 
2.43.0


From 06897635e024a231b1854ac5b94d485d1ca92dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:26:34 +0000
Subject: [PATCH 45/63] fix: Report a failed allocation when comparing maps

---
 src/main/aerospike/as_msgpack.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 3f03a7b..1d49bcb 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -675,8 +675,10 @@ as_map_cmp(const as_map* map1, const as_map* map2)
 	as_orderedmap_iterator it1;
 	as_orderedmap_iterator it2;
 
-	as_orderedmap_iterator_init(&it1, (const as_orderedmap*)map1);
-	as_orderedmap_iterator_init(&it2, (const as_orderedmap*)map2);
+	if (! as_orderedmap_iterator_init(&it1, (const as_orderedmap*)map1) ||
+			! as_orderedmap_iterator_init(&it2, (const as_orderedmap*)map2)) {
+		return MSGPACK_COMPARE_ERROR;
+	}
 
 	for (uint32_t i = 0; i < sz; i++) {
 		as_pair* p1 = (as_pair*)as_orderedmap_iterator_next(&it1);
-- 
2.43.0


From 008f7dc706284b7bd086be2893104b5bafd6634c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:34:43 +0000
Subject: [PATCH 46/63] fix: Return no text when an allocation fails while
 printing a value

---
 src/main/aerospike/as_double.c  |  1 +
 src/main/aerospike/as_integer.c |  1 +
 src/main/aerospike/as_list.c    | 22 ++++++++++++++++++----
 src/main/aerospike/as_map.c     | 25 +++++++++++++++++++++----
 4 files changed, 41 insertions(+), 8 deletions(-)

diff --git a/src/main/aerospike/as_double.c b/src/main/aerospike/as_double.c
index 0eb51e2..e2bec92 100644
--- a/src/main/aerospike/as_double.c
+++ b/src/main/aerospike/as_double.c
@@ -80,6 +80,7 @@ as_double_val_tostring(const as_val * val)
 {
 	as_double* value_ptr = (as_double*)val;
 	char* str = (char*)cf_malloc(sizeof(char) * 64);
+	if (!str) return str;
 	sprintf(str, "%.16g", value_ptr->value);
 	return str;
 }
diff --git a/src/main/aerospike/as_integer.c b/src/main/aerospike/as_integer.c
index 2384453..f4da430 100644
--- a/src/main/aerospike/as_integer.c
+++ b/src/main/aerospike/as_integer.c
@@ -65,6 +65,7 @@ char * as_integer_val_tostring(const as_val * v)
 {
 	as_integer * i = (as_integer *) v;
 	char * str = (char *) cf_malloc(sizeof(char) * 32);
+	if (!str) return str;
 	memset(str, 0, 32);
 	sprintf(str, "%" PRId64, i->value);
 	return str;
diff --git a/src/main/aerospike/as_list.c b/src/main/aerospike/as_list.c
index 31779d5..d770b8e 100644
--- a/src/main/aerospike/as_list.c
+++ b/src/main/aerospike/as_list.c
@@ -98,7 +98,14 @@ static bool as_list_val_tostring_foreach(as_val * val, void * udata)
 
 	if ( data->pos + len + 2 >= data->cap ) {
 		uint32_t adj = ((len+2) > data->blk) ? len+2 : data->blk;
-		data->buf = cf_realloc(data->buf, sizeof(char) * (data->cap + adj));
+		char * buf = cf_realloc(data->buf, sizeof(char) * (data->cap + adj));
+		if (!buf) {
+			if ( str != NULL_STR ) {
+				cf_free(str);
+			}
+			return false;
+		}
+		data->buf = buf;
 		data->cap += adj;
 	}
 
@@ -130,16 +137,23 @@ char * as_list_val_tostring(const as_val * v)
 	};
 
 	data.buf = (char *) cf_calloc(data.cap, sizeof(char));
+	if (!data.buf) return NULL;
 
 	strcpy(data.buf, "[");
 	data.pos += 1;
 
-	if ( v ) {
-		as_list_foreach((as_list *) v, as_list_val_tostring_foreach, &data);
+	if ( v && !as_list_foreach((as_list *) v, as_list_val_tostring_foreach, &data) && as_list_size((as_list *) v) != 0 ) {
+		cf_free(data.buf);
+		return NULL;
 	}
 
 	if ( data.pos + 2 >= data.cap ) {
-		data.buf = cf_realloc(data.buf, sizeof(char) * (data.cap + 2));
+		char * buf = cf_realloc(data.buf, sizeof(char) * (data.cap + 2));
+		if (!buf) {
+			cf_free(data.buf);
+			return NULL;
+		}
+		data.buf = buf;
 		data.cap += 2;
 	}
 
diff --git a/src/main/aerospike/as_map.c b/src/main/aerospike/as_map.c
index 8cf747a..8f1ec83 100644
--- a/src/main/aerospike/as_map.c
+++ b/src/main/aerospike/as_map.c
@@ -90,7 +90,17 @@ static bool as_map_val_tostring_foreach(const as_val* key, const as_val* val, vo
 
 	if ( data->pos + entlen >= data->cap ) {
 		uint32_t adj = entlen > data->blk ? entlen : data->blk;
-		data->buf = cf_realloc(data->buf, sizeof(char) * (data->cap + adj));
+		char * buf = cf_realloc(data->buf, sizeof(char) * (data->cap + adj));
+		if (!buf) {
+			if (keystr != NULL_STR) {
+				cf_free(keystr);
+			}
+			if (valstr != NULL_STR) {
+				cf_free(valstr);
+			}
+			return false;
+		}
+		data->buf = buf;
 		memset(data->buf + data->cap, 0, sizeof(char) * adj);
 		data->cap += adj;
 	}
@@ -134,16 +144,23 @@ char * as_map_val_tostring(const as_val* v)
 	};
 
 	data.buf = (char *) cf_calloc(data.cap, sizeof(char));
+	if (!data.buf) return NULL;
 
 	strcpy(data.buf, "{");
 	data.pos += 1;
 	
-	if ( v ) {
-		as_map_foreach((as_map*) v, as_map_val_tostring_foreach, &data);
+	if ( v && !as_map_foreach((as_map*) v, as_map_val_tostring_foreach, &data) && as_map_size((as_map*) v) != 0 ) {
+		cf_free(data.buf);
+		return NULL;
 	}
 
 	if ( data.pos + 2 >= data.cap ) {
-		data.buf = cf_realloc(data.buf, sizeof(char) * (data.cap + 2));
+		char * buf = cf_realloc(data.buf, sizeof(char) * (data.cap + 2));
+		if (!buf) {
+			cf_free(data.buf);
+			return NULL;
+		}
+		data.buf = buf;
 		data.cap += 2;
 	}
 
-- 
2.43.0


From 970c3c8a9bfec71b05e956426650b116e2109135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:34:43 +0000
Subject: [PATCH 47/63] fix: Keep the text of as_string_builder valid when an
 allocation fails

---
 src/main/aerospike/as_string_builder.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/main/aerospike/as_string_builder.c b/src/main/aerospike/as_string_builder.c
index 03632ef..a2d0790 100644
--- a/src/main/aerospike/as_string_builder.c
+++ b/src/main/aerospike/as_string_builder.c
@@ -24,11 +24,22 @@ extern const char as_hex_chars[];
 void
 as_string_builder_init(as_string_builder* sb, uint32_t capacity, bool resize)
 {
+	static char empty[1];
+
+	sb->length = 0;
+	sb->resize = resize;
 	sb->data = (char*)cf_malloc(capacity);
+
+	if (! sb->data) {
+		// No room for text yet. Appends allocate if resize is allowed.
+		sb->data = empty;
+		sb->capacity = 1;
+		sb->free = false;
+		return;
+	}
+
 	sb->data[0] = 0;
 	sb->capacity = capacity;
-	sb->length = 0;
-	sb->resize = resize;
 	sb->free = true;
 }
 
@@ -83,6 +94,7 @@ as_sb_expand(as_string_builder* sb, const char* src)
 	uint32_t min_capacity = sb->length + remaining_len + 1;
 
 	if (! as_sb_increase_capacity(sb, min_capacity)) {
+		sb->data[sb->length] = 0;
 		return false;
 	}
 
-- 
2.43.0


From 263aff2fbbcbc690a72890857593b0f86fcbd3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:34:43 +0000
Subject: [PATCH 48/63] fix: Report a failed allocation in as_basename

---
 src/main/aerospike/as_string.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main/aerospike/as_string.c b/src/main/aerospike/as_string.c
index 9587fab..e93b093 100644
--- a/src/main/aerospike/as_string.c
+++ b/src/main/aerospike/as_string.c
@@ -138,6 +138,12 @@ const char* as_basename(as_string * filename, const char* path)
 
 		size_t len = (end - p) + 1;
 		char* str = cf_malloc(len + 1);
+
+		if (! str) {
+			as_string_cons(filename, false, NULL, 0, false);
+			return NULL;
+		}
+
 		memcpy(str, p, len);
 		*(str + len) = 0;
 		as_string_cons(filename, false, str, len, true);
-- 
2.43.0


From 7066dc858ebbcf84d59fed7ae48bcf78c3b10f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:00:46 +0000
Subject: [PATCH 49/63] fix: encode base-64 text longer than 2 GiB

The encoder's signed positions wrapped once the text passed 2^31
characters, and the rest was written in front of the output buffer.
---
 src/main/citrusleaf/cf_b64.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/citrusleaf/cf_b64.c b/src/main/citrusleaf/cf_b64.c
index 4178786..67f7008 100644
--- a/src/main/citrusleaf/cf_b64.c
+++ b/src/main/citrusleaf/cf_b64.c
@@ -82,8 +82,8 @@ static const uint8_t base64_decode_a[] = {
 void
 cf_b64_encode(const uint8_t* in, uint32_t in_size, char* out)
 {
-	int i = 0;
-	int j = 0;
+	uint32_t i = 0;
+	uint32_t j = 0;
 
 	while (in_size >= 3) {
 		uint8_t i0 = in[i];
-- 
2.43.0


From 3f276b7c867339d5a76d429d8d7d1693e4bbdc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:00:46 +0000
Subject: [PATCH 50/63] fix: compute the decoded size of long base-64 text
 without overflow

Multiplying the text length first overflowed for texts of more than
1.4 GB, so callers allocated too small a buffer.
---
 src/include/citrusleaf/cf_b64.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/citrusleaf/cf_b64.h b/src/include/citrusleaf/cf_b64.h
index fd7039b..a5c29e5 100644
--- a/src/include/citrusleaf/cf_b64.h
+++ b/src/include/citrusleaf/cf_b64.h
@@ -42,7 +42,7 @@ void cf_b64_encode(const uint8_t* in, uint32_t in_size, char* out);
 static inline uint32_t
 cf_b64_decoded_buf_size(uint32_t in_len)
 {
-	return (in_len * 3) >> 2;
+	return (in_len >> 2) * 3;
 }
 
 void cf_b64_decode(const char* in, uint32_t in_len, uint8_t* out, uint32_t* out_size);
-- 
2.43.0


From 18bc8fbe5c463187de5b44967d3aaa7cb558f25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:00:46 +0000
Subject: [PATCH 51/63] fix: digest all bytes of SHA-1 inputs of 4 GiB and more

The length was cut to 32 bits, so only the remainder was digested.
---
 src/main/citrusleaf/cf_crypto.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/citrusleaf/cf_crypto.c b/src/main/citrusleaf/cf_crypto.c
index 6978e04..c0cb93c 100644
--- a/src/main/citrusleaf/cf_crypto.c
+++ b/src/main/citrusleaf/cf_crypto.c
@@ -64,7 +64,7 @@ typedef struct cf_SHA1Context_s {
 //
 
 static int cf_SHA1Reset(cf_SHA1Context *context);
-static int cf_SHA1Input(cf_SHA1Context *context, const uint8_t *message_array, unsigned length);
+static int cf_SHA1Input(cf_SHA1Context *context, const uint8_t *message_array, size_t length);
 static int cf_SHA1Result(cf_SHA1Context *context, uint8_t Message_Digest[CF_SHA1HashSize]);
 
 static void cf_SHA1ProcessMessageBlock(cf_SHA1Context *);
@@ -89,7 +89,7 @@ cf_SHA1(const uint8_t* d, size_t n, uint8_t* md)
 	cf_SHA1Context sha;
 
 	cf_SHA1Reset(&sha);
-	cf_SHA1Input(&sha, d, (unsigned)n);
+	cf_SHA1Input(&sha, d, n);
 	cf_SHA1Result(&sha, md);
 }
 
@@ -123,7 +123,7 @@ cf_SHA1Reset(cf_SHA1Context *context)
 
 static int
 cf_SHA1Input(cf_SHA1Context *context, const uint8_t *message_array,
-		unsigned length)
+		size_t length)
 {
 	if (! length) {
 		return cf_shaSuccess;
-- 
2.43.0


From 3ca911d7c0a5e2d46773a843f424cdb5d0c5baa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:00:46 +0000
Subject: [PATCH 52/63] fix: count pieces of 4 GiB and more in RIPEMD-160
 digests

The upper half of a piece's length was left out of the message length,
so one call gave another digest than the same bytes in several pieces.
---
 src/main/citrusleaf/cf_crypto.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/citrusleaf/cf_crypto.c b/src/main/citrusleaf/cf_crypto.c
index c0cb93c..899a202 100644
--- a/src/main/citrusleaf/cf_crypto.c
+++ b/src/main/citrusleaf/cf_crypto.c
@@ -422,6 +422,7 @@ cf_RIPEMD160_Update(cf_RIPEMD160_CTX* ctx, const void* v_input, size_t ilen)
 	uint32_t fill = (uint32_t)(64 - left);
 
 	ctx->total[0] += (uint32_t) ilen;
+	ctx->total[1] += (uint32_t) ((uint64_t) ilen >> 32);
 	ctx->total[0] &= 0xFFFFFFFF;
 
 	if (ctx->total[0] < (uint32_t) ilen) {
-- 
2.43.0


From d85fa29363b1c7cf7fda09653c1549f1108127fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:10:24 +0000
Subject: [PATCH 53/63] fix: compare DNS alternative names over their whole
 length

A certificate name with a zero byte inside, such as
"good.example\\0.evil.example", matched the part before the zero byte.
---
 src/main/aerospike/ssl_util.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/ssl_util.c b/src/main/aerospike/ssl_util.c
index 3d8280e..60e060b 100644
--- a/src/main/aerospike/ssl_util.c
+++ b/src/main/aerospike/ssl_util.c
@@ -458,7 +458,10 @@ bool as_tls_match_san(X509 *x509, const char *name) {
 			char *san = (char*)ASN1_STRING_get0_data(dns_name);
 #endif
 
-			if (strcmp(name, san) == 0) {
+			// The name may contain a zero byte: compare over its whole length.
+			size_t san_length = (size_t)ASN1_STRING_length(dns_name);
+
+			if (strlen(name) == san_length && memcmp(name, san, san_length) == 0) {
 				match = true;
 				break;
 			}
-- 
2.43.0


From 5cbeb1f510326473b56a189182601598e95d38fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:18:13 +0000
Subject: [PATCH 54/63] fix: record whether a timer was heap allocated

as_timer_init and as_timer_new never set is_malloc, so as_timer_destroy
decided on whatever was in memory: it could free a timer on the stack or
leak one from the heap.
---
 src/main/aerospike/as_timer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/aerospike/as_timer.c b/src/main/aerospike/as_timer.c
index 6a56fbc..6abdacd 100644
--- a/src/main/aerospike/as_timer.c
+++ b/src/main/aerospike/as_timer.c
@@ -27,6 +27,7 @@
  */
 as_timer * as_timer_init(as_timer * timer, void * source, const as_timer_hooks * hooks) {
     if ( timer == NULL ) return timer;
+    timer->is_malloc = false;
     timer->source = source;
     timer->hooks = hooks;
     return timer;
@@ -38,6 +39,7 @@ as_timer * as_timer_init(as_timer * timer, void * source, const as_timer_hooks *
 as_timer * as_timer_new(void * source, const as_timer_hooks * hooks) {
     as_timer * timer = (as_timer *) cf_malloc(sizeof(as_timer));
     if (!timer) return timer;
+    timer->is_malloc = true;
     timer->source = source;
     timer->hooks = hooks;
     return timer;
-- 
2.43.0


From 20be983704aa685e8392a8e61f5d291526a283b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:21:21 +0000
Subject: [PATCH 55/63] fix: report a failed reference counted allocation

cf_rc_alloc wrote its header through the unchecked result of malloc.
as_aerospike_new then used the result unchecked.
---
 src/main/aerospike/as_aerospike.c | 1 +
 src/main/citrusleaf/cf_alloc.c    | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/src/main/aerospike/as_aerospike.c b/src/main/aerospike/as_aerospike.c
index f954f4b..db29f4b 100644
--- a/src/main/aerospike/as_aerospike.c
+++ b/src/main/aerospike/as_aerospike.c
@@ -33,6 +33,7 @@ as_aerospike * as_aerospike_init(as_aerospike * a, void * s, const as_aerospike_
 as_aerospike * as_aerospike_new(void * s, const as_aerospike_hooks * h)
 {
 	as_aerospike * a = (as_aerospike *) cf_rc_alloc(sizeof(as_aerospike));
+	if (!a) return a;
 	a->is_rcalloc = true;
 	a->source = s;
 	a->hooks = h;
diff --git a/src/main/citrusleaf/cf_alloc.c b/src/main/citrusleaf/cf_alloc.c
index c1c3886..2074140 100644
--- a/src/main/citrusleaf/cf_alloc.c
+++ b/src/main/citrusleaf/cf_alloc.c
@@ -96,6 +96,10 @@ cf_rc_alloc(size_t sz)
 {
 	cf_rc_hdr* head = malloc(sizeof(cf_rc_hdr) + sz);
 
+	if (! head) {
+		return NULL;
+	}
+
 	head->count = 1;
 	head->sz = (uint32_t)sz;
 
-- 
2.43.0


From 231eea12e31fb485db77db23773cef1901ae7f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:21:21 +0000
Subject: [PATCH 56/63] fix: check the allocation in as_success_new and
 as_failure_new

---
 src/main/aerospike/as_result.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/aerospike/as_result.c b/src/main/aerospike/as_result.c
index 5139105..5bc2e45 100644
--- a/src/main/aerospike/as_result.c
+++ b/src/main/aerospike/as_result.c
@@ -63,6 +63,7 @@ void as_result_destroy(as_result *r) {
 
 as_result * as_success_new(as_val * v) {
     as_result *r = as_result_new();
+    if (!r) return r;
     r->is_success = true;
     r->value = v;
     return(r);
@@ -70,6 +71,7 @@ as_result * as_success_new(as_val * v) {
 
 as_result * as_failure_new(as_val * v) {
     as_result *r = as_result_new();
+    if (!r) return r;
     r->is_success = false;
     r->value = v;
     return(r);
-- 
2.43.0


From 3eee866ade538474872331015b6b24e9ed839d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:21:21 +0000
Subject: [PATCH 57/63] fix: report a failed allocation when creating or
 copying a vector

as_vector_create and as_vector_to_array used the memory unchecked.
---
 src/main/aerospike/as_vector.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/main/aerospike/as_vector.c b/src/main/aerospike/as_vector.c
index 0cfe2a2..45ce95d 100644
--- a/src/main/aerospike/as_vector.c
+++ b/src/main/aerospike/as_vector.c
@@ -34,7 +34,17 @@ as_vector*
 as_vector_create(uint32_t item_size, uint32_t capacity)
 {
 	as_vector* vector = cf_malloc(sizeof(as_vector));
+
+	if (! vector) {
+		return NULL;
+	}
+
 	as_vector_init(vector, item_size, capacity);
+
+	if (! vector->list && capacity != 0 && item_size != 0) {
+		cf_free(vector);
+		return NULL;
+	}
 	vector->flags = FLAGS_HEAP | FLAGS_CREATED;
 	return vector;
 }
@@ -87,6 +97,12 @@ as_vector_to_array(as_vector* vector, uint32_t* size)
 {
 	size_t len = vector->size * vector->item_size;
 	void* array = cf_malloc(len);
+
+	if (! array) {
+		*size = 0;
+		return NULL;
+	}
+
 	memcpy(array, vector->list, len);
 	*size = vector->size;
 	return array;
-- 
2.43.0


From 73c04a834a34850a087749b07478c1f38283e477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:21:21 +0000
Subject: [PATCH 58/63] fix: refuse a thread pool whose memory could not be
 allocated

as_thread_pool_init wrote thread ids through, and started threads on, the
unchecked results of its allocations.
---
 src/main/aerospike/as_thread_pool.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/main/aerospike/as_thread_pool.c b/src/main/aerospike/as_thread_pool.c
index 666ded3..ec287c5 100644
--- a/src/main/aerospike/as_thread_pool.c
+++ b/src/main/aerospike/as_thread_pool.c
@@ -80,6 +80,19 @@ as_thread_pool_init(as_thread_pool* pool, uint32_t thread_size)
 	if (thread_size != 0) {
 		pool->threads = cf_calloc(thread_size, sizeof(pthread_t));
 		pool->dispatch_queue = cf_queue_create(sizeof(as_thread_pool_task), true);
+
+		if (! pool->threads || ! pool->dispatch_queue) {
+			cf_free(pool->threads);
+
+			if (pool->dispatch_queue) {
+				cf_queue_destroy(pool->dispatch_queue);
+			}
+			pool->threads = NULL;
+			pool->dispatch_queue = NULL;
+			pool->fini_fn = NULL;
+			pool->thread_size = 0;
+			return -3;
+		}
 	}
 	else {
 		pool->threads = NULL;
-- 
2.43.0


From 7927fd50072cb0bb0a5451db2ff26acc263f8e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:02:33 +0000
Subject: [PATCH 59/63] fix: as_swlock_read_lock takes the lock with acquire
 order

A writer may take and give back the lock between the acquire load and the
relaxed add, so the reader was not ordered after the writer's changes.
---
 src/include/aerospike/as_atomic_gcc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/aerospike/as_atomic_gcc.h b/src/include/aerospike/as_atomic_gcc.h
index 67e5b49..e318eec 100644
--- a/src/include/aerospike/as_atomic_gcc.h
+++ b/src/include/aerospike/as_atomic_gcc.h
@@ -832,7 +832,7 @@ as_swlock_read_lock(as_swlock* rw)
 			as_arch_pause();
 		}
 
-		uint32_t l = as_faa_uint32(&rw->u32, 1) & AS_SWLOCK_WRITER_MASK;
+		uint32_t l = as_faa_acq(&rw->u32, 1) & AS_SWLOCK_WRITER_MASK;
 
 		if (l == 0) {
 			break;
-- 
2.43.0


From 2220dfa147bc642daa1bfd00b5ebdf92957cdd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:02:39 +0000
Subject: [PATCH 60/63] fix: as_sleep sleeps for the whole time when it exceeds
 2^32 microseconds

The product was computed in the argument's type and cut to 32 bits, so a sleep
of 4294968 ms ended after less than a millisecond.
---
 src/include/aerospike/as_sleep.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/include/aerospike/as_sleep.h b/src/include/aerospike/as_sleep.h
index b29b8d5..6bdd82b 100644
--- a/src/include/aerospike/as_sleep.h
+++ b/src/include/aerospike/as_sleep.h
@@ -20,6 +20,17 @@
 #include <windows.h>
 #define as_sleep(_ms) Sleep(_ms)
 #else
+#include <stdint.h>
+#include <time.h>
 #include <unistd.h>
-#define as_sleep(_ms) usleep((_ms) * 1000)
+
+static inline int
+as_sleep(uint32_t ms)
+{
+	struct timespec ts;
+	ts.tv_sec = ms / 1000;
+	ts.tv_nsec = (ms % 1000) * 1000 * 1000;
+
+	return nanosleep(&ts, NULL);
+}
 #endif
-- 
2.43.0


From c8a437e2e78e9495bdd48fe8ef9133cbb4c8105e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:20:06 +0000
Subject: [PATCH 61/63] fix: as_vector and as_queue compute storage sizes
 beyond 4 GB without wrapping

---
 src/include/aerospike/as_queue.h  |  2 +-
 src/include/aerospike/as_vector.h | 10 +++++-----
 src/main/aerospike/as_queue.c     | 10 +++++-----
 src/main/aerospike/as_vector.c    | 16 ++++++++--------
 4 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/include/aerospike/as_queue.h b/src/include/aerospike/as_queue.h
index bba65ac..c8b03e5 100644
--- a/src/include/aerospike/as_queue.h
+++ b/src/include/aerospike/as_queue.h
@@ -155,7 +155,7 @@ as_queue_push_head_limit(as_queue* queue, const void* ptr);
 static inline void*
 as_queue_get(as_queue* queue, uint32_t index)
 {
-	return &queue->data[(index % queue->capacity) * queue->item_size];
+	return &queue->data[(size_t)(index % queue->capacity) * queue->item_size];
 }
 	
 /**
diff --git a/src/include/aerospike/as_vector.h b/src/include/aerospike/as_vector.h
index 7bd909a..d3535b6 100644
--- a/src/include/aerospike/as_vector.h
+++ b/src/include/aerospike/as_vector.h
@@ -111,7 +111,7 @@ as_vector_clear(as_vector* vector)
 static inline void*
 as_vector_get(as_vector* vector, uint32_t index)
 {
-	return (void *) ((uint8_t *)vector->list + (vector->item_size * index));
+	return (void *) ((uint8_t *)vector->list + ((size_t)vector->item_size * index));
 }
 
 /**
@@ -120,7 +120,7 @@ as_vector_get(as_vector* vector, uint32_t index)
 static inline void*
 as_vector_get_ptr(as_vector* vector, uint32_t index)
 {
-	return *(void**) ((uint8_t *)vector->list + (vector->item_size * index));
+	return *(void**) ((uint8_t *)vector->list + ((size_t)vector->item_size * index));
 }
 
 /**
@@ -135,7 +135,7 @@ as_vector_increase_capacity(as_vector* vector);
 static inline void
 as_vector_set(as_vector* vector, uint32_t index, void* value)
 {
-	memcpy((uint8_t *)vector->list + (index * vector->item_size), value, vector->item_size);
+	memcpy((uint8_t *)vector->list + ((size_t)index * vector->item_size), value, vector->item_size);
 }
 
 /**
@@ -147,7 +147,7 @@ as_vector_append(as_vector* vector, void* value)
 	if (vector->size >= vector->capacity) {
 		as_vector_increase_capacity(vector);
 	}
-	memcpy((uint8_t *)vector->list + (vector->size * vector->item_size), value, vector->item_size);
+	memcpy((uint8_t *)vector->list + ((size_t)vector->size * vector->item_size), value, vector->item_size);
 	vector->size++;
 }
 
@@ -173,7 +173,7 @@ as_vector_reserve(as_vector* vector)
 	if (vector->size >= vector->capacity) {
 		as_vector_increase_capacity(vector);
 	}
-	void* item = (uint8_t *)vector->list + (vector->size * vector->item_size);
+	void* item = (uint8_t *)vector->list + ((size_t)vector->size * vector->item_size);
 	memset(item, 0, vector->item_size);
 	vector->size++;
 	return item;
diff --git a/src/main/aerospike/as_queue.c b/src/main/aerospike/as_queue.c
index 46f9f98..65b8a45 100644
--- a/src/main/aerospike/as_queue.c
+++ b/src/main/aerospike/as_queue.c
@@ -43,17 +43,17 @@ as_queue_unwrap(as_queue* queue)
 static bool
 as_queue_copy(as_queue* queue, uint32_t new_capacity, bool free_old)
 {
-	uint8_t* tmp = cf_malloc(new_capacity * queue->item_size);
+	uint8_t* tmp = cf_malloc((size_t)new_capacity * queue->item_size);
 	
 	if (! tmp) {
 		return false;
 	}
 	
 	// end_sz is used bytes in old queue from insert point to end.
-	size_t end_sz = (queue->capacity - (queue->head % queue->capacity)) * queue->item_size;
+	size_t end_sz = (size_t)(queue->capacity - (queue->head % queue->capacity)) * queue->item_size;
 	
 	memcpy(tmp, as_queue_get(queue, queue->head), end_sz);
-	memcpy(&tmp[end_sz], queue->data, (queue->capacity * queue->item_size) - end_sz);
+	memcpy(&tmp[end_sz], queue->data, ((size_t)queue->capacity * queue->item_size) - end_sz);
 	
 	if (free_old) {
 		cf_free(queue->data);
@@ -75,7 +75,7 @@ as_queue_increase_capacity(as_queue* queue)
 		// Check for The rare case where the queue is not fragmented, and realloc makes sense
 		// and none of the offsets need to move.
 		if (queue->head % queue->capacity == 0) {
-			uint8_t* tmp = cf_realloc(queue->data, new_capacity * queue->item_size);
+			uint8_t* tmp = cf_realloc(queue->data, (size_t)new_capacity * queue->item_size);
 			
 			if (! tmp) {
 				return false;
@@ -106,7 +106,7 @@ as_queue_increase_capacity(as_queue* queue)
 bool
 as_queue_init(as_queue* queue, uint32_t item_size, uint32_t capacity)
 {
-	queue->data = cf_malloc(capacity * item_size);
+	queue->data = cf_malloc((size_t)capacity * item_size);
 	
 	if (! queue->data) {
 		return false;
diff --git a/src/main/aerospike/as_vector.c b/src/main/aerospike/as_vector.c
index 45ce95d..9ceab39 100644
--- a/src/main/aerospike/as_vector.c
+++ b/src/main/aerospike/as_vector.c
@@ -23,7 +23,7 @@
 void
 as_vector_init(as_vector* vector, uint32_t item_size, uint32_t capacity)
 {
-	vector->list = cf_malloc(capacity * item_size);
+	vector->list = cf_malloc((size_t)capacity * item_size);
 	vector->capacity = capacity;
 	vector->item_size = item_size;
 	vector->size = 0;
@@ -66,12 +66,12 @@ as_vector_increase_capacity(as_vector* vector)
 {
 	if (vector->flags & FLAGS_HEAP) {
 		vector->capacity *= 2;
-		vector->list = cf_realloc(vector->list, vector->capacity * vector->item_size);
+		vector->list = cf_realloc(vector->list, (size_t)vector->capacity * vector->item_size);
 	}
 	else {
 		uint32_t capacity = vector->capacity * 2;
-		void* tmp = cf_malloc(capacity * vector->item_size);
-		memcpy(tmp, vector->list, vector->capacity * vector->item_size);
+		void* tmp = cf_malloc((size_t)capacity * vector->item_size);
+		memcpy(tmp, vector->list, (size_t)vector->capacity * vector->item_size);
 		vector->list = tmp;
 		vector->capacity = capacity;
 		vector->flags |= FLAGS_HEAP;
@@ -95,7 +95,7 @@ as_vector_append_unique(as_vector* vector, void* value)
 void*
 as_vector_to_array(as_vector* vector, uint32_t* size)
 {
-	size_t len = vector->size * vector->item_size;
+	size_t len = (size_t)vector->size * vector->item_size;
 	void* array = cf_malloc(len);
 
 	if (! array) {
@@ -115,9 +115,9 @@ as_vector_remove(as_vector* vector, uint32_t index)
 		return false;
 	}
 
-	memmove((uint8_t*)vector->list + (index * vector->item_size),
-		    (uint8_t*)vector->list + ((index + 1) * vector->item_size),
-		    (vector->size - index - 1) * vector->item_size);
+	memmove((uint8_t*)vector->list + ((size_t)index * vector->item_size),
+		    (uint8_t*)vector->list + ((size_t)(index + 1) * vector->item_size),
+		    (size_t)(vector->size - index - 1) * vector->item_size);
 
 	vector->size--;
 	return true;
-- 
2.43.0


From e9bea27cd43066c2c93dad6c598b0c9ee482757d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:23:55 +0000
Subject: [PATCH 62/63] fix: as_string_builder refuses text that exceeds its 32
 bit length instead of writing past the buffer

---
 src/main/aerospike/as_string_builder.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/main/aerospike/as_string_builder.c b/src/main/aerospike/as_string_builder.c
index a2d0790..d42b814 100644
--- a/src/main/aerospike/as_string_builder.c
+++ b/src/main/aerospike/as_string_builder.c
@@ -53,12 +53,17 @@ as_string_builder_destroy(as_string_builder* sb)
 }
 
 static bool
-as_sb_increase_capacity(as_string_builder* sb, uint32_t min_capacity)
+as_sb_increase_capacity(as_string_builder* sb, uint64_t min_capacity)
 {
+	if (min_capacity > UINT32_MAX) {
+		// Capacity and length are 32 bit values.
+		return false;
+	}
+
 	uint32_t capacity = sb->capacity * 2;
 
 	if (capacity < min_capacity) {
-		capacity = min_capacity;
+		capacity = (uint32_t)min_capacity;
 	}
 
 	if (sb->free) {
@@ -90,8 +95,8 @@ as_sb_increase_capacity(as_string_builder* sb, uint32_t min_capacity)
 static bool
 as_sb_expand(as_string_builder* sb, const char* src)
 {
-	uint32_t remaining_len = (uint32_t)strlen(src);
-	uint32_t min_capacity = sb->length + remaining_len + 1;
+	size_t remaining_len = strlen(src);
+	uint64_t min_capacity = (uint64_t)sb->length + remaining_len + 1;
 
 	if (! as_sb_increase_capacity(sb, min_capacity)) {
 		sb->data[sb->length] = 0;
@@ -99,7 +104,7 @@ as_sb_expand(as_string_builder* sb, const char* src)
 	}
 
 	memcpy(&sb->data[sb->length], src, remaining_len);
-	sb->length += remaining_len;
+	sb->length += (uint32_t)remaining_len;
 	sb->data[sb->length] = 0;
 	return true;
 }
@@ -160,7 +165,7 @@ as_sb_append_char(as_string_builder* sb, char value)
 static bool
 as_sb_append_byte(as_string_builder* sb, uint8_t b)
 {
-	if (sb->length + 3 < sb->capacity) {
+	if (sb->capacity - sb->length > 3) {
 		sb->data[sb->length++] = as_hex_chars[(b >> 4) & 0xf];
 		sb->data[sb->length++] = as_hex_chars[b & 0xf];
 		sb->data[sb->length++] = ' ';
@@ -177,7 +182,7 @@ as_string_builder_append_bytes(as_string_builder* sb, uint8_t* src, uint32_t siz
 		// Ensure buffer is large enough to receive bytes.
 		// min capacity = old length + 3 chars per byte including separator + 2 bracket chars
 		// - 1 extra separator + 1 null byte.
-		uint32_t min_capacity = sb->length + (size > 0 ? (size * 3) + 2 : 3);
+		uint64_t min_capacity = (uint64_t)sb->length + (size > 0 ? ((uint64_t)size * 3) + 2 : 3);
 
 		if (min_capacity > sb->capacity) {
 			if (! as_sb_increase_capacity(sb, min_capacity)) {
@@ -200,7 +205,7 @@ as_string_builder_append_bytes(as_string_builder* sb, uint8_t* src, uint32_t siz
 		}
 		*trg++ = ']';
 		*trg = 0;
-		sb->length = (int)(trg - sb->data);
+		sb->length = (uint32_t)(trg - sb->data);
 	}
 	else {
 		if (! as_sb_append_char(sb, '[')) {
-- 
2.43.0


From e8376b9e6cbf994b64dded0ba3e22ef5061a9092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:27:55 +0000
Subject: [PATCH 63/63] fix: as_password_prompt does not look before the buffer
 when the typed text starts with a zero byte

---
 src/main/aerospike/as_password.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_password.c b/src/main/aerospike/as_password.c
index be53dc2..e093b94 100644
--- a/src/main/aerospike/as_password.c
+++ b/src/main/aerospike/as_password.c
@@ -117,7 +117,7 @@ as_password_prompt(char* password, int size)
 	if (s) {
 		int len = (int)strlen(password);
 
-		if (password[len - 1] == '\n') {
+		if (len > 0 && password[len - 1] == '\n') {
 			password[--len] = 0;
 		}
 	}
-- 
2.43.0

