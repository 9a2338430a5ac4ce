From 3eb1e88ac9fae27dd946d4e5242099d2565130f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:07 +0000
Subject: [PATCH 01/19] fix: strview_split_line() modified the source when no
 line ending was found

With *eol holding the first half of a line ending and a source starting with
the other half, the character was removed from the source although no line
was returned and *eol was left unchanged, so that the next call ignored
another character (losing an empty line).
---
 strview.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/strview.c b/strview.c
index 4edea19..9540fcb 100644
--- a/strview.c
+++ b/strview.c
@@ -325,11 +325,8 @@ strview_t strview_split_line(strview_t* strview_ptr, char* eol)
 				*eol = e;
 			*strview_ptr = src;
 		}
-		else	//a line ending was not found, restore the source, and return an invalid strview_t
-		{
-			*strview_ptr = result;
+		else	//a line ending was not found, leave the source unmodified, and return an invalid strview_t
 			result = STRVIEW_INVALID;
-		};
 	};
 	return result;
 }
-- 
2.43.0


From 91157b87eb3afb7174108d930ca3cbd103b7b4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:08 +0000
Subject: [PATCH 02/19] fix: strview_is_match() matched an invalid view with a
 valid empty one

The documentation states that it returns false if only one of the views is
invalid (this also covers the nocase and C string forms).
---
 strview.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/strview.c b/strview.c
index 9540fcb..0a85f7d 100644
--- a/strview.c
+++ b/strview.c
@@ -65,7 +65,8 @@ void strview_swap(strview_t* a, strview_t* b)
 
 bool strview_is_match_strview(strview_t str1, strview_t str2)
 {
-	return (str1.size == str2.size) && (str1.data == str2.data || !memcmp(str1.data, str2.data, str1.size));
+	return (str1.size == str2.size) && (strview_is_valid(str1) == strview_is_valid(str2))
+		&& (str1.data == str2.data || !memcmp(str1.data, str2.data, str1.size));
 }
 
 bool strview_is_match_cstr(strview_t str1, const char* str2)
@@ -75,7 +76,8 @@ bool strview_is_match_cstr(strview_t str1, const char* str2)
 
 bool strview_is_match_nocase_strview(strview_t str1, strview_t str2)
 {
-	return (str1.size == str2.size) && (str1.data == str2.data || !memcmp_nocase(str1.data, str2.data, str1.size));
+	return (str1.size == str2.size) && (strview_is_valid(str1) == strview_is_valid(str2))
+		&& (str1.data == str2.data || !memcmp_nocase(str1.data, str2.data, str1.size));
 }
 
 bool strview_is_match_nocase_cstr(strview_t str1, const char* str2)
-- 
2.43.0


From bca080d1eeae5e349c34f2423ba5dd9acaff0238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:10 +0000
Subject: [PATCH 03/19] fix: strview_dequote() removed any repeated outer
 character

strview_dequote(cstr("anna")) returned "nn": whatever the first character was,
it was taken for a quote. Only ' and " are quotes.
---
 strview.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strview.c b/strview.c
index 0a85f7d..c0d9012 100644
--- a/strview.c
+++ b/strview.c
@@ -507,11 +507,11 @@ static strview_t split_index(strview_t* strview_ptr, int index)
 strview_t strview_dequote(strview_t src)
 {
 	strview_t result = src;
-	char quote_char;
+	char quote_char = 0;
 
-	if(result.size > 1)
+	if(result.size > 1 && (result.data[0] == '\"' || result.data[0] == '\''))
 		quote_char = result.data[0];
-	while( 	(result.size > 1)
+	while( 	(quote_char && result.size > 1)
 	 && 	(result.data[0] == quote_char)
 	 && 	(result.data[result.size-1] == quote_char) )
 		result = strview_sub(result, 1, -1);
-- 
2.43.0


From 46390760051a5498842ff85aa0ba2c9d2d3c85c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:25 +0000
Subject: [PATCH 04/19] fix: bytes 0xB0 and 0xB1 were accepted as binary digits

---
 strnum.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strnum.c b/strnum.c
index 3a5fc3b..15bed02 100644
--- a/strnum.c
+++ b/strnum.c
@@ -887,7 +887,7 @@ static int xdigit_value(char c)
 
 static bool isbdigit(char c)
 {
-	return (c & 0x7E) == 0x30;
+	return c == '0' || c == '1';
 }
 
 static strview_t split_digits(strview_t* src)
-- 
2.43.0


From 1a18ac4b6c4790fd7426a9209894541f159b7cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:27 +0000
Subject: [PATCH 05/19] fix: "infinity" was only consumed up to "inf"

The word was misspelled, so "inity" was left in the source.
---
 strnum.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strnum.c b/strnum.c
index 15bed02..d7d46ae 100644
--- a/strnum.c
+++ b/strnum.c
@@ -514,7 +514,7 @@ static int process_float_components(float_components_t* fc)
 static float consume_float_special(float_components_t* fc)
 {
 	float value = 0.0;
-	if(strview_starts_with_nocase(fc->num, "infinty"))
+	if(strview_starts_with_nocase(fc->num, "infinity"))
 	{
 		value = INFINITY;
 		fc->num = strview_sub(fc->num, strlen("infinity"), INT_MAX);
-- 
2.43.0


From 198682f0661044fdcdaf03a27ca1c234164b20dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:54 +0000
Subject: [PATCH 06/19] fix: float conversion of long integral parts

An integral part of more than two chunks of digits had its leading chunks
multiplied by the weight of every following chunk, eg. a 1 followed by 44
zeros converted to 1e49.
---
 strnum.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strnum.c b/strnum.c
index d7d46ae..20e8ed6 100644
--- a/strnum.c
+++ b/strnum.c
@@ -554,8 +554,8 @@ static int consume_exponent(float_components_t* fc)
 	while(integral_digits.size)													\
 	{																			\
 		consume_decimal_digits(&ull, &integral_digits);							\
-		result += (typ)ull;														\
-		result *= powfunc(10, integral_digits.size);							\
+		if(ull)																	\
+			result += (typ)ull * powfunc(10, integral_digits.size);				\
 	};																			\
 	fractional_digits = strview_trim_end(fractional_digits, "0");				\
 	while(fractional_digits.size)												\
-- 
2.43.0


From bc675ba1791e21a38d2737907d200e88ebfad246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:56 +0000
Subject: [PATCH 07/19] fix: float conversion of 0 with a large exponent
 produced NaN

0e400 evaluated 0*INFINITY, and an infinite result was multiplied by 0 for a
large negative exponent, so NaN was stored without an error.
---
 strnum.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strnum.c b/strnum.c
index 20e8ed6..a1d4522 100644
--- a/strnum.c
+++ b/strnum.c
@@ -567,7 +567,8 @@ static int consume_exponent(float_components_t* fc)
 		fractional_part *= powfunc(10, fractional_power);						\
 		result += fractional_part;												\
 	};																			\
-	result *= powfunc(10, exp_value);											\
+	if(result && result != INFINITY)											\
+		result *= powfunc(10, exp_value);										\
 	return result;
 
 static float make_float(strview_t integral_digits, strview_t fractional_digits, int exp_value)
-- 
2.43.0


From 3e3e4f6b6bf860689f7fbccd963072a391865856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:58 +0000
Subject: [PATCH 08/19] fix: strnum_consume_float() dereferenced a NULL source

The double and long double versions return EINVAL.
---
 strnum.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/strnum.c b/strnum.c
index a1d4522..19dd763 100644
--- a/strnum.c
+++ b/strnum.c
@@ -321,10 +321,9 @@ int strnum_consume_float(float* dst, strview_t* src, int options)
 	};
 
 	if(src)
-	{
 		fc.num = *src;
-		err = process_float_components(&fc);
-	};
+
+	err = process_float_components(&fc);
 
 	// calculate/determine output value
 	if(!err && fc.special_value)
-- 
2.43.0


From 47557dc32c324a93546e73b09039c0cdf0c51dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:00 +0000
Subject: [PATCH 09/19] fix: strnum_value() did not compile with STRNUM_NOFLOAT

Trailing comma in the _Generic association list.
---
 strnum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strnum.h b/strnum.h
index 6c12da4..b92a97b 100644
--- a/strnum.h
+++ b/strnum.h
@@ -115,7 +115,7 @@
 		short*:					strnum_consume_short,\
 		int*:					strnum_consume_int,\
 		long*:					strnum_consume_long,\
-		long long*:				strnum_consume_llong,\
+		long long*:				strnum_consume_llong\
 		)(dst, src, opt)
 	#endif
 
-- 
2.43.0


From 8aefacce3d8412f5392d318bdd3c94fe128d1ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:21 +0000
Subject: [PATCH 10/19] fix: strbuf_strip() with stripchars viewing the
 destination buffer

The characters to strip were read from the buffer while it was being modified,
so stripping the "ab" of "abcabc" gave "" instead of "cc".
---
 strbuf.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/strbuf.c b/strbuf.c
index ebce1da..9238ffd 100644
--- a/strbuf.c
+++ b/strbuf.c
@@ -525,10 +525,23 @@ strview_t strbuf_strip_strview(strbuf_t** buf_ptr, strview_t stripchars)
 	strbuf_t* buf;
 	char* ptr;
 	int count;
+	char unique_chars[UCHAR_MAX+1];
+	int unique_count = 0;
 
 	if(buf_ptr && *buf_ptr && strview_is_valid(stripchars))
 	{
 		buf = *buf_ptr;
+
+		//stripchars may be within the buffer, so it must be copied before the buffer is modified
+		while(stripchars.size)
+		{
+			if(!view_contains_char((strview_t){.data=unique_chars, .size=unique_count}, *stripchars.data))
+				unique_chars[unique_count++] = *stripchars.data;
+			stripchars.data++;
+			stripchars.size--;
+		};
+		stripchars = (strview_t){.data=unique_chars, .size=unique_count};
+
 		count = buf->size;
 		ptr = buf->cstr;
 		while(count)
-- 
2.43.0


From 03363f0fe87ec5b9e5378212c7087a5eca617022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:23 +0000
Subject: [PATCH 11/19] fix: strbuf_append_vprintf() with an error returned by
 vsnprintf

A negative result (eg. an encoding error) shrunk the buffer, and could make its
size negative. Treat it as a failure, which empties the buffer.
---
 strbuf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strbuf.c b/strbuf.c
index 9238ffd..16de85c 100644
--- a/strbuf.c
+++ b/strbuf.c
@@ -211,7 +211,7 @@ strview_t strbuf_append_vprintf(strbuf_t** buf_ptr, const char* format, va_list
 		size = buf->size;
 		append_size = vsnprintf(NULL, 0, format, va);
 
-		failed = add_will_overflow_int(size, append_size);
+		failed = append_size < 0 || add_will_overflow_int(size, append_size);
 		if(!failed)
 		{
 			size += append_size;
-- 
2.43.0


From 4f5ad6dcb88033c4ed01b3d70160de64b0098a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:24 +0000
Subject: [PATCH 12/19] fix: undefined signed overflow when testing for size
 overflow

add_will_overflow_int() relied on signed overflow wrapping around, as did
buffer_vcat() after detecting an overflow.
---
 strbuf.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/strbuf.c b/strbuf.c
index 16de85c..33497a7 100644
--- a/strbuf.c
+++ b/strbuf.c
@@ -612,7 +612,8 @@ static strview_t buffer_vcat(strbuf_t** buf_ptr, int n_args, va_list va)
 	{
 		str = va_arg(va, strview_t);
 		failed |= add_will_overflow_int(size_needed, str.size);
-		size_needed += str.size;
+		if(!failed)
+			size_needed += str.size;
 		tmp_buf_needed |= buf_contains_str(dst_buf, str);
 	};
 
@@ -803,9 +804,7 @@ static void empty_buf(strbuf_t* buf)
 
 static bool add_will_overflow_int(int a, int b)
 {
-	int c = a;
-	c += b;
-	return ((a < 0) == (b < 0) && (a < 0) != (c < 0));
+	return b < 0 ? a < INT_MIN - b : a > INT_MAX - b;
 }
 
 static bool view_contains_char(strview_t view, char c)
-- 
2.43.0


From 044d43e315c21a05868c4b96c7661af16cf4f5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:03 +0000
Subject: [PATCH 13/19] fix: strbuf_encrypt() and strbuf_decrypt() always
 returned an invalid view

---
 accessories/strbuf_crypt/strbuf_crypt.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/accessories/strbuf_crypt/strbuf_crypt.c b/accessories/strbuf_crypt/strbuf_crypt.c
index 1886074..495fa25 100644
--- a/accessories/strbuf_crypt/strbuf_crypt.c
+++ b/accessories/strbuf_crypt/strbuf_crypt.c
@@ -70,11 +70,13 @@ static strview_t strbuf_crypt(encdec_fptr_t fptr, strbuf_t** buf_ptr, uint8_t ke
 			buf->size = fptr((uint8_t*)buf->cstr, buf->size, key, ivec, ctx_ptr);
 			buf->allocator.allocator(&buf->allocator, ctx_ptr, 0);
 			buf->cstr[buf->size] = 0;
+			retval = strbuf_view(&buf);
 		}
 		else if(buf->capacity >= cypher_size(buf->size))
 		{
 			buf->size = encdec_with_ctx_on_stack(fptr, (uint8_t*)buf->cstr, buf->size, key, ivec);
 			buf->cstr[buf->size] = 0;
+			retval = strbuf_view(&buf);
 		};
 		*buf_ptr = buf;	
 	};
-- 
2.43.0


From 47ca096b8edeab2f0d2406cfbc4cd8c783ba9e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:04 +0000
Subject: [PATCH 14/19] fix: strbuf_decrypt() needed spare capacity

A fixed buffer exactly filled with encrypted data was silently left encrypted,
although decryption only ever shrinks the content.
---
 accessories/strbuf_crypt/strbuf_crypt.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/accessories/strbuf_crypt/strbuf_crypt.c b/accessories/strbuf_crypt/strbuf_crypt.c
index 495fa25..598adef 100644
--- a/accessories/strbuf_crypt/strbuf_crypt.c
+++ b/accessories/strbuf_crypt/strbuf_crypt.c
@@ -59,20 +59,22 @@ static strview_t strbuf_crypt(encdec_fptr_t fptr, strbuf_t** buf_ptr, uint8_t ke
 	strview_t retval = STRVIEW_INVALID;
 	aes256_ctx_t* ctx_ptr;
 	strbuf_t* buf;
+	int capacity_needed;
 
 	if(buf_ptr && *buf_ptr)
 	{
 		buf = *buf_ptr;
+		capacity_needed = fptr == enc256cbc ? cypher_size(buf->size) : buf->size;	//only encryption needs space for padding
 		if(buf->allocator.allocator)
 		{
-			strbuf_grow(&buf, cypher_size(buf->size));
+			strbuf_grow(&buf, capacity_needed);
 			ctx_ptr = buf->allocator.allocator(&buf->allocator, NULL, sizeof(*ctx_ptr));
 			buf->size = fptr((uint8_t*)buf->cstr, buf->size, key, ivec, ctx_ptr);
 			buf->allocator.allocator(&buf->allocator, ctx_ptr, 0);
 			buf->cstr[buf->size] = 0;
 			retval = strbuf_view(&buf);
 		}
-		else if(buf->capacity >= cypher_size(buf->size))
+		else if(buf->capacity >= capacity_needed)
 		{
 			buf->size = encdec_with_ctx_on_stack(fptr, (uint8_t*)buf->cstr, buf->size, key, ivec);
 			buf->cstr[buf->size] = 0;
-- 
2.43.0


From a242f4be5ee0be26a0e4c57c0bb320bc513db00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:05 +0000
Subject: [PATCH 15/19] fix: strbuf_decrypt() corrupted memory when given
 malformed data

An empty buffer, a size which is not a multiple of the block size, or bad
padding (eg. a wrong key) resulted in a read before the buffer, and a size
which could be negative. The buffer is now emptied, and an invalid view returned.
---
 accessories/strbuf_crypt/strbuf_crypt.c | 36 +++++++++++++++++++------
 accessories/strbuf_crypt/strbuf_crypt.h |  2 +-
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/accessories/strbuf_crypt/strbuf_crypt.c b/accessories/strbuf_crypt/strbuf_crypt.c
index 598adef..6c3e2a4 100644
--- a/accessories/strbuf_crypt/strbuf_crypt.c
+++ b/accessories/strbuf_crypt/strbuf_crypt.c
@@ -33,6 +33,7 @@
 	static int enc256cbc(uint8_t *buf, int len, uint8_t key[32], uint8_t ivec[16], aes256_ctx_t* ctx);
 	static int dec256cbc(uint8_t *buf, int len, uint8_t key[32], uint8_t ivec[16], aes256_ctx_t* ctx);
 	static int cypher_size(int content_size);
+	static strview_t resize_buf(strbuf_t* buf, int new_size);
 	static int encdec_with_ctx_on_stack(encdec_fptr_t fptr, uint8_t *buf, int len, uint8_t key[32], uint8_t ivec[16]);
 	static strview_t strbuf_crypt(encdec_fptr_t fptr, strbuf_t** buf_ptr, uint8_t key[32], uint8_t ivec[16]);
 
@@ -60,6 +61,7 @@ static strview_t strbuf_crypt(encdec_fptr_t fptr, strbuf_t** buf_ptr, uint8_t ke
 	aes256_ctx_t* ctx_ptr;
 	strbuf_t* buf;
 	int capacity_needed;
+	int new_size;
 
 	if(buf_ptr && *buf_ptr)
 	{
@@ -69,16 +71,14 @@ static strview_t strbuf_crypt(encdec_fptr_t fptr, strbuf_t** buf_ptr, uint8_t ke
 		{
 			strbuf_grow(&buf, capacity_needed);
 			ctx_ptr = buf->allocator.allocator(&buf->allocator, NULL, sizeof(*ctx_ptr));
-			buf->size = fptr((uint8_t*)buf->cstr, buf->size, key, ivec, ctx_ptr);
+			new_size = fptr((uint8_t*)buf->cstr, buf->size, key, ivec, ctx_ptr);
 			buf->allocator.allocator(&buf->allocator, ctx_ptr, 0);
-			buf->cstr[buf->size] = 0;
-			retval = strbuf_view(&buf);
+			retval = resize_buf(buf, new_size);
 		}
 		else if(buf->capacity >= capacity_needed)
 		{
-			buf->size = encdec_with_ctx_on_stack(fptr, (uint8_t*)buf->cstr, buf->size, key, ivec);
-			buf->cstr[buf->size] = 0;
-			retval = strbuf_view(&buf);
+			new_size = encdec_with_ctx_on_stack(fptr, (uint8_t*)buf->cstr, buf->size, key, ivec);
+			retval = resize_buf(buf, new_size);
 		};
 		*buf_ptr = buf;	
 	};
@@ -86,6 +86,14 @@ static strview_t strbuf_crypt(encdec_fptr_t fptr, strbuf_t** buf_ptr, uint8_t ke
 	return retval;
 }
 
+// apply the size of the output, or empty the buffer and return an invalid view if new_size < 0
+static strview_t resize_buf(strbuf_t* buf, int new_size)
+{
+	buf->size = new_size < 0 ? 0:new_size;
+	buf->cstr[buf->size] = 0;
+	return new_size < 0 ? STRVIEW_INVALID : strbuf_view(&buf);
+}
+
 static int encdec_with_ctx_on_stack(encdec_fptr_t fptr, uint8_t *buf, int len, uint8_t key[32], uint8_t ivec[16])
 {
 	aes256_ctx_t ctx;
@@ -116,18 +124,22 @@ static int enc256cbc(uint8_t *buf, int len, uint8_t key[32], uint8_t ivec[16], a
 }
 
 // decrypt buf, using 256bit key and 128bit init vector.
-// len must be a multiple of 16
-// returns the size of the decoded output in bytes
+// returns the size of the decoded output in bytes, or -1 if buf is not a valid encoding:
+// len must be a multiple of 16 and not 0, and the last block must end with valid padding
 static int dec256cbc(uint8_t *buf, int len, uint8_t key[32], uint8_t ivec[16], aes256_ctx_t* ctx)
 {
 	int block_count = len/AES_BLOCK_SIZE;
 	int out_len;
 	int pad_len;
+	int pad_count;
 	uint8_t buf1[AES_BLOCK_SIZE];
 	uint8_t buf2[AES_BLOCK_SIZE];
 	uint8_t (*this_xor)[AES_BLOCK_SIZE] = &buf1;
 	uint8_t (*next_xor)[AES_BLOCK_SIZE] = &buf2;
 
+	if(len == 0 || len % AES_BLOCK_SIZE)
+		return -1;
+
 	aes256_init(key, ctx);
 	memcpy(this_xor, ivec, AES_BLOCK_SIZE);
 	while(block_count--)
@@ -142,6 +154,14 @@ static int dec256cbc(uint8_t *buf, int len, uint8_t key[32], uint8_t ivec[16], a
 	pad_len = buf[-1];
 	out_len = len - pad_len;
 
+	if(pad_len == 0 || pad_len > AES_BLOCK_SIZE)
+		return -1;
+	for(pad_count = 1; pad_count <= pad_len; pad_count++)
+	{
+		if(buf[-pad_count] != pad_len)
+			return -1;
+	};
+
 	return out_len;
 }
 
diff --git a/accessories/strbuf_crypt/strbuf_crypt.h b/accessories/strbuf_crypt/strbuf_crypt.h
index 3e3363c..0994e1f 100644
--- a/accessories/strbuf_crypt/strbuf_crypt.h
+++ b/accessories/strbuf_crypt/strbuf_crypt.h
@@ -32,7 +32,7 @@
 /**
  * @brief Decrypt the contents of the buffer with AES256 CBC and PKCS#7 padding
  * @param buf_ptr The address of a pointer to the buffer.
- * @return A view of the decrypted buffer.
+ * @return A view of the decrypted buffer, or an invalid view if the contents could not be decrypted (the buffer is then emptied).
  * @note For static buffers, the AES context of 240 bytes will be allcoated on the stack.
  * @note For dynamic buffer, the buffers own allocator will be used to create the 240byte AES context.
     **********************************************************************************/
-- 
2.43.0


From 7da3d521c4f94817552ae92efd12f6498e45c28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:57 +0000
Subject: [PATCH 16/19] fix: float conversion lost in-range values when a
 partial result was out of range

---
 strnum.c | 60 +++++++++++++++++++++++++++++++-------------------------
 1 file changed, 33 insertions(+), 27 deletions(-)

diff --git a/strnum.c b/strnum.c
index 19dd763..a48ae7d 100644
--- a/strnum.c
+++ b/strnum.c
@@ -2,6 +2,7 @@
 */
 
 	#ifndef STRNUM_NOFLOAT
+		#include <float.h>
 		#include <math.h>
 	#endif
 	#include <limits.h>
@@ -545,44 +546,49 @@ static int consume_exponent(float_components_t* fc)
 	return err;
 }
 
-#define make_float_type(typ, powfunc)											\
-	typ result = 0.0;															\
-	typ fractional_part;														\
-	unsigned long long ull;														\
-	int fractional_power = 0;													\
-	while(integral_digits.size)													\
-	{																			\
-		consume_decimal_digits(&ull, &integral_digits);							\
-		if(ull)																	\
-			result += (typ)ull * powfunc(10, integral_digits.size);				\
-	};																			\
-	fractional_digits = strview_trim_end(fractional_digits, "0");				\
-	while(fractional_digits.size)												\
-	{																			\
-		fractional_power -= fractional_digits.size;								\
-		consume_decimal_digits(&ull, &fractional_digits);						\
-		fractional_power += fractional_digits.size;								\
-		fractional_part = (typ)ull;												\
-		fractional_part *= powfunc(10, fractional_power);						\
-		result += fractional_part;												\
-	};																			\
-	if(result && result != INFINITY)											\
-		result *= powfunc(10, exp_value);										\
-	return result;
+//	The exponent is applied to each group of digits (and not to their sum), so that no intermediate value is out of range unless the result is.
+//	A power of 10 which may not be a normal number is applied in two steps.
+	#define make_float_type(typ, powfunc, min_10_exp)								\
+		typ result = 0.0;															\
+		unsigned long long ull;														\
+		long long power = exp_value;												\
+		while(integral_digits.size)													\
+		{																			\
+			consume_decimal_digits(&ull, &integral_digits);							\
+			power = (long long)exp_value + integral_digits.size;					\
+			if(ull)																	\
+				result += scale_digits(typ, powfunc, min_10_exp);					\
+		};																			\
+		power = exp_value;															\
+		fractional_digits = strview_trim_end(fractional_digits, "0");				\
+		while(fractional_digits.size)												\
+		{																			\
+			power -= fractional_digits.size;										\
+			consume_decimal_digits(&ull, &fractional_digits);						\
+			power += fractional_digits.size;										\
+			if(ull)																	\
+				result += scale_digits(typ, powfunc, min_10_exp);					\
+		};																			\
+		return result;
+
+	#define scale_digits(typ, powfunc, min_10_exp)									\
+		(power < min_10_exp ?														\
+			(typ)ull * powfunc(10, min_10_exp) * powfunc(10, power - min_10_exp)	\
+		:	(typ)ull * powfunc(10, power))
 
 static float make_float(strview_t integral_digits, strview_t fractional_digits, int exp_value)
 {
-	make_float_type(float, powf)
+	make_float_type(float, powf, FLT_MIN_10_EXP)
 }
 
 static double make_double(strview_t integral_digits, strview_t fractional_digits, int exp_value)
 {
-	make_float_type(double, pow)
+	make_float_type(double, pow, DBL_MIN_10_EXP)
 }
 
 static long double make_ldouble(strview_t integral_digits, strview_t fractional_digits, int exp_value)
 {
-	make_float_type(long double, powl)
+	make_float_type(long double, powl, LDBL_MIN_10_EXP)
 }
 
 #endif
-- 
2.43.0


From 5f3136b48eaf0430f100f3c410da84b462159e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:22 +0000
Subject: [PATCH 17/19] fix: strbuf_printf() lost characters when the capacity
 is INT_MAX

---
 strbuf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strbuf.c b/strbuf.c
index 33497a7..9dc4563 100644
--- a/strbuf.c
+++ b/strbuf.c
@@ -222,7 +222,7 @@ strview_t strbuf_append_vprintf(strbuf_t** buf_ptr, const char* format, va_list
 		};
 
 		if(!failed)
-			buf->size += vsnprintf(&buf->cstr[buf->size], buf->capacity - buf->size + 1, format, vb);
+			buf->size += vsnprintf(&buf->cstr[buf->size], (size_t)(buf->capacity - buf->size) + 1, format, vb);
 		else
 			empty_buf(buf);
 
-- 
2.43.0


From 24f784348a1c7e6e1029d733dc4b8228f0da770b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:23 +0000
Subject: [PATCH 18/19] fix: strbuf_encrypt() overflowed when the padded size
 exceeds INT_MAX

---
 accessories/strbuf_crypt/strbuf_crypt.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/accessories/strbuf_crypt/strbuf_crypt.c b/accessories/strbuf_crypt/strbuf_crypt.c
index 6c3e2a4..89042cb 100644
--- a/accessories/strbuf_crypt/strbuf_crypt.c
+++ b/accessories/strbuf_crypt/strbuf_crypt.c
@@ -4,6 +4,7 @@
 	https://www.javainuse.com/aesgenerator
 	https://en.wikipedia.org/wiki/Block_cipher_mode_of_operation#Cipher_block_chaining_(CBC)
 */
+	#include <limits.h>
 	#include <stdint.h>
 
 	#include "strbuf.h"
@@ -66,6 +67,9 @@ static strview_t strbuf_crypt(encdec_fptr_t fptr, strbuf_t** buf_ptr, uint8_t ke
 	if(buf_ptr && *buf_ptr)
 	{
 		buf = *buf_ptr;
+		if(fptr == enc256cbc && buf->size > INT_MAX - AES_BLOCK_SIZE)
+			return STRVIEW_INVALID;		//the padded size doesn't fit an int
+
 		capacity_needed = fptr == enc256cbc ? cypher_size(buf->size) : buf->size;	//only encryption needs space for padding
 		if(buf->allocator.allocator)
 		{
-- 
2.43.0


From ff980ac2ea6aa7b8314860755604dbe6619ac386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:11 +0000
Subject: [PATCH 19/19] fix: STRBUF_PACK_LE/BE packed garbage when the operand
 is a variable called tmp

---
 accessories/strbuf_pack.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/accessories/strbuf_pack.h b/accessories/strbuf_pack.h
index 8e9f16b..ea14a68 100644
--- a/accessories/strbuf_pack.h
+++ b/accessories/strbuf_pack.h
@@ -16,10 +16,10 @@
 //********************************************************************************************************
 
 //	Pack integer types little endian into buffer
-	#define STRBUF_PACK_LE(dst, src) do {typeof(src) tmp = xendian_pack_LE(src); strbuf_append_strview((dst), (strview_t){.data = (const char*)&tmp, .size=sizeof(tmp)});}while(0)
+	#define STRBUF_PACK_LE(dst, src) do {typeof(src) strbuf_pack_tmp = xendian_pack_LE(src); strbuf_append_strview((dst), (strview_t){.data = (const char*)&strbuf_pack_tmp, .size=sizeof(strbuf_pack_tmp)});}while(0)
 
 //	Pack integer types big endian into buffer
-	#define STRBUF_PACK_BE(dst, src) do {typeof(src) tmp = xendian_pack_BE(src); strbuf_append_strview((dst), (strview_t){.data = (const char*)&tmp, .size=sizeof(tmp)});}while(0)
+	#define STRBUF_PACK_BE(dst, src) do {typeof(src) strbuf_pack_tmp = xendian_pack_BE(src); strbuf_append_strview((dst), (strview_t){.data = (const char*)&strbuf_pack_tmp, .size=sizeof(strbuf_pack_tmp)});}while(0)
 
 //********************************************************************************************************
 // Public prototypes
-- 
2.43.0

