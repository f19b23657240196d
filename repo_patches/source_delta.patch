From 5f9bcc0400068b470646ed775f00be36fd7a0294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:20 +0000
Subject: [PATCH 01/14] fix: wipe HMAC key data and padding in a way the
 compiler cannot optimize away

---
 common/memory.h          | 19 +++++++++++
 libhmac/libhmac_md5.c    | 69 +++++++++++-----------------------------
 libhmac/libhmac_sha1.c   | 69 +++++++++++-----------------------------
 libhmac/libhmac_sha224.c | 69 +++++++++++-----------------------------
 libhmac/libhmac_sha256.c | 69 +++++++++++-----------------------------
 libhmac/libhmac_sha512.c | 69 +++++++++++-----------------------------
 6 files changed, 109 insertions(+), 255 deletions(-)

diff --git a/common/memory.h b/common/memory.h
index 2275bf2..9980051 100644
--- a/common/memory.h
+++ b/common/memory.h
@@ -121,6 +121,25 @@ extern "C" {
 	memset( (void *) buffer, (int) value, count )
 #endif
 
+/* Memory clear
+ * Uses volatile access since a compiler can optimize away a memory_set of a buffer
+ * that is not used afterwards, such as one that is about to be freed
+ */
+#define memory_clear( buffer, size ) \
+	do \
+	{ \
+		volatile unsigned char *memory_clear_data = (volatile unsigned char *) ( buffer ); \
+		size_t memory_clear_size                  = (size_t) ( size ); \
+\
+		while( memory_clear_size > 0 ) \
+		{ \
+			*memory_clear_data++ = 0; \
+\
+			memory_clear_size--; \
+		} \
+	} \
+	while( 0 )
+
 #if defined( __cplusplus )
 }
 #endif
diff --git a/libhmac/libhmac_md5.c b/libhmac/libhmac_md5.c
index 943c28a..d9fb4ec 100644
--- a/libhmac/libhmac_md5.c
+++ b/libhmac/libhmac_md5.c
@@ -614,58 +614,28 @@ int libhmac_md5_calculate_hmac(
 
 		goto on_error;
 	}
-	if( memory_set(
-	     outer_padding,
-	     0,
-	     block_size ) == NULL )
-	{
-		libcerror_error_set(
-		 error,
-		 LIBCERROR_ERROR_DOMAIN_MEMORY,
-		 LIBCERROR_MEMORY_ERROR_SET_FAILED,
-		 "%s: unable to clear outer padding.",
-		 function );
+	memory_clear(
+	 outer_padding,
+	 block_size );
 
-		goto on_error;
-	}
 	memory_free(
 	 outer_padding );
 
 	outer_padding = NULL;
 
-	if( memory_set(
-	     inner_padding,
-	     0,
-	     block_size ) == NULL )
-	{
-		libcerror_error_set(
-		 error,
-		 LIBCERROR_ERROR_DOMAIN_MEMORY,
-		 LIBCERROR_MEMORY_ERROR_SET_FAILED,
-		 "%s: unable to clear inner padding.",
-		 function );
+	memory_clear(
+	 inner_padding,
+	 block_size );
 
-		goto on_error;
-	}
 	memory_free(
 	 inner_padding );
 
 	inner_padding = NULL;
 
-	if( memory_set(
-	     key_data,
-	     0,
-	     block_size ) == NULL )
-	{
-		libcerror_error_set(
-		 error,
-		 LIBCERROR_ERROR_DOMAIN_MEMORY,
-		 LIBCERROR_MEMORY_ERROR_SET_FAILED,
-		 "%s: unable to clear key data.",
-		 function );
+	memory_clear(
+	 key_data,
+	 block_size );
 
-		goto on_error;
-	}
 	memory_free(
 	 key_data );
 
@@ -682,30 +652,27 @@ on_error:
 	}
 	if( outer_padding != NULL )
 	{
-		memory_set(
-        	 outer_padding,
-	         0,
-        	 block_size );
+		memory_clear(
+		 outer_padding,
+		 block_size );
 
 		memory_free(
 		 outer_padding );
 	}
 	if( inner_padding != NULL )
 	{
-		memory_set(
-        	 inner_padding,
-	         0,
-        	 block_size );
+		memory_clear(
+		 inner_padding,
+		 block_size );
 
 		memory_free(
 		 inner_padding );
 	}
 	if( key_data != NULL )
 	{
-		memory_set(
-        	 key_data,
-	         0,
-        	 block_size );
+		memory_clear(
+		 key_data,
+		 block_size );
 
 		memory_free(
 		 key_data );
diff --git a/libhmac/libhmac_sha1.c b/libhmac/libhmac_sha1.c
index d63cb4d..ab3c631 100644
--- a/libhmac/libhmac_sha1.c
+++ b/libhmac/libhmac_sha1.c
@@ -614,58 +614,28 @@ int libhmac_sha1_calculate_hmac(
 
 		goto on_error;
 	}
-	if( memory_set(
-	     outer_padding,
-	     0,
-	     block_size ) == NULL )
-	{
-		libcerror_error_set(
-		 error,
-		 LIBCERROR_ERROR_DOMAIN_MEMORY,
-		 LIBCERROR_MEMORY_ERROR_SET_FAILED,
-		 "%s: unable to clear outer padding.",
-		 function );
+	memory_clear(
+	 outer_padding,
+	 block_size );
 
-		goto on_error;
-	}
 	memory_free(
 	 outer_padding );
 
 	outer_padding = NULL;
 
-	if( memory_set(
-	     inner_padding,
-	     0,
-	     block_size ) == NULL )
-	{
-		libcerror_error_set(
-		 error,
-		 LIBCERROR_ERROR_DOMAIN_MEMORY,
-		 LIBCERROR_MEMORY_ERROR_SET_FAILED,
-		 "%s: unable to clear inner padding.",
-		 function );
+	memory_clear(
+	 inner_padding,
+	 block_size );
 
-		goto on_error;
-	}
 	memory_free(
 	 inner_padding );
 
 	inner_padding = NULL;
 
-	if( memory_set(
-	     key_data,
-	     0,
-	     block_size ) == NULL )
-	{
-		libcerror_error_set(
-		 error,
-		 LIBCERROR_ERROR_DOMAIN_MEMORY,
-		 LIBCERROR_MEMORY_ERROR_SET_FAILED,
-		 "%s: unable to clear key data.",
-		 function );
+	memory_clear(
+	 key_data,
+	 block_size );
 
-		goto on_error;
-	}
 	memory_free(
 	 key_data );
 
@@ -682,30 +652,27 @@ on_error:
 	}
 	if( outer_padding != NULL )
 	{
-		memory_set(
-        	 outer_padding,
-	         0,
-        	 block_size );
+		memory_clear(
+		 outer_padding,
+		 block_size );
 
 		memory_free(
 		 outer_padding );
 	}
 	if( inner_padding != NULL )
 	{
-		memory_set(
-        	 inner_padding,
-	         0,
-        	 block_size );
+		memory_clear(
+		 inner_padding,
+		 block_size );
 
 		memory_free(
 		 inner_padding );
 	}
 	if( key_data != NULL )
 	{
-		memory_set(
-        	 key_data,
-	         0,
-        	 block_size );
+		memory_clear(
+		 key_data,
+		 block_size );
 
 		memory_free(
 		 key_data );
diff --git a/libhmac/libhmac_sha224.c b/libhmac/libhmac_sha224.c
index ddfc542..d692177 100644
--- a/libhmac/libhmac_sha224.c
+++ b/libhmac/libhmac_sha224.c
@@ -614,58 +614,28 @@ int libhmac_sha224_calculate_hmac(
 
 		goto on_error;
 	}
-	if( memory_set(
-	     outer_padding,
-	     0,
-	     block_size ) == NULL )
-	{
-		libcerror_error_set(
-		 error,
-		 LIBCERROR_ERROR_DOMAIN_MEMORY,
-		 LIBCERROR_MEMORY_ERROR_SET_FAILED,
-		 "%s: unable to clear outer padding.",
-		 function );
+	memory_clear(
+	 outer_padding,
+	 block_size );
 
-		goto on_error;
-	}
 	memory_free(
 	 outer_padding );
 
 	outer_padding = NULL;
 
-	if( memory_set(
-	     inner_padding,
-	     0,
-	     block_size ) == NULL )
-	{
-		libcerror_error_set(
-		 error,
-		 LIBCERROR_ERROR_DOMAIN_MEMORY,
-		 LIBCERROR_MEMORY_ERROR_SET_FAILED,
-		 "%s: unable to clear inner padding.",
-		 function );
+	memory_clear(
+	 inner_padding,
+	 block_size );
 
-		goto on_error;
-	}
 	memory_free(
 	 inner_padding );
 
 	inner_padding = NULL;
 
-	if( memory_set(
-	     key_data,
-	     0,
-	     block_size ) == NULL )
-	{
-		libcerror_error_set(
-		 error,
-		 LIBCERROR_ERROR_DOMAIN_MEMORY,
-		 LIBCERROR_MEMORY_ERROR_SET_FAILED,
-		 "%s: unable to clear key data.",
-		 function );
+	memory_clear(
+	 key_data,
+	 block_size );
 
-		goto on_error;
-	}
 	memory_free(
 	 key_data );
 
@@ -682,30 +652,27 @@ on_error:
 	}
 	if( outer_padding != NULL )
 	{
-		memory_set(
-        	 outer_padding,
-	         0,
-        	 block_size );
+		memory_clear(
+		 outer_padding,
+		 block_size );
 
 		memory_free(
 		 outer_padding );
 	}
 	if( inner_padding != NULL )
 	{
-		memory_set(
-        	 inner_padding,
-	         0,
-        	 block_size );
+		memory_clear(
+		 inner_padding,
+		 block_size );
 
 		memory_free(
 		 inner_padding );
 	}
 	if( key_data != NULL )
 	{
-		memory_set(
-        	 key_data,
-	         0,
-        	 block_size );
+		memory_clear(
+		 key_data,
+		 block_size );
 
 		memory_free(
 		 key_data );
diff --git a/libhmac/libhmac_sha256.c b/libhmac/libhmac_sha256.c
index 40ea5ed..530ea44 100644
--- a/libhmac/libhmac_sha256.c
+++ b/libhmac/libhmac_sha256.c
@@ -614,58 +614,28 @@ int libhmac_sha256_calculate_hmac(
 
 		goto on_error;
 	}
-	if( memory_set(
-	     outer_padding,
-	     0,
-	     block_size ) == NULL )
-	{
-		libcerror_error_set(
-		 error,
-		 LIBCERROR_ERROR_DOMAIN_MEMORY,
-		 LIBCERROR_MEMORY_ERROR_SET_FAILED,
-		 "%s: unable to clear outer padding.",
-		 function );
+	memory_clear(
+	 outer_padding,
+	 block_size );
 
-		goto on_error;
-	}
 	memory_free(
 	 outer_padding );
 
 	outer_padding = NULL;
 
-	if( memory_set(
-	     inner_padding,
-	     0,
-	     block_size ) == NULL )
-	{
-		libcerror_error_set(
-		 error,
-		 LIBCERROR_ERROR_DOMAIN_MEMORY,
-		 LIBCERROR_MEMORY_ERROR_SET_FAILED,
-		 "%s: unable to clear inner padding.",
-		 function );
+	memory_clear(
+	 inner_padding,
+	 block_size );
 
-		goto on_error;
-	}
 	memory_free(
 	 inner_padding );
 
 	inner_padding = NULL;
 
-	if( memory_set(
-	     key_data,
-	     0,
-	     block_size ) == NULL )
-	{
-		libcerror_error_set(
-		 error,
-		 LIBCERROR_ERROR_DOMAIN_MEMORY,
-		 LIBCERROR_MEMORY_ERROR_SET_FAILED,
-		 "%s: unable to clear key data.",
-		 function );
+	memory_clear(
+	 key_data,
+	 block_size );
 
-		goto on_error;
-	}
 	memory_free(
 	 key_data );
 
@@ -682,30 +652,27 @@ on_error:
 	}
 	if( outer_padding != NULL )
 	{
-		memory_set(
-        	 outer_padding,
-	         0,
-        	 block_size );
+		memory_clear(
+		 outer_padding,
+		 block_size );
 
 		memory_free(
 		 outer_padding );
 	}
 	if( inner_padding != NULL )
 	{
-		memory_set(
-        	 inner_padding,
-	         0,
-        	 block_size );
+		memory_clear(
+		 inner_padding,
+		 block_size );
 
 		memory_free(
 		 inner_padding );
 	}
 	if( key_data != NULL )
 	{
-		memory_set(
-        	 key_data,
-	         0,
-        	 block_size );
+		memory_clear(
+		 key_data,
+		 block_size );
 
 		memory_free(
 		 key_data );
diff --git a/libhmac/libhmac_sha512.c b/libhmac/libhmac_sha512.c
index d21ce47..09f079e 100644
--- a/libhmac/libhmac_sha512.c
+++ b/libhmac/libhmac_sha512.c
@@ -614,58 +614,28 @@ int libhmac_sha512_calculate_hmac(
 
 		goto on_error;
 	}
-	if( memory_set(
-	     outer_padding,
-	     0,
-	     block_size ) == NULL )
-	{
-		libcerror_error_set(
-		 error,
-		 LIBCERROR_ERROR_DOMAIN_MEMORY,
-		 LIBCERROR_MEMORY_ERROR_SET_FAILED,
-		 "%s: unable to clear outer padding.",
-		 function );
+	memory_clear(
+	 outer_padding,
+	 block_size );
 
-		goto on_error;
-	}
 	memory_free(
 	 outer_padding );
 
 	outer_padding = NULL;
 
-	if( memory_set(
-	     inner_padding,
-	     0,
-	     block_size ) == NULL )
-	{
-		libcerror_error_set(
-		 error,
-		 LIBCERROR_ERROR_DOMAIN_MEMORY,
-		 LIBCERROR_MEMORY_ERROR_SET_FAILED,
-		 "%s: unable to clear inner padding.",
-		 function );
+	memory_clear(
+	 inner_padding,
+	 block_size );
 
-		goto on_error;
-	}
 	memory_free(
 	 inner_padding );
 
 	inner_padding = NULL;
 
-	if( memory_set(
-	     key_data,
-	     0,
-	     block_size ) == NULL )
-	{
-		libcerror_error_set(
-		 error,
-		 LIBCERROR_ERROR_DOMAIN_MEMORY,
-		 LIBCERROR_MEMORY_ERROR_SET_FAILED,
-		 "%s: unable to clear key data.",
-		 function );
+	memory_clear(
+	 key_data,
+	 block_size );
 
-		goto on_error;
-	}
 	memory_free(
 	 key_data );
 
@@ -682,30 +652,27 @@ on_error:
 	}
 	if( outer_padding != NULL )
 	{
-		memory_set(
-        	 outer_padding,
-	         0,
-        	 block_size );
+		memory_clear(
+		 outer_padding,
+		 block_size );
 
 		memory_free(
 		 outer_padding );
 	}
 	if( inner_padding != NULL )
 	{
-		memory_set(
-        	 inner_padding,
-	         0,
-        	 block_size );
+		memory_clear(
+		 inner_padding,
+		 block_size );
 
 		memory_free(
 		 inner_padding );
 	}
 	if( key_data != NULL )
 	{
-		memory_set(
-        	 key_data,
-	         0,
-        	 block_size );
+		memory_clear(
+		 key_data,
+		 block_size );
 
 		memory_free(
 		 key_data );
-- 
2.43.0


From 9e58dd0521016a66a74d09c550730db78099777a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:16 +0000
Subject: [PATCH 02/14] fix: wipe contexts before they are released

---
 libhmac/libhmac_md5_context.c    | 6 ++++++
 libhmac/libhmac_sha1_context.c   | 7 +++++++
 libhmac/libhmac_sha224_context.c | 6 ++++++
 libhmac/libhmac_sha256_context.c | 6 ++++++
 libhmac/libhmac_sha512_context.c | 6 ++++++
 5 files changed, 31 insertions(+)

diff --git a/libhmac/libhmac_md5_context.c b/libhmac/libhmac_md5_context.c
index 534fa0c..2a32f0d 100644
--- a/libhmac/libhmac_md5_context.c
+++ b/libhmac/libhmac_md5_context.c
@@ -644,6 +644,12 @@ int libhmac_md5_context_free(
 		 */
 #endif /* defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_MD5_H ) && defined( MD5_DIGEST_LENGTH ) */
 
+		/* Prevent sensitive data from leaking
+		 */
+		memory_clear(
+		 internal_context,
+		 sizeof( libhmac_internal_md5_context_t ) );
+
 		memory_free(
 		 internal_context );
 	}
diff --git a/libhmac/libhmac_sha1_context.c b/libhmac/libhmac_sha1_context.c
index aa623e4..8c34d4e 100644
--- a/libhmac/libhmac_sha1_context.c
+++ b/libhmac/libhmac_sha1_context.c
@@ -717,6 +717,13 @@ int libhmac_sha1_context_free(
 		 */
 
 #endif /* defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_SHA_H ) && defined( SHA_DIGEST_LENGTH ) */
+
+		/* Prevent sensitive data from leaking
+		 */
+		memory_clear(
+		 internal_context,
+		 sizeof( libhmac_internal_sha1_context_t ) );
+
 		memory_free(
 		 internal_context );
 	}
diff --git a/libhmac/libhmac_sha224_context.c b/libhmac/libhmac_sha224_context.c
index a46a5fe..7bf86f7 100644
--- a/libhmac/libhmac_sha224_context.c
+++ b/libhmac/libhmac_sha224_context.c
@@ -676,6 +676,12 @@ int libhmac_sha224_context_free(
 		 */
 #endif /* defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_SHA_H ) && defined( SHA224_DIGEST_LENGTH ) */
 
+		/* Prevent sensitive data from leaking
+		 */
+		memory_clear(
+		 internal_context,
+		 sizeof( libhmac_internal_sha224_context_t ) );
+
 		memory_free(
 		 internal_context );
 	}
diff --git a/libhmac/libhmac_sha256_context.c b/libhmac/libhmac_sha256_context.c
index 2b6f1cf..c975098 100644
--- a/libhmac/libhmac_sha256_context.c
+++ b/libhmac/libhmac_sha256_context.c
@@ -676,6 +676,12 @@ int libhmac_sha256_context_free(
 		 */
 #endif /* defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_SHA_H ) && defined( SHA256_DIGEST_LENGTH ) */
 
+		/* Prevent sensitive data from leaking
+		 */
+		memory_clear(
+		 internal_context,
+		 sizeof( libhmac_internal_sha256_context_t ) );
+
 		memory_free(
 		 internal_context );
 	}
diff --git a/libhmac/libhmac_sha512_context.c b/libhmac/libhmac_sha512_context.c
index 7bb7b14..81ff652 100644
--- a/libhmac/libhmac_sha512_context.c
+++ b/libhmac/libhmac_sha512_context.c
@@ -712,6 +712,12 @@ int libhmac_sha512_context_free(
 		 */
 #endif /* defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_SHA_H ) && defined( SHA512_DIGEST_LENGTH ) */
 
+		/* Prevent sensitive data from leaking
+		 */
+		memory_clear(
+		 internal_context,
+		 sizeof( libhmac_internal_sha512_context_t ) );
+
 		memory_free(
 		 internal_context );
 	}
-- 
2.43.0


From ef5aebcb80f51234e13e51d9094ff3e00b4a6f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:41 +0000
Subject: [PATCH 03/14] fix: accept the kilo factor in byte size strings

---
 hmactools/byte_size_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hmactools/byte_size_string.c b/hmactools/byte_size_string.c
index 361e039..bd1767b 100644
--- a/hmactools/byte_size_string.c
+++ b/hmactools/byte_size_string.c
@@ -347,7 +347,7 @@ int byte_size_string_convert(
 
 		return( -1 );
 	}
-	else if( factor > 1 )
+	else if( factor > 0 )
 	{
 		byte_size_string_iterator++;
 	}
-- 
2.43.0


From 31c5ddba7a92187905c5d2d305ae39e367871fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:41 +0000
Subject: [PATCH 04/14] fix: reject byte size strings whose value does not fit

---
 hmactools/byte_size_string.c | 38 +++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/hmactools/byte_size_string.c b/hmactools/byte_size_string.c
index bd1767b..41ce8d9 100644
--- a/hmactools/byte_size_string.c
+++ b/hmactools/byte_size_string.c
@@ -213,6 +213,7 @@ int byte_size_string_convert(
 	static char *function            = "byte_size_string_convert";
 	size_t byte_size_string_iterator = 0;
 	uint64_t byte_size               = 0;
+	uint8_t digit                    = 0;
 	int8_t factor                    = 0;
 	int8_t remainder                 = -1;
 	int decimal_point                = 0;
@@ -260,8 +261,21 @@ int byte_size_string_convert(
 		{
 			break;
 		}
+		digit = (uint8_t) ( byte_size_string[ byte_size_string_iterator ] - (system_character_t) '0' );
+
+		if( byte_size > ( ( (uint64_t) UINT64_MAX - digit ) / 10 ) )
+		{
+			libcerror_error_set(
+			 error,
+			 LIBCERROR_ERROR_DOMAIN_RUNTIME,
+			 LIBCERROR_RUNTIME_ERROR_VALUE_OUT_OF_BOUNDS,
+			 "%s: invalid byte size value out of bounds.",
+			 function );
+
+			return( -1 );
+		}
 		byte_size *= 10;
-		byte_size += ( byte_size_string[ byte_size_string_iterator ] - (system_character_t) '0' );
+		byte_size += digit;
 
 		byte_size_string_iterator++;
 	}
@@ -383,6 +397,17 @@ int byte_size_string_convert(
 	{
 		if( remainder > 0 )
 		{
+			if( byte_size > ( ( (uint64_t) UINT64_MAX - ( remainder * 10 ) ) / units ) )
+			{
+				libcerror_error_set(
+				 error,
+				 LIBCERROR_ERROR_DOMAIN_RUNTIME,
+				 LIBCERROR_RUNTIME_ERROR_VALUE_OUT_OF_BOUNDS,
+				 "%s: invalid byte size value out of bounds.",
+				 function );
+
+				return( -1 );
+			}
 			byte_size *= units;
 
 			factor--;
@@ -391,6 +416,17 @@ int byte_size_string_convert(
 		}
 		for( ; factor > 0; factor-- )
 		{
+			if( byte_size > ( (uint64_t) UINT64_MAX / units ) )
+			{
+				libcerror_error_set(
+				 error,
+				 LIBCERROR_ERROR_DOMAIN_RUNTIME,
+				 LIBCERROR_RUNTIME_ERROR_VALUE_OUT_OF_BOUNDS,
+				 "%s: invalid byte size value out of bounds.",
+				 function );
+
+				return( -1 );
+			}
 			byte_size *= units;
 		}
 	}
-- 
2.43.0


From 3e8259792830400a1c8056babdb3ece525df7492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:41 +0000
Subject: [PATCH 05/14] fix: report failures to write the digests

---
 hmactools/sum_handle.c | 90 ++++++++++++++++++++++++++++++++----------
 1 file changed, 70 insertions(+), 20 deletions(-)

diff --git a/hmactools/sum_handle.c b/hmactools/sum_handle.c
index 82aa742..b11d58f 100644
--- a/hmactools/sum_handle.c
+++ b/hmactools/sum_handle.c
@@ -1656,38 +1656,88 @@ int sum_handle_hash_values_fprint(
 	}
 	if( sum_handle->calculate_md5 != 0 )
 	{
-		fprintf(
-		 stream,
-		 "MD5 hash calculated over data:\t\t%" PRIs_SYSTEM "\n",
-		 sum_handle->calculated_md5_hash_string );
+		if( fprintf(
+		     stream,
+		     "MD5 hash calculated over data:\t\t%" PRIs_SYSTEM "\n",
+		     sum_handle->calculated_md5_hash_string ) < 0 )
+		{
+			libcerror_error_set(
+			 error,
+			 LIBCERROR_ERROR_DOMAIN_IO,
+			 LIBCERROR_IO_ERROR_WRITE_FAILED,
+			 "%s: unable to write calculated MD5 hash string.",
+			 function );
+
+			return( -1 );
+		}
 	}
 	if( sum_handle->calculate_sha1 != 0 )
 	{
-		fprintf(
-		 stream,
-		 "SHA1 hash calculated over data:\t\t%" PRIs_SYSTEM "\n",
-		 sum_handle->calculated_sha1_hash_string );
+		if( fprintf(
+		     stream,
+		     "SHA1 hash calculated over data:\t\t%" PRIs_SYSTEM "\n",
+		     sum_handle->calculated_sha1_hash_string ) < 0 )
+		{
+			libcerror_error_set(
+			 error,
+			 LIBCERROR_ERROR_DOMAIN_IO,
+			 LIBCERROR_IO_ERROR_WRITE_FAILED,
+			 "%s: unable to write calculated SHA1 hash string.",
+			 function );
+
+			return( -1 );
+		}
 	}
 	if( sum_handle->calculate_sha224 != 0 )
 	{
-		fprintf(
-		 stream,
-		 "SHA224 hash calculated over data:\t%" PRIs_SYSTEM "\n",
-		 sum_handle->calculated_sha224_hash_string );
+		if( fprintf(
+		     stream,
+		     "SHA224 hash calculated over data:\t%" PRIs_SYSTEM "\n",
+		     sum_handle->calculated_sha224_hash_string ) < 0 )
+		{
+			libcerror_error_set(
+			 error,
+			 LIBCERROR_ERROR_DOMAIN_IO,
+			 LIBCERROR_IO_ERROR_WRITE_FAILED,
+			 "%s: unable to write calculated SHA224 hash string.",
+			 function );
+
+			return( -1 );
+		}
 	}
 	if( sum_handle->calculate_sha256 != 0 )
 	{
-		fprintf(
-		 stream,
-		 "SHA256 hash calculated over data:\t%" PRIs_SYSTEM "\n",
-		 sum_handle->calculated_sha256_hash_string );
+		if( fprintf(
+		     stream,
+		     "SHA256 hash calculated over data:\t%" PRIs_SYSTEM "\n",
+		     sum_handle->calculated_sha256_hash_string ) < 0 )
+		{
+			libcerror_error_set(
+			 error,
+			 LIBCERROR_ERROR_DOMAIN_IO,
+			 LIBCERROR_IO_ERROR_WRITE_FAILED,
+			 "%s: unable to write calculated SHA256 hash string.",
+			 function );
+
+			return( -1 );
+		}
 	}
 	if( sum_handle->calculate_sha512 != 0 )
 	{
-		fprintf(
-		 stream,
-		 "SHA512 hash calculated over data:\t%" PRIs_SYSTEM "\n",
-		 sum_handle->calculated_sha512_hash_string );
+		if( fprintf(
+		     stream,
+		     "SHA512 hash calculated over data:\t%" PRIs_SYSTEM "\n",
+		     sum_handle->calculated_sha512_hash_string ) < 0 )
+		{
+			libcerror_error_set(
+			 error,
+			 LIBCERROR_ERROR_DOMAIN_IO,
+			 LIBCERROR_IO_ERROR_WRITE_FAILED,
+			 "%s: unable to write calculated SHA512 hash string.",
+			 function );
+
+			return( -1 );
+		}
 	}
 	return( 1 );
 }
-- 
2.43.0


From c9b32b0767c327a1dc04696825dd187b8fb4971d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:41 +0000
Subject: [PATCH 06/14] fix: free the input handle and the digest types on
 error

---
 hmactools/sum_handle.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hmactools/sum_handle.c b/hmactools/sum_handle.c
index b11d58f..0a655ee 100644
--- a/hmactools/sum_handle.c
+++ b/hmactools/sum_handle.c
@@ -137,6 +137,12 @@ int sum_handle_initialize(
 on_error:
 	if( *sum_handle != NULL )
 	{
+		if( ( *sum_handle )->input_handle != NULL )
+		{
+			libcfile_file_free(
+			 &( ( *sum_handle )->input_handle ),
+			 NULL );
+		}
 		memory_free(
 		 *sum_handle );
 
@@ -1211,7 +1217,7 @@ int sum_handle_set_digest_types(
 		 "%s: unable to retrieve number of segments.",
 		 function );
 
-		return( -1 );
+		goto on_error;
 	}
 	for( segment_index = 0;
 	     segment_index < number_of_segments;
@@ -1244,7 +1250,7 @@ int sum_handle_set_digest_types(
 			 function,
 			 segment_index );
 
-			return( -1 );
+			goto on_error;
 		}
 		if( string_segment_size == 4 )
 		{
-- 
2.43.0


From 3e1f758287b24a517d7265db212df2ebd71e467a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:41 +0000
Subject: [PATCH 07/14] fix: do not read beyond a lone option marker

---
 hmactools/hmactools_getopt.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hmactools/hmactools_getopt.c b/hmactools/hmactools_getopt.c
index 7f468ef..723aff5 100644
--- a/hmactools/hmactools_getopt.c
+++ b/hmactools/hmactools_getopt.c
@@ -93,6 +93,12 @@ system_integer_t hmactools_getopt(
 		}
 		argument_value++;
 
+		/* Check if the option marker is not followed by an option
+		 */
+		if( *argument_value == (system_character_t) '\0' )
+		{
+			return( (system_integer_t) -1 );
+		}
 		/* Check if long options are provided '--'
 		 */
 		if( *argument_value == (system_character_t) '-' )
-- 
2.43.0


From c59b221c79b5fa3804d54f397e1d87b5ff980cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:27 +0000
Subject: [PATCH 08/14] fix: release the fetched exception and handle one
 without a representation

---
 pyhmac/pyhmac_error.c | 69 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 51 insertions(+), 18 deletions(-)

diff --git a/pyhmac/pyhmac_error.c b/pyhmac/pyhmac_error.c
index 73d0caf..a29c2ff 100644
--- a/pyhmac/pyhmac_error.c
+++ b/pyhmac/pyhmac_error.c
@@ -129,19 +129,26 @@ void VARARGS(
 	string_object = PyObject_Repr(
 	                 exception_value );
 
+	if( string_object != NULL )
+	{
 #if PY_MAJOR_VERSION >= 3
-	utf8_string_object = PyUnicode_AsUTF8String(
-	                      string_object );
+		utf8_string_object = PyUnicode_AsUTF8String(
+		                      string_object );
 
-	if( utf8_string_object != NULL )
-	{
-		exception_string = PyBytes_AsString(
-		                    utf8_string_object );
-	}
+		if( utf8_string_object != NULL )
+		{
+			exception_string = PyBytes_AsString(
+			                    utf8_string_object );
+		}
 #else
-	exception_string = PyString_AsString(
-	                    string_object );
+		exception_string = PyString_AsString(
+		                    string_object );
 #endif
+	}
+	if( exception_string == NULL )
+	{
+		PyErr_Clear();
+	}
 	if( exception_string != NULL )
 	{
 		libcerror_error_set(
@@ -170,6 +177,12 @@ void VARARGS(
 #endif
 	Py_DecRef(
 	 string_object );
+	Py_DecRef(
+	 exception_type );
+	Py_DecRef(
+	 exception_value );
+	Py_DecRef(
+	 exception_traceback );
 
 	return;
 }
@@ -269,19 +282,26 @@ void VARARGS(
 	string_object = PyObject_Repr(
 	                 exception_value );
 
+	if( string_object != NULL )
+	{
 #if PY_MAJOR_VERSION >= 3
-	utf8_string_object = PyUnicode_AsUTF8String(
-	                      string_object );
+		utf8_string_object = PyUnicode_AsUTF8String(
+		                      string_object );
 
-	if( utf8_string_object != NULL )
-	{
-		exception_string = PyBytes_AsString(
-		                    utf8_string_object );
-	}
+		if( utf8_string_object != NULL )
+		{
+			exception_string = PyBytes_AsString(
+			                    utf8_string_object );
+		}
 #else
-	exception_string = PyString_AsString(
-	                    string_object );
+		exception_string = PyString_AsString(
+		                    string_object );
 #endif
+	}
+	if( exception_string == NULL )
+	{
+		PyErr_Clear();
+	}
 	if( exception_string != NULL )
 	{
 		PyErr_Format(
@@ -297,8 +317,21 @@ void VARARGS(
 		 "%s.",
 		 error_string );
 	}
+#if PY_MAJOR_VERSION >= 3
+	if( utf8_string_object != NULL )
+	{
+		Py_DecRef(
+		 utf8_string_object );
+	}
+#endif
 	Py_DecRef(
 	 string_object );
+	Py_DecRef(
+	 exception_type );
+	Py_DecRef(
+	 exception_value );
+	Py_DecRef(
+	 exception_traceback );
 
 	return;
 }
-- 
2.43.0


From 22db03599f860e2495bbea16a40c1adc4f9e47fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:27 +0000
Subject: [PATCH 09/14] fix: release contexts that are initialized again and
 objects without a context

---
 pyhmac/pyhmac_md5_context.c    | 62 ++++++++++++++++++++--------------
 pyhmac/pyhmac_sha1_context.c   | 62 ++++++++++++++++++++--------------
 pyhmac/pyhmac_sha224_context.c | 62 ++++++++++++++++++++--------------
 pyhmac/pyhmac_sha256_context.c | 62 ++++++++++++++++++++--------------
 pyhmac/pyhmac_sha512_context.c | 62 ++++++++++++++++++++--------------
 5 files changed, 185 insertions(+), 125 deletions(-)

diff --git a/pyhmac/pyhmac_md5_context.c b/pyhmac/pyhmac_md5_context.c
index 3ef4642..56f1dd0 100644
--- a/pyhmac/pyhmac_md5_context.c
+++ b/pyhmac/pyhmac_md5_context.c
@@ -176,6 +176,8 @@ PyObject *pyhmac_md5_context_new(
 
 		goto on_error;
 	}
+	pyhmac_md5_context->md5_context = NULL;
+
 	if( pyhmac_md5_context_init(
 	     pyhmac_md5_context ) != 0 )
 	{
@@ -215,8 +217,24 @@ int pyhmac_md5_context_init(
 
 		return( -1 );
 	}
-	pyhmac_md5_context->md5_context = NULL;
-
+	if( pyhmac_md5_context->md5_context != NULL )
+	{
+		if( libhmac_md5_free(
+		     &( pyhmac_md5_context->md5_context ),
+		     &error ) != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac MD5 context.",
+			 function );
+
+			libcerror_error_free(
+			 &error );
+
+			return( -1 );
+		}
+	}
 	if( libhmac_md5_initialize(
 	     &( pyhmac_md5_context->md5_context ),
 	     &error ) != 1 )
@@ -254,15 +272,6 @@ void pyhmac_md5_context_free(
 
 		return;
 	}
-	if( pyhmac_md5_context->md5_context == NULL )
-	{
-		PyErr_Format(
-		 PyExc_ValueError,
-		 "%s: invalid MD5 context - missing libhmac MD5 context.",
-		 function );
-
-		return;
-	}
 	ob_type = Py_TYPE(
 	           pyhmac_md5_context );
 
@@ -284,24 +293,27 @@ void pyhmac_md5_context_free(
 
 		return;
 	}
-	Py_BEGIN_ALLOW_THREADS
+	if( pyhmac_md5_context->md5_context != NULL )
+	{
+		Py_BEGIN_ALLOW_THREADS
 
-	result = libhmac_md5_free(
-	          &( pyhmac_md5_context->md5_context ),
-	          &error );
+		result = libhmac_md5_free(
+		          &( pyhmac_md5_context->md5_context ),
+		          &error );
 
-	Py_END_ALLOW_THREADS
+		Py_END_ALLOW_THREADS
 
-	if( result != 1 )
-	{
-		pyhmac_error_raise(
-		 error,
-		 PyExc_MemoryError,
-		 "%s: unable to free libhmac MD5 context.",
-		 function );
+		if( result != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac MD5 context.",
+			 function );
 
-		libcerror_error_free(
-		 &error );
+			libcerror_error_free(
+			 &error );
+		}
 	}
 	ob_type->tp_free(
 	 (PyObject*) pyhmac_md5_context );
diff --git a/pyhmac/pyhmac_sha1_context.c b/pyhmac/pyhmac_sha1_context.c
index eca70b6..d37cbd1 100644
--- a/pyhmac/pyhmac_sha1_context.c
+++ b/pyhmac/pyhmac_sha1_context.c
@@ -176,6 +176,8 @@ PyObject *pyhmac_sha1_context_new(
 
 		goto on_error;
 	}
+	pyhmac_sha1_context->sha1_context = NULL;
+
 	if( pyhmac_sha1_context_init(
 	     pyhmac_sha1_context ) != 0 )
 	{
@@ -215,8 +217,24 @@ int pyhmac_sha1_context_init(
 
 		return( -1 );
 	}
-	pyhmac_sha1_context->sha1_context = NULL;
-
+	if( pyhmac_sha1_context->sha1_context != NULL )
+	{
+		if( libhmac_sha1_free(
+		     &( pyhmac_sha1_context->sha1_context ),
+		     &error ) != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac SHA1 context.",
+			 function );
+
+			libcerror_error_free(
+			 &error );
+
+			return( -1 );
+		}
+	}
 	if( libhmac_sha1_initialize(
 	     &( pyhmac_sha1_context->sha1_context ),
 	     &error ) != 1 )
@@ -254,15 +272,6 @@ void pyhmac_sha1_context_free(
 
 		return;
 	}
-	if( pyhmac_sha1_context->sha1_context == NULL )
-	{
-		PyErr_Format(
-		 PyExc_ValueError,
-		 "%s: invalid SHA1 context - missing libhmac SHA1 context.",
-		 function );
-
-		return;
-	}
 	ob_type = Py_TYPE(
 	           pyhmac_sha1_context );
 
@@ -284,24 +293,27 @@ void pyhmac_sha1_context_free(
 
 		return;
 	}
-	Py_BEGIN_ALLOW_THREADS
+	if( pyhmac_sha1_context->sha1_context != NULL )
+	{
+		Py_BEGIN_ALLOW_THREADS
 
-	result = libhmac_sha1_free(
-	          &( pyhmac_sha1_context->sha1_context ),
-	          &error );
+		result = libhmac_sha1_free(
+		          &( pyhmac_sha1_context->sha1_context ),
+		          &error );
 
-	Py_END_ALLOW_THREADS
+		Py_END_ALLOW_THREADS
 
-	if( result != 1 )
-	{
-		pyhmac_error_raise(
-		 error,
-		 PyExc_MemoryError,
-		 "%s: unable to free libhmac SHA1 context.",
-		 function );
+		if( result != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac SHA1 context.",
+			 function );
 
-		libcerror_error_free(
-		 &error );
+			libcerror_error_free(
+			 &error );
+		}
 	}
 	ob_type->tp_free(
 	 (PyObject*) pyhmac_sha1_context );
diff --git a/pyhmac/pyhmac_sha224_context.c b/pyhmac/pyhmac_sha224_context.c
index 3e09af9..8f52f7a 100644
--- a/pyhmac/pyhmac_sha224_context.c
+++ b/pyhmac/pyhmac_sha224_context.c
@@ -176,6 +176,8 @@ PyObject *pyhmac_sha224_context_new(
 
 		goto on_error;
 	}
+	pyhmac_sha224_context->sha224_context = NULL;
+
 	if( pyhmac_sha224_context_init(
 	     pyhmac_sha224_context ) != 0 )
 	{
@@ -215,8 +217,24 @@ int pyhmac_sha224_context_init(
 
 		return( -1 );
 	}
-	pyhmac_sha224_context->sha224_context = NULL;
-
+	if( pyhmac_sha224_context->sha224_context != NULL )
+	{
+		if( libhmac_sha224_free(
+		     &( pyhmac_sha224_context->sha224_context ),
+		     &error ) != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac SHA224 context.",
+			 function );
+
+			libcerror_error_free(
+			 &error );
+
+			return( -1 );
+		}
+	}
 	if( libhmac_sha224_initialize(
 	     &( pyhmac_sha224_context->sha224_context ),
 	     &error ) != 1 )
@@ -254,15 +272,6 @@ void pyhmac_sha224_context_free(
 
 		return;
 	}
-	if( pyhmac_sha224_context->sha224_context == NULL )
-	{
-		PyErr_Format(
-		 PyExc_ValueError,
-		 "%s: invalid SHA224 context - missing libhmac SHA224 context.",
-		 function );
-
-		return;
-	}
 	ob_type = Py_TYPE(
 	           pyhmac_sha224_context );
 
@@ -284,24 +293,27 @@ void pyhmac_sha224_context_free(
 
 		return;
 	}
-	Py_BEGIN_ALLOW_THREADS
+	if( pyhmac_sha224_context->sha224_context != NULL )
+	{
+		Py_BEGIN_ALLOW_THREADS
 
-	result = libhmac_sha224_free(
-	          &( pyhmac_sha224_context->sha224_context ),
-	          &error );
+		result = libhmac_sha224_free(
+		          &( pyhmac_sha224_context->sha224_context ),
+		          &error );
 
-	Py_END_ALLOW_THREADS
+		Py_END_ALLOW_THREADS
 
-	if( result != 1 )
-	{
-		pyhmac_error_raise(
-		 error,
-		 PyExc_MemoryError,
-		 "%s: unable to free libhmac SHA224 context.",
-		 function );
+		if( result != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac SHA224 context.",
+			 function );
 
-		libcerror_error_free(
-		 &error );
+			libcerror_error_free(
+			 &error );
+		}
 	}
 	ob_type->tp_free(
 	 (PyObject*) pyhmac_sha224_context );
diff --git a/pyhmac/pyhmac_sha256_context.c b/pyhmac/pyhmac_sha256_context.c
index 086513c..8ba03fb 100644
--- a/pyhmac/pyhmac_sha256_context.c
+++ b/pyhmac/pyhmac_sha256_context.c
@@ -176,6 +176,8 @@ PyObject *pyhmac_sha256_context_new(
 
 		goto on_error;
 	}
+	pyhmac_sha256_context->sha256_context = NULL;
+
 	if( pyhmac_sha256_context_init(
 	     pyhmac_sha256_context ) != 0 )
 	{
@@ -215,8 +217,24 @@ int pyhmac_sha256_context_init(
 
 		return( -1 );
 	}
-	pyhmac_sha256_context->sha256_context = NULL;
-
+	if( pyhmac_sha256_context->sha256_context != NULL )
+	{
+		if( libhmac_sha256_free(
+		     &( pyhmac_sha256_context->sha256_context ),
+		     &error ) != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac SHA256 context.",
+			 function );
+
+			libcerror_error_free(
+			 &error );
+
+			return( -1 );
+		}
+	}
 	if( libhmac_sha256_initialize(
 	     &( pyhmac_sha256_context->sha256_context ),
 	     &error ) != 1 )
@@ -254,15 +272,6 @@ void pyhmac_sha256_context_free(
 
 		return;
 	}
-	if( pyhmac_sha256_context->sha256_context == NULL )
-	{
-		PyErr_Format(
-		 PyExc_ValueError,
-		 "%s: invalid SHA256 context - missing libhmac SHA256 context.",
-		 function );
-
-		return;
-	}
 	ob_type = Py_TYPE(
 	           pyhmac_sha256_context );
 
@@ -284,24 +293,27 @@ void pyhmac_sha256_context_free(
 
 		return;
 	}
-	Py_BEGIN_ALLOW_THREADS
+	if( pyhmac_sha256_context->sha256_context != NULL )
+	{
+		Py_BEGIN_ALLOW_THREADS
 
-	result = libhmac_sha256_free(
-	          &( pyhmac_sha256_context->sha256_context ),
-	          &error );
+		result = libhmac_sha256_free(
+		          &( pyhmac_sha256_context->sha256_context ),
+		          &error );
 
-	Py_END_ALLOW_THREADS
+		Py_END_ALLOW_THREADS
 
-	if( result != 1 )
-	{
-		pyhmac_error_raise(
-		 error,
-		 PyExc_MemoryError,
-		 "%s: unable to free libhmac SHA256 context.",
-		 function );
+		if( result != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac SHA256 context.",
+			 function );
 
-		libcerror_error_free(
-		 &error );
+			libcerror_error_free(
+			 &error );
+		}
 	}
 	ob_type->tp_free(
 	 (PyObject*) pyhmac_sha256_context );
diff --git a/pyhmac/pyhmac_sha512_context.c b/pyhmac/pyhmac_sha512_context.c
index 97fd56a..00d96a3 100644
--- a/pyhmac/pyhmac_sha512_context.c
+++ b/pyhmac/pyhmac_sha512_context.c
@@ -176,6 +176,8 @@ PyObject *pyhmac_sha512_context_new(
 
 		goto on_error;
 	}
+	pyhmac_sha512_context->sha512_context = NULL;
+
 	if( pyhmac_sha512_context_init(
 	     pyhmac_sha512_context ) != 0 )
 	{
@@ -215,8 +217,24 @@ int pyhmac_sha512_context_init(
 
 		return( -1 );
 	}
-	pyhmac_sha512_context->sha512_context = NULL;
-
+	if( pyhmac_sha512_context->sha512_context != NULL )
+	{
+		if( libhmac_sha512_free(
+		     &( pyhmac_sha512_context->sha512_context ),
+		     &error ) != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac SHA512 context.",
+			 function );
+
+			libcerror_error_free(
+			 &error );
+
+			return( -1 );
+		}
+	}
 	if( libhmac_sha512_initialize(
 	     &( pyhmac_sha512_context->sha512_context ),
 	     &error ) != 1 )
@@ -254,15 +272,6 @@ void pyhmac_sha512_context_free(
 
 		return;
 	}
-	if( pyhmac_sha512_context->sha512_context == NULL )
-	{
-		PyErr_Format(
-		 PyExc_ValueError,
-		 "%s: invalid SHA512 context - missing libhmac SHA512 context.",
-		 function );
-
-		return;
-	}
 	ob_type = Py_TYPE(
 	           pyhmac_sha512_context );
 
@@ -284,24 +293,27 @@ void pyhmac_sha512_context_free(
 
 		return;
 	}
-	Py_BEGIN_ALLOW_THREADS
+	if( pyhmac_sha512_context->sha512_context != NULL )
+	{
+		Py_BEGIN_ALLOW_THREADS
 
-	result = libhmac_sha512_free(
-	          &( pyhmac_sha512_context->sha512_context ),
-	          &error );
+		result = libhmac_sha512_free(
+		          &( pyhmac_sha512_context->sha512_context ),
+		          &error );
 
-	Py_END_ALLOW_THREADS
+		Py_END_ALLOW_THREADS
 
-	if( result != 1 )
-	{
-		pyhmac_error_raise(
-		 error,
-		 PyExc_MemoryError,
-		 "%s: unable to free libhmac SHA512 context.",
-		 function );
+		if( result != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac SHA512 context.",
+			 function );
 
-		libcerror_error_free(
-		 &error );
+			libcerror_error_free(
+			 &error );
+		}
 	}
 	ob_type->tp_free(
 	 (PyObject*) pyhmac_sha512_context );
-- 
2.43.0


From 884fc377a857a6dae7579010a6e09d17ab1b76c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:08 +0000
Subject: [PATCH 10/14] fix: serialize access to a context that is shared
 between threads

---
 pyhmac/pyhmac_md5_context.c    | 86 +++++++++++++++++++++++++++++-----
 pyhmac/pyhmac_md5_context.h    |  6 +++
 pyhmac/pyhmac_sha1_context.c   | 86 +++++++++++++++++++++++++++++-----
 pyhmac/pyhmac_sha1_context.h   |  6 +++
 pyhmac/pyhmac_sha224_context.c | 86 +++++++++++++++++++++++++++++-----
 pyhmac/pyhmac_sha224_context.h |  6 +++
 pyhmac/pyhmac_sha256_context.c | 86 +++++++++++++++++++++++++++++-----
 pyhmac/pyhmac_sha256_context.h |  6 +++
 pyhmac/pyhmac_sha512_context.c | 86 +++++++++++++++++++++++++++++-----
 pyhmac/pyhmac_sha512_context.h |  6 +++
 10 files changed, 395 insertions(+), 65 deletions(-)

diff --git a/pyhmac/pyhmac_md5_context.c b/pyhmac/pyhmac_md5_context.c
index 56f1dd0..d2d16e8 100644
--- a/pyhmac/pyhmac_md5_context.c
+++ b/pyhmac/pyhmac_md5_context.c
@@ -177,6 +177,7 @@ PyObject *pyhmac_md5_context_new(
 		goto on_error;
 	}
 	pyhmac_md5_context->md5_context = NULL;
+	pyhmac_md5_context->lock = NULL;
 
 	if( pyhmac_md5_context_init(
 	     pyhmac_md5_context ) != 0 )
@@ -207,6 +208,7 @@ int pyhmac_md5_context_init(
 {
 	libcerror_error_t *error = NULL;
 	static char *function    = "pyhmac_md5_context_init";
+	int result               = 0;
 
 	if( pyhmac_md5_context == NULL )
 	{
@@ -217,27 +219,46 @@ int pyhmac_md5_context_init(
 
 		return( -1 );
 	}
-	if( pyhmac_md5_context->md5_context != NULL )
+	if( pyhmac_md5_context->lock == NULL )
 	{
-		if( libhmac_md5_free(
-		     &( pyhmac_md5_context->md5_context ),
-		     &error ) != 1 )
+		pyhmac_md5_context->lock = PyThread_allocate_lock();
+
+		if( pyhmac_md5_context->lock == NULL )
 		{
-			pyhmac_error_raise(
-			 error,
+			PyErr_Format(
 			 PyExc_MemoryError,
-			 "%s: unable to free libhmac MD5 context.",
+			 "%s: unable to create lock.",
 			 function );
 
-			libcerror_error_free(
-			 &error );
-
 			return( -1 );
 		}
 	}
-	if( libhmac_md5_initialize(
-	     &( pyhmac_md5_context->md5_context ),
-	     &error ) != 1 )
+	Py_BEGIN_ALLOW_THREADS
+
+	PyThread_acquire_lock(
+	 pyhmac_md5_context->lock,
+	 WAIT_LOCK );
+
+	result = 1;
+
+	if( pyhmac_md5_context->md5_context != NULL )
+	{
+		result = libhmac_md5_free(
+		          &( pyhmac_md5_context->md5_context ),
+		          &error );
+	}
+	if( result == 1 )
+	{
+		result = libhmac_md5_initialize(
+		          &( pyhmac_md5_context->md5_context ),
+		          &error );
+	}
+	PyThread_release_lock(
+	 pyhmac_md5_context->lock );
+
+	Py_END_ALLOW_THREADS
+
+	if( result != 1 )
 	{
 		pyhmac_error_raise(
 		 error,
@@ -315,6 +336,13 @@ void pyhmac_md5_context_free(
 			 &error );
 		}
 	}
+	if( pyhmac_md5_context->lock != NULL )
+	{
+		PyThread_free_lock(
+		 pyhmac_md5_context->lock );
+
+		pyhmac_md5_context->lock = NULL;
+	}
 	ob_type->tp_free(
 	 (PyObject*) pyhmac_md5_context );
 }
@@ -407,14 +435,30 @@ PyObject *pyhmac_md5_context_update(
 
 		return( NULL );
 	}
+	if( pyhmac_md5_context->lock == NULL )
+	{
+		PyErr_Format(
+		 PyExc_ValueError,
+		 "%s: invalid MD5 context - missing lock.",
+		 function );
+
+		return( NULL );
+	}
 	Py_BEGIN_ALLOW_THREADS
 
+	PyThread_acquire_lock(
+	 pyhmac_md5_context->lock,
+	 WAIT_LOCK );
+
 	result = libhmac_md5_update(
 	          pyhmac_md5_context->md5_context,
 	          (uint8_t *) data,
 	          (size_t) data_size,
 	          &error );
 
+	PyThread_release_lock(
+	 pyhmac_md5_context->lock );
+
 	Py_END_ALLOW_THREADS
 
 	if( result != 1 )
@@ -461,14 +505,30 @@ PyObject *pyhmac_md5_context_finalize(
 
 		return( NULL );
 	}
+	if( pyhmac_md5_context->lock == NULL )
+	{
+		PyErr_Format(
+		 PyExc_ValueError,
+		 "%s: invalid MD5 context - missing lock.",
+		 function );
+
+		return( NULL );
+	}
 	Py_BEGIN_ALLOW_THREADS
 
+	PyThread_acquire_lock(
+	 pyhmac_md5_context->lock,
+	 WAIT_LOCK );
+
 	result = libhmac_md5_finalize(
 	          pyhmac_md5_context->md5_context,
 	          md5_hash,
 	          LIBHMAC_MD5_HASH_SIZE,
 	          &error );
 
+	PyThread_release_lock(
+	 pyhmac_md5_context->lock );
+
 	Py_END_ALLOW_THREADS
 
 	if( result != 1 )
diff --git a/pyhmac/pyhmac_md5_context.h b/pyhmac/pyhmac_md5_context.h
index 5b14e75..f61db78 100644
--- a/pyhmac/pyhmac_md5_context.h
+++ b/pyhmac/pyhmac_md5_context.h
@@ -28,6 +28,8 @@
 #include "pyhmac_libhmac.h"
 #include "pyhmac_python.h"
 
+#include <pythread.h>
+
 #if defined( __cplusplus )
 extern "C" {
 #endif
@@ -43,6 +45,10 @@ struct pyhmac_md5_context
 	/* The libhmac MD5 context
 	 */
 	libhmac_md5_context_t *md5_context;
+
+	/* The lock, which serializes access to the context when the GIL is released
+	 */
+	PyThread_type_lock lock;
 };
 
 extern PyMethodDef pyhmac_md5_context_object_methods[];
diff --git a/pyhmac/pyhmac_sha1_context.c b/pyhmac/pyhmac_sha1_context.c
index d37cbd1..11f73fd 100644
--- a/pyhmac/pyhmac_sha1_context.c
+++ b/pyhmac/pyhmac_sha1_context.c
@@ -177,6 +177,7 @@ PyObject *pyhmac_sha1_context_new(
 		goto on_error;
 	}
 	pyhmac_sha1_context->sha1_context = NULL;
+	pyhmac_sha1_context->lock = NULL;
 
 	if( pyhmac_sha1_context_init(
 	     pyhmac_sha1_context ) != 0 )
@@ -207,6 +208,7 @@ int pyhmac_sha1_context_init(
 {
 	libcerror_error_t *error = NULL;
 	static char *function    = "pyhmac_sha1_context_init";
+	int result               = 0;
 
 	if( pyhmac_sha1_context == NULL )
 	{
@@ -217,27 +219,46 @@ int pyhmac_sha1_context_init(
 
 		return( -1 );
 	}
-	if( pyhmac_sha1_context->sha1_context != NULL )
+	if( pyhmac_sha1_context->lock == NULL )
 	{
-		if( libhmac_sha1_free(
-		     &( pyhmac_sha1_context->sha1_context ),
-		     &error ) != 1 )
+		pyhmac_sha1_context->lock = PyThread_allocate_lock();
+
+		if( pyhmac_sha1_context->lock == NULL )
 		{
-			pyhmac_error_raise(
-			 error,
+			PyErr_Format(
 			 PyExc_MemoryError,
-			 "%s: unable to free libhmac SHA1 context.",
+			 "%s: unable to create lock.",
 			 function );
 
-			libcerror_error_free(
-			 &error );
-
 			return( -1 );
 		}
 	}
-	if( libhmac_sha1_initialize(
-	     &( pyhmac_sha1_context->sha1_context ),
-	     &error ) != 1 )
+	Py_BEGIN_ALLOW_THREADS
+
+	PyThread_acquire_lock(
+	 pyhmac_sha1_context->lock,
+	 WAIT_LOCK );
+
+	result = 1;
+
+	if( pyhmac_sha1_context->sha1_context != NULL )
+	{
+		result = libhmac_sha1_free(
+		          &( pyhmac_sha1_context->sha1_context ),
+		          &error );
+	}
+	if( result == 1 )
+	{
+		result = libhmac_sha1_initialize(
+		          &( pyhmac_sha1_context->sha1_context ),
+		          &error );
+	}
+	PyThread_release_lock(
+	 pyhmac_sha1_context->lock );
+
+	Py_END_ALLOW_THREADS
+
+	if( result != 1 )
 	{
 		pyhmac_error_raise(
 		 error,
@@ -315,6 +336,13 @@ void pyhmac_sha1_context_free(
 			 &error );
 		}
 	}
+	if( pyhmac_sha1_context->lock != NULL )
+	{
+		PyThread_free_lock(
+		 pyhmac_sha1_context->lock );
+
+		pyhmac_sha1_context->lock = NULL;
+	}
 	ob_type->tp_free(
 	 (PyObject*) pyhmac_sha1_context );
 }
@@ -407,14 +435,30 @@ PyObject *pyhmac_sha1_context_update(
 
 		return( NULL );
 	}
+	if( pyhmac_sha1_context->lock == NULL )
+	{
+		PyErr_Format(
+		 PyExc_ValueError,
+		 "%s: invalid SHA1 context - missing lock.",
+		 function );
+
+		return( NULL );
+	}
 	Py_BEGIN_ALLOW_THREADS
 
+	PyThread_acquire_lock(
+	 pyhmac_sha1_context->lock,
+	 WAIT_LOCK );
+
 	result = libhmac_sha1_update(
 	          pyhmac_sha1_context->sha1_context,
 	          (uint8_t *) data,
 	          (size_t) data_size,
 	          &error );
 
+	PyThread_release_lock(
+	 pyhmac_sha1_context->lock );
+
 	Py_END_ALLOW_THREADS
 
 	if( result != 1 )
@@ -461,14 +505,30 @@ PyObject *pyhmac_sha1_context_finalize(
 
 		return( NULL );
 	}
+	if( pyhmac_sha1_context->lock == NULL )
+	{
+		PyErr_Format(
+		 PyExc_ValueError,
+		 "%s: invalid SHA1 context - missing lock.",
+		 function );
+
+		return( NULL );
+	}
 	Py_BEGIN_ALLOW_THREADS
 
+	PyThread_acquire_lock(
+	 pyhmac_sha1_context->lock,
+	 WAIT_LOCK );
+
 	result = libhmac_sha1_finalize(
 	          pyhmac_sha1_context->sha1_context,
 	          sha1_hash,
 	          LIBHMAC_SHA1_HASH_SIZE,
 	          &error );
 
+	PyThread_release_lock(
+	 pyhmac_sha1_context->lock );
+
 	Py_END_ALLOW_THREADS
 
 	if( result != 1 )
diff --git a/pyhmac/pyhmac_sha1_context.h b/pyhmac/pyhmac_sha1_context.h
index 431243d..90e3494 100644
--- a/pyhmac/pyhmac_sha1_context.h
+++ b/pyhmac/pyhmac_sha1_context.h
@@ -28,6 +28,8 @@
 #include "pyhmac_libhmac.h"
 #include "pyhmac_python.h"
 
+#include <pythread.h>
+
 #if defined( __cplusplus )
 extern "C" {
 #endif
@@ -43,6 +45,10 @@ struct pyhmac_sha1_context
 	/* The libhmac SHA1 context
 	 */
 	libhmac_sha1_context_t *sha1_context;
+
+	/* The lock, which serializes access to the context when the GIL is released
+	 */
+	PyThread_type_lock lock;
 };
 
 extern PyMethodDef pyhmac_sha1_context_object_methods[];
diff --git a/pyhmac/pyhmac_sha224_context.c b/pyhmac/pyhmac_sha224_context.c
index 8f52f7a..78126d8 100644
--- a/pyhmac/pyhmac_sha224_context.c
+++ b/pyhmac/pyhmac_sha224_context.c
@@ -177,6 +177,7 @@ PyObject *pyhmac_sha224_context_new(
 		goto on_error;
 	}
 	pyhmac_sha224_context->sha224_context = NULL;
+	pyhmac_sha224_context->lock = NULL;
 
 	if( pyhmac_sha224_context_init(
 	     pyhmac_sha224_context ) != 0 )
@@ -207,6 +208,7 @@ int pyhmac_sha224_context_init(
 {
 	libcerror_error_t *error = NULL;
 	static char *function    = "pyhmac_sha224_context_init";
+	int result               = 0;
 
 	if( pyhmac_sha224_context == NULL )
 	{
@@ -217,27 +219,46 @@ int pyhmac_sha224_context_init(
 
 		return( -1 );
 	}
-	if( pyhmac_sha224_context->sha224_context != NULL )
+	if( pyhmac_sha224_context->lock == NULL )
 	{
-		if( libhmac_sha224_free(
-		     &( pyhmac_sha224_context->sha224_context ),
-		     &error ) != 1 )
+		pyhmac_sha224_context->lock = PyThread_allocate_lock();
+
+		if( pyhmac_sha224_context->lock == NULL )
 		{
-			pyhmac_error_raise(
-			 error,
+			PyErr_Format(
 			 PyExc_MemoryError,
-			 "%s: unable to free libhmac SHA224 context.",
+			 "%s: unable to create lock.",
 			 function );
 
-			libcerror_error_free(
-			 &error );
-
 			return( -1 );
 		}
 	}
-	if( libhmac_sha224_initialize(
-	     &( pyhmac_sha224_context->sha224_context ),
-	     &error ) != 1 )
+	Py_BEGIN_ALLOW_THREADS
+
+	PyThread_acquire_lock(
+	 pyhmac_sha224_context->lock,
+	 WAIT_LOCK );
+
+	result = 1;
+
+	if( pyhmac_sha224_context->sha224_context != NULL )
+	{
+		result = libhmac_sha224_free(
+		          &( pyhmac_sha224_context->sha224_context ),
+		          &error );
+	}
+	if( result == 1 )
+	{
+		result = libhmac_sha224_initialize(
+		          &( pyhmac_sha224_context->sha224_context ),
+		          &error );
+	}
+	PyThread_release_lock(
+	 pyhmac_sha224_context->lock );
+
+	Py_END_ALLOW_THREADS
+
+	if( result != 1 )
 	{
 		pyhmac_error_raise(
 		 error,
@@ -315,6 +336,13 @@ void pyhmac_sha224_context_free(
 			 &error );
 		}
 	}
+	if( pyhmac_sha224_context->lock != NULL )
+	{
+		PyThread_free_lock(
+		 pyhmac_sha224_context->lock );
+
+		pyhmac_sha224_context->lock = NULL;
+	}
 	ob_type->tp_free(
 	 (PyObject*) pyhmac_sha224_context );
 }
@@ -407,14 +435,30 @@ PyObject *pyhmac_sha224_context_update(
 
 		return( NULL );
 	}
+	if( pyhmac_sha224_context->lock == NULL )
+	{
+		PyErr_Format(
+		 PyExc_ValueError,
+		 "%s: invalid SHA224 context - missing lock.",
+		 function );
+
+		return( NULL );
+	}
 	Py_BEGIN_ALLOW_THREADS
 
+	PyThread_acquire_lock(
+	 pyhmac_sha224_context->lock,
+	 WAIT_LOCK );
+
 	result = libhmac_sha224_update(
 	          pyhmac_sha224_context->sha224_context,
 	          (uint8_t *) data,
 	          (size_t) data_size,
 	          &error );
 
+	PyThread_release_lock(
+	 pyhmac_sha224_context->lock );
+
 	Py_END_ALLOW_THREADS
 
 	if( result != 1 )
@@ -461,14 +505,30 @@ PyObject *pyhmac_sha224_context_finalize(
 
 		return( NULL );
 	}
+	if( pyhmac_sha224_context->lock == NULL )
+	{
+		PyErr_Format(
+		 PyExc_ValueError,
+		 "%s: invalid SHA224 context - missing lock.",
+		 function );
+
+		return( NULL );
+	}
 	Py_BEGIN_ALLOW_THREADS
 
+	PyThread_acquire_lock(
+	 pyhmac_sha224_context->lock,
+	 WAIT_LOCK );
+
 	result = libhmac_sha224_finalize(
 	          pyhmac_sha224_context->sha224_context,
 	          sha224_hash,
 	          LIBHMAC_SHA224_HASH_SIZE,
 	          &error );
 
+	PyThread_release_lock(
+	 pyhmac_sha224_context->lock );
+
 	Py_END_ALLOW_THREADS
 
 	if( result != 1 )
diff --git a/pyhmac/pyhmac_sha224_context.h b/pyhmac/pyhmac_sha224_context.h
index c381abf..1807089 100644
--- a/pyhmac/pyhmac_sha224_context.h
+++ b/pyhmac/pyhmac_sha224_context.h
@@ -28,6 +28,8 @@
 #include "pyhmac_libhmac.h"
 #include "pyhmac_python.h"
 
+#include <pythread.h>
+
 #if defined( __cplusplus )
 extern "C" {
 #endif
@@ -43,6 +45,10 @@ struct pyhmac_sha224_context
 	/* The libhmac SHA224 context
 	 */
 	libhmac_sha224_context_t *sha224_context;
+
+	/* The lock, which serializes access to the context when the GIL is released
+	 */
+	PyThread_type_lock lock;
 };
 
 extern PyMethodDef pyhmac_sha224_context_object_methods[];
diff --git a/pyhmac/pyhmac_sha256_context.c b/pyhmac/pyhmac_sha256_context.c
index 8ba03fb..990cf07 100644
--- a/pyhmac/pyhmac_sha256_context.c
+++ b/pyhmac/pyhmac_sha256_context.c
@@ -177,6 +177,7 @@ PyObject *pyhmac_sha256_context_new(
 		goto on_error;
 	}
 	pyhmac_sha256_context->sha256_context = NULL;
+	pyhmac_sha256_context->lock = NULL;
 
 	if( pyhmac_sha256_context_init(
 	     pyhmac_sha256_context ) != 0 )
@@ -207,6 +208,7 @@ int pyhmac_sha256_context_init(
 {
 	libcerror_error_t *error = NULL;
 	static char *function    = "pyhmac_sha256_context_init";
+	int result               = 0;
 
 	if( pyhmac_sha256_context == NULL )
 	{
@@ -217,27 +219,46 @@ int pyhmac_sha256_context_init(
 
 		return( -1 );
 	}
-	if( pyhmac_sha256_context->sha256_context != NULL )
+	if( pyhmac_sha256_context->lock == NULL )
 	{
-		if( libhmac_sha256_free(
-		     &( pyhmac_sha256_context->sha256_context ),
-		     &error ) != 1 )
+		pyhmac_sha256_context->lock = PyThread_allocate_lock();
+
+		if( pyhmac_sha256_context->lock == NULL )
 		{
-			pyhmac_error_raise(
-			 error,
+			PyErr_Format(
 			 PyExc_MemoryError,
-			 "%s: unable to free libhmac SHA256 context.",
+			 "%s: unable to create lock.",
 			 function );
 
-			libcerror_error_free(
-			 &error );
-
 			return( -1 );
 		}
 	}
-	if( libhmac_sha256_initialize(
-	     &( pyhmac_sha256_context->sha256_context ),
-	     &error ) != 1 )
+	Py_BEGIN_ALLOW_THREADS
+
+	PyThread_acquire_lock(
+	 pyhmac_sha256_context->lock,
+	 WAIT_LOCK );
+
+	result = 1;
+
+	if( pyhmac_sha256_context->sha256_context != NULL )
+	{
+		result = libhmac_sha256_free(
+		          &( pyhmac_sha256_context->sha256_context ),
+		          &error );
+	}
+	if( result == 1 )
+	{
+		result = libhmac_sha256_initialize(
+		          &( pyhmac_sha256_context->sha256_context ),
+		          &error );
+	}
+	PyThread_release_lock(
+	 pyhmac_sha256_context->lock );
+
+	Py_END_ALLOW_THREADS
+
+	if( result != 1 )
 	{
 		pyhmac_error_raise(
 		 error,
@@ -315,6 +336,13 @@ void pyhmac_sha256_context_free(
 			 &error );
 		}
 	}
+	if( pyhmac_sha256_context->lock != NULL )
+	{
+		PyThread_free_lock(
+		 pyhmac_sha256_context->lock );
+
+		pyhmac_sha256_context->lock = NULL;
+	}
 	ob_type->tp_free(
 	 (PyObject*) pyhmac_sha256_context );
 }
@@ -407,14 +435,30 @@ PyObject *pyhmac_sha256_context_update(
 
 		return( NULL );
 	}
+	if( pyhmac_sha256_context->lock == NULL )
+	{
+		PyErr_Format(
+		 PyExc_ValueError,
+		 "%s: invalid SHA256 context - missing lock.",
+		 function );
+
+		return( NULL );
+	}
 	Py_BEGIN_ALLOW_THREADS
 
+	PyThread_acquire_lock(
+	 pyhmac_sha256_context->lock,
+	 WAIT_LOCK );
+
 	result = libhmac_sha256_update(
 	          pyhmac_sha256_context->sha256_context,
 	          (uint8_t *) data,
 	          (size_t) data_size,
 	          &error );
 
+	PyThread_release_lock(
+	 pyhmac_sha256_context->lock );
+
 	Py_END_ALLOW_THREADS
 
 	if( result != 1 )
@@ -461,14 +505,30 @@ PyObject *pyhmac_sha256_context_finalize(
 
 		return( NULL );
 	}
+	if( pyhmac_sha256_context->lock == NULL )
+	{
+		PyErr_Format(
+		 PyExc_ValueError,
+		 "%s: invalid SHA256 context - missing lock.",
+		 function );
+
+		return( NULL );
+	}
 	Py_BEGIN_ALLOW_THREADS
 
+	PyThread_acquire_lock(
+	 pyhmac_sha256_context->lock,
+	 WAIT_LOCK );
+
 	result = libhmac_sha256_finalize(
 	          pyhmac_sha256_context->sha256_context,
 	          sha256_hash,
 	          LIBHMAC_SHA256_HASH_SIZE,
 	          &error );
 
+	PyThread_release_lock(
+	 pyhmac_sha256_context->lock );
+
 	Py_END_ALLOW_THREADS
 
 	if( result != 1 )
diff --git a/pyhmac/pyhmac_sha256_context.h b/pyhmac/pyhmac_sha256_context.h
index d2c09c5..37cb1b7 100644
--- a/pyhmac/pyhmac_sha256_context.h
+++ b/pyhmac/pyhmac_sha256_context.h
@@ -28,6 +28,8 @@
 #include "pyhmac_libhmac.h"
 #include "pyhmac_python.h"
 
+#include <pythread.h>
+
 #if defined( __cplusplus )
 extern "C" {
 #endif
@@ -43,6 +45,10 @@ struct pyhmac_sha256_context
 	/* The libhmac SHA256 context
 	 */
 	libhmac_sha256_context_t *sha256_context;
+
+	/* The lock, which serializes access to the context when the GIL is released
+	 */
+	PyThread_type_lock lock;
 };
 
 extern PyMethodDef pyhmac_sha256_context_object_methods[];
diff --git a/pyhmac/pyhmac_sha512_context.c b/pyhmac/pyhmac_sha512_context.c
index 00d96a3..aec643d 100644
--- a/pyhmac/pyhmac_sha512_context.c
+++ b/pyhmac/pyhmac_sha512_context.c
@@ -177,6 +177,7 @@ PyObject *pyhmac_sha512_context_new(
 		goto on_error;
 	}
 	pyhmac_sha512_context->sha512_context = NULL;
+	pyhmac_sha512_context->lock = NULL;
 
 	if( pyhmac_sha512_context_init(
 	     pyhmac_sha512_context ) != 0 )
@@ -207,6 +208,7 @@ int pyhmac_sha512_context_init(
 {
 	libcerror_error_t *error = NULL;
 	static char *function    = "pyhmac_sha512_context_init";
+	int result               = 0;
 
 	if( pyhmac_sha512_context == NULL )
 	{
@@ -217,27 +219,46 @@ int pyhmac_sha512_context_init(
 
 		return( -1 );
 	}
-	if( pyhmac_sha512_context->sha512_context != NULL )
+	if( pyhmac_sha512_context->lock == NULL )
 	{
-		if( libhmac_sha512_free(
-		     &( pyhmac_sha512_context->sha512_context ),
-		     &error ) != 1 )
+		pyhmac_sha512_context->lock = PyThread_allocate_lock();
+
+		if( pyhmac_sha512_context->lock == NULL )
 		{
-			pyhmac_error_raise(
-			 error,
+			PyErr_Format(
 			 PyExc_MemoryError,
-			 "%s: unable to free libhmac SHA512 context.",
+			 "%s: unable to create lock.",
 			 function );
 
-			libcerror_error_free(
-			 &error );
-
 			return( -1 );
 		}
 	}
-	if( libhmac_sha512_initialize(
-	     &( pyhmac_sha512_context->sha512_context ),
-	     &error ) != 1 )
+	Py_BEGIN_ALLOW_THREADS
+
+	PyThread_acquire_lock(
+	 pyhmac_sha512_context->lock,
+	 WAIT_LOCK );
+
+	result = 1;
+
+	if( pyhmac_sha512_context->sha512_context != NULL )
+	{
+		result = libhmac_sha512_free(
+		          &( pyhmac_sha512_context->sha512_context ),
+		          &error );
+	}
+	if( result == 1 )
+	{
+		result = libhmac_sha512_initialize(
+		          &( pyhmac_sha512_context->sha512_context ),
+		          &error );
+	}
+	PyThread_release_lock(
+	 pyhmac_sha512_context->lock );
+
+	Py_END_ALLOW_THREADS
+
+	if( result != 1 )
 	{
 		pyhmac_error_raise(
 		 error,
@@ -315,6 +336,13 @@ void pyhmac_sha512_context_free(
 			 &error );
 		}
 	}
+	if( pyhmac_sha512_context->lock != NULL )
+	{
+		PyThread_free_lock(
+		 pyhmac_sha512_context->lock );
+
+		pyhmac_sha512_context->lock = NULL;
+	}
 	ob_type->tp_free(
 	 (PyObject*) pyhmac_sha512_context );
 }
@@ -407,14 +435,30 @@ PyObject *pyhmac_sha512_context_update(
 
 		return( NULL );
 	}
+	if( pyhmac_sha512_context->lock == NULL )
+	{
+		PyErr_Format(
+		 PyExc_ValueError,
+		 "%s: invalid SHA512 context - missing lock.",
+		 function );
+
+		return( NULL );
+	}
 	Py_BEGIN_ALLOW_THREADS
 
+	PyThread_acquire_lock(
+	 pyhmac_sha512_context->lock,
+	 WAIT_LOCK );
+
 	result = libhmac_sha512_update(
 	          pyhmac_sha512_context->sha512_context,
 	          (uint8_t *) data,
 	          (size_t) data_size,
 	          &error );
 
+	PyThread_release_lock(
+	 pyhmac_sha512_context->lock );
+
 	Py_END_ALLOW_THREADS
 
 	if( result != 1 )
@@ -461,14 +505,30 @@ PyObject *pyhmac_sha512_context_finalize(
 
 		return( NULL );
 	}
+	if( pyhmac_sha512_context->lock == NULL )
+	{
+		PyErr_Format(
+		 PyExc_ValueError,
+		 "%s: invalid SHA512 context - missing lock.",
+		 function );
+
+		return( NULL );
+	}
 	Py_BEGIN_ALLOW_THREADS
 
+	PyThread_acquire_lock(
+	 pyhmac_sha512_context->lock,
+	 WAIT_LOCK );
+
 	result = libhmac_sha512_finalize(
 	          pyhmac_sha512_context->sha512_context,
 	          sha512_hash,
 	          LIBHMAC_SHA512_HASH_SIZE,
 	          &error );
 
+	PyThread_release_lock(
+	 pyhmac_sha512_context->lock );
+
 	Py_END_ALLOW_THREADS
 
 	if( result != 1 )
diff --git a/pyhmac/pyhmac_sha512_context.h b/pyhmac/pyhmac_sha512_context.h
index 9bd6621..f121fb7 100644
--- a/pyhmac/pyhmac_sha512_context.h
+++ b/pyhmac/pyhmac_sha512_context.h
@@ -28,6 +28,8 @@
 #include "pyhmac_libhmac.h"
 #include "pyhmac_python.h"
 
+#include <pythread.h>
+
 #if defined( __cplusplus )
 extern "C" {
 #endif
@@ -43,6 +45,10 @@ struct pyhmac_sha512_context
 	/* The libhmac SHA512 context
 	 */
 	libhmac_sha512_context_t *sha512_context;
+
+	/* The lock, which serializes access to the context when the GIL is released
+	 */
+	PyThread_type_lock lock;
 };
 
 extern PyMethodDef pyhmac_sha512_context_object_methods[];
-- 
2.43.0


From c6d0dddbeae03e4d77da092ed664f2d1e428877c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:34 +0000
Subject: [PATCH 11/14] fix: continue with the remaining options after an
 unknown one in a group

---
 hmactools/hmactools_getopt.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hmactools/hmactools_getopt.c b/hmactools/hmactools_getopt.c
index 723aff5..d4aae41 100644
--- a/hmactools/hmactools_getopt.c
+++ b/hmactools/hmactools_getopt.c
@@ -129,6 +129,12 @@ system_integer_t hmactools_getopt(
 		{
 			optind++;
 		}
+		else
+		{
+			/* Continue with the remaining options in the group
+			 */
+			next_option = argument_value;
+		}
 		if( ( *options_string != (system_character_t) ':' )
 		 && ( optopt != (system_integer_t) '?' ) )
 		{
-- 
2.43.0


From eccad705152d5dcfb05959ad97b8aa824b900092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:22 +0000
Subject: [PATCH 12/14] fix: read a source without a fixed size, such as a
 pipe, until its end

hmacsum took the size 0 of a pipe for its contents and printed the digest
of no data with exit status 0.
---
 hmactools/sum_handle.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/hmactools/sum_handle.c b/hmactools/sum_handle.c
index 0a655ee..a0f082b 100644
--- a/hmactools/sum_handle.c
+++ b/hmactools/sum_handle.c
@@ -1066,11 +1066,16 @@ int sum_handle_process_input(
 
 		goto on_error;
 	}
-	while( process_count < media_size )
+	/* The size of a source without a fixed size, such as a pipe, is reported as 0
+	 * and therefore is read until there is no more data
+	 */
+	while( ( process_count < media_size )
+	    || ( media_size == 0 ) )
 	{
 		read_size = sum_handle->process_buffer_size;
 
-		if( ( media_size - process_count ) < read_size )
+		if( ( media_size != 0 )
+		 && ( ( media_size - process_count ) < read_size ) )
 		{
 			read_size = (size_t) ( media_size - process_count );
 		}
@@ -1091,6 +1096,11 @@ int sum_handle_process_input(
 
 			goto on_error;
 		}
+		if( ( read_count == 0 )
+		 && ( media_size == 0 ) )
+		{
+			break;
+		}
 		if( read_count == 0 )
 		{
 			libcerror_error_set(
-- 
2.43.0


From 2efa6aa4f4d1f8962f28c420cc9b55096f8054cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:45 +0000
Subject: [PATCH 13/14] fix: do not call notify functions that the library does
 not have in debug builds of pyhmac

---
 pyhmac/pyhmac.c | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/pyhmac/pyhmac.c b/pyhmac/pyhmac.c
index e421f0a..a26e989 100644
--- a/pyhmac/pyhmac.c
+++ b/pyhmac/pyhmac.c
@@ -199,14 +199,6 @@ PyMODINIT_FUNC initpyhmac(
 	PyObject *module           = NULL;
 	PyGILState_STATE gil_state = 0;
 
-#if defined( HAVE_DEBUG_OUTPUT )
-	libhmac_notify_set_stream(
-	 stderr,
-	 NULL );
-	libhmac_notify_set_verbose(
-	 1 );
-#endif
-
 	/* Create the module
 	 * This function must be called before grabbing the GIL
 	 * otherwise the module will segfault on a version mismatch
-- 
2.43.0


From 3ec77cae59b2533b05402dc27df087e2dfcdf75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:19 +0000
Subject: [PATCH 14/14] fix: release the module and check every type when the
 Python module cannot be loaded

PyInit_pyhmac kept the module object when a type could not be prepared and
ignored failures of PyModule_AddObject.
---
 pyhmac/pyhmac.c | 74 ++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 54 insertions(+), 20 deletions(-)

diff --git a/pyhmac/pyhmac.c b/pyhmac/pyhmac.c
index a26e989..29ac208 100644
--- a/pyhmac/pyhmac.c
+++ b/pyhmac/pyhmac.c
@@ -237,10 +237,16 @@ PyMODINIT_FUNC initpyhmac(
 	Py_IncRef(
 	 (PyObject *) &pyhmac_md5_context_type_object );
 
-	PyModule_AddObject(
-	 module,
-	 "md5_context",
-	 (PyObject *) &pyhmac_md5_context_type_object );
+	if( PyModule_AddObject(
+	     module,
+	     "md5_context",
+	     (PyObject *) &pyhmac_md5_context_type_object ) != 0 )
+	{
+		Py_DecRef(
+		 (PyObject *) &pyhmac_md5_context_type_object );
+
+		goto on_error;
+	}
 
 	/* Setup the sha1_context type object
 	 */
@@ -254,10 +260,16 @@ PyMODINIT_FUNC initpyhmac(
 	Py_IncRef(
 	 (PyObject *) &pyhmac_sha1_context_type_object );
 
-	PyModule_AddObject(
-	 module,
-	 "sha1_context",
-	 (PyObject *) &pyhmac_sha1_context_type_object );
+	if( PyModule_AddObject(
+	     module,
+	     "sha1_context",
+	     (PyObject *) &pyhmac_sha1_context_type_object ) != 0 )
+	{
+		Py_DecRef(
+		 (PyObject *) &pyhmac_sha1_context_type_object );
+
+		goto on_error;
+	}
 
 	/* Setup the sha224_context type object
 	 */
@@ -271,10 +283,16 @@ PyMODINIT_FUNC initpyhmac(
 	Py_IncRef(
 	 (PyObject *) &pyhmac_sha224_context_type_object );
 
-	PyModule_AddObject(
-	 module,
-	 "sha224_context",
-	 (PyObject *) &pyhmac_sha224_context_type_object );
+	if( PyModule_AddObject(
+	     module,
+	     "sha224_context",
+	     (PyObject *) &pyhmac_sha224_context_type_object ) != 0 )
+	{
+		Py_DecRef(
+		 (PyObject *) &pyhmac_sha224_context_type_object );
+
+		goto on_error;
+	}
 
 	/* Setup the sha256_context type object
 	 */
@@ -288,10 +306,16 @@ PyMODINIT_FUNC initpyhmac(
 	Py_IncRef(
 	 (PyObject *) &pyhmac_sha256_context_type_object );
 
-	PyModule_AddObject(
-	 module,
-	 "sha256_context",
-	 (PyObject *) &pyhmac_sha256_context_type_object );
+	if( PyModule_AddObject(
+	     module,
+	     "sha256_context",
+	     (PyObject *) &pyhmac_sha256_context_type_object ) != 0 )
+	{
+		Py_DecRef(
+		 (PyObject *) &pyhmac_sha256_context_type_object );
+
+		goto on_error;
+	}
 
 	/* Setup the sha512_context type object
 	 */
@@ -305,10 +329,16 @@ PyMODINIT_FUNC initpyhmac(
 	Py_IncRef(
 	 (PyObject *) &pyhmac_sha512_context_type_object );
 
-	PyModule_AddObject(
-	 module,
-	 "sha512_context",
-	 (PyObject *) &pyhmac_sha512_context_type_object );
+	if( PyModule_AddObject(
+	     module,
+	     "sha512_context",
+	     (PyObject *) &pyhmac_sha512_context_type_object ) != 0 )
+	{
+		Py_DecRef(
+		 (PyObject *) &pyhmac_sha512_context_type_object );
+
+		goto on_error;
+	}
 
 	PyGILState_Release(
 	 gil_state );
@@ -320,6 +350,10 @@ PyMODINIT_FUNC initpyhmac(
 #endif
 
 on_error:
+#if PY_MAJOR_VERSION >= 3
+	Py_DecRef(
+	 module );
+#endif
 	PyGILState_Release(
 	 gil_state );
 
-- 
2.43.0

