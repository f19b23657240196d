/* Independent reference implementation (RFC 1321, FIPS 180-4, RFC 2104), used
 * as the oracle.  It shares no code with /repo and is itself compared with
 * Python's hashlib and hmac at the start of every check that uses it. */
#ifndef REF_HASH_H
#define REF_HASH_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
enum { REF_MD5, REF_SHA1, REF_SHA224, REF_SHA256, REF_SHA512, REF_ALGS };
typedef struct {
	int alg;
	uint32_t s[ 8 ];
	uint64_t q[ 8 ];
	unsigned char buf[ 128 ];
	size_t fill;
	unsigned __int128 total;
} ref_ctx;
size_t ref_size( int alg );
size_t ref_block( int alg );
void ref_init( ref_ctx *c, int alg );
void ref_update( ref_ctx *c, const void *d, size_t n );
void ref_final( const ref_ctx *c, unsigned char *out );   /* does not change c */
void ref_digest( int alg, const void *d, size_t n, unsigned char *out );
void ref_hmac( int alg, const void *k, size_t kn, const void *d, size_t n, unsigned char *out );
#ifdef __cplusplus
}
#endif
#endif
