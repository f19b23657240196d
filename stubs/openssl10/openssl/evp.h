/* Stand-in for the EVP digest interface of OpenSSL 1.0, where contexts are
 * structures of the caller; on top of the present one (vh_openssl10.c). */
#if !defined( VH_OPENSSL10_EVP_H )
#define VH_OPENSSL10_EVP_H
#include <stddef.h>
#define EVP_MAX_MD_SIZE 64
#define EVP_MAX_BLOCK_LENGTH 32
#if defined( __cplusplus )
extern "C" {
#endif
typedef struct { void *magic; void *real; const void *digest; unsigned long flags; } vh10_md_ctx;
typedef struct evp_md_st EVP_MD;
typedef struct engine_st ENGINE;
#define EVP_MD_CTX vh10_md_ctx
#define EVP_MD_CTX_init vh10_init
#define EVP_MD_CTX_cleanup vh10_cleanup
#define EVP_DigestInit_ex vh10_digest_init
#define EVP_DigestUpdate vh10_digest_update
#define EVP_DigestFinal_ex vh10_digest_final
#define EVP_MD_CTX_create vh10_create
#define EVP_MD_CTX_destroy vh10_destroy
#define EVP_DigestInit vh10_digest_init2
#define EVP_DigestFinal vh10_digest_final2
#define EVP_MD_CTX_md( c ) ( (const EVP_MD *) ( c )->digest )
#define EVP_MD_size EVP_MD_get_size
#define EVP_MD_block_size EVP_MD_get_block_size
#define EVP_MD_type EVP_MD_get_type
#define EVP_MD_CTX_size( c ) EVP_MD_get_size( EVP_MD_CTX_md( c ) )
#define EVP_MD_CTX_block_size( c ) EVP_MD_get_block_size( EVP_MD_CTX_md( c ) )
int EVP_MD_get_size( const EVP_MD *t );
int EVP_MD_get_block_size( const EVP_MD *t );
int EVP_MD_get_type( const EVP_MD *t );
EVP_MD_CTX *vh10_create( void );
void vh10_destroy( EVP_MD_CTX *c );
int vh10_digest_init2( EVP_MD_CTX *c, const EVP_MD *t );
int vh10_digest_final2( EVP_MD_CTX *c, unsigned char *m, unsigned int *s );
void vh10_init( EVP_MD_CTX *c );
int vh10_cleanup( EVP_MD_CTX *c );
int vh10_digest_init( EVP_MD_CTX *c, const EVP_MD *t, ENGINE *e );
int vh10_digest_update( EVP_MD_CTX *c, const void *d, size_t n );
int vh10_digest_final( EVP_MD_CTX *c, unsigned char *m, unsigned int *s );
const EVP_MD *EVP_md5( void );
const EVP_MD *EVP_sha1( void );
const EVP_MD *EVP_sha224( void );
const EVP_MD *EVP_sha256( void );
const EVP_MD *EVP_sha384( void );
const EVP_MD *EVP_sha512( void );
#if defined( __cplusplus )
}
#endif
#endif
