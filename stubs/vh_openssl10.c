/* The EVP digest interface of OpenSSL 1.0 (openssl10/) over the present one. A
 * context that was not initialised, or is used after its clean up, stops the
 * process with a report. */
#define OPENSSL_SUPPRESS_DEPRECATED
#include <openssl/evp.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
typedef struct { void *magic; void *real; const void *digest; unsigned long flags; } vh10_md_ctx;
static char live, done;
static void need( vh10_md_ctx *c, const char *f )
{
	if( c != NULL && c->magic == &live ) return;
	fprintf( stderr, "VH-MISUSE: %s with a context that is %s\n", f, c == NULL ? "NULL" : c->magic == &done ? "cleaned up" : "not initialised" );
	abort();
}
void vh10_init( vh10_md_ctx *c ) { memset( c, 0, sizeof *c ); c->magic = &live; }
int vh10_cleanup( vh10_md_ctx *c )
{
	if( c->magic == &done ) return 1;
	need( c, "EVP_MD_CTX_cleanup" );
	if( c->real != NULL ) EVP_MD_CTX_free( c->real );
	memset( c, 0, sizeof *c ); c->magic = &done;
	return 1;
}
int vh10_digest_init( vh10_md_ctx *c, const EVP_MD *t, ENGINE *e )
{
	need( c, "EVP_DigestInit_ex" );
	if( c->real == NULL && ( c->real = EVP_MD_CTX_new() ) == NULL ) return 0;
	if( t != NULL ) c->digest = t;
	return EVP_DigestInit_ex( c->real, t, e );
}
int vh10_digest_update( vh10_md_ctx *c, const void *d, size_t n )
{
	need( c, "EVP_DigestUpdate" );
	return c->real == NULL ? 0 : EVP_DigestUpdate( c->real, d, n );
}
int vh10_digest_final( vh10_md_ctx *c, unsigned char *m, unsigned int *s )
{
	need( c, "EVP_DigestFinal_ex" );
	return c->real == NULL ? 0 : EVP_DigestFinal_ex( c->real, m, s );
}
vh10_md_ctx *vh10_create( void )
{
	vh10_md_ctx *c = malloc( sizeof *c );
	if( c != NULL ) vh10_init( c );
	return c;
}
void vh10_destroy( vh10_md_ctx *c ) { if( c != NULL ) { vh10_cleanup( c ); free( c ); } }
int vh10_digest_init2( vh10_md_ctx *c, const EVP_MD *t ) { vh10_init( c ); return vh10_digest_init( c, t, NULL ); }
int vh10_digest_final2( vh10_md_ctx *c, unsigned char *m, unsigned int *s ) { int r = vh10_digest_final( c, m, s ); vh10_cleanup( c ); return r; }
void vh10_remove_thread_state( const void *id ) { (void) id; }
void vh10_remove_state( unsigned long id ) { (void) id; }
