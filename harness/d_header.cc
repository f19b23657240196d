/* A C++ program of a user of the library: only the public header, every function
 * it declares (list generated from the preprocessed header), and what the
 * declared sizes promise. */
#include <libhmac.h>
#include <libhmac.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>

struct fn { const char *name; void (*address)( void ); };
static const fn fns[] = {
#define F( n ) { #n, (void (*)( void )) n },
#include "vh_declared.h"
};
static int bad, n;
static void fail( const char *k, const char *d ) { printf( "FAIL\t%s\t%s\n", k, d ); bad++; }

typedef int (*calc)( const uint8_t *, size_t, uint8_t *, size_t, libhmac_error_t ** );
typedef int (*keyed)( const uint8_t *, size_t, const uint8_t *, size_t, uint8_t *, size_t, libhmac_error_t ** );

static void hex( const uint8_t *p, size_t k, char *o ) { for( size_t i = 0; i < k; i++ ) snprintf( o + 2 * i, 3, "%02x", p[ i ] ); }
static void one( const char *a, calc c, keyed h, size_t size, const char *digest, const char *mac )
{
	uint8_t out[ 200 ]; char s[ 300 ], d[ 500 ]; libhmac_error_t *e = NULL;
	memset( out, 0xa7, sizeof out );
	if( c( (const uint8_t *) "abc", 3, out, size, &e ) != 1 || e != NULL ) { fail( "header-calculate", a ); return; }
	hex( out, size, s ); n++;
	if( strcmp( s, digest ) != 0 ) { snprintf( d, sizeof d, "%s of abc is %s", a, s ); fail( "header-digest", d ); }
	for( size_t i = size; i < sizeof out; i++ ) if( out[ i ] != 0xa7 ) { fail( "header-size", a ); break; }
	memset( out, 0xa7, sizeof out );
	if( h( (const uint8_t *) "key", 3, (const uint8_t *) "abc", 3, out, size, &e ) != 1 || e != NULL ) { fail( "header-hmac", a ); return; }
	hex( out, size, s ); n++;
	if( strcmp( s, mac ) != 0 ) { snprintf( d, sizeof d, "HMAC %s is %s", a, s ); fail( "header-mac", d ); }
	if( c( (const uint8_t *) "abc", 3, out, size - 1, &e ) != -1 || e == NULL ) { fail( "header-small", a ); return; }
	char t[ 512 ]; n++;
	if( libhmac_error_sprint( e, t, sizeof t ) < 1 || strstr( t, "libhmac_" ) == NULL ) fail( "header-error", t );
	libhmac_error_free( &e );
	if( e != NULL ) fail( "header-error", "not freed" );
}
#define ONE( l, U ) one( #l, libhmac_##l##_calculate, libhmac_##l##_calculate_hmac, LIBHMAC_##U##_HASH_SIZE, argv[ k ], argv[ k + 1 ] ); k += 2;
#define CTX( l, U ) { libhmac_##l##_context_t *x = NULL; uint8_t o[ LIBHMAC_##U##_HASH_SIZE ]; \
	if( libhmac_##l##_initialize( &x, NULL ) != 1 || x == NULL || libhmac_##l##_update( x, (const uint8_t *) "abc", 3, NULL ) != 1 || libhmac_##l##_finalize( x, o, sizeof o, NULL ) != 1 || libhmac_##l##_free( &x, NULL ) != 1 || x != NULL ) fail( "header-context", #l ); \
	uint8_t p[ LIBHMAC_##U##_HASH_SIZE ]; libhmac_##l##_calculate( (const uint8_t *) "abc", 3, p, sizeof p, NULL ); n++; \
	if( memcmp( o, p, sizeof o ) != 0 ) fail( "header-context", #l " differs" ); }
int main( int argc, char **argv )
{
	int k = 2; size_t i;
	if( argc < 12 ) return 2;
	for( i = 0; i < sizeof fns / sizeof *fns; i++ ) { if( fns[ i ].address == NULL ) fail( "header-function", fns[ i ].name ); else n++; }
	if( strcmp( libhmac_get_version(), argv[ 1 ] ) != 0 || strcmp( LIBHMAC_VERSION_STRING, argv[ 1 ] ) != 0 || LIBHMAC_VERSION != strtol( argv[ 1 ], NULL, 10 ) ) fail( "header-version", libhmac_get_version() );
	ONE( md5, MD5 ) ONE( sha1, SHA1 ) ONE( sha224, SHA224 ) ONE( sha256, SHA256 ) ONE( sha512, SHA512 )
	CTX( md5, MD5 ) CTX( sha1, SHA1 ) CTX( sha224, SHA224 ) CTX( sha256, SHA256 ) CTX( sha512, SHA512 )
	printf( "STAT\tdeclared functions\t%d\nSTAT\tevaluations\t%d\nSTAT\tdistinct\t%d\nEND\n", (int) i, n, n );
	return bad ? 1 : 0;
}
