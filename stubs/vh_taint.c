/* hmacsum with marked contents: what a read of the source gives is marked as
 * undefined (for MemorySanitizer or memcheck), the digests that come out are
 * not: they are made to be shown. Between them nothing may depend on a mark. */
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#if defined( __has_feature )
#if __has_feature( memory_sanitizer )
#include <sanitizer/msan_interface.h>
#define MARK( p, n ) __msan_poison( p, n )
#define CLEAN( p, n ) __msan_unpoison( p, n )
#define MARKED( p ) ( __msan_test_shadow( p, 1 ) >= 0 )
#endif
#endif
#if !defined( MARK )
#include <valgrind/memcheck.h>
#define MARK( p, n ) VALGRIND_MAKE_MEM_UNDEFINED( p, n )
#define CLEAN( p, n ) VALGRIND_MAKE_MEM_DEFINED( p, n )
static int marked_( const void *p ) { unsigned char v = 0; return VALGRIND_GET_VBITS( p, &v, 1 ) == 1 && v != 0; }
#define MARKED( p ) marked_( p )
#endif
extern void (*vh_read_hook)( void *p, size_t n );
extern void (*vh_final_hook)( void *md, size_t n ), (*vh_size_hook)( void *p, size_t n );
static long reads, digests;
static void read_hook( void *p, size_t n ) { if( n != 0 ) { MARK( p, n ); reads++; } }
static void final_hook( void *p, size_t n ) { if( n != 0 ) MARK( p, n ); }
static void size_hook( void *p, size_t n ) { CLEAN( p, n ); }
__attribute__(( constructor )) static void start( void ) { vh_read_hook = read_hook; vh_final_hook = final_hook; vh_size_hook = size_hook; }
__attribute__(( destructor )) static void end( void )
{
	const char *s = getenv( "VH_TAINTLOG" ); FILE *f;
	if( s != NULL && ( f = fopen( s, "a" ) ) != NULL ) { fprintf( f, "%ld %ld\n", reads, digests ); fclose( f ); }
}
static void shown( int rc, void *p, size_t n ) { if( rc == 1 && p != NULL && n != 0 ) { digests += MARKED( p ); CLEAN( p, n ); } }
#define T( x ) \
int __real_libhmac_##x##_context_finalize( void *, uint8_t *, size_t, void * ); \
int __wrap_libhmac_##x##_context_finalize( void *c, uint8_t *h, size_t n, void *e ) { int rc = __real_libhmac_##x##_context_finalize( c, h, n, e ); shown( rc, h, n ); return rc; } \
int __real_libhmac_##x##_finalize( void *, uint8_t *, size_t, void * ); \
int __wrap_libhmac_##x##_finalize( void *c, uint8_t *h, size_t n, void *e ) { int rc = __real_libhmac_##x##_finalize( c, h, n, e ); shown( rc, h, n ); return rc; }
T( md5 ) T( sha1 ) T( sha224 ) T( sha256 ) T( sha512 )
