/* A shipped fuzz target (ossfuzz/<algorithm>_context_fuzzer.cc, compiled with its
 * entry point renamed to vh_target) under an oracle: what it hands to the library
 * has to be the whole input, what comes back has to be the input's digest.
 * With VH_FUZZ the inputs come from libFuzzer, else from here. */
#include <libhmac.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include <string>
#include <vector>
extern "C" {
#include "ref_hash.h"
#include "vh_track.h"
int vh_target( const uint8_t *data, size_t size );
}
#define CAT_( a, b, c ) a##b##c
#define CAT( a, b, c ) CAT_( a, b, c )
#define REAL( f ) CAT( __real_libhmac_, ALG, f )
#define WRAP( f ) CAT( __wrap_libhmac_, ALG, f )
typedef CAT( libhmac_, ALG, _context_t ) ctx_t;
#define STR_( a ) #a
#define STR( a ) STR_( a )
#define NAME STR( ALG )

static long evals, fails, outputs, fed, faults;
static const uint8_t *cur; static size_t cur_n;
static void fail( const char *k, const char *fmt, ... )
{
	va_list a; char t[ 600 ];
	va_start( a, fmt ); vsnprintf( t, sizeof t, fmt, a ); va_end( a );
	if( fails++ < 20 ) { printf( "FAIL\t%s\t%s, input of %zu bytes\n", k, t, cur_n ); fflush( stdout ); }
#if defined( VH_FUZZ )
	abort();
#endif
}

/* what the library saw of this input */
static int whole, digest_right, any_failed, open_calls;
static std::string stream;
static void result( int rc, const uint8_t *h, size_t n )
{
	unsigned char want[ 64 ];
	if( rc != 1 ) { any_failed++; return; }
	outputs++;
	ref_digest( VH_REF, cur, cur_n, want );
	if( h != NULL && n >= ref_size( VH_REF ) && memcmp( h, want, ref_size( VH_REF ) ) == 0 ) digest_right++;
}
extern "C" {
int REAL( _calculate )( const uint8_t *, size_t, uint8_t *, size_t, libhmac_error_t ** );
int WRAP( _calculate )( const uint8_t *d, size_t n, uint8_t *h, size_t hn, libhmac_error_t **e )
{
	if( n == cur_n && ( d == cur || ( d != NULL && memcmp( d, cur, n ) == 0 ) ) ) whole++;
	open_calls++;
	int rc = REAL( _calculate )( d, n, h, hn, e );
	open_calls--;
	result( rc, h, hn );
	return rc;
}
#define UPDATE( f ) \
int REAL( f )( ctx_t *, const uint8_t *, size_t, libhmac_error_t ** ); \
int WRAP( f )( ctx_t *c, const uint8_t *d, size_t n, libhmac_error_t **e ) \
{ \
	int outer = open_calls++ == 0; \
	if( outer && d != NULL && n <= cur_n ) { stream.append( (const char *) d, n ); } \
	int rc = REAL( f )( c, d, n, e ); \
	open_calls--; \
	if( rc != 1 ) any_failed++; \
	return rc; \
}
UPDATE( _update ) UPDATE( _context_update )
#define FINAL( f ) \
int REAL( f )( ctx_t *, uint8_t *, size_t, libhmac_error_t ** ); \
int WRAP( f )( ctx_t *c, uint8_t *h, size_t n, libhmac_error_t **e ) \
{ \
	int outer = open_calls++ == 0; \
	int rc = REAL( f )( c, h, n, e ); \
	open_calls--; \
	if( outer ) { result( rc, h, n ); if( stream.size() == cur_n && memcmp( stream.data(), cur, cur_n ) == 0 ) whole++; stream.clear(); } \
	return rc; \
}
FINAL( _finalize ) FINAL( _context_finalize )
}

static void judge( int rc, int faulty )
{
	evals++; fed += (long) cur_n;
	if( rc != 0 ) fail( "target-result", "the %s target returns %d", NAME, rc );
	if( vh_live_blocks() != 0 || vh_live_evp() != 0 ) { fail( "target-leak", "the %s target left %ld blocks and %ld provider contexts", NAME, vh_live_blocks(), vh_live_evp() ); }
	if( faulty ) return;
	if( any_failed ) fail( "target-refused", "the library refused what the %s target asked for", NAME );
	else if( !whole ) fail( "target-input", "the %s target did not hash exactly its input", NAME );
	else if( !digest_right ) fail( "target-digest", "no digest of the input came out of the %s target", NAME );
}
static void run( const uint8_t *d, size_t n, int faulty )
{
	cur = d; cur_n = n; whole = digest_right = any_failed = open_calls = 0; stream.clear();
	vh_track_on();
	int rc = vh_target( d, n );
	vh_track_off();
	judge( rc, faulty );
}

#if defined( VH_FUZZ )
extern "C" int LLVMFuzzerTestOneInput( const uint8_t *d, size_t n ) { run( d, n, 0 ); return 0; }
#else
static uint64_t s;
static uint64_t rnd( void ) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545f4914f6cdd1dULL; }
int main( int argc, char **argv )
{
	long n = 3000, seed = 1, page = sysconf( _SC_PAGESIZE ), inputs = 0;
	for( int i = 1; i < argc; i++ ) { if( strncmp( argv[ i ], "n=", 2 ) == 0 ) n = atol( argv[ i ] + 2 ); if( strncmp( argv[ i ], "seed=", 5 ) == 0 ) seed = atol( argv[ i ] + 5 ); }
	s = 0x9e3779b97f4a7c15ULL * (uint64_t) ( seed + 1 );
	size_t room = 4u << 20;
	uint8_t *base = (uint8_t *) mmap( NULL, room + 2 * page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 );
	if( base == (uint8_t *) MAP_FAILED ) return 2;
	mprotect( base, page, PROT_NONE ); mprotect( base + page + room, page, PROT_NONE );
	for( long i = 0; i < n + 700; i++ )
	{
		size_t k = i < 700 ? (size_t) i : ( i % 50 == 0 ? rnd() % room : i % 7 == 0 ? (size_t) 1 << rnd() % 21 : rnd() % 5000 );
		if( i % 7 == 0 && i >= 700 ) k += rnd() % 5 - 2;
		if( k > room ) k = room - 3;
		uint8_t *p = i & 1 ? base + page : base + page + room - k;
		int kind = (int) ( i % 5 );
		mprotect( base + page, room, PROT_READ | PROT_WRITE );
		for( size_t j = 0; j < k; j++ ) p[ j ] = kind == 0 ? 0 : kind == 1 ? 0xff : kind == 2 ? (uint8_t) ( 'a' + j % 26 ) : (uint8_t) rnd();
		mprotect( base + page, room, PROT_READ );      /* an input is only to be read */
		run( p, k, 0 ); inputs++;
		if( i % 16 == 0 && k < 5000 )
			for( int m = 0; m < 4; m++ )
				for( long at = 1; at < 40; at++ )
				{
					vh_fault_arm( m & 1 ? 0 : at, m & 1 ? at : 0, m >> 1 );
					run( p, k, 1 );
					long f = vh_faults_fired();
					vh_fault_disarm();
					if( f == 0 ) break;
					faults++;
				}
	}
	printf( "SAMPLE\t%ld inputs of 0 to %zu bytes in the %s target, %ld digests looked at\n", inputs, room, NAME, outputs );
	printf( "STAT\tinputs given to fuzz targets\t%ld\nSTAT\tbytes given to fuzz targets\t%ld\nSTAT\tfailures injected\t%ld\nSTAT\tdigests compared\t%ld\nSTAT\tevaluations\t%ld\nSTAT\tdistinct\t%ld\nSTAT\tfails\t%ld\nEND\n", inputs, fed, faults, outputs, evals, inputs, fails );
	return fails ? 4 : 0;
}
#endif
