/* Contents do not steer the code: the bytes of keys and messages are marked (as
 * undefined, for MemorySanitizer or memcheck), the marks follow every value
 * computed from them, and a branch or an address that depends on one is
 * reported where it happens. */
#include "vh_common.h"
#if defined( __has_feature )
#if __has_feature( memory_sanitizer )
#include <sanitizer/msan_interface.h>
#define MARK( p, n ) __msan_poison( p, n )
#define CLEAN( p, n ) __msan_unpoison( p, n )
static long marked( const void *p, size_t n ) { long k = 0; size_t i; for( i = 0; i < n; i++ ) if( __msan_test_shadow( (const char *) p + i, 1 ) >= 0 ) k++; return k; }
#define HOW "MemorySanitizer"
#define VH_TAINT_MSAN 1
#endif
#endif
#if !defined( MARK )
#include <valgrind/memcheck.h>
#define MARK( p, n ) VALGRIND_MAKE_MEM_UNDEFINED( p, n )
#define CLEAN( p, n ) VALGRIND_MAKE_MEM_DEFINED( p, n )
static long marked( const void *p, size_t n ) { unsigned char v[ 64 ]; long k = 0; size_t i; if( VALGRIND_GET_VBITS( p, v, n ) != 1 ) return 0; for( i = 0; i < n; i++ ) if( v[ i ] ) k++; return k; }
#define HOW "memcheck"
#endif

/* What an uninstrumented provider writes carries marks again; its sizes do not */
static void final_hook( void *md, size_t n ) { if( n != 0 ) MARK( md, n ); }
static void size_hook( void *p, size_t n ) { CLEAN( p, n ); }
static long bytes_followed, no_mark, faults;

static const char *shapes[] = { "one-shot digest", "HMAC", "stream", "deprecated stream" };
/* Returns 1 when the calls succeeded */
static int calls( const valg *v, int shape, const unsigned char *k, size_t kn, const unsigned char *m, size_t mn, size_t chunk, unsigned char *out, size_t hs )
{
	verr *e = NULL; vctx *c = NULL; int rc; size_t at, n;
	vh_track_on();
	if( shape == 0 ) rc = v->calc( m, mn, out, hs, &e );
	else if( shape == 1 ) rc = v->hmac( k, kn, m, mn, out, hs, &e );
	else
	{
		rc = ( shape == 2 ? v->init : v->linit )( &c, &e );
		for( at = 0; rc == 1 && at < mn; at += n )
		{
			n = mn - at < chunk ? mn - at : chunk;
			rc = ( shape == 2 ? v->update : v->lupdate )( c, m + at, n, &e );
		}
		if( rc == 1 ) rc = ( shape == 2 ? v->final : v->lfinal )( c, out, hs, &e );
		if( ( shape == 2 ? v->freec : v->lfree )( &c, NULL ) != 1 ) rc = -2;
	}
	vh_track_off();
	libhmac_error_free( &e );
	return rc;
}
int mode_taint( void )
{
	vrng r; long n = argn( "n", 1000 ), i; int a; static unsigned char k[ 70000 ], m[ 70000 ], out[ 64 ], want[ 64 ];
#if !defined( VH_TAINT_MSAN )
	if( RUNNING_ON_VALGRIND == 0 ) { fprintf( stderr, "not under valgrind\n" ); return 1; }
#endif
	vh_final_hook = final_hook; vh_size_hook = size_hook;
	rng_seed( &r, vh_seed, 0x7a1 );
	for( i = 0; i < n; i++ )
		for( a = 0; a < NALG; a++ )
		{
			const valg *v = &A[ a ]; int shape = (int) ( i % 4 ), rc; long f = 0; size_t kn, mn, chunk, hs = v->hs; uint64_t h;
			if( !algsel( a ) ) continue;
			/* every size at first, then any */
			mn = i / 4 < (long) ( 3 * v->bs ) ? (size_t) ( i / 4 ) : rng_size( &r, v->bs, rngn( &r, 40 ) ? 1500 : sizeof m );
			kn = shape != 1 ? 0 : i / 4 < (long) ( 3 * v->bs ) ? (size_t) ( ( i / 4 * 7 ) % (long) ( 3 * v->bs ) ) : rng_size( &r, v->bs, rngn( &r, 40 ) ? 600 : sizeof k );
			chunk = 1 + rng_log( &r, mn );
			rng_natural( &r, k, kn ); rng_natural( &r, m, mn );
			if( rngn( &r, 8 ) == 0 ) hs = rngn( &r, v->hs );       /* refused */
			else if( rngn( &r, 8 ) == 0 ) f = 1 + (long) rngn( &r, 6 );   /* fails inside, perhaps */
			if( shape == 1 ) ref_hmac( v->ref, k, kn, m, mn, want ); else ref_digest( v->ref, m, mn, want );
			vh_case( "%s %s, %zu bytes in pieces of %zu, key %zu, room %zu, failure %ld", v->name, shapes[ shape ], mn, chunk, kn, hs, f );
			memset( out, 0, sizeof out );
			MARK( k, kn ); MARK( m, mn );
			if( f > 0 ) vh_fault_arm( f & 1 ? ( f + 1 ) / 2 : 0, f & 1 ? 0 : f / 2, 0 );
			rc = calls( v, shape, k, kn, m, mn, chunk, out, hs );
			if( f > 0 ) { if( vh_faults_fired() ) { faults++; hs = 0; } vh_fault_disarm(); }
			CLEAN( k, sizeof k ); CLEAN( m, sizeof m ); CLEAN( &rc, sizeof rc );
			vh_eval();
			h = vh_hash( &mn, sizeof mn, (uint64_t) ( a * 4 + shape ) ); h = vh_hash( &kn, sizeof kn, h ); vh_distinct( vh_hash( &hs, sizeof hs, h ) );
			if( hs < v->hs )
			{
				CLEAN( out, sizeof out );
				if( rc == 1 ) vh_fail( "taint-accepted", "%s %s of %zu bytes, key %zu: a call that had to fail returned 1", v->name, shapes[ shape ], mn, kn );
				continue;
			}
			if( mn + kn > 0 ) { long b = marked( out, v->hs ); bytes_followed += b; if( b != (long) v->hs ) no_mark++; }
			CLEAN( out, sizeof out );
			if( rc != 1 || memcmp( out, want, v->hs ) != 0 ) vh_fail( "taint-digest", "%s %s of %zu bytes, key %zu: rc %d %s expected %s", v->name, shapes[ shape ], mn, kn, rc, vh_hex( out, v->hs ), vh_hex( want, v->hs ) );
		}
	vh_stat( "digest bytes that carried the marks of contents (" HOW ")", bytes_followed );
	vh_stat( "digests with a byte without marks (" HOW ")", no_mark );
	vh_stat( "failures inside with marked contents", faults );
	vh_sample( "contents marked for " HOW ", every branch and address watched" );
	return 0;
}
