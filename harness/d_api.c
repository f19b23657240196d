/* Histories of calls: random ones on a pool of contexts with several judges,
 * enumerated invalid calls, faults, secrets, the deprecated interface. */
#include <limits.h>
#include "vh_common.h"

#define SSMAX ( (size_t) SSIZE_MAX )
enum { J_MEM = 1, J_RC = 2, J_DIG = 4, J_ERR = 8, J_LEAK = 16, J_TRACE = 32, W_POST = 64, W_INVALID = 128 };

static void efree( verr **e ) { if( *e != NULL ) libhmac_error_free( e ); }

/* ---------------------------------------------------------------- engine */
typedef struct { int a, state; vctx *c; ref_ctx ref; size_t total; int legacy; } slot_t;  /* state 0 none 1 live 2 finalized */
#define NSLOTS 6
static unsigned char *D; static size_t DN;
static char hist[ 1500 ]; static int histl; static uint64_t trace;

static void hadd( const char *fmt, ... ) __attribute__ ((format (printf, 1, 2)));
#include <stdarg.h>
static void hadd( const char *fmt, ... )
{
	va_list ap; int n;
	if( histl > 1300 ) { memmove( hist, hist + 650, (size_t) histl - 650 ); histl -= 650; memcpy( hist, "...", 3 ); }
	va_start( ap, fmt ); n = vsnprintf( hist + histl, sizeof hist - (size_t) histl, fmt, ap ); va_end( ap );
	if( n > 0 ) histl += n;
	if( histl >= (int) sizeof hist ) histl = sizeof hist - 1;
}

static int J; static vrng R; static long hi;

/* picks how the error place is given: 0 not at all, 1 empty, 2 already holding an error */
typedef struct { int mode; verr *e; int before; } eplace;
static verr **ep( eplace *p )
{
	uint64_t v = rngn( &R, 8 );
	p->e = NULL; p->before = 0;
	p->mode = v == 0 ? 0 : ( v == 1 && ( J & J_ERR ) ) ? 2 : 1;
	if( p->mode == 2 ) { libcerror_error_set( &p->e, 'r', 1, "an earlier error" ); p->before = vh_cerror_messages( p->e ); }
	return p->mode == 0 ? NULL : &p->e;
}
static void judge( const char *op, eplace *p, int rc, int want )
{
	char key[ 100 ];
	vh_eval();
	if( J & J_TRACE ) trace = vh_hash( &rc, sizeof rc, trace ^ (uint64_t) op[ 0 ] );
	if( ( J & J_RC ) && want != 0 && rc != want )
	{
		snprintf( key, sizeof key, "rc-%s", op );
		vh_fail( key, "%s returned %d, expected %d", op, rc, want );
	}
	if( J & J_ERR )
	{
		if( rc != 1 && rc != -1 ) { snprintf( key, sizeof key, "rc-%s", op ); vh_fail( key, "%s returned %d", op, rc ); }
		if( p->mode == 1 && rc == 1 && p->e != NULL ) { snprintf( key, sizeof key, "error-on-success-%s", op ); vh_fail( key, "%s returned 1 and left an error", op ); }
		if( p->mode == 1 && rc != 1 )
		{
			if( p->e == NULL ) { snprintf( key, sizeof key, "no-error-%s", op ); vh_fail( key, "%s returned %d without an error", op, rc ); }
			else
			{
				char t[ 2000 ]; int n;
				if( vh_cerror_messages( p->e ) < 1 ) vh_fail( "empty-error", "%s left an error without a message", op );
				n = libhmac_error_sprint( p->e, t, sizeof t );
				if( n <= 0 || strlen( t ) != (size_t) n ) vh_fail( "error-sprint", "the error of %s does not print: %d", op, n );
				n = libhmac_error_backtrace_sprint( p->e, t, sizeof t );
				if( n <= 0 || strlen( t ) != (size_t) n ) vh_fail( "error-backtrace", "the error of %s has no backtrace: %d", op, n );
				vh_stat( "errors observed", 1 );
			}
		}
		if( p->mode == 2 )
		{
			if( p->e == NULL ) vh_fail( "error-dropped", "%s dropped the caller's earlier error", op );
			else if( rc == 1 && vh_cerror_messages( p->e ) != p->before ) { snprintf( key, sizeof key, "error-on-success-%s", op ); vh_fail( key, "%s returned 1 and added to the error", op ); }
			else if( rc != 1 && vh_cerror_messages( p->e ) <= p->before ) { snprintf( key, sizeof key, "no-error-%s", op ); vh_fail( key, "%s returned %d and added nothing to the error", op, rc ); }
		}
	}
	efree( &p->e );
}
/* w: how many bytes may have changed */
static void wrote( const char *op, vout *o, size_t w )
{
	const char *m = vo_check( o, w );
	if( m != NULL && ( J & J_MEM ) ) { char key[ 60 ]; snprintf( key, sizeof key, "writes-outside-%s", op ); vh_fail( key, "%s: %s", op, m ); }
}
static void inputsame( const char *op, vbuf *b, const unsigned char *img )
{
	if( ( J & J_MEM ) && !vb_same( b, img ) ) vh_fail( "input-changed", "%s changed its input", op );
	vb_release( b );
}
static void digested( const char *op, const valg *v, const unsigned char *got, const unsigned char *want )
{
	if( J & J_TRACE ) trace = vh_hash( got, v->hs, trace );
	if( ( J & J_DIG ) && memcmp( got, want, v->hs ) != 0 )
	{ char key[ 60 ]; snprintf( key, sizeof key, "digest-%s", op ); vh_fail( key, "%s %s gave %s, expected %s", v->name, op, vh_hex( got, v->hs ), vh_hex( want, v->hs ) ); }
}
#define ON vh_track_on()
#define OFF vh_track_off()

static size_t badhs( const valg *v )
{
	switch( rngn( &R, 5 ) )
	{
	case 0: return 0;
	case 1: return v->hs - 1;
	case 2: return SSMAX + 1;
	case 3: return SIZE_MAX;
	default: return rngn( &R, v->hs );
	}
}

static void history( int nops )
{
	slot_t S[ NSLOTS ]; int i, k, rc, inv; eplace P; verr **E; const valg *v; size_t n, kn, hs; vbuf in, kb; vout out; unsigned char *o, want[ 64 ];
	memset( S, 0, sizeof S ); histl = 0; trace = 7;
	for( i = 0; i < nops; i++ )
	{
		slot_t *s = &S[ rngn( &R, NSLOTS ) ]; int op = (int) rngn( &R, 100 ), mode = (int) rngn( &R, NPLACE );
		inv = ( J & W_INVALID ) && rngn( &R, 4 ) == 0;
		if( s->state == 0 && op < 75 && !inv ) op = 0; /* make slots live most of the time */
		if( s->state == 0 && op < 75 && inv && rngn( &R, 2 ) ) op = 0;
		if( op < 12 )
		{
			/* initialize */
			int want_rc;
			if( s->state != 0 )
			{
				vctx *old = s->c;
				if( !inv ) continue;
				hadd( "init-live(%d) ", (int) ( s - S ) ); vh_case( "history %ld: %s", hi, hist );
				E = ep( &P ); ON; rc = A[ s->a ].init( &s->c, E ); OFF;
				judge( "initialize-live", &P, rc, -1 );
				if( s->c != old ) { if( J & J_RC ) vh_fail( "initialize-live-changed", "initialize on a live context changed the pointer" ); s->c = old; }
				continue;
			}
			s->a = (int) rngn( &R, NALG ); v = &A[ s->a ]; s->legacy = rngn( &R, 3 ) == 0; s->c = NULL;
			hadd( "init(%d,%s%s%s) ", (int) ( s - S ), v->name, s->legacy ? ",legacy" : "", inv ? ",NULL" : "" ); vh_case( "history %ld: %s", hi, hist );
			E = ep( &P ); ON; rc = ( s->legacy ? v->linit : v->init )( inv ? NULL : &s->c, E ); OFF;
			want_rc = inv ? -1 : 1;
			judge( inv ? "initialize-null" : "initialize", &P, rc, want_rc );
			if( rc == 1 && !inv ) { s->state = 1; s->total = 0; ref_init( &s->ref, v->ref ); }
			else if( s->c != NULL ) { s->c = NULL; }
		}
		else if( op < 50 )
		{
			if( s->state == 0 && !inv ) continue;
			v = &A[ s->a ];
			if( s->state == 2 && !( J & W_POST ) ) continue;
			n = rng_size( &R, v->bs, rngn( &R, 40 ) == 0 ? DN / 2 : 900 );
			if( inv )
			{
				int kind = (int) rngn( &R, 4 ); unsigned char *b;
				if( s->state == 0 ) kind = 0;
				b = vb_input( 0, mode, D, n, &in );
				hadd( "update-bad(%d,%d,%zu) ", (int) ( s - S ), kind, n ); vh_case( "history %ld: %s", hi, hist );
				E = ep( &P ); ON;
				if( kind == 0 ) rc = ( s->legacy ? v->lupdate : v->update )( NULL, b, n, E );
				else if( kind == 1 ) rc = ( s->legacy ? v->lupdate : v->update )( s->c, NULL, n + 1, E );
				else rc = ( s->legacy ? v->lupdate : v->update )( s->c, b, kind == 2 ? SSMAX + 1 + ( rngn( &R, 3 ) ? 0 : n ) : SIZE_MAX, E );
				OFF;
				judge( "update-invalid", &P, rc, -1 );
				inputsame( "update-invalid", &in, D );
			}
			else
			{
				const unsigned char *src = D + rngn( &R, DN - n );
				vb_input( 0, mode, src, n, &in );
				hadd( "update(%d,%zu) ", (int) ( s - S ), n ); vh_case( "history %ld: %s", hi, hist );
				E = ep( &P ); ON; rc = ( s->legacy ? v->lupdate : v->update )( s->c, in.p, n, E ); OFF;
				judge( s->state == 2 ? "update-after-finalize" : "update", &P, rc, s->state == 2 ? 0 : 1 );
				if( s->state == 1 ) { ref_update( &s->ref, src, n ); s->total += n; }
				inputsame( "update", &in, src );
			}
		}
		else if( op < 65 )
		{
			if( s->state == 0 && !inv ) continue;
			v = &A[ s->a ];
			if( s->state == 2 && !( J & W_POST ) ) continue;
			if( inv )
			{
				int kind = s->state == 0 ? 0 : (int) rngn( &R, 4 ); hs = badhs( v );
				if( kind == 0 && rngn( &R, 2 ) ) hs = v->hs;
				o = vo_get( &out, 1, mode, hs > 500 ? v->hs : hs, &R );
				hadd( "finalize-bad(%d,%d,%zu) ", (int) ( s - S ), kind, hs ); vh_case( "history %ld: %s", hi, hist );
				E = ep( &P ); ON;
				if( kind == 0 ) rc = ( s->legacy ? v->lfinal : v->final )( NULL, o, hs, E );
				else if( kind == 1 ) rc = ( s->legacy ? v->lfinal : v->final )( s->c, NULL, v->hs, E );
				else rc = ( s->legacy ? v->lfinal : v->final )( s->c, o, hs, E );
				OFF;
				judge( "finalize-invalid", &P, rc, s->state == 2 ? 0 : -1 );
				wrote( "finalize-invalid", &out, 0 );
			}
			else
			{
				hs = v->hs + rng_extra( &R );
				o = vo_get( &out, 1, mode, hs, &R );
				hadd( "finalize(%d,%zu) ", (int) ( s - S ), hs ); vh_case( "history %ld: %s", hi, hist );
				E = ep( &P ); ON; rc = ( s->legacy ? v->lfinal : v->final )( s->c, o, hs, E ); OFF;
				judge( s->state == 2 ? "finalize-again" : "finalize", &P, rc, s->state == 2 ? 0 : 1 );
				if( s->state == 1 )
				{
					ref_final( &s->ref, want );
					if( rc == 1 ) digested( "finalize", v, o, want );
					s->state = 2; vh_distinct( vh_hash( want, v->hs, 1 ) );
				}
				wrote( "finalize", &out, v->hs );
			}
		}
		else if( op < 76 )
		{
			if( s->state == 0 && !inv && rngn( &R, 3 ) ) continue;
			v = &A[ s->a ];
			hadd( "free(%d%s) ", (int) ( s - S ), inv ? ",NULL" : s->state == 0 ? ",empty" : "" ); vh_case( "history %ld: %s", hi, hist );
			E = ep( &P ); ON; rc = ( s->legacy ? v->lfree : v->freec )( inv ? NULL : &s->c, E ); OFF;
			judge( inv ? "free-null" : "free", &P, rc, inv ? -1 : 1 );
			if( !inv ) { if( s->c != NULL && ( J & J_RC ) ) vh_fail( "free-keeps-pointer", "free left the context pointer set" ); s->c = NULL; s->state = 0; }
		}
		else if( op < 88 )
		{
			k = (int) rngn( &R, NALG ); v = &A[ k ]; n = rng_size( &R, v->bs, rngn( &R, 40 ) == 0 ? DN / 2 : 900 );
			if( inv )
			{
				int kind = (int) rngn( &R, 4 ); unsigned char *b = vb_input( 0, mode, D, n, &in );
				hs = kind >= 2 ? badhs( v ) : v->hs;
				o = vo_get( &out, 1, mode, hs > 500 ? v->hs : hs, &R );
				hadd( "calc-bad(%s,%d,%zu,%zu) ", v->name, kind, n, hs ); vh_case( "history %ld: %s", hi, hist );
				E = ep( &P ); ON;
				if( kind == 0 ) rc = v->calc( NULL, n + 1, o, hs, E );
				else if( kind == 1 ) rc = rngn( &R, 2 ) ? v->calc( b, n, NULL, hs, E ) : v->calc( b, SSMAX + 1 + n, o, hs, E );
				else rc = v->calc( b, n, o, hs, E );
				OFF;
				judge( "calculate-invalid", &P, rc, -1 );
				wrote( "calculate-invalid", &out, 0 ); inputsame( "calculate-invalid", &in, D );
			}
			else
			{
				const unsigned char *src = D + rngn( &R, DN - n );
				hs = v->hs + rng_extra( &R );
				vb_input( 0, mode, src, n, &in ); o = vo_get( &out, 1, mode, hs, &R );
				hadd( "calc(%s,%zu,%zu) ", v->name, n, hs ); vh_case( "history %ld: %s", hi, hist );
				E = ep( &P ); ON; rc = v->calc( in.p, n, o, hs, E ); OFF;
				judge( "calculate", &P, rc, 1 );
				ref_digest( v->ref, src, n, want );
				if( rc == 1 ) digested( "calculate", v, o, want );
				vh_distinct( vh_hash( want, v->hs, 2 ) );
				wrote( "calculate", &out, v->hs ); inputsame( "calculate", &in, src );
			}
		}
		else
		{
			k = (int) rngn( &R, NALG ); v = &A[ k ]; n = rng_size( &R, v->bs, rngn( &R, 40 ) == 0 ? DN / 2 : 600 ); kn = rng_size( &R, v->bs, 600 );
			if( inv )
			{
				int kind = (int) rngn( &R, 6 ); unsigned char *b = vb_input( 0, mode, D, n, &in ), *kk = vb_input( 2, mode, D + 100, kn, &kb );
				hs = kind >= 4 ? badhs( v ) : v->hs;
				o = vo_get( &out, 1, mode, hs > 500 ? v->hs : hs, &R );
				hadd( "hmac-bad(%s,%d,%zu,%zu,%zu) ", v->name, kind, kn, n, hs ); vh_case( "history %ld: %s", hi, hist );
				E = ep( &P ); ON;
				if( kind == 0 ) rc = v->hmac( NULL, kn + 1, b, n, o, hs, E );
				else if( kind == 1 ) rc = v->hmac( kk, SSMAX + 1 + kn, b, n, o, hs, E );
				else if( kind == 2 ) rc = v->hmac( kk, kn, NULL, n + 1, o, hs, E );
				else if( kind == 3 ) rc = rngn( &R, 2 ) ? v->hmac( kk, kn, b, n, NULL, hs, E ) : v->hmac( kk, kn, b, SSMAX + 1 + n, o, hs, E );
				else rc = v->hmac( kk, kn, b, n, o, hs, E );
				OFF;
				judge( "hmac-invalid", &P, rc, -1 );
				wrote( "hmac-invalid", &out, 0 ); inputsame( "hmac-invalid", &in, D ); inputsame( "hmac-invalid", &kb, D + 100 );
			}
			else
			{
				const unsigned char *src = D + rngn( &R, DN - n ), *ks = D + rngn( &R, DN - kn );
				hs = v->hs + rng_extra( &R );
				vb_input( 0, mode, src, n, &in ); vb_input( 2, mode, ks, kn, &kb ); o = vo_get( &out, 1, mode, hs, &R );
				hadd( "hmac(%s,%zu,%zu,%zu) ", v->name, kn, n, hs ); vh_case( "history %ld: %s", hi, hist );
				E = ep( &P ); ON; rc = v->hmac( kb.p, kn, in.p, n, o, hs, E ); OFF;
				judge( "hmac", &P, rc, 1 );
				ref_hmac( v->ref, ks, kn, src, n, want );
				if( rc == 1 ) digested( "hmac", v, o, want );
				vh_distinct( vh_hash( want, v->hs, 3 ) );
				wrote( "hmac", &out, v->hs ); inputsame( "hmac", &in, src ); inputsame( "hmac", &kb, ks );
			}
		}
		vh_stat( "calls", 1 );
	}
	{
		int live = 0;
		for( i = 0; i < NSLOTS; i++ ) live += S[ i ].state != 0;
		if( ( J & J_LEAK ) && live == 0 && vh_live_blocks() != 0 ) vh_fail( "leak-blocks", "%ld blocks (%zu bytes) held with no context alive", vh_live_blocks(), vh_live_bytes() );
	}
	for( i = 0; i < NSLOTS; i++ ) if( S[ i ].state != 0 )
	{
		hadd( "free(%d) ", i ); vh_case( "history %ld: %s", hi, hist );
		E = ep( &P ); ON; rc = A[ S[ i ].a ].freec( &S[ i ].c, E ); OFF;
		judge( "free", &P, rc, 1 );
	}
	if( J & J_LEAK )
	{
		if( vh_live_blocks() != 0 ) { vh_fail( "leak-blocks", "%ld blocks (%zu bytes) left after every context was freed", vh_live_blocks(), vh_live_bytes() ); }
		if( vh_live_evp() != 0 ) vh_fail( "leak-provider", "%ld crypto provider contexts left after every context was freed", vh_live_evp() );
		if( vh_cerror_live() != 0 ) vh_fail( "leak-errors", "%ld error objects left", vh_cerror_live() );
	}
	if( J & J_TRACE ) printf( "TRACE\t%ld\t%016llx\n", hi, (unsigned long long) trace );
	vh_stat( "histories", 1 );
}

static int run_histories( int judges, uint64_t stream, long dflt )
{
	long n = argn( "n", dflt ), from = argn( "from", 0 );
	J = judges; DN = 40000; D = malloc( DN );
	rng_seed( &R, vh_seed, stream ); rng_fill( &R, D, DN );
	for( hi = from; hi < from + n; hi++ )
	{
		rng_seed( &R, vh_seed, stream + 1 + (uint64_t) hi );
		history( (int) ( 3 + rngn( &R, 60 ) ) );
		if( hi < from + 2 ) vh_sample( "history %ld: %.220s", hi, hist );
	}
	if( vh_total_allocs() == 0 && ( judges & J_LEAK ) ) { fprintf( stderr, "no allocation was observed\n" ); return 1; }
	vh_stat( "allocations observed", vh_total_allocs() );
	free( D );
	return 0;
}

int mode_seq( void )
{
	const char *w = arg( "judge", "mem" );
	if( strcmp( w, "mem" ) == 0 ) return run_histories( J_MEM | W_POST | W_INVALID, 1 << 20, 3000 );
	if( strcmp( w, "inter" ) == 0 ) return run_histories( J_DIG, 2 << 20, 3000 );
	if( strcmp( w, "rc" ) == 0 ) return run_histories( J_RC | J_DIG | W_INVALID, 3 << 20, 3000 );
	if( strcmp( w, "trace" ) == 0 ) return run_histories( J_TRACE | W_INVALID, 4 << 20, 3000 );
	return 1;
}
int mode_error( void ) { return run_histories( J_ERR | W_INVALID | W_POST, 5 << 20, 3000 ); }
int mode_leak( void ) { return run_histories( J_LEAK | W_INVALID | W_POST, 6 << 20, 3000 ); }

/* ---------------------------------------------------------------- invalid calls, enumerated
 * Every invalid call in every kind of context state, then the twin that never
 * saw it must give the same digest. */
static const char *pos_text( size_t pos ) { static char b[ 40 ]; snprintf( b, sizeof b, "after %zu bytes", pos ); return b; }
#define EXPECT( cond, key, ... ) do { if( !( cond ) ) vh_fail( key, __VA_ARGS__ ); } while( 0 )

int mode_invalid( void )
{
	int a, kind, leg; size_t p, q; verr *E = NULL; static const int off[] = { 0, 1, 3, 8, -1, -8, -9, -10, 5 };
	unsigned char buf[ 1024 ], h1[ 200 ], h2[ 200 ], img[ 200 ], ks[ 100 ]; size_t sizes[ 12 ]; int ns; vrng r;
	rng_seed( &r, vh_seed, 4242 ); rng_fill( &r, buf, sizeof buf ); rng_fill( &r, img, sizeof img ); rng_fill( &r, ks, sizeof ks );
	for( a = 0; a < NALG; a++ ) for( leg = 0; leg < 2; leg++ )
	{
		const valg *v = &A[ a ];
		int (*init)( vctx **, verr ** ) = leg ? v->linit : v->init; int (*freec)( vctx **, verr ** ) = leg ? v->lfree : v->freec;
		int (*update)( vctx *, const uint8_t *, size_t, verr ** ) = leg ? v->lupdate : v->update; int (*final)( vctx *, uint8_t *, size_t, verr ** ) = leg ? v->lfinal : v->final;
		size_t hbad[ 80 ]; int nh = 0, i;
		if( !algsel( a ) ) continue;
		for( i = 0; i < (int) v->hs; i++ ) hbad[ nh++ ] = (size_t) i;
		hbad[ nh++ ] = SSMAX + 1; hbad[ nh++ ] = SSMAX + v->hs; hbad[ nh++ ] = SIZE_MAX; hbad[ nh++ ] = SIZE_MAX - v->hs;
		sizes[ 0 ] = SSMAX + 1; sizes[ 1 ] = SSMAX + 2; sizes[ 2 ] = SSMAX + 64; sizes[ 3 ] = SIZE_MAX; sizes[ 4 ] = SIZE_MAX - 63; sizes[ 5 ] = SIZE_MAX / 2 + 1000; sizes[ 6 ] = SSMAX + ( (size_t) 1 << 32 ); ns = 7;
		/* on nothing */
		vh_case( "%s calls without a context (%s)", v->name, leg ? "deprecated interface" : "context interface" );
		EXPECT( init( NULL, &E ) == -1 && E != NULL, "init-null", "%s initialize(NULL) accepted", v->name ); efree( &E );
		EXPECT( freec( NULL, &E ) == -1 && E != NULL, "free-null", "%s free(NULL) accepted", v->name ); efree( &E );
		{ vctx *c = NULL; EXPECT( freec( &c, &E ) == 1 && E == NULL && c == NULL, "free-empty", "%s free of an empty place failed", v->name ); efree( &E ); }
		EXPECT( update( NULL, buf, 3, &E ) == -1 && E != NULL, "update-nocontext", "%s update(NULL context) accepted", v->name ); efree( &E );
		memcpy( h1, img, sizeof h1 );
		EXPECT( final( NULL, h1, v->hs, &E ) == -1 && E != NULL && memcmp( h1, img, sizeof h1 ) == 0, "finalize-nocontext", "%s finalize(NULL context) accepted or wrote", v->name ); efree( &E );
		/* every position in the stream x every invalid call x what comes after */
		for( p = 0; p < 24; p++ )
		{
			long pl = p < 9 ? (long) off[ p ] : p < 18 ? (long) v->bs + off[ p - 9 ] : p == 18 ? (long) v->bs / 2 : (long) rngn( &r, 3 * v->bs );
			size_t pos = pl < 0 ? v->bs : (size_t) pl;
			for( kind = 0; kind < 4 + ns + nh; kind++ )
				for( q = 0; q < 3; q++ )
				{
					vctx *c = NULL, *t = NULL, *old; int rc = 0; size_t rest = q == 0 ? 0 : q == 1 ? 1 + ( pos * 7 + (size_t) kind ) % v->bs : v->bs + 3; const char *what = "?";
					if( vh_quick && ( (size_t) kind + p + q + vh_seed ) % 2 == 1 && kind > 4 ) continue;
					if( init( &c, NULL ) != 1 || v->init( &t, NULL ) != 1 ) return 1;
					update( c, buf, pos, NULL ); v->update( t, buf, pos, NULL );
					memcpy( h1, img, sizeof h1 ); memcpy( h2, img, sizeof h2 ); old = c;
					vh_case( "%s invalid call %d %s then %zu bytes (%s)", v->name, kind, pos_text( pos ), rest, leg ? "deprecated interface" : "context interface" );
					if( kind == 0 ) { what = "initialize over a live context"; rc = init( &c, &E ); }
					else if( kind == 1 ) { what = "update(NULL buffer)"; rc = update( c, NULL, 1 + rest, &E ); }
					else if( kind == 2 ) { what = "finalize(NULL hash)"; rc = final( c, NULL, v->hs, &E ); }
					else if( kind == 3 ) { what = "free(NULL)"; rc = freec( NULL, &E ); }
					else if( kind < 4 + ns ) { what = "update(size too large)"; rc = update( c, buf, sizes[ kind - 4 ], &E ); }
					else { what = "finalize(bad hash size)"; rc = final( c, h1, hbad[ kind - 4 - ns ], &E ); }
					vh_eval(); vh_distinct( vh_hash( &kind, sizeof kind, pos * 16 + rest * 3 + (uint64_t) a * 2 + (uint64_t) leg ) );
					EXPECT( rc == -1, "invalid-accepted", "%s %s (%d): returned %d", v->name, what, kind, rc );
					EXPECT( E != NULL, "invalid-no-error", "%s %s: no error", v->name, what );
					EXPECT( c == old, "invalid-pointer", "%s %s changed the context pointer", v->name, what );
					EXPECT( memcmp( h1, img, sizeof h1 ) == 0, "invalid-wrote", "%s %s wrote to the result buffer", v->name, what );
					efree( &E );
					if( c != old ) { c = old; }
					if( rc == -1 )
					{
						int r1, r2, r3, r4;
						r1 = update( c, buf + 300, rest, NULL ); r2 = v->update( t, buf + 300, rest, NULL );
						r3 = final( c, h1, v->hs, NULL ); r4 = v->final( t, h2, v->hs, NULL );
						EXPECT( r1 == r2 && r3 == r4 && memcmp( h1, h2, v->hs ) == 0, "invalid-effect", "%s %s (%d) changed the outcome: %d/%d %d/%d %s / %s", v->name, what, kind, r1, r2, r3, r4, vh_hex( h1, v->hs ), vh_hex( h2, v->hs ) );
					}
					freec( &c, NULL ); v->freec( &t, NULL );
				}
		}
		/* the same calls twice or three times in a row: no drift */
		for( p = 0; p < 40; p++ )
		{
			vctx *c = NULL, *t = NULL; int i2; size_t pos = rngn( &r, 2 * v->bs );
			init( &c, NULL ); v->init( &t, NULL );
			vh_case( "%s runs of invalid calls at %zu", v->name, pos );
			for( i2 = 0; i2 < 12; i2++ )
			{
				size_t n = rngn( &r, 100 ); int rc = -1;
				switch( rngn( &r, 4 ) )
				{
				case 0: rc = update( c, buf, sizes[ rngn( &r, (uint64_t) ns ) ], &E ); break;
				case 1: rc = final( c, h1, hbad[ rngn( &r, (uint64_t) nh ) ], &E ); break;
				case 2: rc = update( c, NULL, 1 + n, &E ); break;
				default: update( c, buf + pos, n, &E ); v->update( t, buf + pos, n, NULL ); break;
				}
				EXPECT( rc == -1, "invalid-accepted", "%s invalid call in a run accepted: %d", v->name, rc );
				efree( &E );
			}
			final( c, h1, v->hs, NULL ); v->final( t, h2, v->hs, NULL ); vh_eval();
			EXPECT( memcmp( h1, h2, v->hs ) == 0, "invalid-effect", "%s a run of invalid calls changed the digest", v->name );
			freec( &c, NULL ); v->freec( &t, NULL );
		}
		if( leg ) continue;
		/* one-shot calls */
		for( kind = 0; kind < nh + ns * 3 + 8; kind++ ) for( q = 0; q < 4; q++ )
		{
			int rc = 0; size_t n = q == 0 ? 0 : q == 1 ? 10 : q == 2 ? v->bs : 300, kn = q == 1 ? 0 : q == 0 ? 20 : q == 2 ? v->bs : v->bs + 30; int hm, k = kind;
			if( kn > sizeof ks ) kn = 90;
			for( hm = 0; hm < 2; hm++ )
			{
				memcpy( h1, img, sizeof h1 );
				vh_case( "%s %s invalid kind %d with message %zu key %zu", v->name, hm ? "HMAC" : "one-shot", kind, n, kn );
				if( k < nh ) rc = hm ? v->hmac( ks, kn, buf, n, h1, hbad[ k ], &E ) : v->calc( buf, n, h1, hbad[ k ], &E );
				else if( k < nh + ns ) rc = hm ? v->hmac( ks, kn, buf, sizes[ k - nh ], h1, v->hs, &E ) : v->calc( buf, sizes[ k - nh ], h1, v->hs, &E );
				else if( k < nh + 2 * ns ) { if( !hm ) continue; rc = v->hmac( ks, sizes[ k - nh - ns ], buf, n, h1, v->hs, &E ); }
				else if( k == nh + 3 * ns ) rc = hm ? v->hmac( ks, kn, NULL, n + 1, h1, v->hs, &E ) : v->calc( NULL, n + 1, h1, v->hs, &E );
				else if( k == nh + 3 * ns + 1 ) rc = hm ? v->hmac( ks, kn, buf, n, NULL, v->hs, &E ) : v->calc( buf, n, NULL, v->hs, &E );
				else if( k == nh + 3 * ns + 2 ) { if( !hm ) continue; rc = v->hmac( NULL, kn + 1, buf, n, h1, v->hs, &E ); }
				else continue;
				vh_eval(); vh_distinct( vh_hash( &k, sizeof k, n * 64 + kn * 4 + (uint64_t) a * 7 + (uint64_t) hm + 1000 ) );
				EXPECT( rc == -1, "invalid-accepted", "%s %s invalid kind %d: returned %d", v->name, hm ? "HMAC" : "one-shot", k, rc );
				EXPECT( E != NULL, "invalid-no-error", "%s %s invalid kind %d: no error", v->name, hm ? "HMAC" : "one-shot", k );
				EXPECT( memcmp( h1, img, sizeof h1 ) == 0, "invalid-wrote", "%s %s invalid kind %d wrote to the result buffer", v->name, hm ? "HMAC" : "one-shot", k );
				efree( &E );
			}
		}
		vh_sample( "%s: %d kinds of invalid calls at 24 positions of the stream, then compared with a context that never saw them", v->name, 4 + ns + nh );
	}
	return 0;
}

/* ---------------------------------------------------------------- faults */
static int scenario( int s, const valg *v, const unsigned char *d, size_t n, const unsigned char *k, size_t kn, unsigned char *o, verr **e, char *log, size_t logn )
{
	vctx *c = NULL; int r = 1, r2, i; size_t half = n / 3; verr *e2 = NULL; log[ 0 ] = 0;
	if( s == 0 ) return v->calc( d, n, o, v->hs, e );
	if( s == 1 || s == 2 ) return v->hmac( k, kn, d, n, o, v->hs, e );
	/* s 3: context interface, s 4: deprecated, s 5: all updates attempted even after a failure */
	r = ( s == 4 ? v->linit : v->init )( &c, e );
	if( r != 1 )
	{
		if( c != NULL ) { snprintf( log, logn, "a failed initialize left the context pointer set" ); c = NULL; }
		return r;
	}
	if( c == NULL ) { snprintf( log, logn, "initialize succeeded without a context" ); return -1; }
	for( i = 0; i < 3 && ( r == 1 || s == 5 ); i++ )
	{
		r2 = ( s == 4 ? v->lupdate : v->update )( c, d + ( i == 0 ? 0 : i == 1 ? half : 2 * half ), i < 2 ? half : n - 2 * half, r == 1 ? e : &e2 );
		if( r == 1 ) r = r2;
		efree( &e2 );
	}
	if( r == 1 ) r = ( s == 4 ? v->lfinal : v->final )( c, o, v->hs, e );
	else if( s == 5 ) { unsigned char z[ 64 ]; v->final( c, z, v->hs, &e2 ); efree( &e2 ); }
	r2 = ( s == 4 ? v->lfree : v->freec )( &c, &e2 );
	if( r2 != 1 && e2 == NULL ) snprintf( log, logn, "a failed free left no error" );
	if( c != NULL && r2 == 1 ) snprintf( log, logn, "free left the context pointer set" );
	efree( &e2 );
	return r;
}

int mode_fault( void )
{
	int a, s, which, pers, z; static const size_t ns[] = { 0, 5, 64, 200, 1000 }; unsigned char buf[ 1200 ], key[ 300 ], o[ 64 ], want[ 64 ]; vrng r; verr *e = NULL; char log[ 200 ];
	rng_seed( &r, vh_seed, 777 );
	for( a = 0; a < NALG; a++ ) for( s = 0; s < 6; s++ ) for( z = 0; z < 5; z++ )
	{
		const valg *v = &A[ a ]; size_t n = ns[ z ] + ( z == 4 ? rngn( &r, 150 ) : 0 ), kn = s == 2 ? v->bs + 1 + rngn( &r, 100 ) : 1 + rngn( &r, v->bs );
		if( !algsel( a ) ) continue;
		rng_fill( &r, buf, n ); rng_fill( &r, key, kn );
		if( s == 1 || s == 2 ) ref_hmac( v->ref, key, kn, buf, n, want ); else ref_digest( v->ref, buf, n, want );
		for( which = 0; which < 2; which++ ) for( pers = 0; pers < 2; pers++ )
		{
			long k; int rc, fired = 0;
			for( k = 1; k < 400; k++ )
			{
				long points;
				memset( o, 0xC3, sizeof o );
				vh_case( "%s scenario %d (0 one-shot 1 HMAC 2 HMAC long key 3 context 4 deprecated 5 context, going on) %zu bytes: %s %ld fails%s", v->name, s, n, which ? "provider call" : "allocation", k, pers ? " and all later ones" : "" );
				vh_fault_arm( which ? 0 : k, which ? k : 0, pers );
				vh_track_on(); rc = scenario( s, v, buf, n, key, kn, o, &e, log, sizeof log ); vh_track_off();
				fired = (int) vh_faults_fired(); points = which ? vh_crypto_count() : vh_alloc_count();
				vh_fault_disarm();
				vh_eval();
				if( log[ 0 ] ) vh_fail( "fault-state", "%s", log );
				if( rc == 1 )
				{
					if( memcmp( o, want, v->hs ) != 0 ) vh_fail( "fault-wrong-digest", "reported success with %s, expected %s", vh_hex( o, v->hs ), vh_hex( want, v->hs ) );
					if( e != NULL ) vh_fail( "fault-error-on-success", "success with an error set" );
				}
				else
				{
					if( rc != -1 ) vh_fail( "fault-rc", "returned %d", rc );
					if( e == NULL ) vh_fail( "fault-no-error", "failed without an error" );
					if( !fired ) vh_fail( "fault-failed-alone", "failed although nothing was injected" );
				}
				efree( &e );
				if( vh_live_blocks() != 0 ) { vh_fail( "fault-leak", "%ld blocks (%zu bytes) leaked", vh_live_blocks(), vh_live_bytes() ); }
				if( vh_live_evp() != 0 ) { vh_fail( "fault-leak-provider", "%ld provider contexts leaked", vh_live_evp() ); }
				if( vh_cerror_live() != 0 ) vh_fail( "fault-leak-error", "error objects leaked" );
				if( fired )
				{
					vh_distinct( (uint64_t) k * 1000003 + (uint64_t) ( ( ( a * 6 + s ) * 5 + z ) * 4 + which * 2 + pers ) );
					vh_stat( which ? "provider failures injected" : "allocation failures injected", fired );
					vh_stat( "failures reported", rc == -1 );
				}
				/* afterwards the library works */
				memset( o, 0xC3, sizeof o );
				vh_track_on(); rc = scenario( s, v, buf, n, key, kn, o, &e, log, sizeof log ); vh_track_off();
				if( rc != 1 || memcmp( o, want, v->hs ) != 0 ) vh_fail( "fault-retry", "the same operation without faults afterwards returned %d, %s", rc, vh_hex( o, v->hs ) );
				efree( &e );
				if( !fired ) { (void) points; break; }
			}
			if( z == 3 ) vh_sample( "%s scenario %d: each of %ld %s failed in turn%s", v->name, s, k - 1, which ? "provider calls" : "allocations", pers ? " together with all later ones" : "" );
		}
	}
	return 0;
}

/* random histories on a pool of contexts, with failures here and there: what
 * is hit may fail and then only has to be releasable; all else goes on */
int mode_faultseq( void )
{
	long n = argn( "n", 1000 ), from = argn( "from", 0 ), q; static unsigned char data[ 6000 ];
	rng_seed( &R, vh_seed, 12 ); rng_fill( &R, data, sizeof data );
	for( q = from; q < from + n; q++ )
	{
		struct { int a, st, leg; vctx *c; ref_ctx ref; } S[ 5 ], *s; int i, nops = 4 + (int) rngn( &R, 40 ), rc, had; long left;
		rng_seed( &R, vh_seed, 0xFA0000000ULL + (uint64_t) q );
		memset( S, 0, sizeof S ); histl = 0; hi = q;
		for( i = 0; i < nops + 5; i++ )
		{
			const valg *v; int op = (int) rngn( &R, 10 ), hit, alone; long at = 0, cr = 0; int pers = 0; verr *e = NULL; unsigned char o[ 64 ], want[ 64 ]; size_t k = 0, kk = 0; const char *what = ""; const unsigned char *p = data + rngn( &R, 3000 ), *kp = data + rngn( &R, 3000 );
			s = &S[ rngn( &R, 5 ) ];
			if( i >= nops ) { s = &S[ i - nops ]; op = 9; }
			if( s->st == 0 && op < 7 ) op = 0; else if( s->st != 0 && op == 0 ) op = 1;
			if( s->st == 0 && op == 9 ) continue;
			if( s->st == 0 && op == 0 ) { s->a = (int) rngn( &R, NALG ); s->leg = rngn( &R, 4 ) == 0; }
			v = &A[ op == 7 || op == 8 ? (int) rngn( &R, NALG ) : s->a ];
			had = rngn( &R, 4 ) != 0;
			if( i < nops && rngn( &R, 3 ) == 0 )
			{
				if( rngn( &R, 2 ) ) at = 1 + (long) rngn( &R, 4 ); else cr = 1 + (long) rngn( &R, rngn( &R, 2 ) ? 3 : 12 );
				if( rngn( &R, 6 ) == 0 ) { at = 1 + (long) rngn( &R, 3 ); cr = 1 + (long) rngn( &R, 5 ); }
				pers = (int) rngn( &R, 2 );
			}
			memset( o, 0xC3, sizeof o );
			k = rng_size( &R, v->bs, 600 ); kk = rng_size( &R, v->bs, 400 );
			what = op == 0 ? "initialize" : op < 5 ? "update" : op < 7 ? "finalize" : op == 7 ? "one-shot" : op == 8 ? "HMAC" : "free";
			hadd( "%s(%d,%s,%zu%s%s) ", what, (int) ( s - S ), v->name, k, at ? " alloc!" : "", cr ? " provider!" : "" );
			vh_case( "history %ld: %s", q, hist );
			if( op > 0 && op < 7 && s->st == 2 && rngn( &R, 3 ) ) continue;   /* seldom after the end */
			vh_fault_arm( at, cr, pers );
			ON;
			switch( op )
			{
			case 0: rc = ( s->leg ? v->linit : v->init )( &s->c, had ? &e : NULL ); break;
			case 1: case 2: case 3: case 4: rc = ( s->leg ? v->lupdate : v->update )( s->c, p, k, had ? &e : NULL ); break;
			case 5: case 6: rc = ( s->leg ? v->lfinal : v->final )( s->c, o, v->hs, had ? &e : NULL ); break;
			case 7: rc = v->calc( p, k, o, v->hs, had ? &e : NULL ); break;
			case 8: rc = v->hmac( kp, kk, p, k, o, v->hs, had ? &e : NULL ); break;
			default: rc = ( s->leg ? v->lfree : v->freec )( &s->c, had ? &e : NULL ); break;
			}
			OFF;
			hit = vh_faults_fired() > 0; vh_fault_disarm(); vh_eval();
			alone = !hit && s->st != 3 && !( s->st == 2 && op > 0 && op < 7 );
			if( hit ) { vh_stat( "operations hit by failures", 1 ); vh_distinct( vh_hash( hist, (size_t) histl, (uint64_t) q ) ); }
			if( rc != 1 && rc != -1 ) vh_fail( "fault-rc", "%s returned %d", what, rc );
			if( rc != 1 && ( alone || ( op >= 7 && !hit ) ) ) vh_fail( "fault-failed-alone", "%s %s failed although nothing was injected into it", v->name, what );
			if( had && rc != 1 && e == NULL ) vh_fail( "fault-no-error", "%s %s failed without an error", v->name, what );
			if( had && rc == 1 && e != NULL ) vh_fail( "fault-error-on-success", "%s %s succeeded with an error set", v->name, what );
			efree( &e );
			if( op == 0 )
			{
				if( rc == 1 && s->c == NULL ) { vh_fail( "fault-state", "initialize succeeded without a context" ); continue; }
				if( rc != 1 && s->c != NULL ) { vh_fail( "fault-state", "a failed initialize left the context pointer set" ); s->c = NULL; }
				if( rc == 1 ) { s->st = 1; ref_init( &s->ref, v->ref ); }
			}
			else if( op < 5 )
			{
				if( s->st == 1 ) { if( rc == 1 ) ref_update( &s->ref, p, k ); else s->st = 3; }
			}
			else if( op < 7 )
			{
				if( s->st == 1 )
				{
					if( rc == 1 )
					{
						ref_final( &s->ref, want );
						if( memcmp( o, want, v->hs ) != 0 ) vh_fail( "fault-wrong-digest", "finalize reported success with %s, expected %s", vh_hex( o, v->hs ), vh_hex( want, v->hs ) );
						vh_stat( "digests compared", 1 );
					}
					s->st = rc == 1 ? 2 : 3;
				}
			}
			else if( op < 9 )
			{
				if( rc == 1 )
				{
					if( op == 7 ) ref_digest( v->ref, p, k, want ); else ref_hmac( v->ref, kp, kk, p, k, want );
					if( memcmp( o, want, v->hs ) != 0 ) vh_fail( "fault-wrong-digest", "%s reported success with %s, expected %s", what, vh_hex( o, v->hs ), vh_hex( want, v->hs ) );
					vh_stat( "digests compared", 1 );
				}
			}
			else
			{
				if( rc == 1 && s->c != NULL ) { vh_fail( "fault-state", "free left the context pointer set" ); s->c = NULL; }
				if( rc != 1 && !hit ) vh_fail( "fault-free", "free failed although nothing was injected into it" );
				if( s->c == NULL || rc == 1 ) { s->c = NULL; s->st = 0; }
			}
		}
		for( i = 0; i < 5; i++ ) if( S[ i ].c != NULL ) { ON; A[ S[ i ].a ].freec( &S[ i ].c, NULL ); OFF; }
		left = vh_live_blocks();
		if( left != 0 ) { vh_fail( "fault-leak", "%ld blocks (%zu bytes) leaked", left, vh_live_bytes() ); break; }
		if( vh_live_evp() != 0 ) { vh_fail( "fault-leak-provider", "%ld provider contexts leaked", vh_live_evp() ); break; }
		if( vh_cerror_live() != 0 ) { vh_fail( "fault-leak-error", "error objects leaked" ); break; }
		if( q < from + 2 ) vh_sample( "history %ld: %s", q, hist );
	}
	vh_stat( "histories with failures", n );
	return 0;
}

/* ---------------------------------------------------------------- secrets */
static struct { unsigned char b[ 4 ][ 400 ]; size_t n[ 4 ]; const char *what[ 4 ]; int k; } SEC;
static long scanned, scanned_bytes; static size_t sec_bs;
#define WIN 7
static void sec_set( int i, const unsigned char *d, size_t n, unsigned char x, const char *what )
{
	size_t j; if( n > 400 ) n = 400;
	for( j = 0; j < n; j++ ) SEC.b[ i ][ j ] = d[ j ] ^ x;
	SEC.n[ i ] = n; SEC.what[ i ] = what; if( SEC.k <= i ) SEC.k = i + 1;
}
static unsigned char sec_map[ 8192 ];            /* first two bytes of every window */
static void sec_ready( void )
{
	int i; size_t j; unsigned w;
	memset( sec_map, 0, sizeof sec_map );
	for( i = 0; i < SEC.k; i++ ) for( j = 0; j + WIN <= SEC.n[ i ]; j++ ) { w = (unsigned) ( SEC.b[ i ][ j ] << 8 | SEC.b[ i ][ j + 1 ] ); sec_map[ w >> 3 ] |= (unsigned char) ( 1 << ( w & 7 ) ); }
}
static int found( const unsigned char *p, size_t n, const char **what )
{
	int i; size_t j, x; unsigned w;
	for( x = 0; x + WIN <= n; x++ )
	{
		w = (unsigned) ( p[ x ] << 8 | p[ x + 1 ] );
		if( !( sec_map[ w >> 3 ] & ( 1 << ( w & 7 ) ) ) ) continue;
		for( i = 0; i < SEC.k; i++ ) for( j = 0; j + WIN <= SEC.n[ i ]; j++ )
			if( memcmp( p + x, SEC.b[ i ] + j, WIN ) == 0 ) { *what = SEC.what[ i ]; return 1; }
	}
	return 0;
}
static void on_free( void *p, size_t n )
{
	const char *what;
	scanned++; scanned_bytes += (long) n;
	if( found( p, n, &what ) ) { char kk[ 100 ]; snprintf( kk, sizeof kk, "secret-released: %s", what ); vh_fail( kk, "a released block of %zu bytes still holds %s", n, what ); }
}

#define KMAX ( (size_t) 140000 )
int mode_secret( void )
{
	int a, s; long i, n = argn( "n", 400 ); vrng r; unsigned char *key = malloc( KMAX ), *msg = malloc( KMAX ), hk[ 64 ], o[ 4096 ], o2[ 64 ]; verr *e = NULL, *had = NULL; const char *what; size_t sp = 0;
	rng_seed( &r, vh_seed, 31337 );
	vh_junk_fill = 1; vh_free_hook = on_free; (void) sec_bs;
	/* the scanner sees what it should see */
	rng_fill( &r, key, 32 ); SEC.k = 0; sec_set( 0, key, 32, 0x36, "self-test" ); sec_ready();
	{ unsigned char t[ 64 ]; memset( t, 0, 64 ); for( i = 0; i < 9; i++ ) t[ 30 + i ] = key[ 10 + i ] ^ 0x36; if( !found( t, 64, &what ) ) return 1; }
	for( a = 0; a < NALG; a++ ) for( i = 0; i < n; i++ )
	{
		const valg *v = &A[ a ]; size_t kn, mn = rng_size( &r, v->bs, rngn( &r, 10 ) ? 500 : 70000 ), ks, ex = rng_extra( &r ) % 3000; int f, q; verr **ep;
		if( !algsel( a ) ) continue;
		kn = i < (int) ( 2 * v->bs ) ? 4 + (size_t) i : 8 + rngn( &r, 700 );
		if( i % 11 == 5 ) { do kn = special_size( sp++, v->bs ); while( kn > KMAX ); if( kn == 0 ) { sp = 0; kn = v->bs + 1; } }
		if( i % 13 == 7 ) { do mn = special_size( sp++, v->bs ); while( mn > KMAX ); if( mn == 0 ) sp = 0; }
		rng_fill( &r, key, kn ); rng_fill( &r, msg, mn );
		SEC.k = 0; memset( SEC.n, 0, sizeof SEC.n );
		ks = kn < WIN ? WIN : kn;             /* a short key with the zeros or pad bytes that follow it */
		if( kn < WIN ) memset( key + kn, 0, WIN - kn );
		sec_set( 0, key, ks, 0, "the key" );
		if( kn > v->bs ) { ref_digest( v->ref, key, kn, hk ); sec_set( 3, hk, v->hs, 0, "the hashed key" ); sec_set( 1, hk, v->hs, 0x36, "the inner pad" ); sec_set( 2, hk, v->hs, 0x5c, "the outer pad" ); }
		else { sec_set( 1, key, ks, 0x36, "the inner pad" ); sec_set( 2, key, ks, 0x5c, "the outer pad" ); SEC.n[ 3 ] = 0; SEC.what[ 3 ] = ""; }
		if( kn > 400 ) { memcpy( SEC.b[ 0 ] + 200, key + kn - 200, 200 ); }
		sec_ready();
		q = (int) rngn( &r, 4 ); ep = q == 0 ? NULL : &e;
		if( q == 1 ) v->calc( NULL, 1, o, v->hs, &e );   /* an error the caller holds already */
		vh_case( "%s HMAC with a key of %zu bytes over %zu bytes, result buffer +%zu, error pointer kind %d, released blocks scanned", v->name, kn, mn, ex, q );
		vh_track_on(); f = v->hmac( key, kn, msg, mn, o, v->hs + ex, ep ); vh_track_off(); efree( &e );
		vh_eval(); vh_distinct( vh_hash( key, kn > 400 ? 400 : kn, (uint64_t) a * 1000 + mn ) );
		if( q == 2 ) { vh_track_on(); f = v->hmac( key, kn, msg, rngn( &r, 200 ), o, v->hs, ep ); vh_track_off(); efree( &e ); }
		if( q == 3 ) { vh_track_on(); f = v->hmac( key, kn, key, kn, o, v->hs, ep ); vh_track_off(); efree( &e ); vh_stat( "HMACs of the key itself", 1 ); }
		/* nothing that stays allocated may hold them either */
		if( vh_live_blocks() != 0 ) vh_fail( "secret-live", "blocks still allocated after an HMAC" );
		/* a caller's mistake must not leave the key behind either */
		if( i % 4 == 0 )
		{
			int kind;
			for( kind = 0; kind < 6; kind++ )
			{
				vh_case( "%s HMAC with a key of %zu bytes, refused call of kind %d", v->name, kn, kind );
				vh_track_on();
				switch( kind )
				{
				case 0: f = v->hmac( key, kn, msg, mn, o, v->hs - 1, ep ); break;
				case 1: f = v->hmac( key, kn, NULL, mn + 1, o, v->hs, ep ); break;
				case 2: f = v->hmac( key, kn, msg, SSMAX + 1, o, v->hs, ep ); break;
				case 3: f = v->hmac( key, kn, msg, mn, NULL, v->hs, ep ); break;
				case 4: f = v->hmac( key, kn, msg, mn, o, 0, ep ); break;
				default: f = v->hmac( key, kn, msg, mn, o, SIZE_MAX, ep ); break;
				}
				vh_track_off(); efree( &e );
			}
		}
		/* failures on the way */
		if( i % 16 == 1 && kn < 3000 && mn < 3000 )
			for( s = 0; s < 3; s++ )
			{
				long k;
				for( k = 1; k < 60; k++ )
				{
					vh_case( "%s HMAC with a key of %zu bytes, %s %ld fails, released blocks scanned", v->name, kn, s ? "provider call" : "allocation", k );
					vh_fault_arm( s ? 0 : k, s ? k : 0, s == 2 );
					vh_track_on(); f = v->hmac( key, kn, msg, mn, o2, v->hs, ep ); vh_track_off(); efree( &e );
					if( vh_faults_fired() == 0 ) { vh_fault_disarm(); break; }
					vh_fault_disarm(); vh_eval(); vh_stat( "failed HMACs scanned", 1 );
				}
			}
		/* a context, finalized or not, released, holds nothing of the message */
		if( mn >= WIN )
		{
			vctx *c = NULL, *c2 = NULL; size_t h = rngn( &r, mn ), h2 = h + rngn( &r, mn - h ), t = mn % v->bs; int leg, how;
			SEC.k = 0; sec_set( 0, msg, mn > 400 ? 400 : mn, 0, "the message" ); if( mn > 400 ) sec_set( 1, msg + mn - 400, 400, 0, "the message" );
			/* what is left of the last block, if that is less than a window: with the padding after it */
			if( t >= 4 && t < WIN ) { unsigned char p[ WIN ]; memset( p, 0, WIN ); memcpy( p, msg + mn - t, t ); p[ t ] = 0x80; sec_set( 2, p, WIN, 0, "the message" ); }
			sec_ready();
			for( how = 0; how < 8; how++ )
			{
				if( how != (int) ( i % 8 ) && how != 0 && how != 1 ) continue;
				leg = (int) rngn( &r, 2 );
				vh_case( "%s context over %zu bytes (%zu, %zu, the rest), way %d, released", v->name, mn, h, h2 - h, how );
				vh_track_on();
				( leg ? v->linit : v->init )( &c, &e );
				if( how == 7 ) { v->init( &c2, &e ); v->update( c2, msg, h2, &e ); }
				( leg ? v->lupdate : v->update )( c, msg, h, &e );
				if( how != 2 ) v->update( c, msg + h, h2 - h, &e );
				if( how != 2 ) v->update( c, msg + h2, mn - h2, &e );
				if( how == 3 || how == 7 ) { v->update( c, NULL, 1, &e ); efree( &e ); v->update( c, msg, SSMAX + 1, &e ); efree( &e ); }
				if( how == 4 ) { v->final( c, o, v->hs - 1, &e ); efree( &e ); }
				if( how == 5 ) { vh_fault_arm( 1, 0, 1 ); v->final( c, o, v->hs, &e ); vh_fault_disarm(); efree( &e ); }
				if( how == 6 ) { vh_fault_arm( 0, 1, 1 ); v->final( c, o, v->hs, &e ); vh_fault_disarm(); efree( &e ); }
				if( how == 0 || how == 7 ) v->final( c, o, v->hs + ex, &e );
				if( how == 7 ) { v->update( c, msg, h, &e ); efree( &e ); v->final( c, o, v->hs, &e ); efree( &e ); }
				( leg ? v->lfree : v->freec )( &c, &e );
				if( how == 7 ) v->freec( &c2, &e );
				vh_track_off(); efree( &e );
				vh_eval(); vh_stat( "released contexts scanned", 1 );
			}
			vh_case( "%s one-shot over %zu bytes", v->name, mn );
			vh_track_on(); f = v->calc( msg, mn, o, v->hs + ex, ep ); vh_track_off(); efree( &e );
			vh_track_on(); f = v->calc( msg, mn, o, v->hs - 1, ep ); vh_track_off(); efree( &e );
			if( i % 16 == 3 )
				for( s = 1; s < 12; s++ ) { vh_fault_arm( 0, s, 0 ); vh_track_on(); f = v->calc( msg, mn, o, v->hs, &e ); vh_track_off(); vh_fault_disarm(); efree( &e ); }
			vh_eval(); (void) f;
		}
	}
	vh_free_hook = NULL; (void) had;
	vh_stat( "released blocks scanned", scanned ); vh_stat( "released bytes scanned", scanned_bytes );
	vh_sample( "%ld released heap blocks scanned for the key, the pads and the message", scanned );
	free( key ); free( msg );
	if( scanned == 0 ) return 1;
	return 0;
}

/* ---------------------------------------------------------------- deprecated interface */
int mode_legacy( void )
{
	int a; long n = argn( "n", 3000 ), i; vrng r; unsigned char *buf = malloc( 70000 ), h1[ 200 ], h2[ 200 ], img[ 200 ]; verr *e1 = NULL, *e2 = NULL;
	rng_seed( &r, vh_seed, 555 ); rng_fill( &r, buf, 70000 ); rng_fill( &r, img, sizeof img );
	for( a = 0; a < NALG; a++ ) for( i = 0; i < n; i++ )
	{
		const valg *v = &A[ a ]; vctx *c = NULL, *l = NULL; int k, r1, r2, steps = (int) rngn( &r, 14 ), done = 0, live = 0; char b[ 600 ]; int bl = 0;
		if( !algsel( a ) ) continue;
		rng_seed( &r, vh_seed, 600 + (uint64_t) ( a * 100000 + i ) );
#define CMP( what ) do { vh_eval(); \
	if( r1 != r2 ) vh_fail( "legacy-rc", "%s " what ": the context interface returned %d, the deprecated one %d", v->name, r1, r2 ); \
	if( ( e1 != NULL ) != ( e2 != NULL ) ) vh_fail( "legacy-error", "%s " what ": only one of the interfaces set an error", v->name ); \
	if( ( c != NULL ) != ( l != NULL ) ) vh_fail( "legacy-pointer", "%s " what ": context pointers differ in being set", v->name ); \
	if( memcmp( h1, h2, sizeof h1 ) != 0 ) vh_fail( "legacy-digest", "%s " what ": results differ: %s / %s", v->name, vh_hex( h1, v->hs ), vh_hex( h2, v->hs ) ); \
	efree( &e1 ); efree( &e2 ); } while( 0 )
		memcpy( h1, img, sizeof h1 ); memcpy( h2, img, sizeof h2 );
		for( k = 0; k <= steps; k++ )
		{
			int op = (int) rngn( &r, 20 ); size_t x = rng_size( &r, v->bs, rngn( &r, 30 ) == 0 ? 60000 : 500 ), hs;
			const unsigned char *src = buf + rngn( &r, 9000 );
			int cross = rngn( &r, 3 ) == 0; /* the deprecated side mixes in the context interface */
			if( !live )
			{
				if( bl < 500 ) bl += snprintf( b + bl, sizeof b - (size_t) bl, "init " ); vh_case( "%s both interfaces: %s", v->name, b );
				if( op == 19 ) { r1 = v->init( NULL, &e1 ); r2 = v->linit( NULL, &e2 ); CMP( "initialize(NULL)" ); continue; }
				if( op == 18 ) { r1 = v->freec( &c, &e1 ); r2 = v->lfree( &l, &e2 ); CMP( "free(empty)" ); continue; }
				if( op == 17 ) { r1 = v->update( NULL, src, x, &e1 ); r2 = v->lupdate( NULL, src, x, &e2 ); CMP( "update(NULL context)" ); continue; }
				if( op == 16 ) { r1 = v->final( NULL, h1, v->hs, &e1 ); r2 = v->lfinal( NULL, h2, v->hs, &e2 ); CMP( "finalize(NULL context)" ); continue; }
				vh_track_on(); r1 = v->init( &c, &e1 ); r2 = v->linit( &l, &e2 ); vh_track_off(); CMP( "initialize" );
				live = r1 == 1 && r2 == 1; done = 0; continue;
			}
			if( bl < 500 ) bl += snprintf( b + bl, sizeof b - (size_t) bl, "%d:%zu ", op, x ); vh_case( "%s both interfaces: %s", v->name, b );
			if( op < 10 && !done ) { r1 = v->update( c, src, x, &e1 ); r2 = ( cross ? v->update : v->lupdate )( l, src, x, &e2 ); CMP( "update" ); }
			else if( op < 11 && !done ) { r1 = v->update( c, NULL, x + 1, &e1 ); r2 = v->lupdate( l, NULL, x + 1, &e2 ); CMP( "update(NULL)" ); }
			else if( op < 12 && !done ) { r1 = v->update( c, src, SSMAX + 1 + x, &e1 ); r2 = v->lupdate( l, src, SSMAX + 1 + x, &e2 ); CMP( "update(too large)" ); }
			else if( op < 14 && !done )
			{
				hs = rngn( &r, 2 ) ? rngn( &r, v->hs ) : SSMAX + 1 + rngn( &r, 100 );
				r1 = v->final( c, h1, hs, &e1 ); r2 = v->lfinal( l, h2, hs, &e2 ); CMP( "finalize(bad size)" );
				r1 = v->final( c, NULL, v->hs, &e1 ); r2 = v->lfinal( l, NULL, v->hs, &e2 ); CMP( "finalize(NULL)" );
			}
			else if( op < 15 ) { vctx *oc = c, *ol = l; r1 = v->init( &c, &e1 ); r2 = v->linit( &l, &e2 ); CMP( "initialize(live)" ); if( c != oc || l != ol ) { vh_fail( "legacy-pointer", "%s initialize(live) changed a pointer", v->name ); c = oc; l = ol; } }
			else if( op < 18 && !done )
			{
				hs = v->hs + ( rngn( &r, 2 ) ? rngn( &r, 100 ) : 0 );
				r1 = v->final( c, h1, hs, &e1 ); r2 = ( cross && rngn( &r, 3 ) == 0 ? v->final : v->lfinal )( l, h2, hs, &e2 ); CMP( "finalize" ); done = 1;
				vh_distinct( vh_hash( h1, v->hs, (uint64_t) a ) );
				memcpy( h1, img, sizeof h1 ); memcpy( h2, img, sizeof h2 );
			}
			else if( op == 18 ) { r1 = v->freec( NULL, &e1 ); r2 = v->lfree( NULL, &e2 ); CMP( "free(NULL)" ); }
			else { vh_track_on(); r1 = v->freec( &c, &e1 ); r2 = ( cross ? v->freec : v->lfree )( &l, &e2 ); vh_track_off(); CMP( "free" ); live = 0; }
		}
		if( live && !done ) { r1 = v->final( c, h1, v->hs, &e1 ); r2 = v->lfinal( l, h2, v->hs, &e2 ); CMP( "finalize" ); vh_distinct( vh_hash( h1, v->hs, (uint64_t) a ) ); }
		if( live ) { vh_track_on(); r1 = v->freec( &c, &e1 ); r2 = v->lfree( &l, &e2 ); vh_track_off(); CMP( "free" ); }
		if( vh_live_blocks() != 0 ) vh_fail( "legacy-leak", "%s: %ld blocks left after both contexts were released", v->name, vh_live_blocks() );
		if( i == 5 ) vh_sample( "%s on both interfaces: %s", v->name, b );
	}
	free( buf );
	return 0;
}

/* ---------------------------------------------------------------- identity */
int mode_ident( void )
{
	const char *s = libhmac_get_version(); FILE *f; verr *e = NULL; char t[ 300 ], u[ 300 ]; int n;
	printf( "IDENT\tversion function\t%s\nIDENT\tversion macro\t%d\nIDENT\tversion string\t%s\n", s ? s : "(null)", LIBHMAC_VERSION, LIBHMAC_VERSION_STRING );
#ifdef LIBHMAC_MD5_HASH_SIZE
	printf( "IDENT\tsize md5\t%d\n", (int) LIBHMAC_MD5_HASH_SIZE );
#endif
#ifdef LIBHMAC_SHA1_HASH_SIZE
	printf( "IDENT\tsize sha1\t%d\n", (int) LIBHMAC_SHA1_HASH_SIZE );
#endif
#ifdef LIBHMAC_SHA224_HASH_SIZE
	printf( "IDENT\tsize sha224\t%d\n", (int) LIBHMAC_SHA224_HASH_SIZE );
#endif
#ifdef LIBHMAC_SHA256_HASH_SIZE
	printf( "IDENT\tsize sha256\t%d\n", (int) LIBHMAC_SHA256_HASH_SIZE );
#endif
#ifdef LIBHMAC_SHA512_HASH_SIZE
	printf( "IDENT\tsize sha512\t%d\n", (int) LIBHMAC_SHA512_HASH_SIZE );
#endif
	/* the error functions of the library hand out what the error holds */
	vh_case( "error functions" );
	libhmac_error_free( NULL ); libhmac_error_free( &e );
	libcerror_error_set( &e, 'r', 2, "first" ); libcerror_error_set( &e, 'r', 3, "second" );
	memset( t, 0, sizeof t );
	n = libhmac_error_sprint( e, t, sizeof t );
	if( n != 6 || strcmp( t, "second" ) != 0 ) vh_fail( "ident-sprint", "libhmac_error_sprint gave %d '%s'", n, t );
	n = libhmac_error_sprint( e, u, 3 );
	if( n != -1 ) vh_fail( "ident-sprint", "libhmac_error_sprint in a small buffer gave %d", n );
	memset( t, 0, sizeof t );
	n = libhmac_error_backtrace_sprint( e, t, sizeof t );
	if( n != 12 || strcmp( t, "first\nsecond" ) != 0 ) vh_fail( "ident-backtrace", "libhmac_error_backtrace_sprint gave %d '%s'", n, t );
	f = tmpfile();
	if( f == NULL ) return 1;
	n = libhmac_error_fprint( e, f ); if( n != 7 ) vh_fail( "ident-fprint", "libhmac_error_fprint gave %d", n );
	n = libhmac_error_backtrace_fprint( e, f ); if( n != 13 ) vh_fail( "ident-backtrace-fprint", "libhmac_error_backtrace_fprint gave %d", n );
	rewind( f ); memset( u, 0, sizeof u ); n = (int) fread( u, 1, sizeof u - 1, f ); fclose( f );
	if( strcmp( u, "second\nfirst\nsecond\n" ) != 0 ) vh_fail( "ident-fprint", "the printed error reads '%s'", u );
	libhmac_error_free( &e );
	if( e != NULL ) vh_fail( "ident-free", "libhmac_error_free left the error set" );
	if( vh_cerror_live() != 0 ) vh_fail( "ident-free", "libhmac_error_free released nothing" );
	vh_eval(); vh_distinct( 1 );
	return 0;
}

#if defined( VH_GUIDE )
/* One history chosen by a coverage guided fuzzer; the second half of its input is data. */
int guide_history( const char *kind, const uint8_t *d, size_t n )
{
	size_t k;
	if( strcmp( kind, "history" ) ) return 0;
	J = J_MEM | J_DIG | J_ERR | J_LEAK | W_POST | W_INVALID;
	if( D == NULL ) { DN = 3000; D = malloc( DN ); }
	rng_seed( &R, 1, 2 ); vh_fzn = 0; rng_fill( &R, D, DN );
	vh_fz = d; vh_fzn = n - n / 2;
	k = n / 2 > DN ? DN : n / 2;
	memcpy( D, d + n - n / 2, k );
	if( k > 0 && k < DN / 2 ) memcpy( D + DN / 2, d + n - n / 2, k );
	history( (int) ( 2 + rngn( &R, 30 ) ) );
	return 1;
}
#endif
