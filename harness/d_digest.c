/* Digest and HMAC values against the reference: one-shot, streamed, keyed, large. */
#define _GNU_SOURCE
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include "vh_common.h"

static unsigned char *D;                 /* working message */
#define DMAX ( (size_t) 5 << 20 )

static verr *E;
static const char *errtext( void )
{
	static char b[ 600 ];
	b[ 0 ] = 0;
	if( E != NULL ) libcerror_error_backtrace_sprint( E, b, sizeof b );
	libcerror_error_free( &E );
	return b;
}

static const char *describe( const unsigned char *d, size_t n )
{
	static char b[ 200 ];
	snprintf( b, sizeof b, "%zu bytes %s%s", n, vh_hex( d, n > 24 ? 24 : n ), n > 24 ? "..." : "" );
	return b;
}

/* ---------------------------------------------------------------- neighbours
 * Inputs that differ little from the one before, at the same addresses: nothing
 * of an earlier calculation may be taken for the present one. */
static void nudge( unsigned char *p, size_t *n, size_t max, vrng *r )
{
	size_t k, w = rngn( r, 11 );
	if( w < 6 && *n > 0 )
	{
		size_t at = w == 0 ? 0 : w == 1 ? *n - 1 : w == 2 ? *n / 2 : w == 3 && *n > 70 ? 64 + rngn( r, *n - 64 ) : rngn( r, *n );
		p[ at ] ^= (unsigned char) ( 1u << rngn( r, 8 ) );
	}
	else if( w == 6 && *n > 0 ) ( *n )--;
	else if( w == 7 && *n < max ) p[ ( *n )++ ] = (unsigned char) rng( r );
	else if( w == 8 && *n > 1 ) { size_t i = rngn( r, *n ), j = rngn( r, *n ); unsigned char t = p[ i ]; p[ i ] = p[ j ]; p[ j ] = t; }
	else if( w == 9 && *n > 1 ) { k = rngn( r, *n ); memset( p + k, p[ k ], *n - k > 9 ? 9 : *n - k ); }
}
static void neighbours( int a, int hmac, long rounds, vrng *r )
{
	const valg *v = &A[ a ]; unsigned char k[ 700 ], d[ 3000 ], want[ 64 ], o[ 64 ]; size_t kn = 0, n = 0; long i; int rc, how;
	for( i = 0; i < rounds; i++ )
	{
		if( i % 40 == 0 ) { kn = rng_size( r, v->bs, 600 ); n = rng_size( r, v->bs, 2500 ); rng_fill( r, k, sizeof k ); rng_fill( r, d, sizeof d ); }
		else if( i % 40 > 2 )
		{
			if( !hmac || rngn( r, 2 ) ) nudge( d, &n, sizeof d, r );
			if( hmac && rngn( r, 2 ) ) nudge( k, &kn, sizeof k, r );
		}
		how = hmac ? 0 : (int) rngn( r, 3 );
		vh_case( "%s %s, call %ld of a row of inputs that differ little: key %zu bytes, message %zu bytes", v->name, hmac ? "HMAC" : how ? "stream" : "one-shot", i, hmac ? kn : 0, n );
		memset( o, 0, sizeof o );
		vh_track_on();
		if( hmac ) { ref_hmac( v->ref, k, kn, d, n, want ); rc = v->hmac( k, kn, d, n, o, v->hs, &E ); }
		else
		{
			ref_digest( v->ref, d, n, want );
			if( how < 2 ) rc = v->calc( d, n, o, v->hs, &E );
			else
			{
				vctx *c = NULL;
				rc = v->init( &c, &E ); if( rc == 1 ) rc = v->update( c, d, n, &E ); if( rc == 1 ) rc = v->final( c, o, v->hs, &E ); if( rc == 1 ) rc = v->freec( &c, &E );
			}
		}
		vh_track_off();
		vh_eval(); vh_stat( "calls in rows of like inputs", 1 );
		vh_distinct( vh_hash( want, v->hs, (uint64_t) a * 3 + (uint64_t) hmac ) );
		if( rc != 1 ) vh_fail( hmac ? "hmac-rejected" : "oneshot-rejected", "%s: returned %d: %s", v->name, rc, errtext() );
		else if( memcmp( o, want, v->hs ) != 0 ) vh_fail( hmac ? "hmac-wrong" : "oneshot-wrong", "%s: got %s, the standard value is %s", v->name, vh_hex( o, v->hs ), vh_hex( want, v->hs ) );
		if( E != NULL ) libcerror_error_free( &E );
	}
}

/* ---------------------------------------------------------------- one-shot */
static void one( int a, const unsigned char *d, size_t n, int mode, size_t extra, vrng *r, const char *what )
{
	unsigned char want[ 64 ]; vbuf in; vout out; unsigned char *o; int rc; const valg *v = &A[ a ];
	vh_case( "%s one-shot of %s (%s), buffer placement %d, result buffer +%zu", v->name, describe( d, n ), what, mode, extra );
	ref_digest( v->ref, d, n, want );
	vb_input( 0, mode, d, n, &in );
	o = vo_get( &out, 1, mode, v->hs + extra, r );
	vh_track_on(); rc = v->calc( in.p, n, o, v->hs + extra, &E ); vh_track_off();
	vh_eval();
	vh_distinct( vh_hash( d, n, (uint64_t) a + 1 ) );
	if( rc != 1 ) vh_fail( "oneshot-rejected", "%s: returned %d: %s", v->name, rc, errtext() );
	else if( memcmp( o, want, v->hs ) != 0 ) vh_fail( "oneshot-wrong", "%s: got %s, the standard digest is %s", v->name, vh_hex( o, v->hs ), vh_hex( want, v->hs ) );
	if( E != NULL ) libcerror_error_free( &E );
	vb_release( &out.b ); vb_release( &in );
}

int mode_oneshot( void )
{
	int a, p; size_t n, i; vrng r; long heavy = argn( "heavy", 1 );
	size_t all = (size_t) argn( "all", 1100 ); long nrand = argn( "rand", 3000 );
	D = malloc( DMAX + 64 );
	for( a = 0; a < NALG; a++ )
	{
		const valg *v = &A[ a ];
		if( !algsel( a ) ) continue;
		rng_seed( &r, vh_seed, (uint64_t) a * 7 + 100 );
		/* every size, several contents */
		for( n = 0; n <= all; n++ )
			for( p = 0; p < 5; p++ )
			{
				switch( p )
				{
				case 0: memset( D, 0, n ); break;
				case 1: memset( D, 0xff, n ); break;
				case 2: memset( D, 0x80, n ); break;
				default: rng_fill( &r, D, n ); break;
				}
				one( a, D, n, (int) ( n + (size_t) p ) % NPLACE, p == 4 ? rngn( &r, 65 ) : 0, &r, "every size" );
			}
		neighbours( a, 0, 20 * nrand < 400000 ? 20 * nrand : 400000, &r );
		/* every single bit of messages of up to two blocks and a bit */
		for( n = 1; n <= 2 * v->bs + 1; n += ( n < 9 ? 1 : 8 + ( n % 3 ) ) )
			for( i = 0; i < 8 * n; i++ )
			{
				if( vh_quick && ( i % 3 ) != n % 3 ) continue;
				memset( D, 0, n ); D[ i / 8 ] = (unsigned char) ( 1 << ( i % 8 ) );
				one( a, D, n, PLACE_END, 0, &r, "single bit" );
			}
		/* every alignment */
		for( i = 0; i < 64; i++ )
		{
			unsigned char want[ 64 ], got[ 80 ]; unsigned char *base; vbuf in; int rc; size_t al = i % 16, oal = ( i * 5 ) % 16;
			n = rng_size( &r, v->bs, 700 );
			rng_fill( &r, D, n );
			base = vb_input( 0, PLACE_START, NULL, n + al, &in );
			memcpy( in.w + al, D, n );
			vh_case( "%s one-shot at input alignment %zu, output alignment %zu, %zu bytes", v->name, al, oal, n );
			ref_digest( v->ref, D, n, want );
			vh_track_on(); rc = v->calc( base + al, n, got + oal, v->hs, &E ); vh_track_off();
			vh_eval();
			if( rc != 1 || memcmp( got + oal, want, v->hs ) != 0 ) vh_fail( "oneshot-alignment", "%s: rc %d digest %s wanted %s %s", v->name, rc, vh_hex( got + oal, v->hs ), vh_hex( want, v->hs ), errtext() );
			vb_release( &in );
		}
		/* marks of well-known formats at the start or the end */
		for( i = 0; ; i++ )
		{
			static const size_t ns[] = { 1, 2, 3, 4, 8, 13, 40, 55, 56, 63, 64, 65, 111, 112, 127, 128, 129, 300, 4096, 32768, 33000 };
			for( p = 0; p < (int) ( sizeof ns / sizeof *ns ); p++ )
			{
				n = ns[ p ]; rng_fill( &r, D, n );
				if( !natural_mark( (unsigned) i, D, n ) ) break;
				one( a, D, n, p % NPLACE, 0, &r, "mark of a format" );
			}
			if( p == 0 ) break;
		}
		/* random contents, sizes around every boundary */
		for( i = 0; i < (size_t) nrand; i++ )
		{
			n = rng_size( &r, v->bs, 70000 );
			if( i & 1 ) rng_natural( &r, D, n ); else rng_fill( &r, D, n );
			if( rngn( &r, 4 ) == 0 && n > 0 ) memset( D + rngn( &r, n ), (int) rng( &r ), 1 + rngn( &r, n ) % 64 );
			one( a, D, n, (int) rngn( &r, NPLACE ), rng_extra( &r ), &r, "random" );
		}
		if( heavy )
		{
			rng_fill( &r, D, DMAX );
			/* powers of two, round decimal numbers, with neighbours */
			for( i = 0; ( n = special_size( i, v->bs ) ) != 0; i++ ) one( a, D + i % 64, n, PLACE_END, 0, &r, "special size" );
			/* page multiples with neighbours */
			for( n = 2048; n <= ( (size_t) 4 << 20 ); n *= 2 )
				for( i = 0; i < 7; i++ )
				{
					static const long dl[] = { 0, -1, 1, -9, 9, 55, 64 };
					if( n > ( (size_t) 1 << 19 ) && vh_quick && i > 2 ) break;
					one( a, D, (size_t) ( (long) n + dl[ i ] ), PLACE_END, 0, &r, "power of two" );
				}
			for( n = 512; n <= 65536; n += 512 ) one( a, D + ( n >> 9 ), n, PLACE_END, 0, &r, "multiple of 512" );
			for( n = 4096; n <= ( (size_t) 1 << 20 ); n += vh_quick ? 4096 * 17 : 4096 ) one( a, D + ( n >> 12 ), n + ( ( n >> 12 ) & 1 ), PLACE_END, 0, &r, "multiple of 4096" );
			one( a, D, DMAX, PLACE_END, 0, &r, "5 MiB" );
		}
		vh_sample( "%s digest of a %zu byte random message equals the reference (size class drawn around block and padding edges)", v->name, n );
	}
	free( D );
	return 0;
}

/* ---------------------------------------------------------------- streams */
static void stream( int a, const unsigned char *d, const size_t *cut, int ncut, vrng *r, const char *what )
{
	const valg *v = &A[ a ]; vctx *c = NULL; unsigned char want[ 64 ], *o; vout out; int i, rc; size_t off = 0, n = 0; char b[ 400 ]; int bl = 0;
	uint64_t h = (uint64_t) a + 77; int mode = (int) rngn( r, NPLACE );
	for( i = 0; i < ncut; i++ ) { n += cut[ i ]; if( bl < 360 ) bl += snprintf( b + bl, sizeof b - (size_t) bl, "%s%zu", i ? "+" : "", cut[ i ] ); h = vh_hash( &cut[ i ], sizeof *cut, h ); }
	vh_case( "%s stream %s = %zu bytes starting %s (%s)", v->name, b, n, vh_hex( d, n > 16 ? 16 : n ), what );
	ref_digest( v->ref, d, n, want );
	vh_track_on(); rc = v->init( &c, &E ); vh_track_off();
	if( rc != 1 || c == NULL ) { vh_fail( "stream-init", "%s: initialize returned %d %s", v->name, rc, errtext() ); return; }
	for( i = 0; i < ncut; i++ )
	{
		vbuf in;
		vb_input( 0, mode, d + off, cut[ i ], &in );
		vh_track_on(); rc = v->update( c, in.p, cut[ i ], &E ); vh_track_off();
		if( rc != 1 ) vh_fail( "stream-update", "%s: update %d of %zu bytes returned %d %s", v->name, i, cut[ i ], rc, errtext() );
		/* the caller may reuse its buffer at once */
		if( cut[ i ] > 0 ) memset( in.w, 0x5a ^ i, cut[ i ] );
		vb_release( &in );
		off += cut[ i ];
		vh_stat( "updates", 1 );
	}
	o = vo_get( &out, 1, mode, v->hs + rng_extra( r ), r );
	vh_track_on(); rc = v->final( c, o, out.n, &E ); vh_track_off();
	if( rc != 1 ) vh_fail( "stream-finalize", "%s: finalize returned %d %s", v->name, rc, errtext() );
	else if( memcmp( o, want, v->hs ) != 0 ) vh_fail( "stream-wrong", "%s: got %s, the digest of the concatenation is %s", v->name, vh_hex( o, v->hs ), vh_hex( want, v->hs ) );
	vb_release( &out.b );
	vh_track_on(); rc = v->freec( &c, &E ); vh_track_off();
	if( rc != 1 || c != NULL ) vh_fail( "stream-free", "%s: free returned %d", v->name, rc );
	if( E != NULL ) libcerror_error_free( &E );
	vh_eval(); vh_distinct( vh_hash( d, n > 64 ? 64 : n, h ) );
}

/* very many updates of one context: counters of calls or blocks must not wrap */
static void many( int a, const unsigned char *d, size_t calls, size_t step, int empties, vrng *r )
{
	const valg *v = &A[ a ]; vctx *c = NULL; unsigned char want[ 64 ], o[ 64 ]; size_t i, off = 0; int rc;
	ref_ctx rc_; vh_case( "%s stream of %zu updates of %zu bytes%s", v->name, calls, step, empties ? ", empty ones between" : "" );
	ref_init( &rc_, v->ref );
	for( i = 0; i < calls; i++ ) { ref_update( &rc_, d + off, step ); off = ( off + step ) % ( DMAX / 2 ); }
	ref_final( &rc_, want );
	off = 0;
	vh_track_on();
	rc = v->init( &c, &E );
	for( i = 0; i < calls && rc == 1; i++ )
	{
		if( empties && ( i & 3 ) == 3 ) rc = v->update( c, d + off, 0, &E );
		if( rc == 1 ) rc = v->update( c, d + off, step, &E );
		off = ( off + step ) % ( DMAX / 2 );
	}
	if( rc == 1 ) rc = v->final( c, o, v->hs, &E );
	if( rc != 1 ) vh_fail( "stream-update", "%s: call %zu of %zu failed: %s", v->name, i, calls, errtext() );
	else if( memcmp( o, want, v->hs ) != 0 ) vh_fail( "stream-wrong", "%s: %zu updates of %zu bytes gave %s, want %s", v->name, calls, step, vh_hex( o, v->hs ), vh_hex( want, v->hs ) );
	v->freec( &c, &E );
	vh_track_off();
	if( E != NULL ) libcerror_error_free( &E );
	vh_stat( "updates", (long) calls ); vh_stat( "streams of more than 65536 updates", calls > 65536 );
	vh_eval(); vh_distinct( vh_hash( &calls, sizeof calls, (uint64_t) a * 3 + step ) );
	(void) r;
}

/* past total bytes in large updates, then small ones of every kind */
static void beyond( int a, vrng *r, size_t total )
{
	const valg *v = &A[ a ]; vctx *c = NULL; unsigned char want[ 64 ], o[ 64 ]; ref_ctx rf; size_t off = 0, n; int rc, i = 0;
	vh_case( "%s stream of more than %zu bytes, then small updates", v->name, total );
	ref_init( &rf, v->ref ); vh_track_on(); rc = v->init( &c, &E );
	while( rc == 1 && ( off < total || i < 400 ) )
	{
		n = off + 400000 < total ? 100000 + rngn( r, 1000000 ) : off + 300 < total ? ( total - off ) / 2 + 1 : rngn( r, v->bs + 3 );
		if( off + n > total && off < total && rngn( r, 2 ) ) n = total - off;
		if( off >= total ) i++;
		ref_update( &rf, D + off % 4096, n ); rc = v->update( c, D + off % 4096, n, &E ); off += n;
	}
	if( rc == 1 ) rc = v->final( c, o, v->hs, &E );
	ref_final( &rf, want );
	if( rc != 1 ) vh_fail( "stream-update", "%s: a call failed after %zu bytes: %s", v->name, off, errtext() );
	else if( memcmp( o, want, v->hs ) != 0 ) vh_fail( "stream-wrong", "%s: %zu bytes in large and small updates gave %s, want %s", v->name, off, vh_hex( o, v->hs ), vh_hex( want, v->hs ) );
	v->freec( &c, &E ); vh_track_off();
	if( E != NULL ) libcerror_error_free( &E );
	vh_eval(); vh_distinct( vh_hash( &off, sizeof off, (uint64_t) a * 5 + 1 ) );
}

int mode_stream( void )
{
	int a, k; size_t i, j, x, n; vrng r; size_t cut[ 4096 ]; long nrand = argn( "rand", 2500 );
	int exhaustive = (int) argn( "exhaustive", 1 ), part = (int) argn( "part", 0 ), parts = (int) argn( "parts", 1 );
	D = malloc( DMAX );
	for( a = 0; a < NALG; a++ )
	{
		const valg *v = &A[ a ]; size_t lim = 2 * v->bs + 10;
		static const int edge[] = { 0, 1, 7, 8, 9, 15, 16, 17 }; size_t pts[ 64 ]; int np = 0;
		if( !algsel( a ) ) continue;
		rng_seed( &r, vh_seed, (uint64_t) a * 11 + 5000 + (uint64_t) part * 1000 );
		rng_fill( &r, D, DMAX );
		/* every two-way split (offset inside the block x size of the second part) */
		if( exhaustive )
			for( i = 0; i <= lim; i++ ) for( j = 0; j + i <= lim; j++ )
			{
				if( (int) ( ( i + j ) % (size_t) parts ) != part ) continue;
				cut[ 0 ] = i; cut[ 1 ] = j;
				stream( a, D + ( ( i * 131 + j ) & 0xfff ), cut, 2, &r, "every two-way split" );
			}
		/* three-way splits between edge points */
		for( k = 0; k < 8; k++ ) { pts[ np++ ] = (size_t) edge[ k ]; pts[ np++ ] = v->bs - (size_t) edge[ k ]; pts[ np++ ] = v->bs + (size_t) edge[ k ] + 1; }
		pts[ np++ ] = 2 * v->bs; pts[ np++ ] = 2 * v->bs - 1; pts[ np++ ] = 3 * v->bs + 1; pts[ np++ ] = 5 * v->bs; pts[ np++ ] = v->bs / 2;
		for( i = 0; i < (size_t) np; i++ ) for( j = 0; j < (size_t) np; j++ ) for( x = 0; x < (size_t) np; x++ )
		{
			if( (int) ( ( i + j + x ) % (size_t) parts ) != part ) continue;
			if( vh_quick && ( i * 7 + j * 3 + x + vh_seed ) % 3 != 0 ) continue;
			cut[ 0 ] = pts[ i ]; cut[ 1 ] = pts[ j ]; cut[ 2 ] = pts[ x ];
			stream( a, D + ( ( i * 77 + j * 13 + x ) & 0xfff ), cut, 3, &r, "edge three-way split" );
		}
		/* byte by byte, and constant chunk sizes */
		for( n = (size_t) part; n < 5 * v->bs; n += (size_t) ( vh_quick ? 3 : 1 ) * (size_t) parts ) { for( k = 0; k < (int) n; k++ ) cut[ k ] = 1; stream( a, D + n, cut, (int) n, &r, "byte by byte" ); }
		for( x = 1; x <= 2 * v->bs + 1; x++ )
		{
			if( (int) ( x % (size_t) parts ) != part ) continue;
			n = 3 * v->bs / x + 3; for( k = 0; k < (int) n; k++ ) cut[ k ] = x;
			stream( a, D + x, cut, (int) n, &r, "constant chunks" );
		}
		/* one large update, alone or between others */
		if( exhaustive )
			for( i = (size_t) part; ( n = special_size( i, v->bs ) ) != 0; i += (size_t) parts )
			{
				cut[ 0 ] = n; stream( a, D + i % 64, cut, 1, &r, "special size alone" );
				if( n > 70000 && i % 3 ) continue;
				cut[ 0 ] = rngn( &r, 2 * v->bs ); cut[ 1 ] = n; cut[ 2 ] = rngn( &r, 2 * v->bs );
				stream( a, D + i % 64, cut, 3, &r, "special size between others" );
				/* up to it in small steps, then a bit more */
				cut[ 0 ] = n - n / 3; cut[ 1 ] = n / 3; cut[ 2 ] = 0; cut[ 3 ] = 1 + rngn( &r, 2 * v->bs );
				stream( a, D + i % 64, cut, 4, &r, "special size in parts" );
			}
		/* marks of well-known formats at the start of an update, or over its border */
		for( i = (size_t) part; natural_mark( (unsigned) i, D, 0 ); i += (size_t) parts )
			for( k = 0; k < 6; k++ )
			{
				static const size_t c0[] = { 0, 1, 3, 64, 128, 200 };
				n = 1 + rngn( &r, 300 ); rng_fill( &r, D, 800 ); cut[ 0 ] = c0[ k ]; cut[ 1 ] = n; cut[ 2 ] = rngn( &r, 200 );
				natural_mark( (unsigned) i, D + c0[ k ], n );
				stream( a, D, cut, 3, &r, "mark of a format in an update" );
				natural_mark( (unsigned) i, D, n + c0[ k ] );
				stream( a, D, cut, 3, &r, "mark of a format over updates" );
			}
		/* many chunks of random sizes, zero-size ones included */
		for( i = 0; i < (size_t) nrand; i++ )
		{
			int nc = (int) ( 1 + rng_log( &r, 40 ) ); size_t tot = 0;
			for( k = 0; k < nc; k++ )
			{
				cut[ k ] = rngn( &r, 6 ) == 0 ? 0 : rng_size( &r, v->bs, rngn( &r, 30 ) == 0 ? 300000 : 600 );
				if( tot + cut[ k ] > DMAX - 5000 ) cut[ k ] = 0;
				tot += cut[ k ];
			}
			if( i & 1 ) { rng_natural( &r, D, tot < 4000 ? tot : 4000 ); if( tot < 4000 ) { stream( a, D, cut, nc, &r, "random chunks of lifelike contents" ); continue; } }
			stream( a, D + rngn( &r, 4096 ), cut, nc, &r, "random chunks" );
		}
		/* long streams */
		for( i = 0; i < 6; i++ )
		{
			size_t tot = 0; int nc = 0;
			while( nc < 4000 && tot < ( (size_t) 2 << 20 ) ) { cut[ nc ] = rng_log( &r, i < 3 ? 3000 : 400000 ); if( tot + cut[ nc ] > DMAX - 5000 ) break; tot += cut[ nc++ ]; }
			stream( a, D, cut, nc, &r, "long stream" );
		}
		if( argn( "many", 1 ) && part == 0 )
		{
			many( a, D, 66000 + rngn( &r, 500 ), 1, 0, &r );
			many( a, D, 300000 + rngn( &r, 500 ), 1, 1, &r );
			many( a, D, 67000, v->bs - 1, 0, &r ); /* beyond 65536 blocks */
			many( a, D, 66000, v->bs, 1, &r );
			many( a, D, 2200000, 1, 1, &r );
			for( i = 0; i < 4; i++ ) beyond( a, &r, ( (size_t) 1 << ( 22 + i ) ) );
		}
		vh_sample( "%s stream of %zu+%zu+%zu bytes with the caller's buffers overwritten after each update", v->name, cut[ 0 ], cut[ 1 ], cut[ 2 ] );
	}
	free( D );
	return 0;
}

/* ---------------------------------------------------------------- HMAC */
static void keyed( int a, const unsigned char *k, size_t kn, const unsigned char *d, size_t n, vrng *r, const char *what )
{
	const valg *v = &A[ a ]; unsigned char want[ 64 ], *o; vbuf kb, in; vout out; int rc, mode = (int) rngn( r, NPLACE ); size_t extra = rng_extra( r );
	vh_case( "%s HMAC key %zu bytes %s message %s (%s), result buffer +%zu", v->name, kn, vh_hex( k, kn > 16 ? 16 : kn ), describe( d, n ), what, extra );
	ref_hmac( v->ref, k, kn, d, n, want );
	vb_input( 0, mode, k, kn, &kb ); vb_input( 1, mode, d, n, &in );
	o = vo_get( &out, 2, mode, v->hs + extra, r );
	vh_track_on(); rc = v->hmac( kb.p, kn, in.p, n, o, out.n, &E ); vh_track_off();
	vh_eval();
	if( rc != 1 ) vh_fail( "hmac-rejected", "%s: returned %d: %s", v->name, rc, errtext() );
	else if( memcmp( o, want, v->hs ) != 0 ) vh_fail( "hmac-wrong", "%s: got %s, RFC 2104 gives %s", v->name, vh_hex( o, v->hs ), vh_hex( want, v->hs ) );
	if( E != NULL ) libcerror_error_free( &E );
	vb_release( &out.b ); vb_release( &in ); vb_release( &kb );
	vh_distinct( vh_hash( k, kn > 256 ? 256 : kn, vh_hash( &n, sizeof n, vh_hash( d, n > 256 ? 256 : n, (uint64_t) a * 31 + kn ) ) ) );
	/* one buffer as key and as message, and overlapping ones: both are only read */
	if( kn > 0 && kn <= n && rngn( r, 4 ) == 0 )
	{
		size_t ko = rngn( r, n - kn + 1 ), same = rngn( r, 2 );
		if( same ) ko = 0;
		vh_case( "%s HMAC of %zu bytes, key is %zu bytes at offset %zu of the message", v->name, same ? kn : n, kn, ko );
		ref_hmac( v->ref, d + ko, kn, d, same ? kn : n, want );
		vb_input( 0, mode, d, n, &in ); o = vo_get( &out, 1, mode, v->hs, r );
		vh_track_on(); rc = v->hmac( in.p + ko, kn, in.p, same ? kn : n, o, out.n, &E ); vh_track_off();
		vh_eval();
		if( rc != 1 ) vh_fail( "hmac-rejected", "%s: returned %d: %s", v->name, rc, errtext() );
		else if( memcmp( o, want, v->hs ) != 0 ) vh_fail( "hmac-wrong", "%s: got %s, RFC 2104 gives %s", v->name, vh_hex( o, v->hs ), vh_hex( want, v->hs ) );
		if( E != NULL ) libcerror_error_free( &E );
		vb_release( &out.b ); vb_release( &in );
		vh_stat( "keys inside the message", 1 );
	}
	vh_stat( kn < v->bs ? "keys shorter than a block" : kn == v->bs ? "keys of one block" : "keys longer than a block", 1 );
}

int mode_hmac( void )
{
	int a; size_t i, n, kn; vrng r; unsigned char *K = malloc( (size_t) 1 << 20 ); long nrand = argn( "rand", 3000 );
	D = malloc( DMAX );
	for( a = 0; a < NALG; a++ )
	{
		const valg *v = &A[ a ]; static const int ms[] = { 0, 1, 3, 55, 56, 63, 64, 65, 111, 112, 119, 127, 128, 129, 200, 256 };
		if( !algsel( a ) ) continue;
		rng_seed( &r, vh_seed, (uint64_t) a * 13 + 9000 );
		rng_fill( &r, D, DMAX );
		for( kn = 0; kn <= 3 * v->bs + 2; kn++ ) for( i = 0; i < 16; i++ )
		{
			rng_fill( &r, K, kn );
			if( kn > 0 && i == 3 ) K[ kn - 1 ] = 0;
			if( i == 5 ) memset( K, 0x36, kn );
			if( i == 6 ) memset( K, 0x5c, kn );
			if( i == 7 ) memset( K, 0, kn );
			if( i == 8 ) memset( K, 0xff, kn );
			keyed( a, K, kn, D + i, (size_t) ms[ i ], &r, "every key size" );
		}
		for( n = 0; n <= 4 * v->bs; n++ )
		{
			static const int kd[] = { 0, 1, -1, 5, -3 };
			for( i = 0; i < 5; i++ ) { kn = i == 0 ? v->bs : i == 3 ? v->hs : (size_t) ( (long) v->bs + kd[ i ] ); rng_fill( &r, K, kn ); keyed( a, K, kn, D + n, n, &r, "every message size" ); }
		}
		for( i = 0; i < (size_t) nrand; i++ )
		{
			kn = rng_size( &r, v->bs, rngn( &r, 40 ) == 0 ? 200000 : 800 ); n = rng_size( &r, v->bs, rngn( &r, 40 ) == 0 ? 200000 : 3000 );
			if( i & 1 ) { rng_natural( &r, K, kn ); if( n < 4096 && i % 4 == 3 ) rng_natural( &r, D, n ); } else rng_fill( &r, K, kn );
			keyed( a, K, kn, i % 4 == 3 ? D : D + rngn( &r, 4096 ), n, &r, "random" );
		}
		for( i = 0; natural_mark( (unsigned) i, K, 0 ); i++ )
		{
			size_t ks[] = { 1, 2, 3, 4, 8, 9, 16, 20, 40, v->hs, v->bs - 1, v->bs, v->bs + 1, 2 * v->bs, 300 };
			for( n = 0; n < sizeof ks / sizeof *ks; n++ )
			{
				rng_fill( &r, K, ks[ n ] ); natural_mark( (unsigned) i, K, ks[ n ] ); keyed( a, K, ks[ n ], D + n, 40, &r, "key with the mark of a format" );
				rng_fill( &r, D, ks[ n ] ); natural_mark( (unsigned) i, D, ks[ n ] ); rng_fill( &r, K, 30 ); keyed( a, K, n % 2 ? 20 : v->bs + 5, D, ks[ n ], &r, "message with the mark of a format" );
			}
		}
		neighbours( a, 1, 10 * nrand < 200000 ? 10 * nrand : 200000, &r );
		rng_fill( &r, K, (size_t) 1 << 20 );
		for( i = 0; ( n = special_size( i, v->bs ) ) != 0; i++ )
		{
			if( n <= ( (size_t) 1 << 20 ) && ( n <= 140000 || i % 3 == 0 ) ) keyed( a, K, n, D + i, i % 50, &r, "special key size" );
			if( n <= 140000 || i % 3 == 1 ) keyed( a, K + i, 1 + i % 200, D + i % 64, n, &r, "special message size" );
		}
		keyed( a, K, (size_t) 1 << 20, D, 100, &r, "key of 1 MiB" );
		keyed( a, K, 1000, D, DMAX, &r, "message of 5 MiB" );
		keyed( a, K, 20, D, (size_t) 1 << 20, &r, "message of 1 MiB" );
		vh_sample( "%s HMAC with a %zu byte key over %zu bytes equals the RFC 2104 value", v->name, kn, n );
	}
	free( D ); free( K );
	return 0;
}

/* ---------------------------------------------------------------- a crowd
 * Very many contexts alive at once, and very many calls in one process. */
typedef struct { vctx *c; int a, leg, st; ref_ctx ref; } member;
int mode_crowd( void )
{
	long n = argn( "n", 1500 ), calls = argn( "calls", 70000 ), ops = argn( "ops", 20000 ), i; vrng r; unsigned char want[ 64 ], o[ 64 ], last[ 64 ]; member *m = calloc( (size_t) n, sizeof *m ); int rc, a, pass;
	D = malloc( DMAX ); rng_seed( &r, vh_seed, 424242 ); rng_fill( &r, D, 70000 );
	for( pass = 0; pass < 2; pass++ )
	{
		for( i = 0; i < n; i++ )
		{
			m[ i ].a = pass == 0 ? (int) rngn( &r, NALG ) : (int) ( i * NALG / n ); m[ i ].leg = (int) rngn( &r, 4 ) == 0; m[ i ].c = NULL; m[ i ].st = 1;
			vh_case( "%s context %ld of many", A[ m[ i ].a ].name, i );
			vh_track_on(); rc = ( m[ i ].leg ? A[ m[ i ].a ].linit : A[ m[ i ].a ].init )( &m[ i ].c, &E ); vh_track_off();
			if( rc != 1 || m[ i ].c == NULL ) { vh_fail( "crowd-initialize", "%s: initialize of context %ld returned %d: %s", A[ m[ i ].a ].name, i, rc, errtext() ); m[ i ].st = 0; continue; }
			ref_init( &m[ i ].ref, A[ m[ i ].a ].ref );
			vh_stat( "contexts alive at once", 1 );
		}
		for( i = 0; i < ops + 2 * n; i++ )
		{
			member *x = &m[ i < n ? i : i >= ops + n ? i - ops - n : (long) rngn( &r, (uint64_t) n ) ]; const valg *v = &A[ x->a ]; size_t k = rng_size( &r, v->bs, 400 ); const unsigned char *d = D + rngn( &r, 60000 );
			if( x->st != 1 ) continue;
			vh_case( "%s context %ld of %ld, operation %ld", v->name, (long) ( x - m ), n, i );
			if( i >= ops + n || ( i >= n && rngn( &r, 200 ) == 0 ) )
			{
				vh_track_on(); rc = ( x->leg ? v->lfinal : v->final )( x->c, o, v->hs, &E ); vh_track_off();
				ref_final( &x->ref, want ); x->st = 2; vh_eval(); vh_distinct( vh_hash( want, v->hs, 5 ) );
				if( rc != 1 ) vh_fail( "crowd-finalize", "%s: finalize of context %ld of %ld returned %d: %s", v->name, (long) ( x - m ), n, rc, errtext() );
				else if( memcmp( o, want, v->hs ) ) vh_fail( "crowd-wrong", "%s: context %ld of %ld gave %s, want %s", v->name, (long) ( x - m ), n, vh_hex( o, v->hs ), vh_hex( want, v->hs ) );
			}
			else
			{
				vh_track_on(); rc = ( x->leg ? v->lupdate : v->update )( x->c, d, k, &E ); vh_track_off();
				if( rc != 1 ) vh_fail( "crowd-update", "%s: update of context %ld of %ld returned %d: %s", v->name, (long) ( x - m ), n, rc, errtext() );
				ref_update( &x->ref, d, k ); vh_stat( "updates", 1 );
			}
		}
		for( i = 0; i < n; i++ )
		{
			member *x = &m[ pass == 0 ? i : n - 1 - i ];
			if( x->st == 0 ) continue;
			vh_track_on(); rc = ( x->leg ? A[ x->a ].lfree : A[ x->a ].freec )( &x->c, &E ); vh_track_off(); vh_eval();
			if( rc != 1 || x->c != NULL ) vh_fail( "crowd-free", "%s: free returned %d: %s", A[ x->a ].name, rc, errtext() );
		}
		if( E != NULL ) libcerror_error_free( &E );
		if( vh_live_blocks() != 0 || vh_live_evp() != 0 ) vh_fail( "leak-blocks", "%ld blocks and %ld provider contexts left after a crowd of contexts was freed", vh_live_blocks(), vh_live_evp() );
	}
	/* one after the other, in one process */
	for( a = 0; a < NALG; a++ )
	{
		const valg *v = &A[ a ]; vctx *c = NULL; size_t k, kn;
		for( i = 0; i < calls; i++ )
		{
			k = (size_t) rngn( &r, 90 ); kn = (size_t) rngn( &r, 40 );
			if( i % 16 == 0 ) vh_case( "%s call %ld of many in one process", v->name, i );
			vh_track_on(); rc = v->init( &c, &E ); if( rc == 1 ) rc = v->update( c, D + kn, k, &E ); if( rc == 1 ) rc = v->final( c, o, v->hs, &E ); if( rc == 1 ) rc = v->freec( &c, &E ); vh_track_off();
			vh_eval(); ref_digest( v->ref, D + kn, k, want );
			if( rc != 1 ) { vh_fail( "crowd-failed", "%s: one call of round %ld failed: %s", v->name, i, errtext() ); break; }
			if( memcmp( o, want, v->hs ) ) { vh_fail( "crowd-wrong", "%s: round %ld gave %s, want %s", v->name, i, vh_hex( o, v->hs ), vh_hex( want, v->hs ) ); break; }
			vh_track_on(); rc = v->calc( D + kn, k, last, v->hs, &E ); vh_track_off(); vh_eval();
			if( rc != 1 || memcmp( last, want, v->hs ) ) { vh_fail( "crowd-wrong", "%s: one-shot call %ld returned %d and %s, want %s", v->name, i, rc, vh_hex( last, v->hs ), vh_hex( want, v->hs ) ); break; }
			vh_track_on(); rc = v->hmac( D, kn, D + kn, k, last, v->hs, &E ); vh_track_off(); vh_eval();
			ref_hmac( v->ref, D, kn, D + kn, k, want );
			if( rc != 1 || memcmp( last, want, v->hs ) ) { vh_fail( "crowd-wrong", "%s: HMAC call %ld returned %d and %s, want %s", v->name, i, rc, vh_hex( last, v->hs ), vh_hex( want, v->hs ) ); break; }
		}
		vh_distinct( vh_hash( &calls, sizeof calls, (uint64_t) a * 5 + 2 ) );
		vh_stat( "rounds in one process", calls );
	}
	if( vh_live_blocks() != 0 || vh_live_evp() != 0 ) vh_fail( "leak-blocks", "%ld blocks and %ld provider contexts left after %ld rounds", vh_live_blocks(), vh_live_evp(), calls );
	vh_sample( "%ld contexts alive at once, updated and finalized in random order; then %ld rounds per algorithm", n, calls );
	free( m ); free( D );
	return 0;
}

/* ---------------------------------------------------------------- large
 * path= a file of exactly 1 MiB, whose contents repeat; the digest is printed
 * and compared outside with hashlib. */
int mode_large( void )
{
	const char *shape = arg( "shape", "one" ), *path = arg( "path", NULL ); size_t total = strtoull( arg( "total", "0" ), NULL, 0 ), i, off, n;
	size_t M = (size_t) 1 << 20, maps = total / M + 1; unsigned char *base, o[ 64 ], key[ 40 ]; int fd, a, rc = 1; vctx *c = NULL;
	for( a = 0; a < NALG && !algsel( a ); a++ ) { }
	if( a == NALG || path == NULL || ( fd = open( path, O_RDONLY ) ) < 0 ) return 1;
	base = mmap( NULL, maps * M, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
	if( base == MAP_FAILED ) return 1;
	for( i = 0; i < maps; i++ ) if( mmap( base + i * M, M, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0 ) == MAP_FAILED ) return 1;
	memset( o, 0, sizeof o ); memset( key, 0x4b, sizeof key );
	vh_case( "%s %s of %zu bytes", A[ a ].name, shape, total );
	if( strcmp( shape, "calc" ) == 0 ) rc = A[ a ].calc( base, total, o, A[ a ].hs, &E );
	else if( strcmp( shape, "hmac" ) == 0 ) rc = A[ a ].hmac( key, sizeof key, base, total, o, A[ a ].hs, &E );
	else if( strcmp( shape, "hkey" ) == 0 ) rc = A[ a ].hmac( base, total, key, sizeof key, o, A[ a ].hs, &E );
	else
	{
		rc = A[ a ].init( &c, &E );
		if( strcmp( shape, "one" ) == 0 ) rc = rc == 1 ? A[ a ].update( c, base, total, &E ) : rc;
		else for( off = 0, i = 0; off < total && rc == 1; off += n, i++ )
		{
			if( strcmp( shape, "chunks" ) == 0 ) n = ( i % 3 ) == 0 ? 13 : ( i % 3 ) == 1 ? ( (size_t) 48 << 20 ) + 5 : 64 * 1024;
			else
			{
				/* up to just before the crossing points in one go, then byte by byte over them */
				size_t w; n = total - off;
				for( w = (size_t) 29; w <= 32; w++ )
				{
					size_t x = (size_t) 1 << w;
					if( off < x - 70 && x - 70 < total ) { if( x - 70 - off < n ) n = x - 70 - off; }
					else if( off < x + 70 && off >= x - 70 ) n = 1;
				}
			}
			if( n > total - off ) n = total - off;
			rc = A[ a ].update( c, base + off, n, &E );
			vh_eval();
		}
		if( rc == 1 ) rc = A[ a ].final( c, o, A[ a ].hs, &E );
		A[ a ].freec( &c, NULL );
	}
	vh_eval(); vh_distinct( vh_hash( shape, strlen( shape ), total * 8 + (uint64_t) a ) );
	if( rc != 1 ) vh_fail( "large-rejected", "%s %s of %zu bytes returned %d: %s", A[ a ].name, shape, total, rc, errtext() );
	else printf( "DIGEST\t%s\t%s\t%zu\t%s\n", A[ a ].name, shape, total, vh_hex( o, A[ a ].hs ) );
	return 0;
}

#if defined( VH_GUIDE )
/* One input of a coverage guided fuzzer: its bytes are the message, behind a few that make the choices. */
int guide_digest( const char *kind, const uint8_t *d, size_t n )
{
	vrng r; int a; size_t cut[ 12 ], k, i, left;
	static const char *all = NULL;
	if( strcmp( kind, "oneshot" ) && strcmp( kind, "stream" ) && strcmp( kind, "hmac" ) ) return 0;
	if( all == NULL ) { all = getenv( "VH_ALG" ); if( all == NULL ) all = ""; }
	(void) d; (void) n;
	rng_seed( &r, 1, 1 );
	a = (int) rngn( &r, NALG );
	for( i = 0; i < NALG; i++ ) if( strcmp( all, A[ i ].name ) == 0 ) a = (int) i;
	if( kind[ 0 ] == 'o' )
	{
		int mode = (int) rngn( &r, NPLACE ); size_t extra = rngn( &r, 4 ) ? 0 : rngn( &r, 200 );
		const uint8_t *m = vh_fz; size_t mn = vh_fzn;
		vh_fzn = 0;
		one( a, m, mn, mode, extra, &r, "guided" );
	}
	else if( kind[ 0 ] == 's' )
	{
		k = 1 + rngn( &r, 10 );
		left = vh_fzn > k ? vh_fzn - k : 0;
		for( i = 0; i < k; i++ ) { cut[ i ] = i + 1 == k ? left : rngn( &r, 256 ); if( cut[ i ] > left ) cut[ i ] = left; left -= cut[ i ]; }
		left = 0; for( i = 0; i < k; i++ ) left += cut[ i ];
		if( left > vh_fzn ) return 1;
		{ const uint8_t *m = vh_fz; vh_fzn = 0; stream( a, m, cut, (int) k, &r, "guided" ); }
	}
	else
	{
		const uint8_t *m; size_t kn;
		k = rngn( &r, 256 );
		m = vh_fz; left = vh_fzn; vh_fzn = 0; kn = k < left ? k : left;
		keyed( a, m, kn, m + kn, left - kn, &r, "guided" );
	}
	return 1;
}
#endif
