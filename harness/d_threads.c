/* Contexts in several threads. */
#define _GNU_SOURCE
#include <pthread.h>
#include <sched.h>
#include "vh_common.h"

#define NT 8
static unsigned char SH[ 65536 ];          /* input read by every thread */
static pthread_barrier_t bar; static int rounds, inside, overlap_max; static long overlaps, calls;
static struct { vctx *c; int a; ref_ctx ref; int legacy; } X[ NT ];  /* handed from thread to thread between rounds */

static void enter( void )
{
	int n = __atomic_add_fetch( &inside, 1, __ATOMIC_RELAXED ), m;
	__atomic_add_fetch( &calls, 1, __ATOMIC_RELAXED );
	if( n > 1 ) __atomic_add_fetch( &overlaps, 1, __ATOMIC_RELAXED );
	m = __atomic_load_n( &overlap_max, __ATOMIC_RELAXED );
	if( n > m ) __atomic_store_n( &overlap_max, n, __ATOMIC_RELAXED );
	vh_eval();
}
static void leave( void ) { __atomic_sub_fetch( &inside, 1, __ATOMIC_RELAXED ); }
static int bad( verr **e ) { int r = *e == NULL; libhmac_error_free( e ); return r; }

static void work( int t, vrng *r, int ops )
{
	int i, k;
	struct { vctx *c; int a; ref_ctx ref; int legacy; } L[ 3 ]; unsigned char h[ 64 ], want[ 64 ];
	memset( L, 0, sizeof L );
	for( i = 0; i < ops; i++ )
	{
		int a = (int) rngn( r, NALG ), rc, op = (int) rngn( r, 20 ); const valg *v = &A[ a ]; verr *e = NULL;
		size_t n = rng_size( r, v->bs, 1500 ), kn = rng_size( r, v->bs, 300 ), off = rngn( r, 30000 ), ko = rngn( r, 30000 );
		k = (int) rngn( r, 3 );
		if( op < 5 )
		{
			enter(); rc = v->calc( SH + off, n, h, v->hs, &e ); leave();
			ref_digest( v->ref, SH + off, n, want );
			if( rc != 1 || memcmp( h, want, v->hs ) != 0 ) vh_fail( "thread-oneshot", "thread %d %s of %zu bytes: rc %d %s expected %s", t, v->name, n, rc, vh_hex( h, v->hs ), vh_hex( want, v->hs ) );
		}
		else if( op < 9 )
		{
			enter(); rc = v->hmac( SH + ko, kn, SH + off, n, h, v->hs, &e ); leave();
			ref_hmac( v->ref, SH + ko, kn, SH + off, n, want );
			if( rc != 1 || memcmp( h, want, v->hs ) != 0 ) vh_fail( "thread-hmac", "thread %d %s of %zu bytes, key %zu: rc %d %s expected %s", t, v->name, n, kn, rc, vh_hex( h, v->hs ), vh_hex( want, v->hs ) );
		}
		else if( op < 11 )
		{
			/* errors are per call */
			enter();
			switch( rngn( r, 4 ) )
			{
			case 0: rc = v->calc( NULL, 1, h, v->hs, &e ); break;
			case 1: rc = v->hmac( SH, kn, SH, n, h, v->hs - 1, &e ); break;
			case 2: rc = v->update( NULL, SH, n, &e ); break;
			default: rc = v->init( NULL, &e ); break;
			}
			leave();
			if( rc != -1 || bad( &e ) ) vh_fail( "thread-error", "thread %d: an invalid call returned %d", t, rc );
		}
		else if( L[ k ].c == NULL )
		{
			L[ k ].a = a; L[ k ].legacy = op == 11;
			enter(); rc = ( L[ k ].legacy ? v->linit : v->init )( &L[ k ].c, &e ); leave();
			if( rc != 1 ) vh_fail( "thread-init", "thread %d %s initialize returned %d", t, v->name, rc );
			ref_init( &L[ k ].ref, v->ref );
		}
		else if( op < 17 )
		{
			v = &A[ L[ k ].a ];
			enter(); rc = ( L[ k ].legacy ? v->lupdate : v->update )( L[ k ].c, SH + off, n, &e ); leave();
			if( rc != 1 ) vh_fail( "thread-update", "thread %d %s update returned %d", t, v->name, rc );
			ref_update( &L[ k ].ref, SH + off, n );
			if( op == 16 ) sched_yield();
		}
		else
		{
			v = &A[ L[ k ].a ];
			enter(); rc = ( L[ k ].legacy ? v->lfinal : v->final )( L[ k ].c, h, v->hs, &e ); leave();
			ref_final( &L[ k ].ref, want );
			if( rc != 1 || memcmp( h, want, v->hs ) != 0 ) vh_fail( "thread-stream", "thread %d %s stream: rc %d %s expected %s", t, v->name, rc, vh_hex( h, v->hs ), vh_hex( want, v->hs ) );
			enter(); ( L[ k ].legacy ? v->lfree : v->freec )( &L[ k ].c, &e ); leave();
		}
		if( e != NULL ) libhmac_error_free( &e );
	}
	for( k = 0; k < 3; k++ ) if( L[ k ].c != NULL ) A[ L[ k ].a ].freec( &L[ k ].c, NULL );
}

/* The very first calls in the process, all at the same moment. */
static volatile int ready;
static void first( int t )
{
	int a = (int) ( vh_seed % NALG ), rc, shape = (int) ( vh_seed / NALG % 3 ); const valg *v = &A[ a ]; unsigned char h[ 64 ], want[ 64 ]; verr *e = NULL; vctx *c = NULL;
	size_t n = 200 + (size_t) t * 100, off = (size_t) t * 1500;
	ref_digest( v->ref, SH + off, n, want );
	if( shape == 1 ) ref_hmac( v->ref, SH, 20, SH + off, n, want );
	__atomic_add_fetch( &ready, 1, __ATOMIC_RELAXED );
	while( __atomic_load_n( &ready, __ATOMIC_RELAXED ) < NT ) { }
	enter();
	if( shape == 0 ) rc = v->calc( SH + off, n, h, v->hs, &e );
	else if( shape == 1 ) rc = v->hmac( SH, 20, SH + off, n, h, v->hs, &e );
	else
	{
		rc = v->init( &c, &e );
		if( rc == 1 ) rc = v->update( c, SH + off, n, &e );
		if( rc == 1 ) rc = v->final( c, h, v->hs, &e );
		v->freec( &c, NULL );
	}
	leave();
	if( rc != 1 || memcmp( h, want, v->hs ) != 0 ) vh_fail( "thread-first-use", "thread %d: the first %s of the process (shape %d), simultaneously in %d threads: rc %d %s expected %s", t, v->name, shape, NT, rc, vh_hex( h, v->hs ), vh_hex( want, v->hs ) );
	if( e != NULL ) libhmac_error_free( &e );
}

static void *thread( void *p )
{
	int t = (int) (intptr_t) p, i; vrng r;
	if( argn( "first", 0 ) ) first( t );
	for( i = 0; i < rounds; i++ )
	{
		int x = ( t + i ) % NT, k; unsigned char h[ 64 ], want[ 64 ]; const valg *v;
		pthread_barrier_wait( &bar );
		rng_seed( &r, vh_seed, 90000 + (uint64_t) ( i * NT + t ) );
		/* the context this round's thread got from another one */
		if( X[ x ].c == NULL )
		{
			X[ x ].a = (int) rngn( &r, NALG ); v = &A[ X[ x ].a ];
			enter(); k = v->init( &X[ x ].c, NULL ); leave();
			if( k != 1 ) vh_fail( "thread-init", "initialize returned %d", k );
			ref_init( &X[ x ].ref, v->ref );
		}
		v = &A[ X[ x ].a ];
		for( k = 0; k < 3; k++ )
		{
			size_t n = rng_size( &r, v->bs, 400 ), off = rngn( &r, 30000 );
			enter(); v->update( X[ x ].c, SH + off, n, NULL ); leave();
			ref_update( &X[ x ].ref, SH + off, n );
		}
		if( rngn( &r, 4 ) == 0 )
		{
			enter(); k = v->final( X[ x ].c, h, v->hs, NULL ); leave();
			ref_final( &X[ x ].ref, want );
			if( k != 1 || memcmp( h, want, v->hs ) != 0 ) vh_fail( "thread-handed", "%s stream handed between threads: rc %d %s expected %s", v->name, k, vh_hex( h, v->hs ), vh_hex( want, v->hs ) );
			enter(); v->freec( &X[ x ].c, NULL ); leave();
		}
		work( t, &r, 40 );
	}
	return NULL;
}

int mode_threads( void )
{
	pthread_t th[ NT ]; int i; vrng r;
	rounds = (int) argn( "rounds", 60 );
	rng_seed( &r, vh_seed, 80000 ); rng_fill( &r, SH, sizeof SH );
	pthread_barrier_init( &bar, NULL, NT );
	for( i = 0; i < NT; i++ ) if( pthread_create( &th[ i ], NULL, thread, (void *) (intptr_t) i ) ) return 1;
	for( i = 0; i < NT; i++ ) pthread_join( th[ i ], NULL );
	for( i = 0; i < NT; i++ ) if( X[ i ].c != NULL ) A[ X[ i ].a ].freec( &X[ i ].c, NULL );
	for( i = 0; i < rounds * NT; i++ ) vh_distinct( (uint64_t) i + 1 );
	vh_stat( "calls", calls ); vh_stat( "calls that overlapped another", overlaps ); vh_stat( "most calls at once", overlap_max );
	vh_sample( "%d threads, %d rounds, %ld calls, %ld of them overlapping another, at most %d at once", NT, rounds, calls, overlaps, overlap_max );
	if( overlaps == 0 && !argn( "first", 0 ) ) { fprintf( stderr, "no calls overlapped\n" ); return 1; }
	return 0;
}
