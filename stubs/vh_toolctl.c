/* The program entry for hmacsum under observation: arguments are copied into
 * exact heap blocks (reads behind an argument are visible to the sanitizer),
 * allocations are counted, failed on request and accounted at the end.
 *   VH_FAIL_AT=n | n+   the n-th allocation (and all later ones) fails
 *   VH_FAIL_CRYPTO=n | n+  the n-th crypto provider call fails
 *   VH_REPORT=path      what was observed, written when the program ends
 *   VH_TIMER=us         SIGINT this many microseconds after the start; twice
 *                       with VH_TIMER2=us
 *   VH_NOSTDIN=1        start with descriptor 0 closed
 *   VH_FSIZE=n          no file grows beyond n bytes (writes there fail)
 */
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <libcerror.h>
#include "vh_track.h"

int vh_tool_main( int argc, char * const argv[] );

static int nfd( void )
{
	int i, n = 0;
	for( i = 0; i < 1024; i++ ) if( fcntl( i, F_GETFD ) >= 0 ) n += ( i != 0 && i < 150 );
	return n;
}
static int rfd = -1, fds0;
static void fsize( const char *s )
{
	struct rlimit l;
	getrlimit( RLIMIT_FSIZE, &l );
	l.rlim_cur = s == NULL ? l.rlim_max : (rlim_t) strtoull( s, NULL, 10 );
	setrlimit( RLIMIT_FSIZE, &l );
}
static void report( int rc )
{
	char b[ 400 ]; int n; ssize_t w;
	if( rfd < 0 ) return;
	fsize( NULL );
	n = snprintf( b, sizeof b, "rc %d\nallocs %ld\ncrypto %ld\nfired %ld\nblocks %ld\nevp %ld\nerrors %ld\nfds %d\npeak %ld\n", rc, vh_alloc_count(), vh_crypto_count(),
	              vh_faults_fired(), vh_live_blocks(), vh_live_evp(), vh_cerror_live(), nfd() - fds0, (long) vh_peak_bytes() );
	w = write( rfd, b, (size_t) n ); (void) w;
}
static void spec( const char *name, long *at, int *p )
{
	const char *s = getenv( name ); char *e;
	if( s == NULL ) return;
	*at = strtol( s, &e, 10 );
	if( *e == '+' ) *p = 1;
}
static void timer( const char *name )
{
	const char *s = getenv( name ); timer_t t; struct sigevent ev; struct itimerspec it; long us;
	if( s == NULL ) return;
	us = atol( s );
	memset( &ev, 0, sizeof ev ); ev.sigev_notify = SIGEV_SIGNAL; ev.sigev_signo = SIGINT;
	memset( &it, 0, sizeof it ); it.it_value.tv_sec = us / 1000000; it.it_value.tv_nsec = ( us % 1000000 ) * 1000 + 1;
	if( timer_create( CLOCK_MONOTONIC, &ev, &t ) == 0 ) timer_settime( t, 0, &it, NULL );
}

int main( int argc, char *argv[] )
{
	char **av; int i, rc, p = 0; long at = 0, cr = 0; const char *s;
	signal( SIGINT, SIG_DFL );
	av = (char **) vh_raw_calloc( (size_t) argc + 1, sizeof( char * ) );
	for( i = 0; i < argc; i++ )
	{
		size_t l = strlen( argv[ i ] ) + 1;
		av[ i ] = (char *) vh_raw_malloc( l );
		memcpy( av[ i ], argv[ i ], l );
	}
	s = getenv( "VH_REPORT" );
	if( s != NULL )
	{
		int d = open( s, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600 );
		if( d >= 0 ) { rfd = fcntl( d, F_DUPFD_CLOEXEC, 210 ); close( d ); }
	}
	if( getenv( "VH_NOSTDIN" ) != NULL ) close( 0 );
	fds0 = nfd();
	if( getenv( "VH_FSIZE" ) != NULL ) { signal( SIGXFSZ, SIG_IGN ); fsize( getenv( "VH_FSIZE" ) ); }
	spec( "VH_FAIL_AT", &at, &p );
	spec( "VH_FAIL_CRYPTO", &cr, &p );
	timer( "VH_TIMER" );
	timer( "VH_TIMER2" );
	vh_fault_arm( at, cr, p );
	vh_track_on();
	rc = vh_tool_main( argc, av );
	vh_track_off();
	vh_fault_disarm();
	report( rc );
	return rc;
}
