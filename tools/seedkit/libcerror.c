/* Stand-in for libcerror: an error object with a message backtrace. */
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "libcerror.h"
#include "vh_alloc.h"

typedef struct { int domain, code, n; char **msg; } err_t;

static long live = 0, sets = 0;

long vh_cerror_live( void ) { return __atomic_load_n( &live, __ATOMIC_RELAXED ); }
long vh_cerror_sets( void ) { return __atomic_load_n( &sets, __ATOMIC_RELAXED ); }
int vh_cerror_domain( libcerror_error_t *e ) { return e ? ( (err_t *) e )->domain : 0; }
int vh_cerror_messages( libcerror_error_t *e ) { return e ? ( (err_t *) e )->n : 0; }
const char *libcerror_get_version( void ) { return LIBCERROR_VERSION_STRING; }

int libcerror_error_initialize( libcerror_error_t **error, int domain, int code )
{
	err_t *e;
	if( error == NULL ) return -1;
	if( *error != NULL ) return -1;
	e = (err_t *) vh_raw_calloc( 1, sizeof( err_t ) );
	if( e == NULL ) return -1;
	e->domain = domain; e->code = code;
	__atomic_add_fetch( &live, 1, __ATOMIC_RELAXED );
	*error = (libcerror_error_t *) e;
	return 1;
}

void libcerror_error_free( libcerror_error_t **error )
{
	err_t *e; int i;
	if( error == NULL || *error == NULL ) return;
	e = (err_t *) *error;
	*error = NULL;
	for( i = 0; i < e->n; i++ ) vh_raw_free( e->msg[ i ] );
	vh_raw_free( e->msg );
	vh_raw_free( e );
	__atomic_sub_fetch( &live, 1, __ATOMIC_RELAXED );
}

int libcerror_error_resize( libcerror_error_t *error )
{
	err_t *e = (err_t *) error; char **m;
	if( e == NULL ) return -1;
	m = (char **) vh_raw_realloc( e->msg, sizeof( char * ) * (size_t) ( e->n + 1 ) );
	if( m == NULL ) return -1;
	e->msg = m; e->msg[ e->n++ ] = NULL;
	return 1;
}

static void vset( libcerror_error_t **error, int domain, int code, const char *suffix, const char *fmt, va_list ap )
{
	char tmp[ 1024 ]; int n; err_t *e; size_t l;
	__atomic_add_fetch( &sets, 1, __ATOMIC_RELAXED );
	if( error == NULL || fmt == NULL ) return;
	n = vsnprintf( tmp, sizeof tmp, fmt, ap );
	if( n < 0 ) return;
	if( *error == NULL && libcerror_error_initialize( error, domain, code ) != 1 ) return;
	if( libcerror_error_resize( *error ) != 1 ) return;
	e = (err_t *) *error;
	l = strlen( tmp ) + ( suffix ? strlen( suffix ) : 0 );
	e->msg[ e->n - 1 ] = (char *) vh_raw_malloc( l + 1 );
	if( e->msg[ e->n - 1 ] == NULL ) return;
	strcpy( e->msg[ e->n - 1 ], tmp );
	if( suffix ) strcat( e->msg[ e->n - 1 ], suffix );
}

void libcerror_error_set( libcerror_error_t **error, int domain, int code, const char *fmt, ... )
{
	va_list ap;
	va_start( ap, fmt );
	vset( error, domain, code, NULL, fmt, ap );
	va_end( ap );
}

void libcerror_system_set_error( libcerror_error_t **error, int domain, int code, uint32_t sys, const char *fmt, ... )
{
	va_list ap; char s[ 300 ];
	snprintf( s, sizeof s, " with error: %s", strerror( (int) sys ) );
	va_start( ap, fmt );
	vset( error, domain, code, s, fmt, ap );
	va_end( ap );
}

int libcerror_error_matches( libcerror_error_t *error, int domain, int code )
{
	err_t *e = (err_t *) error;
	return e != NULL && e->domain == domain && e->code == code;
}

int libcerror_error_sprint( libcerror_error_t *error, char *string, size_t size )
{
	err_t *e = (err_t *) error; size_t l;
	if( e == NULL || string == NULL || size > (size_t) 0x7fffffff ) return -1;
	if( e->n == 0 || e->msg[ e->n - 1 ] == NULL ) return -1;
	l = strlen( e->msg[ e->n - 1 ] );
	if( l + 1 > size ) return -1;
	memcpy( string, e->msg[ e->n - 1 ], l + 1 );
	return (int) l;
}

int libcerror_error_fprint( libcerror_error_t *error, FILE *stream )
{
	err_t *e = (err_t *) error;
	if( e == NULL || stream == NULL || e->n == 0 || e->msg[ e->n - 1 ] == NULL ) return -1;
	return fprintf( stream, "%s\n", e->msg[ e->n - 1 ] );
}

int libcerror_error_backtrace_sprint( libcerror_error_t *error, char *string, size_t size )
{
	err_t *e = (err_t *) error; size_t o = 0, l; int i;
	if( e == NULL || string == NULL || size == 0 || size > (size_t) 0x7fffffff ) return -1;
	string[ 0 ] = 0;
	for( i = 0; i < e->n; i++ )
	{
		if( e->msg[ i ] == NULL ) continue;
		l = strlen( e->msg[ i ] );
		if( o + l + 2 > size ) return -1;
		if( o > 0 ) string[ o++ ] = '\n';
		memcpy( &string[ o ], e->msg[ i ], l + 1 );
		o += l;
	}
	return (int) o;
}

int libcerror_error_backtrace_fprint( libcerror_error_t *error, FILE *stream )
{
	err_t *e = (err_t *) error; int i, n, t = 0;
	if( e == NULL || stream == NULL ) return -1;
	for( i = 0; i < e->n; i++ )
	{
		if( e->msg[ i ] == NULL ) continue;
		n = fprintf( stream, "%s\n", e->msg[ i ] );
		if( n < 0 ) return -1;
		t += n;
	}
	return t;
}
