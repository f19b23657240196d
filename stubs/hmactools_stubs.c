/* Stand-ins for libcfile, libcsplit, libcnotify and libclocale, with an event
 * log and fault/signal injection controlled by the environment:
 *   VH_LOG=path      append one line per boundary event
 *   VH_PLAN=spec     comma separated  <op>:<n>:<action>, the n-th (1-based; 0 =
 *                    every) call of op in {init,open,size,read,close,free}
 *                    gets the action  err | eof | short<k> | sig | sigafter |
 *                    trunc<k> (truncate the file to k bytes first) |
 *                    half (at most half of the request) | eintr
 *   VH_SHORTSEED=n   every read returns a pseudo-random part of the request
 */
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
#include <libcerror.h>
#include <libcfile.h>
#include <libcsplit.h>
#include <libcnotify.h>
#include <libclocale.h>
#include "vh_alloc.h"

/* ---- libcnotify ---- */
int libcnotify_verbose = 0;
static FILE *cn_stream = NULL;
int libcnotify_printf( const char *format, ... )
{
	va_list ap; int n;
	if( cn_stream == NULL ) return 0;
	va_start( ap, format ); n = vfprintf( cn_stream, format, ap ); va_end( ap );
	return n;
}
int libcnotify_print_data( const uint8_t *data, size_t n, uint8_t f ) { (void) data; (void) f; return (int) ( n & 0x7fff ); }
int libcnotify_print_error_backtrace( libcerror_error_t *error )
{
	if( cn_stream == NULL || error == NULL ) return 0;
	return libcerror_error_backtrace_fprint( error, cn_stream );
}
int libcnotify_stream_set( FILE *stream, libcerror_error_t **error ) { (void) error; cn_stream = stream; return 1; }
int libcnotify_stream_open( const char *fn, libcerror_error_t **error ) { (void) fn; (void) error; return 1; }
int libcnotify_stream_close( libcerror_error_t **error ) { (void) error; return 0; }
void libcnotify_verbose_set( int v ) { libcnotify_verbose = v; }

/* ---- libclocale ---- */
int libclocale_codepage = 0;
int libclocale_initialize( const char *d, libcerror_error_t **error ) { (void) d; (void) error; return 1; }
/* The first character of the decimal point of the locale, which VH_DECIMAL or a driver sets ("fail": there is none to be had) */
int vh_decimal_point = 0;
int libclocale_locale_get_decimal_point( int *p, libcerror_error_t **error )
{
	const char *s = getenv( "VH_DECIMAL" );
	if( p == NULL ) return -1;
	if( vh_decimal_point == -9999 || ( vh_decimal_point == 0 && s != NULL && strcmp( s, "fail" ) == 0 ) )
	{
		libcerror_error_set( error, LIBCERROR_ERROR_DOMAIN_RUNTIME, LIBCERROR_RUNTIME_ERROR_GET_FAILED, "libclocale_locale_get_decimal_point: unable to retrieve locale data." );
		return -1;
	}
	*p = vh_decimal_point != 0 ? vh_decimal_point : s != NULL && *s ? (int) *s : '.';
	return 1;
}
int libclocale_locale_get_codepage( int *p, libcerror_error_t **error ) { (void) error; if( p == NULL ) return -1; *p = 0; return 1; }

/* ---- libcsplit ---- */
typedef struct { char *string; size_t size; int n; char **seg; size_t *len; } split_t;
int libcsplit_narrow_split_string_free( libcsplit_narrow_split_string_t **s, libcerror_error_t **error )
{
	split_t *x; (void) error;
	if( s == NULL ) return -1;
	x = (split_t *) *s; *s = NULL;
	if( x != NULL ) { free( x->string ); free( x->seg ); free( x->len ); free( x ); }
	return 1;
}
int libcsplit_narrow_split_string_get_string( libcsplit_narrow_split_string_t *s, char **st, size_t *n, libcerror_error_t **error )
{ split_t *x = (split_t *) s; (void) error; if( !x || !st || !n ) return -1; *st = x->string; *n = x->size; return 1; }
int libcsplit_narrow_split_string_get_number_of_segments( libcsplit_narrow_split_string_t *s, int *n, libcerror_error_t **error )
{ split_t *x = (split_t *) s; (void) error; if( !x || !n ) return -1; *n = x->n; return 1; }
int libcsplit_narrow_split_string_get_segment_by_index( libcsplit_narrow_split_string_t *s, int i, char **seg, size_t *n, libcerror_error_t **error )
{
	split_t *x = (split_t *) s;
	if( !x || !seg || !n || i < 0 || i >= x->n )
	{
		libcerror_error_set( error, LIBCERROR_ERROR_DOMAIN_ARGUMENTS, LIBCERROR_ARGUMENT_ERROR_INVALID_VALUE, "libcsplit: invalid argument." );
		return -1;
	}
	*seg = x->seg[ i ]; *n = x->len[ i ];
	return 1;
}
int libcsplit_narrow_string_split( const char *string, size_t size, char delim, libcsplit_narrow_split_string_t **s, libcerror_error_t **error )
{
	split_t *x; size_t i, l; int k;
	if( string == NULL || s == NULL || *s != NULL ) goto bad;
	x = (split_t *) calloc( 1, sizeof( split_t ) );
	if( x == NULL ) goto bad;
	if( size == 0 || string[ 0 ] == 0 ) { *s = (libcsplit_narrow_split_string_t *) x; return 1; }
	l = strnlen( string, size );
	x->string = (char *) malloc( l + 1 );
	if( x->string == NULL ) { free( x ); goto bad; }
	memcpy( x->string, string, l ); x->string[ l ] = 0; x->size = l + 1;
	x->n = 1;
	for( i = 0; i < l; i++ ) if( x->string[ i ] == delim ) x->n++;
	x->seg = (char **) malloc( sizeof( char * ) * (size_t) x->n );
	x->len = (size_t *) malloc( sizeof( size_t ) * (size_t) x->n );
	if( x->seg == NULL || x->len == NULL ) { free( x->seg ); free( x->len ); free( x->string ); free( x ); goto bad; }
	x->seg[ 0 ] = x->string;
	for( i = 0, k = 0; i <= l; i++ )
		if( i == l || x->string[ i ] == delim )
		{
			x->string[ i ] = 0;
			x->len[ k ] = (size_t) ( &x->string[ i ] - x->seg[ k ] ) + 1;
			if( ++k < x->n ) x->seg[ k ] = &x->string[ i + 1 ];
		}
	*s = (libcsplit_narrow_split_string_t *) x;
	return 1;
bad:
	libcerror_error_set( error, LIBCERROR_ERROR_DOMAIN_RUNTIME, LIBCERROR_RUNTIME_ERROR_SET_FAILED, "libcsplit: unable to split string." );
	return -1;
}

/* ---- libcfile ---- */
typedef struct { int fd; char *name; } file_t;
static unsigned long long rs = 0; static int rs_on = -1;
static int counts[ 8 ];
static const char *opn[ 6 ] = { "init", "open", "size", "read", "close", "free" };

static void vlog( const char *fmt, ... )
{
	static int fd = -2; char b[ 400 ]; va_list ap; int n; ssize_t w;
	if( fd == -2 )
	{
		const char *p = getenv( "VH_LOG" );
		fd = p ? open( p, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600 ) : -1;
		if( fd >= 0 && fd < 100 ) { int d = fcntl( fd, F_DUPFD_CLOEXEC, 200 ); if( d >= 0 ) { close( fd ); fd = d; } }
	}
	if( fd < 0 ) return;
	va_start( ap, fmt ); n = vsnprintf( b, sizeof b, fmt, ap ); va_end( ap );
	w = write( fd, b, (size_t) n ); (void) w;
}

/* A plan given by a driver in this process; counting starts again */
static const char *own_plan = NULL;
void vh_plan_set( const char *p );
void vh_plan_set( const char *p ) { own_plan = p; memset( counts, 0, sizeof counts ); }

/* Returns the action for this call of op, or NULL */
static const char *plan( int op, char *out, size_t n )
{
	const char *p = own_plan != NULL ? own_plan : getenv( "VH_PLAN" ); int c = ++counts[ op ]; size_t l = strlen( opn[ op ] );
	while( p != NULL && *p )
	{
		if( strncmp( p, opn[ op ], l ) == 0 && p[ l ] == ':' )
		{
			char *e; long k = strtol( p + l + 1, &e, 10 );
			if( *e == ':' && ( k == 0 || k == c ) )
			{
				size_t i = 0; e++;
				while( e[ i ] && e[ i ] != ',' && i + 1 < n ) { out[ i ] = e[ i ]; i++; }
				out[ i ] = 0;
				vlog( "plan %s %d %s\n", opn[ op ], c, out );
				return out;
			}
		}
		p = strchr( p, ',' );
		if( p ) p++;
	}
	return NULL;
}
static int fail( libcerror_error_t **error, const char *what )
{
	libcerror_error_set( error, LIBCERROR_ERROR_DOMAIN_IO, LIBCERROR_IO_ERROR_GENERIC, "libcfile: %s failed.", what );
	return -1;
}
#define PRE( op, what ) char abuf[ 40 ]; const char *a = plan( op, abuf, sizeof abuf ); if( a && strcmp( a, "sig" ) == 0 ) raise( SIGINT ); if( a && strcmp( a, "err" ) == 0 ) { return fail( error, what ); }
#define POST() if( a && strcmp( a, "sigafter" ) == 0 ) raise( SIGINT );

int libcfile_file_initialize( libcfile_file_t **file, libcerror_error_t **error )
{
	file_t *f; PRE( 0, "initialize" )
	if( file == NULL || *file != NULL ) return fail( error, "initialize" );
	f = (file_t *) malloc( sizeof( file_t ) );
	if( f == NULL ) return fail( error, "allocate" );
	f->fd = -1; f->name = NULL;
	*file = (libcfile_file_t *) f;
	POST()
	return 1;
}
int libcfile_file_close( libcfile_file_t *file, libcerror_error_t **error )
{
	file_t *f = (file_t *) file; int r; PRE( 4, "close" )
	if( f == NULL ) return fail( error, "close" );
	r = 0;
	if( f->fd >= 0 ) { r = close( f->fd ); vlog( "close %d\n", r ); f->fd = -1; }
	POST()
	return r == 0 ? 0 : fail( error, "close" );
}
int libcfile_file_free( libcfile_file_t **file, libcerror_error_t **error )
{
	file_t *f; PRE( 5, "free" )
	if( file == NULL ) return fail( error, "free" );
	f = (file_t *) *file; *file = NULL;
	if( f != NULL ) { if( f->fd >= 0 ) { int r = close( f->fd ); vlog( "close %d\n", r ); } vh_raw_free( f->name ); free( f ); }
	POST()
	return 1;
}
int libcfile_file_open( libcfile_file_t *file, const char *filename, int flags, libcerror_error_t **error )
{
	file_t *f = (file_t *) file; size_t l; PRE( 1, "open" )
	if( f == NULL || filename == NULL || f->fd >= 0 ) return fail( error, "open" );
	if( flags != LIBCFILE_OPEN_READ ) vlog( "OPENWRITE %d\n", flags );
	f->fd = open( filename, flags == LIBCFILE_OPEN_READ ? O_RDONLY | O_CLOEXEC : O_RDWR | O_CLOEXEC );
	vlog( "open %d\n", f->fd >= 0 );
	if( f->fd < 0 ) return fail( error, "open" );
	l = strlen( filename ); f->name = (char *) vh_raw_malloc( l + 1 ); memcpy( f->name, filename, l + 1 );
	POST()
	return 1;
}
int libcfile_file_get_size( libcfile_file_t *file, uint64_t *size, libcerror_error_t **error )
{
	file_t *f = (file_t *) file; struct stat st; PRE( 2, "get_size" )
	if( f == NULL || size == NULL || f->fd < 0 || fstat( f->fd, &st ) != 0 ) return fail( error, "get_size" );
	*size = (uint64_t) st.st_size;
	vlog( "size %llu\n", (unsigned long long) st.st_size );
	POST()
	return 1;
}
int64_t libcfile_file_seek_offset( libcfile_file_t *file, int64_t offset, int whence, libcerror_error_t **error )
{ file_t *f = (file_t *) file; if( f == NULL || f->fd < 0 ) return fail( error, "seek" ); return lseek( f->fd, offset, whence ); }
int libcfile_file_is_open( libcfile_file_t *file, libcerror_error_t **error ) { (void) error; return file != NULL && ( (file_t *) file )->fd >= 0; }
int libcfile_file_get_offset( libcfile_file_t *file, int64_t *o, libcerror_error_t **error )
{ file_t *f = (file_t *) file; if( f == NULL || o == NULL || f->fd < 0 ) return fail( error, "offset" ); *o = lseek( f->fd, 0, SEEK_CUR ); return 1; }
void (*vh_read_hook)( void *p, size_t n ) = NULL;   /* told what a read gave */
ssize_t libcfile_file_read_buffer( libcfile_file_t *file, uint8_t *buffer, size_t size, libcerror_error_t **error )
{
	file_t *f = (file_t *) file; ssize_t r; size_t want = size; vlog( "want %zu\n", size ); PRE( 3, "read" )
	if( f == NULL || buffer == NULL || f->fd < 0 ) return fail( error, "read" );
	if( rs_on < 0 ) { const char *s = getenv( "VH_SHORTSEED" ); rs_on = s != NULL; if( s ) rs = strtoull( s, NULL, 10 ) * 2654435761ULL + 1; }
	if( a && strcmp( a, "eof" ) == 0 ) { vlog( "read %zu 0\n", size ); return 0; }
	if( a && strcmp( a, "half" ) == 0 && want > 1 ) want /= 2;
	if( a && strncmp( a, "short", 5 ) == 0 ) { size_t k = (size_t) strtoul( a + 5, NULL, 10 ); if( k > 0 && k < want ) want = k; }
	if( a && strncmp( a, "trunc", 5 ) == 0 ) { int t = truncate( f->name, (off_t) strtoull( a + 5, NULL, 10 ) ); (void) t; }
	if( rs_on && want > 1 )
	{
		rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17;
		if( rs & 3 ) want = 1 + (size_t) ( rs >> 8 ) % want; /* a part of the request */
	}
	r = read( f->fd, buffer, want );
	if( r < 0 ) { vlog( "read %zu -1\n", size ); return fail( error, "read" ); }
	/* bytes behind what was read are nobody's: make using them visible */
	if( (size_t) r < size && size <= ( 1 << 20 ) ) memset( buffer + r, 0xEE, size - (size_t) r );
	vlog( "read %zu %zd\n", size, r );
	if( vh_read_hook != NULL ) vh_read_hook( buffer, (size_t) r );
	POST()
	return r;
}
