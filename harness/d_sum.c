/* The parts of hmacsum as components: random histories of sum handle calls,
 * and the two string conversions. */
#include <errno.h>
#include <limits.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include "vh_common.h"
#include "byte_size_string.h"
#include "digest_hash.h"
#include "sum_handle.h"

void vh_plan_set( const char * );
#define ON vh_track_on()
#define OFF vh_track_off()
static vrng R;

/* ------------------------------------------------------------- sum handle */
#define NFILES 6
static char path[ NFILES ][ 300 ]; static unsigned char *fdata[ NFILES ]; static size_t fsz[ NFILES ];
static char hist[ 3000 ]; static int histl;
#define HADD( ... ) do { if( histl < 2800 ) histl += snprintf( hist + histl, sizeof hist - (size_t) histl, __VA_ARGS__ ); } while( 0 )

typedef struct {
	sum_handle_t *h;
	int types;                 /* bit per algorithm */
	int file, offset_zero;     /* open file or -1; nothing read from it yet */
	int begun, known, final;   /* contexts made; their content is known; strings hold it */
	int fresh;                 /* no integrity hash was ever begun */
	int aborted;
	unsigned char *data; size_t n;   /* what the contexts were given */
} mod_t;

static void result( const char *op, int rc, libcerror_error_t **e, int had )
{
	char key[ 80 ];
	vh_eval();
	if( rc != -1 && rc != 1 && ( rc != 0 || ( strcmp( op, "close" ) && strncmp( op, "set_", 4 ) ) ) ) { snprintf( key, sizeof key, "rc-%s", op ); vh_fail( key, "%s returned %d; %s", op, rc, hist ); }
	if( had && rc < 0 && *e == NULL ) { snprintf( key, sizeof key, "no-error-%s", op ); vh_fail( key, "%s returned %d without an error; %s", op, rc, hist ); }
	if( had && rc >= 0 && *e != NULL ) { snprintf( key, sizeof key, "error-on-success-%s", op ); vh_fail( key, "%s returned %d and left an error; %s", op, rc, hist ); }
	if( *e != NULL ) libcerror_error_free( e );
}
static const char *spell( int a )
{
	static const char *s[ 5 ][ 6 ] = { { "md5", "MD5", "md5", "MD5", "md5", "MD5" }, { "sha1", "SHA1", "sha-1", "sha_1", "SHA-1", "SHA_1" },
		{ "sha224", "SHA224", "sha-224", "sha_224", "SHA-224", "SHA_224" }, { "sha256", "SHA256", "sha-256", "sha_256", "SHA-256", "SHA_256" },
		{ "sha512", "SHA512", "sha-512", "sha_512", "SHA-512", "SHA_512" } };
	return s[ a ][ rngn( &R, 6 ) ];
}
static void values( mod_t *m, const char *after )
{
	char *text = NULL; size_t tn = 0; FILE *f; int a, rc, had = rngn( &R, 3 ) != 0, lines = 0; libcerror_error_t *e = NULL; unsigned char d[ 64 ]; size_t i;
	char *exact;
	f = open_memstream( &text, &tn );
	if( f == NULL ) abort();
	ON; rc = sum_handle_hash_values_fprint( m->h, f, had ? &e : NULL ); OFF;
	fclose( f );
	result( "fprint", rc, &e, had );
	if( rc != 1 ) vh_fail( "fprint", "fprint returned %d; %s", rc, hist );
	exact = text;
	for( i = 0; i < tn; i++ ) if( exact[ i ] == '\n' ) lines++;
	if( rc == 1 && m->known )
	{
		int want = 0;
		for( a = 0; a < NALG; a++ )
		{
			const char *x; int isin;
			ref_digest( A[ a ].ref, m->data, m->n, d ); x = vh_hex( d, A[ a ].hs );
			isin = strcasestr( exact, x ) != NULL;
			if( m->types & ( 1 << a ) )
			{
				want++;
				if( !isin ) vh_fail( "wrong-digest", "after %s the %s of %zu bytes should be %s, printed: %.900s; %s", after, A[ a ].name, m->n, x, exact, hist );
			}
			else if( isin ) vh_fail( "unselected-digest", "after %s a %s is printed that was not selected; %s", after, A[ a ].name, hist );
		}
		if( lines != want ) vh_fail( "lines", "%d lines for %d types; %s", lines, want, hist );
		vh_distinct( vh_hash( m->data, m->n, (uint64_t) m->types * 77 + m->n ) );
		vh_stat( "printed values compared", want );
	}
	free( text );
}
static void give( mod_t *m, const unsigned char *p, size_t n )
{
	m->data = realloc( m->data, m->n + n + 1 );
	memcpy( m->data + m->n, p, n ); m->n += n;
}
static size_t readsize( int any )
{
	static const size_t s[] = { 1, 2, 3, 63, 64, 65, 100, 127, 128, 129, 1000, 4096, 32768, 70000 };
	return any && rngn( &R, 3 ) == 0 ? 1 + rngn( &R, 5000 ) : s[ rngn( &R, sizeof s / sizeof *s ) ];
}
static void one_history( long hi )
{
	mod_t M, *m = &M; int i, nops = 3 + (int) rngn( &R, 25 ), rc, had, a; libcerror_error_t *e = NULL; static unsigned char *buf; char s[ 200 ];
	int faulty = rngn( &R, 4 ) == 0; long cerr0;
	if( buf == NULL ) buf = malloc( 80000 );
	memset( m, 0, sizeof M ); m->file = -1; m->fresh = 1; m->data = malloc( 1 ); histl = 0; hist[ 0 ] = 0;
	cerr0 = vh_cerror_live();
	vh_plan_set( "" );
	ON; rc = sum_handle_initialize( &m->h, &e ); OFF;
	result( "initialize", rc, &e, 1 );
	if( rc != 1 || m->h == NULL ) { vh_fail( "initialize", "initialize returned %d", rc ); return; }
	m->types = 1;
	for( i = 0; i < nops && m->h != NULL; i++ )
	{
		int op = (int) rngn( &R, 100 ), hit = 0; long fired; const char *pl = "";
		had = rngn( &R, 4 ) != 0;
		vh_case( "history %ld: %s", hi, hist );
		if( faulty && rngn( &R, 3 ) == 0 )
		{
			static const char *pls[] = { "read:1:err", "read:2:err", "read:1:eof", "read:2:eof", "size:1:err", "open:1:err", "close:1:err" };
			if( rngn( &R, 2 ) ) pl = pls[ rngn( &R, 7 ) ];
			else vh_fault_arm( rngn( &R, 2 ) ? (long) rngn( &R, 6 ) + 1 : 0, (long) rngn( &R, 9 ) + 1, (int) rngn( &R, 2 ) );
		}
		else if( rngn( &R, 3 ) == 0 ) pl = "read:0:half";
		vh_plan_set( pl );
#define DONE( name ) do { fired = vh_faults_fired(); hit = fired > 0 || ( pl[ 0 ] && strcmp( pl, "read:0:half" ) ); vh_fault_arm( 0, 0, 0 ); vh_fault_disarm(); if( fired ) vh_stat( "failures injected", fired ); result( name, rc, &e, had ); } while( 0 )
		if( op < 14 )
		{
			int t = 0, k = 1 + (int) rngn( &R, 4 ); s[ 0 ] = 0;
			while( k-- ) { a = (int) rngn( &R, 5 ); t |= 1 << a; strcat( s, spell( a ) ); if( k ) strcat( s, "," ); }
			HADD( "types %s; ", s );
			ON; rc = sum_handle_set_digest_types( m->h, s, had ? &e : NULL ); OFF;
			DONE( "set_digest_types" );
			if( rc < 0 && !hit ) vh_fail( "types-refused", "set_digest_types( %s ) returned %d; %s", s, rc, hist );
			if( rc < 0 ) { m->known = 0; goto taint; }
			if( ( m->types | t ) != m->types && m->begun ) m->known = 0;    /* a type without a context */
			m->types |= t;
		}
		else if( op < 26 )
		{
			size_t n = readsize( 1 ); int u = (int) rngn( &R, 3 ); size_t w = u == 1 && n < 100 ? n * 1024 : u == 2 && n < 100 ? n * 1000 : n;
			snprintf( s, sizeof s, "%zu%s", n, w == n ? "" : u == 1 ? "KiB" : "kB" );
			HADD( "size %s; ", s );
			ON; rc = sum_handle_set_process_buffer_size( m->h, s, had ? &e : NULL ); OFF;
			DONE( "set_process_buffer_size" );
			if( rc != 1 ) vh_fail( "size-refused", "set_process_buffer_size( %s ) returned %d; %s", s, rc, hist );
			else if( m->h->process_buffer_size != w ) vh_fail( "size-wrong", "%s gave a buffer of %zu bytes; %s", s, m->h->process_buffer_size, hist );
		}
		else if( op < 40 )
		{
			int f = (int) rngn( &R, NFILES + 1 ), was = m->file >= 0;
			HADD( "open %d; ", f );
			ON; rc = sum_handle_open_input( m->h, f == NFILES ? "/nonexistent/file" : path[ f ], had ? &e : NULL ); OFF;
			DONE( "open_input" );
			if( f == NFILES && rc == 1 ) vh_fail( "open-missing", "open_input of a missing file returned 1; %s", hist );
			if( f < NFILES && !was && !hit && rc != 1 ) vh_fail( "open-refused", "open_input returned %d; %s", rc, hist );
			if( rc == 1 && f < NFILES ) { m->file = f; m->offset_zero = 1; }
		}
		else if( op < 50 )
		{
			HADD( "close; " );
			ON; rc = sum_handle_close( m->h, had ? &e : NULL ); OFF;
			DONE( "close" );
			if( rc == 0 ) m->file = -1;
			else if( !hit ) vh_fail( "close", "close returned %d; %s", rc, hist );
			if( rc > 0 ) vh_fail( "close", "close returned %d; %s", rc, hist );
		}
		else if( op < 58 )
		{
			size_t n = readsize( 1 ); ssize_t k;
			HADD( "read %zu; ", n );
			ON; k = sum_handle_read_buffer( m->h, buf, n, had ? &e : NULL ); OFF;
			rc = k < 0 ? -1 : 1;
			DONE( "read_buffer" );
			if( m->file < 0 && k > 0 ) vh_fail( "read-unopened", "read_buffer without a file returned %zd; %s", k, hist );
			if( m->file >= 0 && !hit && k < 0 ) vh_fail( "read-refused", "read_buffer returned %zd; %s", k, hist );
			if( m->file >= 0 && m->offset_zero && k > 0 && ( (size_t) k > n || (size_t) k > fsz[ m->file ] || memcmp( buf, fdata[ m->file ], (size_t) k ) != 0 ) )
				vh_fail( "read-wrong", "read_buffer gave other bytes; %s", hist );
			if( k != 0 ) m->offset_zero = 0;
		}
		else if( op < 66 )
		{
			HADD( "begin; " );
			ON; rc = sum_handle_initialize_integrity_hash( m->h, had ? &e : NULL ); OFF;
			DONE( "initialize_integrity_hash" );
			if( rc == 1 ) { m->begun = 1; m->known = 1; m->n = 0; m->final = 0; }
			else
			{
				if( m->fresh && !hit ) vh_fail( "begin-refused", "initialize_integrity_hash returned %d; %s", rc, hist );
				m->known = 0; m->begun = 1;
			}
			m->fresh = 0;
		}
		else if( op < 78 )
		{
			size_t n = readsize( 1 ); vbuf in; unsigned char *p; int mode = (int) rngn( &R, NPLACE ), had_ctx = m->begun;
			rng_fill( &R, buf, n );
			p = vb_input( 0, mode, buf, n, &in );
			HADD( "update %zu; ", n );
			ON; rc = sum_handle_update_integrity_hash( m->h, p, n, had ? &e : NULL ); OFF;
			if( !vb_same( &in, buf ) ) vh_fail( "input-changed", "update changed its input; %s", hist );
			vb_release( &in );
			DONE( "update_integrity_hash" );
			if( rc == 1 && !had_ctx && m->types ) vh_fail( "update-before-begin", "update_integrity_hash before anything was begun returned 1; %s", hist );
			if( rc != 1 && m->begun && m->known && !m->final && !hit ) vh_fail( "update-refused", "update_integrity_hash returned %d; %s", rc, hist );
			if( rc == 1 && m->known && !m->final ) give( m, buf, n ); else m->known = 0;
		}
		else if( op < 86 )
		{
			HADD( "finish; " );
			ON; rc = sum_handle_finalize_integrity_hash( m->h, had ? &e : NULL ); OFF;
			DONE( "finalize_integrity_hash" );
			if( rc == 1 && !m->begun ) vh_fail( "finish-before-begin", "finalize_integrity_hash before anything was begun returned 1; %s", hist );
			if( rc != 1 && m->begun && m->known && !m->final && !hit ) vh_fail( "finish-refused", "finalize_integrity_hash returned %d; %s", rc, hist );
			if( rc == 1 && m->known && !m->final ) { m->final = 1; values( m, "finalize" ); }
			else if( rc != 1 ) m->known = 0;
		}
		else if( op < 96 )
		{
			int first = m->fresh && m->file >= 0 && m->offset_zero;
			HADD( "process; " );
			ON; rc = sum_handle_process_input( m->h, had ? &e : NULL ); OFF;
			DONE( "process_input" );
			if( first && !hit && !m->aborted && rc != 1 ) vh_fail( "process-refused", "process_input returned %d; %s", rc, hist );
			if( rc == 1 && m->file < 0 ) vh_fail( "process-unopened", "process_input without a file returned 1; %s", hist );
			if( rc == 1 && m->file >= 0 && !m->aborted )
			{
				m->known = 1; m->n = 0; give( m, fdata[ m->file ], fsz[ m->file ] ); m->final = 1;
				values( m, "process_input" );
				vh_stat( "files processed", 1 );
			}
			else m->known = 0;
			m->fresh = 0; m->begun = 1; m->offset_zero = m->offset_zero && m->file >= 0 && fsz[ m->file ] == 0;
		}
		else if( op < 97 )
		{
			HADD( "abort; " );
			ON; rc = sum_handle_signal_abort( m->h, had ? &e : NULL ); OFF;
			DONE( "signal_abort" );
			if( rc != 1 ) vh_fail( "abort", "signal_abort returned %d; %s", rc, hist );
			m->aborted = 1;
		}
		else
		{
			/* calls that have to be refused and do nothing */
			int k = (int) rngn( &R, 11 ); sum_handle_t *keep = m->h; ssize_t z = -1;
			HADD( "refuse %d; ", k ); rc = -1;
			ON;
			switch( k )
			{
			case 0: rc = sum_handle_initialize( &m->h, had ? &e : NULL ); break;
			case 1: rc = sum_handle_initialize( NULL, had ? &e : NULL ); break;
			case 2: rc = sum_handle_free( NULL, had ? &e : NULL ); break;
			case 3: z = sum_handle_read_buffer( m->h, NULL, 10, had ? &e : NULL ); rc = z == -1 ? -1 : 1; break;
			case 4: z = sum_handle_read_buffer( m->h, buf, (size_t) SSIZE_MAX + 1, had ? &e : NULL ); rc = z == -1 ? -1 : 1; break;
			case 5: rc = sum_handle_update_integrity_hash( m->h, NULL, 10, had ? &e : NULL ); break;
			case 6: rc = sum_handle_update_integrity_hash( m->h, buf, (size_t) SSIZE_MAX + 1, had ? &e : NULL ); break;
			case 7: rc = sum_handle_hash_values_fprint( m->h, NULL, had ? &e : NULL ); break;
			case 8: rc = sum_handle_process_input( NULL, had ? &e : NULL ); break;
			case 9: rc = sum_handle_finalize_integrity_hash( NULL, had ? &e : NULL ); break;
			case 10: rc = sum_handle_signal_abort( NULL, had ? &e : NULL ); break;
			}
			OFF;
			DONE( "refused" );
			if( rc != -1 || m->h != keep ) vh_fail( "not-refused", "invalid call %d returned %d; %s", k, rc, hist );
			vh_stat( "calls refused", 1 );
		}
		continue;
taint:
		break;
	}
	vh_plan_set( "" ); vh_fault_arm( 0, 0, 0 ); vh_fault_disarm();
	HADD( "free" );
	vh_case( "history %ld: %s", hi, hist );
	ON; rc = sum_handle_free( &m->h, &e ); OFF;
	result( "free", rc, &e, 1 );
	if( rc != 1 || m->h != NULL ) vh_fail( "free", "free returned %d, handle %p; %s", rc, (void *) m->h, hist );
	if( vh_live_blocks() > 0 ) { vh_fail( "leak", "%ld blocks left; %s", vh_live_blocks(), hist ); _exit( ( fflush( stdout ), 4 ) ); }
	if( vh_live_evp() > 0 ) { vh_fail( "leak-provider", "%ld provider contexts left; %s", vh_live_evp(), hist ); _exit( ( fflush( stdout ), 4 ) ); }
	if( vh_cerror_live() > cerr0 ) { vh_fail( "leak-error", "%ld error objects left; %s", vh_cerror_live() - cerr0, hist ); _exit( ( fflush( stdout ), 4 ) ); }
	if( hi < 3 ) vh_sample( "history %ld: %s", hi, hist );
	free( m->data );
}
static int files( const char *dir )
{
	int f; static const size_t sz[ NFILES ] = { 0, 1, 64, 1000, 32769, 100001 };
	if( dir == NULL ) return 0;
	for( f = 0; f < NFILES; f++ )
	{
		int fd; vrng r; size_t k;
		snprintf( path[ f ], sizeof path[ f ], "%s/file%d", dir, f ); fsz[ f ] = sz[ f ]; fdata[ f ] = malloc( sz[ f ] + 1 );
		rng_seed( &r, 99, (uint64_t) f ); rng_fill( &r, fdata[ f ], sz[ f ] );
		fd = open( path[ f ], O_WRONLY | O_CREAT | O_TRUNC, 0600 );
		if( fd < 0 ) return 0;
		for( k = 0; k < sz[ f ]; ) { ssize_t w = write( fd, fdata[ f ] + k, sz[ f ] - k ); if( w <= 0 ) return 0; k += (size_t) w; }
		close( fd );
	}
	return 1;
}
int mode_sum( void )
{
	long n = argn( "n", 1000 ), i;
	if( !files( arg( "dir", NULL ) ) ) return 1;
	for( i = argn( "from", 0 ), n += i; i < n; i++ ) { rng_seed( &R, vh_seed, 0x53000000ULL + (uint64_t) i ); one_history( i ); }
	vh_stat( "histories", argn( "n", 1000 ) );
	return 0;
}

/* -------------------------------------------------------------- sizes */
extern int vh_decimal_point;   /* of the stand-in for libclocale */
static void some_point( void ) { static const int pt[] = { '.', '.', ',', ',', '\'', (int) (char) 0xd9, ':' }; vh_decimal_point = pt[ rngn( &R, sizeof pt / sizeof *pt ) ]; }
static void size_pair( uint64_t x, int units )
{
	char *b, b2[ 64 ]; size_t n = 9 + rngn( &R, 12 ), l; int rc; uint64_t v = 0, w = 0; libcerror_error_t *e = NULL;
	some_point();
	vh_case( "size %llu units %d, decimal point %d", (unsigned long long) x, units, vh_decimal_point );
	b = malloc( n ); memset( b, 0x7e, n );
	rc = byte_size_string_create( b, n, x, units, rngn( &R, 2 ) ? &e : NULL ); vh_eval();
	if( rc != 1 || e != NULL ) { vh_fail( "create", "create of %llu in units of %d returned %d", (unsigned long long) x, units, rc ); if( e ) libcerror_error_free( &e ); free( b ); return; }
	l = strnlen( b, n );
	if( l >= n ) { vh_fail( "create-unterminated", "create of %llu in units of %d is not a string", (unsigned long long) x, units ); free( b ); return; }
	rc = byte_size_string_convert( b, l, &v, NULL ); vh_eval();
	if( rc != 1 ) vh_fail( "create-unreadable", "%llu became %s, which does not convert", (unsigned long long) x, b );
	else
	{
		/* never more than it was, and short of it by less than a ninth */
		if( v > x || x - v > x / 9 ) vh_fail( "create-wrong", "%llu became %s, which is %llu", (unsigned long long) x, b, (unsigned long long) v );
		if( x < (uint64_t) units && v != x ) vh_fail( "create-wrong", "%llu became %s, which is %llu", (unsigned long long) x, b, (unsigned long long) v );
		if( byte_size_string_create( b2, sizeof b2, v, units, NULL ) != 1 || strcmp( b, b2 ) != 0 ) vh_fail( "create-unstable", "%llu became %s = %llu and then %s", (unsigned long long) x, b, (unsigned long long) v, b2 );
		if( byte_size_string_convert( b2, strlen( b2 ), &w, NULL ) != 1 || w != v ) vh_fail( "create-unstable", "%s = %llu became %s = %llu", b, (unsigned long long) v, b2, (unsigned long long) w );
	}
	if( memchr( b, vh_decimal_point, l ) != NULL ) vh_stat( vh_decimal_point == '.' ? "fractions with a point" : "fractions with another separator", 1 );
	else if( memchr( b, '.', l ) != NULL ) vh_fail( "create-point", "%llu became %s, the decimal point is %d", (unsigned long long) x, b, vh_decimal_point );
	vh_distinct( vh_hash( b, l, (uint64_t) units * 7 + x ) );
	vh_stat( "sizes written and read back", 1 );
	if( x == 1500000 ) vh_sample( "%llu in units of %d: %s = %llu", (unsigned long long) x, units, b, (unsigned long long) v );
	free( b );
}
static void size_text( uint64_t n, int unit, int sys, int sp )
{
	static const char *us[] = { "", "kK", "mM", "gG", "tT", "pP", "eE", "zZ", "yY" }, *ys[] = { "", "B", "iB" };
	char t[ 80 ], *b; unsigned __int128 x = n; int i, rc, big = 0; uint64_t v = 0x5a5a5a5a5a5a5a5aULL, m = sys == 1 ? 1000 : 1024; size_t l; libcerror_error_t *e = NULL;
	/* "B" alone counts bytes */
	for( i = 0; i < unit; i++ ) { x *= m; if( x > (unsigned __int128) UINT64_MAX ) { big = 1; break; } }
	l = (size_t) snprintf( t, sizeof t, "%s%llu%s", rngn( &R, 4 ) ? "" : "000", (unsigned long long) n, sp ? " " : "" );
	if( unit ) t[ l++ ] = us[ unit ][ rngn( &R, 2 ) ];
	strcpy( t + l, unit == 0 && sys == 2 ? "B" : ys[ sys ] );
	l = strlen( t );
	b = malloc( l + 1 ); memcpy( b, t, l + 1 );
	some_point();
	vh_case( "text %s", t );
	rc = byte_size_string_convert( b, l, &v, &e ); vh_eval();
	if( !big && ( rc != 1 || v != (uint64_t) x ) ) vh_fail( "convert-wrong", "'%s' converts to %d, %llu", t, rc, (unsigned long long) v );
	if( big && rc == 1 ) vh_fail( "convert-overflow", "'%s' is beyond 64 bits and converts to %llu", t, (unsigned long long) v );
	if( rc != 1 && rc != -1 ) vh_fail( "convert-result", "'%s' returned %d", t, rc );
	if( rc != 1 && e == NULL ) vh_fail( "convert-silent", "'%s' is refused without an error", t );
	if( e ) libcerror_error_free( &e );
	vh_distinct( vh_hash( t, l, 3 ) );
	vh_stat( big ? "overflowing texts" : "texts converted", 1 );
	free( b );
}
static uint64_t somesize( void )
{
	uint64_t v;
	switch( rngn( &R, 6 ) )
	{
	case 0: return rngn( &R, 3000 );
	case 1: v = (uint64_t) 1 << rngn( &R, 64 ); return v + rngn( &R, 3 ) - 1;
	case 2: { int k = (int) rngn( &R, 20 ); v = 1; while( k-- ) v *= 10; return v + rngn( &R, 5 ) - 2; }
	case 3: return rng( &R ) >> rngn( &R, 64 );
	case 4: { int k = (int) rngn( &R, 6 ); uint64_t u = rngn( &R, 2 ) ? 1000 : 1024; v = 1 + rngn( &R, 2100 ); while( k-- && v < UINT64_MAX / u ) v *= u; return v + rngn( &R, 5 ) - 2; }
	default: return UINT64_MAX - rngn( &R, 3 ) * rngn( &R, 5000 );
	}
}
int mode_sizes( void )
{
	long n = argn( "n", 20000 ), i; int u, s, k; size_t len; char *b; uint64_t v;
	rng_seed( &R, vh_seed, 0x517e );
	for( i = 0; i < 5000; i++ ) { size_pair( (uint64_t) i, 1000 ); size_pair( (uint64_t) i, 1024 ); }
	size_pair( 1500000, 1000 ); size_pair( 1500000, 1024 );
	for( i = 0; i < n; i++ ) size_pair( somesize(), rngn( &R, 2 ) ? 1000 : 1024 );
	for( i = 0; i < n; i++ ) { u = (int) rngn( &R, 9 ); s = (int) rngn( &R, 3 ); size_text( somesize() >> ( rngn( &R, 2 ) ? 0 : rngn( &R, 64 ) ), u, s, rngn( &R, 4 ) == 0 ); }
	for( k = 0; k < 9; k++ ) for( u = 0; u < 9; u++ ) for( s = 0; s < 3; s++ )
	{
		/* around the largest value that fits */
		uint64_t lim = UINT64_MAX; int d; for( d = 0; d < u; d++ ) lim /= s == 1 ? 1000 : 1024;
		for( d = -2; d < 4; d++ ) size_text( lim + (uint64_t) d, u, s, k & 1 );
	}
	/* a locale that cannot be read: an error, or a result that did not need it */
	vh_decimal_point = -9999;
	for( i = 0; i < 400; i++ )
	{
		libcerror_error_t *e = NULL; char t[ 64 ]; int rc; v = somesize();
		vh_case( "size %llu without a locale", (unsigned long long) v );
		rc = byte_size_string_create( t, sizeof t, v, i & 1 ? 1000 : 1024, &e ); vh_eval();
		if( rc != 1 && ( rc != -1 || e == NULL ) ) vh_fail( "create-silent", "create of %llu without a locale returned %d, error %p", (unsigned long long) v, rc, (void *) e );
		if( rc == 1 && e != NULL ) vh_fail( "create-wrong", "create of %llu without a locale returned 1 and an error", (unsigned long long) v );
		if( e ) libcerror_error_free( &e );
		sprintf( t, "%d%s", (int) ( i * 37 % 5000 ), i % 3 == 0 ? ".5k" : i % 3 == 1 ? "" : "MB" );
		vh_case( "text %s without a locale", t );
		rc = byte_size_string_convert( t, strlen( t ), &v, i % 5 ? &e : NULL ); vh_eval();
		if( rc != 1 && ( rc != -1 || ( e == NULL && i % 5 ) ) ) vh_fail( "convert-silent", "'%s' without a locale returned %d, error %p", t, rc, (void *) e );
		if( rc == 1 && ( e != NULL || ( i % 3 == 1 && v != (uint64_t) ( i * 37 % 5000 ) ) || ( i % 3 == 2 && v != (uint64_t) ( i * 37 % 5000 ) * 1000000 ) || i % 3 == 0 ) )
			vh_fail( "convert-wrong", "'%s' without a locale converts to %llu", t, (unsigned long long) v );
		if( e ) libcerror_error_free( &e );
	}
	vh_decimal_point = '.';
	/* too small places are refused and not written to */
	for( len = 0; len < 9; len++ ) for( i = 0; i < 40; i++ )
	{
		libcerror_error_t *e = NULL; int rc;
		b = malloc( len ? len : 1 ); memset( b, 0x7e, len ? len : 1 );
		rc = byte_size_string_create( b, len, somesize(), i & 1 ? 1000 : 1024, &e ); vh_eval();
		if( rc == 1 && strnlen( b, len ) >= len ) vh_fail( "create-small", "create in %zu bytes returned 1 without a whole string", len );
		if( rc != 1 ) { if( rc != -1 ) vh_fail( "create-small", "create in %zu bytes returned %d", len, rc ); if( e == NULL ) vh_fail( "create-silent", "create in %zu bytes is refused without an error", len ); }
		if( e ) libcerror_error_free( &e );
		free( b );
	}
	if( byte_size_string_create( NULL, 20, 1, 1024, NULL ) != -1 || byte_size_string_convert( NULL, 3, &v, NULL ) != -1 || byte_size_string_convert( "12", 2, NULL, NULL ) != -1 )
		vh_fail( "not-refused", "a missing argument of the size conversions is not refused" );
	if( vh_cerror_live() != 0 ) vh_fail( "leak-error", "%ld error objects left", vh_cerror_live() );
	return 0;
}

/* ------------------------------------------------------------- digest strings */
int mode_hexstr( void )
{
	long n = argn( "n", 5000 ), i; libcerror_error_t *e;
	rng_seed( &R, vh_seed, 0x4e4 );
	for( i = 0; i < n; i++ )
	{
		size_t k = i < 600 ? (size_t) i / 6 : rngn( &R, 200 ), room, j; unsigned char d[ 256 ]; vbuf in; vout o; unsigned char *p, *q; int rc, mi = (int) rngn( &R, NPLACE ), mo = (int) rngn( &R, NPLACE ); const char *m;
		if( rngn( &R, 4 ) ) room = 2 * k + 1 + ( rngn( &R, 2 ) ? 0 : rngn( &R, 20 ) ); else room = rngn( &R, 2 * k + 1 );
		rng_fill( &R, d, k ); if( k && i % 3 == 0 ) d[ rngn( &R, k ) ] = (unsigned char) ( rngn( &R, 2 ) ? rngn( &R, 16 ) : 0xff );
		p = vb_input( 0, mi, d, k, &in ); q = vo_get( &o, 1, mo, room, &R );
		vh_case( "digest string of %zu bytes in %zu", k, room ); e = NULL;
		rc = digest_hash_copy_to_string( p, k, (char *) q, room, &e ); vh_eval();
		if( room >= 2 * k + 1 )
		{
			if( rc != 1 || e != NULL ) vh_fail( "hex-refused", "%zu bytes into %zu returned %d", k, room, rc );
			else
			{
				for( j = 0; j < k; j++ ) { char w[ 3 ]; snprintf( w, 3, "%02x", d[ j ] ); if( q[ 2 * j ] != w[ 0 ] || q[ 2 * j + 1 ] != w[ 1 ] ) { vh_fail( "hex-wrong", "byte %zu = %02x became %.2s", j, d[ j ], q + 2 * j ); break; } }
				if( q[ 2 * k ] != 0 ) vh_fail( "hex-unterminated", "%zu bytes into %zu are not a string", k, room );
			}
			vh_distinct( vh_hash( d, k, room ) );
		}
		else if( rc != -1 || e == NULL ) vh_fail( "hex-accepted", "%zu bytes into %zu returned %d", k, room, rc );
		else vh_stat( "too small places", 1 );
		if( !vb_same( &in, d ) ) vh_fail( "input-changed", "the digest changed" );
		vb_release( &in );
		m = vo_check( &o, rc == 1 ? 2 * k + 1 : 0 );
		if( m != NULL ) vh_fail( "writes-outside-hex", "%zu bytes into %zu: %s", k, room, m );
		if( e ) libcerror_error_free( &e );
	}
	{
		unsigned char d[ 4 ] = { 1, 2, 3, 4 }; char s[ 20 ];
		if( digest_hash_copy_to_string( NULL, 4, s, 20, NULL ) != -1 || digest_hash_copy_to_string( d, 4, NULL, 20, NULL ) != -1
		 || digest_hash_copy_to_string( d, (size_t) SSIZE_MAX + 1, s, 20, NULL ) != -1 || digest_hash_copy_to_string( d, SIZE_MAX, s, 20, NULL ) != -1
		 || digest_hash_copy_to_string( d, 4, s, (size_t) SSIZE_MAX + 1, NULL ) != -1 || digest_hash_copy_to_string( d, 4, s, SIZE_MAX, NULL ) != -1 )
			vh_fail( "not-refused", "an invalid argument of the digest string is not refused" );
		vh_stat( "invalid calls", 6 );
	}
	return 0;
}

/* ------------------------------------------------------------- option parser */
#include "hmactools_getopt.h"
#include "hmactools_output.h"
#include "hmactools_signal.h"
#include <signal.h>
#if defined( HAVE_GETOPT )
int mode_getopt( void ) { fprintf( stderr, "the built-in option parser is not in this build\n" ); return 1; }
#else
/* What the built-in parser is documented to do: options in order, '?' for one
 * that is not listed, ':' for a missing argument, the end at the first argument
 * that is no option, at "-", at an empty one, and behind one that begins with "--". */
typedef struct { int ind; const char *next; int opt; const char *arg; } gmod;
static int gstep( gmod *g, int argc, char **argv, const char *opts, int *argset )
{
	const char *a, *o; int ch;
	*argset = 0;
	if( g->next != NULL ) { a = g->next; g->next = NULL; }
	else
	{
		if( g->ind >= argc ) return -1;
		a = argv[ g->ind ];
		if( a[ 0 ] != '-' || a[ 1 ] == 0 ) return -1;
		if( a[ 1 ] == '-' ) { g->ind++; return -1; }
		a++;
	}
	ch = *a++; g->opt = ch;
	o = ch == ':' ? NULL : strchr( opts, ch );
	if( o == NULL || o[ 1 ] != ':' )
	{
		if( *a ) g->next = a; else g->ind++;
		return o == NULL ? '?' : ch;
	}
	if( *a ) { g->arg = a; g->ind++; *argset = 1; return ch; }
	g->ind++;
	if( g->ind >= argc ) return ':';
	g->arg = argv[ g->ind++ ]; *argset = 1;
	return ch;
}
/* Every call of the parser on one argument vector against the model; the number of calls. */
static int getopt_case( int argc, char **argv, char *oc, const char *d, int limit, uint64_t h )
{
	gmod g; int steps = 0, r, m, set;
	vh_case( "getopt( %s, \"%s\" )", d, oc );
	memset( &g, 0, sizeof g ); g.ind = 1; optind = 1;
	do
	{
		r = hmactools_getopt( argc, argv, oc ); m = gstep( &g, argc, argv, oc, &set ); steps++; vh_eval();
		if( r != m ) { vh_fail( "getopt-result", "call %d returned %d, expected %d", steps, r, m ); break; }
		if( r != -1 && (int) optopt != g.opt ) { vh_fail( "getopt-optopt", "call %d: optopt is %d, expected %d", steps, (int) optopt, g.opt ); break; }
		if( optind != g.ind ) { vh_fail( "getopt-optind", "call %d: optind is %d, expected %d", steps, optind, g.ind ); break; }
		if( set && optarg != g.arg ) { vh_fail( "getopt-optarg", "call %d: optarg is %p, expected %p", steps, (void *) optarg, (void *) g.arg ); break; }
		vh_stat( r == -1 ? "ends" : r == '?' ? "unknown options" : r == ':' ? "missing arguments" : set ? "options with an argument" : "options", 1 );
	}
	while( r != -1 && steps < limit );
	if( r != -1 && r == m ) vh_fail( "getopt-endless", "no end after %d calls", steps );
	if( r == m ) { vh_distinct( vh_hash( oc, strlen( oc ), h ) ); }
	else { optind = argc; while( hmactools_getopt( argc, argv, oc ) != -1 && steps++ < 100 ) { } optind = argc; }
	return steps;
}
int mode_getopt( void )
{
	long n = argn( "n", 20000 ), i; static const char *optsets[] = { "d:hp:vV", ":d:hp:vV", "abc", "a:b:c:", "ab:", "", ":", "x:yz:", "a1:2" };
	static const char *words[] = { "-", "--", "", "-d", "-p", "-v", "-h", "-dmd5", "-p64", "-vd", "-vvV", "file", "-a", "-b", "-ab", "-abc", "-cb", "-x", "-?", "-:", "-x:", "--help", "---", "-d-", "- ", "-v-", "-a=1", "-1", "-21", "-12" };
	rng_seed( &R, vh_seed, 0x6e70 );
	for( i = 0; i < n; i++ )
	{
		int argc = 1 + (int) rngn( &R, 7 ), k, steps = 0, limit = 4; char *argv[ 9 ]; char d[ 600 ]; int dl = 0; uint64_t h = 5;
		const char *opts; char *oc; char rs[ 12 ];
		if( rngn( &R, 4 ) ) opts = optsets[ rngn( &R, 9 ) ];
		else { int l = (int) rngn( &R, 10 ), q; for( q = 0; q < l; q++ ) { rs[ q ] = "abcdv:xV1"[ rngn( &R, 9 ) ]; if( rs[ q ] == ':' && ( q == 0 || rs[ q - 1 ] == ':' ) ) rs[ q ] = 'z'; } rs[ l ] = 0; opts = rs; }
		oc = malloc( strlen( opts ) + 1 ); strcpy( oc, opts );
		for( k = 0; k < argc; k++ )
		{
			char t[ 24 ];
			if( k == 0 ) strcpy( t, "prog" );
			else if( rngn( &R, 3 ) ) strcpy( t, words[ rngn( &R, sizeof words / sizeof *words ) ] );
			else { int l = (int) rngn( &R, 7 ), q; for( q = 0; q < l; q++ ) t[ q ] = q == 0 && rngn( &R, 3 ) ? '-' : "abcdvV12:?-xp\xe9 ="[ rngn( &R, 16 ) ]; t[ l ] = 0; }
			argv[ k ] = malloc( strlen( t ) + 1 ); strcpy( argv[ k ], t ); limit += (int) strlen( t ) + 1;
			h = vh_hash( t, strlen( t ) + 1, h );
			if( dl < 500 ) dl += snprintf( d + dl, sizeof d - (size_t) dl, "%s'%s'", k ? " " : "", t );
		}
		argv[ argc ] = NULL;
		steps = getopt_case( argc, argv, oc, d, limit, h );
		for( k = 0; k < argc; k++ ) free( argv[ k ] );
		free( oc );
		if( i < 2 ) vh_sample( "getopt( %s, \"%s\" ): %d calls, as expected", d, opts, steps );
	}
	return 0;
}
#endif

/* ------------------------------------------------------------- signals, output */
static volatile int got[ 3 ], gotsig;
static void h0( hmactools_signal_t s ) { got[ 0 ]++; gotsig = s; }
static void h1( hmactools_signal_t s ) { got[ 1 ]++; gotsig = s; }
int mode_parts( void )
{
	long n = argn( "n", 2000 ), i; int cur = -1; FILE *f; char *t; size_t tn; libcerror_error_t *e = NULL; long cerr0 = vh_cerror_live();
	rng_seed( &R, vh_seed, 0x7061 );
	for( i = 0; i < n; i++ )
	{
		int op = (int) rngn( &R, 8 ), rc, a0, a1; struct sigaction sa, before;
		vh_case( "signal history %ld, operation %d, handler %d", i, op, cur );
		sigaction( SIGINT, NULL, &before );
		if( op < 2 ) { rc = hmactools_signal_attach( op ? h1 : h0, &e ); cur = op; if( rc != 1 || e != NULL ) vh_fail( "attach", "attach returned %d", rc ); }
		else if( op == 2 ) { rc = hmactools_signal_detach( &e ); cur = -1; if( rc != 1 || e != NULL ) vh_fail( "detach", "detach returned %d", rc ); }
		else if( op == 3 )
		{
			rc = hmactools_signal_attach( NULL, &e );
			if( rc != -1 || e == NULL ) vh_fail( "attach-null", "attach of no handler returned %d", rc );
		}
		else if( cur >= 0 )
		{
			a0 = got[ 0 ]; a1 = got[ 1 ]; gotsig = 0;
			raise( SIGINT );
			if( got[ 0 ] - a0 != ( cur == 0 ) || got[ 1 ] - a1 != ( cur == 1 ) || gotsig != SIGINT ) vh_fail( "signal-lost", "handler %d attached; calls %d and %d, signal %d", cur, got[ 0 ] - a0, got[ 1 ] - a1, gotsig );
			vh_stat( "signals delivered", 1 );
		}
		vh_eval();
		sigaction( SIGINT, NULL, &sa );
		if( ( cur < 0 && op == 2 && sa.sa_handler != SIG_DFL ) || ( cur >= 0 && sa.sa_handler != ( cur ? h1 : h0 ) ) || ( op == 3 && sa.sa_handler != before.sa_handler ) )
			vh_fail( "disposition", "after operation %d the disposition of SIGINT is %p", op, (void *) sa.sa_handler );
		vh_distinct( (uint64_t) ( i < 500 ? i : 500 ) + 1 );
		if( e != NULL ) libcerror_error_free( &e );
	}
	signal( SIGINT, SIG_DFL );
	for( i = -3; i < 100; i++ )
	{
		int ok = i == _IOFBF || i == _IOLBF || i == _IONBF, rc;
		if( ok && i != _IONBF && i != _IOLBF ) continue;
		vh_case( "output mode %ld", i );
		fflush( stdout );
		rc = hmactools_output_initialize( (int) i, &e ); vh_eval();
		if( rc != ( ok ? 1 : -1 ) || ( e == NULL ) != ok ) vh_fail( "output-mode", "output mode %ld: returned %d", i, rc );
		if( e != NULL ) libcerror_error_free( &e );
	}
	for( i = 0; i < 200; i++ )
	{
		char name[ 300 ]; size_t k = rngn( &R, 280 ), j; char want[ 40 ];
		for( j = 0; j < k; j++ ) name[ j ] = "abz%s%n -\n"[ rngn( &R, 10 ) ];
		name[ k ] = 0;
		vh_case( "version text for a program of %zu characters", k );
		f = open_memstream( &t, &tn ); hmactools_output_version_fprint( f, name ); fclose( f ); vh_eval();
		snprintf( want, sizeof want, " %s\n", argn( "ver", 0 ) ? arg( "ver", "" ) : "" );
		if( strncmp( t, name, k ) != 0 || strncmp( t + k, want, strlen( want ) ) != 0 ) vh_fail( "version-text", "printed '%.400s'", t );
		free( t );
		f = open_memstream( &t, &tn ); hmactools_output_version_detailed_fprint( f, name ); fclose( f ); vh_eval();
		want[ strlen( want ) - 1 ] = 0;
		if( strncmp( t, name, k ) != 0 || strncmp( t + k, want, strlen( want ) ) != 0 || strstr( t + k, "libhmac" ) == NULL ) vh_fail( "version-text", "printed '%.400s'", t );
		free( t );
	}
	f = open_memstream( &t, &tn ); hmactools_output_copyright_fprint( f ); fclose( f ); vh_eval();
	if( tn < 40 || strstr( t, "opyright" ) == NULL ) vh_fail( "copyright-text", "printed '%.400s'", t );
	free( t );
	f = open_memstream( &t, &tn );
	hmactools_output_version_fprint( f, NULL ); hmactools_output_version_detailed_fprint( f, NULL );
	hmactools_output_version_fprint( NULL, "x" ); hmactools_output_version_detailed_fprint( NULL, "x" ); hmactools_output_copyright_fprint( NULL );
	fclose( f ); vh_eval();
	if( tn != 0 ) vh_fail( "version-text", "printed without a program: '%.400s'", t );
	free( t );
	if( vh_cerror_live() != cerr0 ) vh_fail( "leak-error", "%ld error objects left", vh_cerror_live() - cerr0 );
	return 0;
}

#if defined( VH_GUIDE )
/* The text of a size: 1 known value (from x to y), 0 one with no known unit, -1 nothing is claimed. */
static int size_model( const char *s, unsigned __int128 *x, unsigned __int128 *y )
{
	static const char us[] = "kKmMgGtTpPeEzZyY"; int u = 0, i, unit, frac = 0; unsigned dd = 0; size_t nd = 0; unsigned __int128 v = 0, m = 1024, k;
	const unsigned __int128 lim = (unsigned __int128) 1 << 100;
	if( *s < '0' || *s > '9' ) return -1;
	for( ; *s >= '0' && *s <= '9'; s++ ) { v = v * 10 + (unsigned) ( *s - '0' ); if( v > lim ) v = lim; }
	*y = 0;
	if( *s == (char) vh_decimal_point ) { s++; frac = 1; for( dd = nd = 0; *s >= '0' && *s <= '9'; s++, nd++ ) if( nd < 2 ) dd = dd * 10 + (unsigned) ( *s - '0' ); if( nd == 1 ) dd *= 10; }
	if( *s == ' ' ) s++;
	unit = *s && strchr( us, *s ) != NULL;
	if( unit ) { u = 1 + (int) ( strchr( us, *s ) - us ) / 2; s++; }
	if( *s == 0 || strcmp( s, "B" ) == 0 || strcmp( s, "iB" ) == 0 )
	{
		if( strcmp( s, "B" ) == 0 ) m = 1000;
		for( k = 1, i = 0; i < u; i++ ) { v *= m; k *= m; if( v > lim ) v = lim; }
		if( frac )
		{
			if( m == 1000 && u > 0 && ( nd == 1 || nd == 2 ) ) v += k / 100 * dd + k % 100 * dd / 100;
			else *y = k - 1;
		}
		*x = v; *y += v; return 1;
	}
	if( strchr( "kKmMgGtTpPeEzZyYiB0123456789 ", *s ) == NULL && *s != (char) vh_decimal_point ) return 0;
	return -1;
}
static char *exact( const uint8_t *d, size_t n )
{
	size_t l = strnlen( (const char *) d, n ); char *b = malloc( l + 1 );
	memcpy( b, d, l ); b[ l ] = 0;
	return b;
}
static void guide_size( const uint8_t *d, size_t n )
{
	char *b; size_t l; uint64_t v = 0x5a5a5a5a5a5a5a5aULL; libcerror_error_t *e = NULL; unsigned __int128 x = 0, y = 0; int rc, w; sum_handle_t *h = NULL; size_t was;
	vh_decimal_point = '.';
	if( n > 0 && ( *d == ',' || *d == '!' ) ) { vh_decimal_point = *d == ',' ? ',' : (int) (char) 0xd9; d++; n--; }
	b = exact( d, n ); l = strlen( b );
	vh_case( "text '%.600s', decimal point %d", b, vh_decimal_point );
	w = size_model( b, &x, &y );
	rc = byte_size_string_convert( b, l, &v, &e ); vh_eval();
	if( rc != 1 && rc != 0 && rc != -1 ) vh_fail( "convert-result", "'%s' returned %d", b, rc );
	if( rc == -1 && e == NULL ) vh_fail( "convert-silent", "'%s' is refused without an error", b );
	if( w == 1 && y <= UINT64_MAX && ( rc != 1 || v < x || v > y ) ) vh_fail( "convert-wrong", "'%s' converts to %d, %llu", b, rc, (unsigned long long) v );
	if( w == 1 && x > UINT64_MAX && rc == 1 ) vh_fail( "convert-overflow", "'%s' is beyond 64 bits and converts to %llu", b, (unsigned long long) v );
	if( w == 0 && rc == 1 ) vh_fail( "convert-unknown", "'%s' has no known unit and converts to %llu", b, (unsigned long long) v );
	if( e ) libcerror_error_free( &e );
	if( sum_handle_initialize( &h, &e ) != 1 ) vh_fail( "initialize", "no sum handle" );
	was = h->process_buffer_size;
	rc = sum_handle_set_process_buffer_size( h, b, &e );
	if( w == 1 && x > 0 && y <= SSIZE_MAX && ( rc != 1 || h->process_buffer_size < x || h->process_buffer_size > y ) ) vh_fail( "size-wrong", "'%s' gave %d and a buffer of %zu bytes", b, rc, h->process_buffer_size );
	if( ( w == 0 || ( w == 1 && x > SSIZE_MAX ) ) && rc == 1 ) vh_fail( "size-accepted", "'%s' gave a buffer of %zu bytes", b, h->process_buffer_size );
	if( rc != 1 && h->process_buffer_size != was ) vh_fail( "size-changed", "'%s' is refused with %d and changed the buffer to %zu bytes", b, rc, h->process_buffer_size );
	if( e ) libcerror_error_free( &e );
	sum_handle_free( &h, NULL );
	if( vh_cerror_live() != 0 ) vh_fail( "leak-error", "%ld error objects left", vh_cerror_live() );
	free( b );
}
static int type_of( const char *s, size_t n )
{
	static const struct { const char *s; int a; } t[] = { { "md5", 0 }, { "sha1", 1 }, { "sha-1", 1 }, { "sha_1", 1 }, { "sha224", 2 }, { "sha-224", 2 }, { "sha_224", 2 },
		{ "sha256", 3 }, { "sha-256", 3 }, { "sha_256", 3 }, { "sha512", 4 }, { "sha-512", 4 }, { "sha_512", 4 } };
	size_t i, k; char u[ 10 ];
	if( n == 0 ) return -1;
	for( i = 0; i < sizeof t / sizeof *t; i++ )
	{
		if( n != strlen( t[ i ].s ) ) continue;
		for( k = 0; t[ i ].s[ k ]; k++ ) u[ k ] = (char) ( t[ i ].s[ k ] >= 'a' && t[ i ].s[ k ] <= 'z' ? t[ i ].s[ k ] - 32 : t[ i ].s[ k ] );
		if( memcmp( s, t[ i ].s, n ) == 0 || memcmp( s, u, n ) == 0 ) return t[ i ].a;
	}
	return -2;
}
static void guide_types( const uint8_t *d, size_t n )
{
	char *b = exact( d, n ), *p = b, *text = NULL; size_t tn = 0, l; int types = 1, unknown = 0, a, rc, lines = 0, want = 0; libcerror_error_t *e = NULL; sum_handle_t *h = NULL; FILE *f; unsigned char dg[ 64 ];
	vh_case( "types '%.600s'", b );
	for( ;; )
	{
		l = strcspn( p, "," ); a = type_of( p, l );
		if( a >= 0 ) types |= 1 << a; else if( a == -2 ) unknown = 1;
		if( p[ l ] == 0 ) break;
		p += l + 1;
	}
	ON;
	if( sum_handle_initialize( &h, &e ) != 1 ) vh_fail( "initialize", "no sum handle" );
	rc = sum_handle_set_digest_types( h, b, &e ); vh_eval();
	if( rc != 1 && rc != 0 && rc != -1 ) vh_fail( "types-result", "'%s' returned %d", b, rc );
	if( rc == -1 && e == NULL ) vh_fail( "types-silent", "'%s' is refused without an error", b );
	if( rc == -1 && !unknown && strlen( b ) > 0 ) vh_fail( "types-refused", "'%s' is refused", b );
	if( e ) libcerror_error_free( &e );
	if( rc != -1 )
	{
		if( sum_handle_initialize_integrity_hash( h, &e ) != 1 || sum_handle_update_integrity_hash( h, (const uint8_t *) "abc", 3, &e ) != 1 || sum_handle_finalize_integrity_hash( h, &e ) != 1 ) vh_fail( "types-refused", "after '%s' nothing can be calculated", b );
		f = open_memstream( &text, &tn ); if( f == NULL ) abort();
		if( sum_handle_hash_values_fprint( h, f, &e ) != 1 ) vh_fail( "fprint", "fprint failed" );
		fclose( f );
		for( l = 0; l < tn; l++ ) lines += text[ l ] == '\n';
		for( a = 0; a < NALG; a++ )
		{
			ref_digest( A[ a ].ref, "abc", 3, dg );
			want += types >> a & 1;
			if( ( strcasestr( text, vh_hex( dg, A[ a ].hs ) ) != NULL ) != ( types >> a & 1 ) ) vh_fail( "types-wrong", "'%s': the %s is %sprinted: %.600s", b, A[ a ].name, types >> a & 1 ? "not " : "", text );
		}
		if( lines != want ) vh_fail( "lines", "'%s': %d lines for %d types", b, lines, want );
		if( e ) libcerror_error_free( &e );
	}
	sum_handle_free( &h, NULL );
	OFF;
	free( text ); free( b );
	if( vh_live_blocks() > 0 || vh_live_evp() > 0 || vh_cerror_live() > 0 ) vh_fail( "leak", "%ld blocks, %ld provider contexts, %ld errors left", vh_live_blocks(), vh_live_evp(), vh_cerror_live() );
}
#if !defined( HAVE_GETOPT )
static void guide_getopt( const uint8_t *d, size_t n )
{
	static const char set[] = "abcdhpvVxyz12:"; char oc[ 12 ], *o, *argv[ 14 ], desc[ 600 ] = ""; size_t k = 0, i, l; int argc = 1, limit = 4, dl = 0;
	for( i = 0; i < n && i < 10 && d[ i ] != 0; i++ )
	{
		char ch = set[ d[ i ] % 14 ];
		if( ch == ':' && k > 0 && oc[ k - 1 ] == ':' ) ch = 'a';
		oc[ k++ ] = ch;
	}
	oc[ k ] = 0; if( i < n ) i++;
	o = malloc( k + 1 ); memcpy( o, oc, k + 1 );
	argv[ 0 ] = malloc( 5 ); strcpy( argv[ 0 ], "prog" );
	while( i < n && argc < 12 )
	{
		l = strnlen( (const char *) d + i, n - i );
		argv[ argc++ ] = exact( d + i, n - i ); limit += (int) l + 1; i += l + 1;
		if( dl < 500 ) dl += snprintf( desc + dl, sizeof desc - (size_t) dl, " '%.60s'", argv[ argc - 1 ] );
	}
	argv[ argc ] = NULL;
	getopt_case( argc, argv, o, desc, limit, 0 );
	while( argc-- ) free( argv[ argc ] );
	free( o );
}
#endif
int guide_sum( const char *kind, const uint8_t *d, size_t n )
{
	if( strcmp( kind, "size" ) == 0 ) { guide_size( d, n ); return 1; }
	if( strcmp( kind, "types" ) == 0 ) { guide_types( d, n ); return 1; }
#if !defined( HAVE_GETOPT )
	if( strcmp( kind, "getopt" ) == 0 ) { guide_getopt( d, n ); return 1; }
#endif
	if( strcmp( kind, "sum" ) == 0 )
	{
		static long i;
		if( path[ 0 ][ 0 ] == 0 ) { size_t left = vh_fzn; vh_fzn = 0; if( !files( getenv( "TMPDIR" ) ) ) return 0; vh_fzn = left; }
		rng_seed( &R, 1, 3 ); one_history( 10 + i++ );
		return 1;
	}
	return 0;
}
#endif
