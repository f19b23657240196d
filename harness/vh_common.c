#define _GNU_SOURCE
#include <stdarg.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include "vh_common.h"
#if defined( __has_feature )
#if __has_feature( address_sanitizer )
#define VH_ASAN 1
#endif
#if __has_feature( memory_sanitizer )
#define VH_MSAN 1
#endif
#endif
#if defined( __SANITIZE_ADDRESS__ )
#define VH_ASAN 1
#endif
#if defined( VH_ASAN )
#include <sanitizer/asan_interface.h>
#endif
#if defined( VH_MSAN )
#include <sanitizer/msan_interface.h>
#endif

#define ROW( n, N, r, b ) \
static int n##_i( vctx **c, verr **e ) { return libhmac_##n##_context_initialize( (libhmac_##n##_context_t **) c, e ); } \
static int n##_f( vctx **c, verr **e ) { return libhmac_##n##_context_free( (libhmac_##n##_context_t **) c, e ); } \
static int n##_u( vctx *c, const uint8_t *d, size_t s, verr **e ) { return libhmac_##n##_context_update( (libhmac_##n##_context_t *) c, d, s, e ); } \
static int n##_z( vctx *c, uint8_t *h, size_t s, verr **e ) { return libhmac_##n##_context_finalize( (libhmac_##n##_context_t *) c, h, s, e ); } \
static int n##_li( vctx **c, verr **e ) { return libhmac_##n##_initialize( (libhmac_##n##_context_t **) c, e ); } \
static int n##_lf( vctx **c, verr **e ) { return libhmac_##n##_free( (libhmac_##n##_context_t **) c, e ); } \
static int n##_lu( vctx *c, const uint8_t *d, size_t s, verr **e ) { return libhmac_##n##_update( (libhmac_##n##_context_t *) c, d, s, e ); } \
static int n##_lz( vctx *c, uint8_t *h, size_t s, verr **e ) { return libhmac_##n##_finalize( (libhmac_##n##_context_t *) c, h, s, e ); }
ROW( md5, MD5, REF_MD5, 64 ) ROW( sha1, SHA1, REF_SHA1, 64 ) ROW( sha224, SHA224, REF_SHA224, 64 )
ROW( sha256, SHA256, REF_SHA256, 64 ) ROW( sha512, SHA512, REF_SHA512, 128 )
#define ENT( n, N, r, h, b ) { #n, r, h, b, n##_i, n##_f, n##_u, n##_z, n##_li, n##_lf, n##_lu, n##_lz, libhmac_##n##_calculate, libhmac_##n##_calculate_hmac }
const valg A[ 5 ] = {
	ENT( md5, MD5, REF_MD5, 16, 64 ), ENT( sha1, SHA1, REF_SHA1, 20, 64 ), ENT( sha224, SHA224, REF_SHA224, 28, 64 ),
	ENT( sha256, SHA256, REF_SHA256, 32, 64 ), ENT( sha512, SHA512, REF_SHA512, 64, 128 ) };

/* ---- randomness ---- */
static uint64_t mix( uint64_t z ) { z += 0x9E3779B97F4A7C15ULL; z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ULL; z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBULL; return z ^ ( z >> 31 ); }
void rng_seed( vrng *r, uint64_t seed, uint64_t stream ) { r->s[ 0 ] = mix( seed ) ^ mix( stream + 0x1234567 ); r->s[ 1 ] = mix( r->s[ 0 ] + stream ) | 1; }
#if defined( VH_GUIDE )
const uint8_t *vh_fz; size_t vh_fzn;
static int take( uint64_t *v, size_t n ) { if( vh_fzn < n ) return 0; *v = 0; memcpy( v, vh_fz, n ); vh_fz += n; vh_fzn -= n; return 1; }
#define TAKE( v, n ) if( take( v, n ) )
#else
#define TAKE( v, n ) if( 0 )
#endif
uint64_t rng( vrng *r )
{
	uint64_t fz = 0;
	TAKE( &fz, 8 ) return fz;
	uint64_t a = r->s[ 0 ], b = r->s[ 1 ], out = a + b;
	r->s[ 0 ] = b; a ^= a << 23; r->s[ 1 ] = a ^ b ^ ( a >> 18 ) ^ ( b >> 5 );
	return out;
}
uint64_t rngn( vrng *r, uint64_t n )
{
	uint64_t fz = 0;
	if( n == 0 ) return 0;
	if( n <= 256 ) { TAKE( &fz, 1 ) return fz % n; }
	else if( n <= 65536 ) { TAKE( &fz, 2 ) return fz % n; }
	return ( rng( r ) >> 3 ) % n;
}
size_t rng_log( vrng *r, size_t max )
{
	int bits = 0; size_t v;
	while( bits < 63 && ( (size_t) 1 << bits ) <= max ) bits++;
	v = (size_t) rngn( r, (uint64_t) 1 << rngn( r, (uint64_t) bits + 1 ) );
	return v > max ? (size_t) rngn( r, max + 1 ) : v;
}
void rng_fill( vrng *r, void *p, size_t n )
{
	unsigned char *q = p; uint64_t v;
#if defined( VH_GUIDE )
	size_t m = n < vh_fzn ? n : vh_fzn;
	if( m ) { memcpy( q, vh_fz, m ); vh_fz += m; vh_fzn -= m; q += m; n -= m; }
#endif
	while( n >= 8 ) { v = rng( r ); memcpy( q, &v, 8 ); q += 8; n -= 8; }
	if( n ) { v = rng( r ); memcpy( q, &v, n ); }
}
/* Contents as files and messages have them: marks of well-known formats at the
 * start, line ends and padding at the end, text, runs and periods inside. */
static const struct { const char *s; size_t n; } heads[] = {
#define H( x ) { x, sizeof( x ) - 1 }
	H( "\xef\xbb\xbf" ), H( "\xff\xfe" ), H( "\xfe\xff" ), H( "\xff\xfe\0\0" ), H( "\0\0\xfe\xff" ), H( "\x1f\x8b\x08" ), H( "\x1f\x9d" ), H( "BZh9" ), H( "\xfd" "7zXZ\0" ),
	H( "\x28\xb5\x2f\xfd" ), H( "7z\xbc\xaf\x27\x1c" ), H( "PK\x03\x04" ), H( "PK\x05\x06" ), H( "Rar!\x1a\x07" ), H( "\x7f" "ELF" ), H( "MZ" ), H( "%PDF-1.7" ), H( "#!" ), H( "#!/bin/sh\n" ),
	H( "<?xml" ), H( "{" ), H( "[" ), H( "\x89PNG\r\n\x1a\n" ), H( "GIF89a" ), H( "\xff\xd8\xff\xe0" ), H( "RIFF" ), H( "-----BEGIN" ), H( "EVF\x09\x0d\x0a\xff\0" ), H( "\xd0\xcf\x11\xe0" ),
	H( "SQLite format 3\0" ), H( "hsqs" ), H( "QFI\xfb" ), H( "KDMV" ), H( "conectix" ), H( "vhdxfile" ), H( "regf" ), H( "FILE0" ), H( "\xeb\x52\x90NTFS    " ), H( "\0" ), H( "\0\0\0\0" ), H( "\xff" ),
	H( "\xff\xff\xff\xff" ), H( "\x80" ), H( "\x80\0\0\0" ), H( "\0\0\0\x80" ), H( " " ), H( "\t" ), H( "\n" ), H( "\r\n" ), H( "+" ), H( "-" ), H( "--" ), H( "0x" ), H( "MD5" ), H( "\\" ), H( "/" ), H( "\x36\x36\x36\x36" ),
	H( "\x5c\x5c\x5c\x5c" ), H( "\x01\x23\x45\x67" ), H( "\x67\x45\x23\x01" ), H( "\x6a\x09\xe6\x67" ), H( "d41d8cd98f00b204e9800998ecf8427e" ), H( "$1$" ), H( "{SHA}" ), H( "sha256:" ), H( "\x30\x82" ) },
	tails[] = { H( "\n" ), H( "\r\n" ), H( "\r" ), H( "\0" ), H( "\0\0\0\0\0\0\0\0" ), H( "\x1a" ), H( " " ), H( "\t" ), H( "\n\n" ), H( "\xff" ), H( "\x80" ), H( "=" ), H( "==" ), H( "\x80\0\0\0\0\0\0\0" ), H( "\x01" ), H( "\x08\x08\x08\x08\x08\x08\x08\x08" ), H( "\x55\xaa" ),
	H( "PK\x05\x06\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0" ), H( "conectix" ), H( "\\" ), H( "\"" ), H( ";" ), H( "-----END" ) };
#undef H
int natural_mark( unsigned k, void *p, size_t n )
{
	unsigned nh = sizeof heads / sizeof *heads, nt = sizeof tails / sizeof *tails;
	if( k < nh ) { if( heads[ k ].n <= n ) memcpy( p, heads[ k ].s, heads[ k ].n ); }
	else if( k < nh + nt ) { if( tails[ k - nh ].n <= n ) memcpy( (char *) p + n - tails[ k - nh ].n, tails[ k - nh ].s, tails[ k - nh ].n ); }
	else return 0;
	return 1;
}
void rng_natural( vrng *r, void *vp, size_t n )
{
	unsigned char *p = vp; size_t i, at, len; static const size_t unit[] = { 1, 4, 16, 64, 128, 512, 4096, 32768 }; size_t u; unsigned w;
	static const unsigned char fill[] = { 0, 0, 0xff, 0x80, ' ', 'A', '\n', 0x36, 0x5c, 0x7f, 1 };
	rng_fill( r, p, n );
	if( n == 0 ) return;
	w = (unsigned) rngn( r, 10 );
	if( w == 0 ) for( i = 0; i < n; i++ ) p[ i ] = p[ i ] % 9 == 0 ? ' ' : p[ i ] % 41 == 7 ? '\n' : (unsigned char) ( 'a' + p[ i ] % 26 );
	else if( w == 1 ) for( i = 0; i + 1 < n; i++ ) { p[ i ] = (unsigned char) ( 32 + p[ i ] % 95 ); if( i % 61 == 60 ) { p[ i ] = '\r'; p[ ++i ] = '\n'; } }
	else if( w == 2 ) for( i = 0; i < n; i++ ) p[ i ] = (unsigned char) "0123456789abcdef"[ p[ i ] & 15 ];
	else if( w == 3 ) { len = 1 + rng_log( r, 300 ); for( i = len; i < n; i++ ) p[ i ] = p[ i - len ]; }
	else if( w == 4 ) for( i = 0; i < n; i++ ) p[ i ] = ( p[ i ] & 0xc0 ) ? 0 : p[ i ];
	else if( w == 5 ) for( i = 0; i + 8 <= n; i += 8 ) { static const uint64_t word[] = { 0, ~0ull, 1, 1ull << 63, 0x80000000ull, 0x7fffffffffffffffull, 0xffffffff00000000ull, 0xffffffffull }; if( p[ i ] & 1 ) memcpy( p + i, &word[ ( p[ i ] >> 1 ) & 7 ], 8 ); }
	if( w > 2 )
		for( i = rngn( r, 4 ); i > 0; i-- )
		{
			u = unit[ rngn( r, sizeof unit / sizeof *unit ) ]; at = rngn( r, n ) / u * u; len = ( 1 + rng_log( r, 9 ) ) * u;
			memset( p + at, fill[ rngn( r, sizeof fill ) ], at + len > n ? n - at : len );
		}
	if( rngn( r, 3 ) == 0 ) natural_mark( (unsigned) rngn( r, sizeof heads / sizeof *heads ), p, n );
	if( rngn( r, 3 ) == 0 ) natural_mark( (unsigned) ( sizeof heads / sizeof *heads + rngn( r, sizeof tails / sizeof *tails ) ), p, n );
}
/* The k-th size at or next to a power of two, three times one, or a round decimal number, or 0 after the last one */
size_t special_size( size_t k, size_t bs )
{
	static const long dl[] = { 0, -1, 1, 8, -8, 9, -9, 16, -16, 17, 1000, 1001, 1002, 1003 };
	static const long dec[] = { 1000, 2000, 5000, 10000, 20000, 50000, 100000, 200000, 500000, 1000000, 2000000, 1500, 3000, 1024 + 512, 1460, 65507 };
	size_t nd = sizeof dl / sizeof *dl, b, d = k % nd, j = k / nd; long x;
	if( j < 14 ) b = (size_t) 256 << j;                     /* 256 .. 2 MiB */
	else if( j < 26 ) b = (size_t) 384 << ( j - 14 );       /* 384 .. 768 KiB */
	else if( j < 26 + sizeof dec / sizeof *dec ) b = (size_t) dec[ j - 26 ];
	else return 0;
	x = dl[ d ];
	/* the padding edges and whole blocks beside it */
	if( x == 1000 ) x = (long) ( bs - bs / 8 ); else if( x == 1001 ) x = (long) ( bs - bs / 8 ) - 1; else if( x == 1002 ) x = (long) bs; else if( x == 1003 ) x = -(long) bs;
	return (size_t) ( (long) b + x );
}
static size_t rng_special( vrng *r, size_t bs, size_t max )
{
	int i; size_t v;
	for( i = 0; i < 8; i++ )
	{
		v = special_size( rngn( r, 42 * 14 ), bs );
		if( v <= max ) return v;
	}
	return rng_log( r, max );
}
size_t rng_size( vrng *r, size_t bs, size_t max )
{
	size_t v;
	switch( rngn( r, 7 ) )
	{
	case 6: return rng_special( r, bs, max );
	case 0: v = rngn( r, 2 * bs + 2 ); break;
	case 1: v = bs * rngn( r, 5 ) + rngn( r, 5 ); v = v >= 2 ? v - 2 : v; break;           /* around block ends */
	case 2: v = bs * ( 1 + rngn( r, 4 ) ) - bs / 8 - 2 + rngn( r, 5 ); break;              /* around the padding edge */
	case 3: v = rng_log( r, max ); break;
	case 4: v = rngn( r, 1200 ); break;
	default: v = rngn( r, 9 ); break;
	}
	return v > max ? v % ( max + 1 ) : v;
}

/* ---- reporting ---- */
static char *case_mem; static long long prev_evals; static int stuck, stuck_limit = 60;
static struct { char k[ 120 ]; } keys[ 200 ]; static int nkeys;
static struct { const char *k; long long v; } stats[ 64 ]; static int nstats, nsamples, nfails;
long long vh_evals; int vh_quick = 1; uint64_t vh_seed = 1;
static int g_argc; static char **g_argv;

#define CASE_MAX 2048
static __thread char tcase[ CASE_MAX ];
void vh_case( const char *fmt, ... )
{
	va_list ap;
	va_start( ap, fmt );
	vsnprintf( tcase, CASE_MAX, fmt, ap );
	va_end( ap );
	if( case_mem != NULL ) memcpy( case_mem, tcase, CASE_MAX );
}
static volatile char repl = 0;
void vh_fail( const char *key, const char *fmt, ... )
{
	va_list ap; char b[ 3000 ]; int i;
	while( __atomic_test_and_set( &repl, __ATOMIC_ACQUIRE ) ) { }
	nfails++;
	for( i = 0; i < nkeys; i++ ) if( strcmp( keys[ i ].k, key ) == 0 ) goto out;
	if( nkeys >= 200 ) goto out;
	snprintf( keys[ nkeys++ ].k, 120, "%s", key );
	va_start( ap, fmt ); vsnprintf( b, sizeof b, fmt, ap ); va_end( ap );
	for( i = 0; b[ i ]; i++ ) if( b[ i ] == '\n' || b[ i ] == '\t' ) b[ i ] = ' ';
	printf( "FAIL\t%s\t%s | case: %s\n", key, b, tcase );
	fflush( stdout );
#if defined( VH_GUIDE )
	abort();
#endif
out:
	__atomic_clear( &repl, __ATOMIC_RELEASE );
}
void vh_sample( const char *fmt, ... )
{
	va_list ap;
	if( nsamples >= 6 ) return;
	nsamples++;
	printf( "SAMPLE\t" ); va_start( ap, fmt ); vprintf( fmt, ap ); va_end( ap ); printf( "\n" );
}
void vh_stat( const char *name, long long v )
{
	int i;
	for( i = 0; i < nstats; i++ ) if( strcmp( stats[ i ].k, name ) == 0 ) { stats[ i ].v += v; return; }
	if( nstats < 64 ) { stats[ nstats ].k = name; stats[ nstats++ ].v = v; }
}
void vh_eval( void ) { __atomic_add_fetch( &vh_evals, 1, __ATOMIC_RELAXED ); }

static uint64_t *dset; static size_t dcap, dn;
void vh_distinct( uint64_t h )
{
	size_t i; if( h == 0 ) h = 1;
#if defined( VH_GUIDE )
	return;
#endif
	if( dn * 2 >= dcap )
	{
		uint64_t *o = dset; size_t oc = dcap, j;
		dcap = oc ? oc * 2 : 65536; dset = vh_raw_calloc( dcap, 8 );
		for( j = 0; j < oc; j++ ) if( o[ j ] ) { for( i = o[ j ] % dcap; dset[ i ]; i = ( i + 1 ) % dcap ) { } dset[ i ] = o[ j ]; }
		vh_raw_free( o );
	}
	for( i = h % dcap; dset[ i ]; i = ( i + 1 ) % dcap ) if( dset[ i ] == h ) return;
	dset[ i ] = h; dn++;
}
uint64_t vh_hash( const void *p, size_t n, uint64_t h )
{
	const unsigned char *q = p; uint64_t v; size_t l = n;
	h ^= 0xcbf29ce484222325ULL;
	while( n >= 8 ) { memcpy( &v, q, 8 ); h = ( h ^ v ) * 0x9FB21C651E98DF25ULL; h ^= h >> 29; q += 8; n -= 8; }
	v = 0; memcpy( &v, q, n ); h = ( h ^ v ^ ( (uint64_t) l << 56 ) ) * 0x9FB21C651E98DF25ULL;
	return h ^ ( h >> 32 );
}
const char *vh_hex( const void *p, size_t n )
{
	static __thread char b[ 4 ][ 300 ]; static __thread int k; char *o = b[ k = ( k + 1 ) & 3 ]; size_t i;
	if( n > 140 ) n = 140;
	for( i = 0; i < n; i++ ) sprintf( &o[ 2 * i ], "%02x", ( (const unsigned char *) p )[ i ] );
	o[ 2 * n ] = 0;
	return o;
}
int vh_end( void )
{
	int i;
	for( i = 0; i < nstats; i++ ) printf( "STAT\t%s\t%lld\n", stats[ i ].k, stats[ i ].v );
	printf( "STAT\tevaluations\t%lld\nSTAT\tdistinct\t%zu\nSTAT\tfails\t%d\nEND\n", vh_evals, dn, nfails );
	fflush( stdout );
	return nfails ? 4 : 0;
}
static void onprof( int s )
{
	long long e = __atomic_load_n( &vh_evals, __ATOMIC_RELAXED ); (void) s;
	if( e != prev_evals ) { prev_evals = e; stuck = 0; return; }
	if( ++stuck >= stuck_limit )
	{
		static const char m[] = "FAIL\thang\tno progress for a long time of processor time | case: "; ssize_t w;
		w = write( 1, m, sizeof m - 1 );
		if( case_mem != NULL ) w = write( 1, case_mem, strlen( case_mem ) );
		w = write( 1, "\n", 1 ); (void) w;
		_exit( 3 );
	}
}

/* ---- guarded buffers ---- */
#define ARENA ( (size_t) 6 << 20 )
static unsigned char *arena[ VH_ARENAS ];
static void poison( void *p, size_t n )
{
	(void) p; (void) n;
#if defined( VH_ASAN )
	ASAN_POISON_MEMORY_REGION( p, n );
#elif defined( VH_MSAN )
	__msan_poison( p, n );
#endif
}
static void unpoison( void *p, size_t n )
{
	(void) p; (void) n;
#if defined( VH_ASAN )
	ASAN_UNPOISON_MEMORY_REGION( p, n );
#endif
}
unsigned char *vb_place( int slot, int mode, const void *data, size_t n, vbuf *b )
{
	unsigned char *a;
	b->n = n; b->mode = mode; b->base = NULL; b->w = NULL;
	if( mode == PLACE_HEAP || n > ARENA )
	{
		b->mode = PLACE_HEAP;
		b->base = b->p = vh_raw_malloc( n ? n : 1 );
		if( b->p == NULL ) abort();
	}
	else
	{
		if( arena[ slot ] == NULL )
		{
			a = mmap( NULL, ARENA + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
			if( a == MAP_FAILED || mprotect( a + 4096, ARENA, PROT_READ | PROT_WRITE ) ) abort();
			arena[ slot ] = a + 4096;
		}
		a = arena[ slot ];
		b->p = mode == PLACE_END ? a + ARENA - n : a;
		/* the neighbourhood on the open side is out of bounds as well */
		if( mode == PLACE_END ) { size_t k = ARENA - n > 256 ? 256 : ARENA - n; poison( b->p - k, k ); }
		else { size_t k = ARENA - n > 256 ? 256 : ARENA - n; poison( a + n, k ); }
		unpoison( b->p, n );
	}
	if( data != NULL ) memcpy( b->p, data, n );
	b->w = b->p;
	return b->p;
}
static unsigned char *ro_arena[ VH_ARENAS ], *ro_alias[ VH_ARENAS ];
unsigned char *vb_input( int slot, int mode, const void *data, size_t n, vbuf *b )
{
	unsigned char *a; size_t k = ARENA - n > 256 ? 256 : ARENA - n;
	if( mode == PLACE_HEAP || n > ARENA ) return vb_place( slot, mode, data, n, b );
	if( ro_arena[ slot ] == NULL )
	{
		int fd = memfd_create( "vh", 0 );
		if( fd < 0 || ftruncate( fd, (off_t) ARENA ) != 0 ) abort();
		a = mmap( NULL, ARENA + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
		if( a == MAP_FAILED || mmap( a + 4096, ARENA, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0 ) == MAP_FAILED ) abort();
		ro_arena[ slot ] = a + 4096;
		ro_alias[ slot ] = mmap( NULL, ARENA, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0 );
		if( ro_alias[ slot ] == MAP_FAILED ) abort();
		close( fd );
		vh_stat( "inputs in memory that cannot be written", 0 );
	}
	a = ro_arena[ slot ];
	b->n = n; b->mode = mode; b->base = NULL;
	b->p = mode == PLACE_END ? a + ARENA - n : a;
	b->w = ro_alias[ slot ] + ( b->p - a );
	poison( mode == PLACE_END ? b->p - k : a + n, k );
	unpoison( b->p, n );
#if defined( VH_MSAN )
	__msan_unpoison( b->p, n );
#endif
	if( data != NULL ) memcpy( b->w, data, n );
	vh_stat( "inputs in memory that cannot be written", 1 );
	return b->p;
}
void vb_release( vbuf *b )
{
	if( b->base != NULL ) vh_raw_free( b->base );
	else if( b->p != NULL )
	{
		if( b->mode == PLACE_END ) unpoison( b->p - 256, 256 + b->n ); else unpoison( b->p, b->n + 256 );
	}
	b->base = NULL; b->p = NULL;
}
int vb_same( const vbuf *b, const void *data ) { return b->n == 0 || memcmp( b->p, data, b->n ) == 0; }

unsigned char *vo_get( vout *o, int slot, int mode, size_t n, vrng *r )
{
	unsigned char *p;
#if defined( VH_GUIDE )
	size_t left = vh_fzn; vh_fzn = 0;          /* only decoration: not worth the fuzzer's bytes */
#endif
	rng_fill( r, o->img, sizeof o->img );
#if defined( VH_GUIDE )
	vh_fzn = left;
#endif
	p = vb_place( slot, mode, n > sizeof o->img ? NULL : o->img, n, &o->b );
	if( n > sizeof o->img ) { size_t i; for( i = 0; i < n; i++ ) p[ i ] = o->img[ i % sizeof o->img ]; }
	o->n = n; o->mode = mode;
	return p;
}
size_t rng_extra( vrng *r )
{
	static const size_t big[] = { 4096, 512, 1024, 65536, 65535, 100000, (size_t) 1 << 20 };
	switch( rngn( r, 100 ) )
	{
	case 0: return big[ rngn( r, rngn( r, 8 ) == 0 ? 7 : 3 ) ] - rngn( r, 3 ) * 16;
	case 1: return rngn( r, 700 );
	default: return rngn( r, 3 ) == 0 ? rngn( r, 100 ) : 0;
	}
}
const char *vo_check( vout *o, size_t w )
{
	static char m[ 200 ]; size_t i; const char *res = NULL;
	for( i = w; i < o->n; i++ ) if( o->b.p[ i ] != o->img[ i % sizeof o->img ] )
	{ snprintf( m, sizeof m, "byte %zu of a %zu byte result buffer changed (only %zu may)", i, o->n, w ); res = m; break; }
	vb_release( &o->b );
	return res;
}

/* ---- arguments ---- */
const char *arg( const char *name, const char *d )
{
	int i; size_t l = strlen( name );
	for( i = 2; i < g_argc; i++ ) if( strncmp( g_argv[ i ], name, l ) == 0 && g_argv[ i ][ l ] == '=' ) return g_argv[ i ] + l + 1;
	return d;
}
long argn( const char *name, long d ) { const char *s = arg( name, NULL ); return s ? strtol( s, NULL, 0 ) : d; }
int algsel( int a ) { const char *s = arg( "alg", NULL ); return s == NULL || strcmp( s, A[ a ].name ) == 0; }

static int mode_ref( void )
{
	/* the reference on fixed inputs, for comparison with hashlib and hmac */
	static unsigned char d[ 3000 ]; unsigned char o[ 64 ]; int a; size_t n;
	for( n = 0; n < sizeof d; n++ ) d[ n ] = (unsigned char) ( n * 31 + ( n >> 8 ) * 7 + 3 );
	for( a = 0; a < REF_ALGS; a++ )
		for( n = 0; n < 2600; n += n < 300 ? 1 : 97 )
		{
			ref_digest( A[ a ].ref, d, n, o ); printf( "R\t%s\t%zu\t%s\n", A[ a ].name, n, vh_hex( o, A[ a ].hs ) );
			ref_hmac( A[ a ].ref, d, n, d + n / 3, n / 2, o ); printf( "M\t%s\t%zu\t%s\n", A[ a ].name, n, vh_hex( o, A[ a ].hs ) );
		}
	vh_evals++;
	return 0;
}

static const struct { const char *n; int (*f)( void ); } modes[] = {
	{ "ref", mode_ref }, { "oneshot", mode_oneshot }, { "stream", mode_stream }, { "hmac", mode_hmac }, { "large", mode_large },
	{ "seq", mode_seq }, { "invalid", mode_invalid }, { "fault", mode_fault }, { "threads", mode_threads }, { "secret", mode_secret },
	{ "crowd", mode_crowd }, { "legacy", mode_legacy }, { "ident", mode_ident }, { "error", mode_error }, { "leak", mode_leak }, { "faultseq", mode_faultseq },
#if defined( VH_TAINT )
	{ "taint", mode_taint },
#endif
#if defined( VH_COST )
	{ "cost", mode_cost },
#endif
#if defined( VH_SUM )
	{ "sum", mode_sum }, { "sizes", mode_sizes }, { "hexstr", mode_hexstr },
	{ "getopt", mode_getopt }, { "parts", mode_parts },
#endif
};

#if defined( VH_GUIDE )
/* The first bytes of an input decide on sizes and the like: they are changed more often than the many others. */
size_t LLVMFuzzerMutate( uint8_t *d, size_t n, size_t max );
size_t LLVMFuzzerCustomMutator( uint8_t *d, size_t n, size_t max, unsigned int seed );
size_t LLVMFuzzerCustomMutator( uint8_t *d, size_t n, size_t max, unsigned int seed )
{
	const char *kind = getenv( "VH_GUIDE" ); uint64_t s = mix( seed ); size_t head = 0;
	if( kind != NULL ) head = strcmp( kind, "stream" ) == 0 ? 13 : strcmp( kind, "hmac" ) == 0 ? 2 : strcmp( kind, "oneshot" ) == 0 ? 3 : 0;
	if( head == 0 || n <= head || s % 4 > 0 ) return LLVMFuzzerMutate( d, n, max );
	s = mix( s );
	{
		uint8_t *p = d + 1 + s % ( head - 1 );
		switch( ( s >> 8 ) % 4 )
		{
		case 0: *p = (uint8_t) ( s >> 16 ); break;
		case 1: *p ^= (uint8_t) ( 1u << ( s >> 16 ) % 8 ); break;
		case 2: *p = (uint8_t) ( *p + ( s >> 16 ) % 9 - 4 ); break;
		case 3: *p = (uint8_t) ( (int) *p + (int) ( n - head ) * ( ( s >> 20 ) & 1 ? 1 : -1 ) ); break;
		}
	}
	return ( s >> 40 ) % 4 ? n : LLVMFuzzerMutate( d, n, max );
}
int LLVMFuzzerTestOneInput( const uint8_t *d, size_t n );
int LLVMFuzzerTestOneInput( const uint8_t *d, size_t n )
{
	static const char *kind; int r;
	if( kind == NULL ) { kind = getenv( "VH_GUIDE" ); if( kind == NULL ) kind = "oneshot"; }
	vh_fz = d; vh_fzn = n;
	r = guide_digest( kind, d, n ) || guide_history( kind, d, n );
#if defined( VH_SUM )
	r = r || guide_sum( kind, d, n );
#endif
	if( !r ) { fprintf( stderr, "no such kind of input: %s\n", kind ); _exit( 2 ); }
	return 0;
}
#else
int main( int argc, char **argv )
{
	size_t i; const char *cf; struct itimerval it = { { 1, 0 }, { 1, 0 } };
	g_argc = argc; g_argv = argv;
	if( argc < 2 ) return 2;
	vh_seed = strtoull( arg( "seed", "1" ), NULL, 0 );
	vh_quick = strcmp( arg( "tier", "quick" ), "quick" ) == 0;
	stuck_limit = (int) argn( "stuck", 60 );
	cf = getenv( "VH_CASE" );
	if( cf != NULL )
	{
		int fd = open( cf, O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600 );
		if( fd >= 0 && ftruncate( fd, CASE_MAX ) == 0 ) { case_mem = mmap( NULL, CASE_MAX, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0 ); if( case_mem == MAP_FAILED ) case_mem = NULL; }
	}
	setvbuf( stdout, NULL, _IOFBF, 1 << 16 );
	signal( SIGPROF, onprof ); setitimer( ITIMER_PROF, &it, NULL );
	for( i = 0; i < sizeof modes / sizeof *modes; i++ )
		if( strcmp( modes[ i ].n, argv[ 1 ] ) == 0 )
		{
			if( modes[ i ].f() != 0 ) { fflush( stdout ); fprintf( stderr, "harness error in mode %s\n", argv[ 1 ] ); return 2; }
			return vh_end();
		}
	return 2;
}
#endif
