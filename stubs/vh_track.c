#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include "vh_track.h"

void *__real_malloc( size_t );
void *__real_calloc( size_t, size_t );
void *__real_realloc( void *, size_t );
void __real_free( void * );

void *vh_raw_malloc( size_t n ) { return __real_malloc( n ); }
void *vh_raw_calloc( size_t n, size_t m ) { return __real_calloc( n, m ); }
void *vh_raw_realloc( void *p, size_t n ) { return __real_realloc( p, n ); }
void vh_raw_free( void *p ) { __real_free( p ); }

void (*vh_free_hook)( void *p, size_t n ) = NULL;
int vh_junk_fill = 1;
void (*vh_final_hook)( void *, size_t ) = NULL, (*vh_size_hook)( void *, size_t ) = NULL;

static __thread int depth_ = 0;
static int always;   /* every thread runs code under test (shared object in another program) */
#define depth ( depth_ + always )
static volatile char lockv = 0;
static long nalloc, ncrypto, fired, fail_alloc, fail_crypto, tot_alloc, tot_free, live_evp;
static int persistent;

#define NSLOT 65536
static struct { void *p; size_t n; } tab[ NSLOT ];
static long live; static size_t live_b, peak_b; static unsigned long long given;
#define TOMB ((void *) 1)

static void lk( void ) { while( __atomic_test_and_set( &lockv, __ATOMIC_ACQUIRE ) ) { } }
static void ul( void ) { __atomic_clear( &lockv, __ATOMIC_RELEASE ); }
static size_t h( const void *p ) { return ( ( (size_t) p >> 4 ) * 0x9E3779B97F4A7C15ULL ) >> 48; }

void vh_track_on( void ) { depth_++; }
void vh_track_off( void ) { depth_--; }
void vh_track_always( int on ) { always = on; }
int vh_tracking( void ) { return depth > 0; }
void vh_fault_arm( long a, long c, int p ) { nalloc = ncrypto = fired = 0; fail_alloc = a; fail_crypto = c; persistent = p; }
void vh_fault_disarm( void ) { fail_alloc = fail_crypto = 0; }
long vh_alloc_count( void ) { return nalloc; }
long vh_crypto_count( void ) { return ncrypto; }
long vh_faults_fired( void ) { return fired; }
long vh_live_blocks( void ) { return live; }
size_t vh_live_bytes( void ) { return live_b; }
size_t vh_peak_bytes( void ) { return peak_b; }
void vh_peak_reset( void ) { peak_b = live_b; }
unsigned long long vh_provider_bytes( void ) { return given; }
long vh_live_evp( void ) { return live_evp; }
long vh_total_allocs( void ) { return tot_alloc; }
long vh_total_frees( void ) { return tot_free; }

static void add( void *p, size_t n )
{
	size_t i; lk();
	for( i = h( p ); tab[ i % NSLOT ].p != NULL && tab[ i % NSLOT ].p != TOMB; i++ ) { }
	tab[ i % NSLOT ].p = p; tab[ i % NSLOT ].n = n;
	live++; live_b += n; tot_alloc++; if( live_b > peak_b ) peak_b = live_b;
	ul();
}
static long find( const void *p )
{
	size_t i, k;
	for( i = h( p ), k = 0; k < NSLOT; i++, k++ )
	{
		if( tab[ i % NSLOT ].p == NULL ) return -1;
		if( tab[ i % NSLOT ].p == p ) return (long) ( i % NSLOT );
	}
	return -1;
}
static int del( void *p, size_t *n )
{
	long i; int r = 0; lk();
	i = find( p );
	if( i >= 0 )
	{
		*n = tab[ i ].n;
		tab[ i ].p = tab[ ( (size_t) i + 1 ) % NSLOT ].p == NULL ? NULL : TOMB;
		live--; live_b -= *n; tot_free++; r = 1;
	}
	ul();
	return r;
}
size_t vh_block_size( const void *p ) { long i; size_t n = 0; lk(); i = find( p ); if( i >= 0 ) n = tab[ i ].n; ul(); return n; }
void vh_live_foreach( void (*cb)( void *, size_t, void * ), void *arg )
{
	size_t i;
	for( i = 0; i < NSLOT; i++ ) if( tab[ i ].p != NULL && tab[ i ].p != TOMB ) cb( tab[ i ].p, tab[ i ].n, arg );
}

static int should_fail( long *count, long at )
{
	long c = __atomic_add_fetch( count, 1, __ATOMIC_RELAXED );
	if( at != 0 && ( c == at || ( persistent && c > at ) ) ) { __atomic_add_fetch( &fired, 1, __ATOMIC_RELAXED ); return 1; }
	return 0;
}

void *__wrap_malloc( size_t n )
{
	void *p;
	if( depth <= 0 ) return __real_malloc( n );
	if( should_fail( &nalloc, fail_alloc ) ) return NULL;
	p = __real_malloc( n );
	if( p == NULL ) return NULL;
	if( vh_junk_fill && n < ( 1 << 20 ) ) memset( p, 0xA5, n );
	add( p, n );
	return p;
}
void *__wrap_calloc( size_t n, size_t m )
{
	void *p;
	if( depth <= 0 ) return __real_calloc( n, m );
	if( should_fail( &nalloc, fail_alloc ) ) return NULL;
	p = __real_calloc( n, m );
	if( p == NULL ) return NULL;
	add( p, n * m );
	return p;
}
void *__wrap_realloc( void *q, size_t n )
{
	void *p; size_t old = 0; int known;
	if( depth <= 0 ) return __real_realloc( q, n );
	if( should_fail( &nalloc, fail_alloc ) ) return NULL;
	if( q == NULL ) { p = __real_malloc( n ); if( p != NULL ) add( p, n ); return p; }
	known = del( q, &old );
	if( known && vh_free_hook != NULL ) vh_free_hook( q, old );
	p = __real_realloc( q, n );
	if( p == NULL ) { if( known ) add( q, old ); return NULL; }
	add( p, n );
	return p;
}
void __wrap_free( void *p )
{
	size_t n = 0;
	if( p != NULL && del( p, &n ) ) { if( vh_free_hook != NULL ) vh_free_hook( p, n ); }
	__real_free( p );
}
char *__wrap_strdup( const char *s )
{
	size_t n = strlen( s ) + 1; char *p = (char *) __wrap_malloc( n );
	if( p != NULL ) memcpy( p, s, n );
	return p;
}

#if defined( VH_OPENSSL )
#define OPENSSL_SUPPRESS_DEPRECATED
#include <openssl/evp.h>
#include <openssl/md5.h>
#include <openssl/sha.h>

/* The provider is not instrumented: what it calls with its own values is not the library's doing */
#if defined( __has_feature )
#if __has_feature( memory_sanitizer )
#include <sanitizer/msan_interface.h>
#define IN __msan_scoped_disable_interceptor_checks();
#define OUT __msan_scoped_enable_interceptor_checks();
#endif
#endif
#if !defined( IN )
#define IN
#define OUT
#endif
static int cfail( void ) { return depth > 0 && should_fail( &ncrypto, fail_crypto ); }

EVP_MD_CTX *__real_EVP_MD_CTX_new( void );
void __real_EVP_MD_CTX_free( EVP_MD_CTX * );
EVP_MD_CTX *__wrap_EVP_MD_CTX_new( void )
{
	EVP_MD_CTX *c;
	if( cfail() ) return NULL;
	IN c = __real_EVP_MD_CTX_new(); OUT
	if( c != NULL && depth > 0 ) __atomic_add_fetch( &live_evp, 1, __ATOMIC_RELAXED );
	return c;
}
void __wrap_EVP_MD_CTX_free( EVP_MD_CTX *c )
{
	if( c != NULL && depth > 0 ) __atomic_sub_fetch( &live_evp, 1, __ATOMIC_RELAXED );
	IN __real_EVP_MD_CTX_free( c ); OUT
}
#define WU( name, args, call ) int __real_##name args; int __wrap_##name args { int rc; if( cfail() ) return 0; __atomic_add_fetch( &given, n, __ATOMIC_RELAXED ); IN rc = __real_##name call; OUT return rc; }
#define W( name, args, call ) int __real_##name args; int __wrap_##name args { int rc; if( cfail() ) return 0; IN rc = __real_##name call; OUT return rc; }
W( EVP_DigestInit_ex2, ( EVP_MD_CTX *c, const EVP_MD *t, const OSSL_PARAM p[] ), ( c, t, p ) )
W( EVP_DigestInit_ex, ( EVP_MD_CTX *c, const EVP_MD *t, ENGINE *e ), ( c, t, e ) )
W( EVP_DigestInit, ( EVP_MD_CTX *c, const EVP_MD *t ), ( c, t ) )
WU( EVP_DigestUpdate, ( EVP_MD_CTX *c, const void *d, size_t n ), ( c, d, n ) )
/* The functions that write a digest tell a driver that they did */
#define WF( name, args, call, md, n, sz ) int __real_##name args; int __wrap_##name args { int rc; size_t size; if( cfail() ) return 0; IN size = (size_t) ( n ); rc = __real_##name call; OUT \
	if( sz != NULL && vh_size_hook != NULL ) vh_size_hook( sz, sizeof( unsigned int ) ); if( md != NULL && vh_final_hook != NULL ) vh_final_hook( md, size ); return rc; }
#define NOSIZE ( (unsigned int *) 0 )
WF( EVP_DigestFinal_ex, ( EVP_MD_CTX *c, unsigned char *m, unsigned int *s ), ( c, m, s ), m, EVP_MD_CTX_size( c ), s )
WF( EVP_DigestFinal, ( EVP_MD_CTX *c, unsigned char *m, unsigned int *s ), ( c, m, s ), m, EVP_MD_CTX_size( c ), s )
W( MD5_Init, ( MD5_CTX *c ), ( c ) )
WU( MD5_Update, ( MD5_CTX *c, const void *d, size_t n ), ( c, d, n ) )
WF( MD5_Final, ( unsigned char *m, MD5_CTX *c ), ( m, c ), m, 16, NOSIZE )
W( SHA1_Init, ( SHA_CTX *c ), ( c ) )
WU( SHA1_Update, ( SHA_CTX *c, const void *d, size_t n ), ( c, d, n ) )
WF( SHA1_Final, ( unsigned char *m, SHA_CTX *c ), ( m, c ), m, 20, NOSIZE )
W( SHA224_Init, ( SHA256_CTX *c ), ( c ) )
WU( SHA224_Update, ( SHA256_CTX *c, const void *d, size_t n ), ( c, d, n ) )
WF( SHA224_Final, ( unsigned char *m, SHA256_CTX *c ), ( m, c ), m, 28, NOSIZE )
W( SHA256_Init, ( SHA256_CTX *c ), ( c ) )
WU( SHA256_Update, ( SHA256_CTX *c, const void *d, size_t n ), ( c, d, n ) )
WF( SHA256_Final, ( unsigned char *m, SHA256_CTX *c ), ( m, c ), m, 32, NOSIZE )
W( SHA512_Init, ( SHA512_CTX *c ), ( c ) )
WU( SHA512_Update, ( SHA512_CTX *c, const void *d, size_t n ), ( c, d, n ) )
WF( SHA512_Final, ( unsigned char *m, SHA512_CTX *c ), ( m, c ), m, 64, NOSIZE )
#else
void vh_no_openssl( void ) { (void) ncrypto; (void) fail_crypto; (void) given; }
#endif
