/* Memory stays bounded and work in proportion: heap and stack at their highest
 * while a call runs, and the work it does (edges of the code executed, bytes
 * moved or compared by library functions, bytes given to the provider), for
 * growing data. Limits are always relative to the same call on less data. */
#define _GNU_SOURCE
#include <pthread.h>
#include <sys/mman.h>
#include "vh_common.h"
#define NOCOV __attribute__(( no_sanitize( "coverage" ) ))

static volatile int on; static unsigned long long edges, moved;
void __sanitizer_cov_trace_pc_guard_init( uint32_t *a, uint32_t *b );
void __sanitizer_cov_trace_pc_guard( uint32_t *g );
NOCOV void __sanitizer_cov_trace_pc_guard_init( uint32_t *a, uint32_t *b ) { uint32_t n = 0; if( a != b && *a == 0 ) while( a < b ) *a++ = ++n; }
NOCOV void __sanitizer_cov_trace_pc_guard( uint32_t *g ) { (void) g; if( on ) edges++; }
void *__real_memcpy( void *, const void *, size_t ); void *__real_memmove( void *, const void *, size_t ); void *__real_memset( void *, int, size_t ); int __real_memcmp( const void *, const void *, size_t );
void *__wrap_memcpy( void *, const void *, size_t ); void *__wrap_memmove( void *, const void *, size_t ); void *__wrap_memset( void *, int, size_t ); int __wrap_memcmp( const void *, const void *, size_t );
NOCOV void *__wrap_memcpy( void *a, const void *b, size_t n ) { if( on ) moved += n; return __real_memcpy( a, b, n ); }
NOCOV void *__wrap_memmove( void *a, const void *b, size_t n ) { if( on ) moved += n; return __real_memmove( a, b, n ); }
NOCOV void *__wrap_memset( void *a, int c, size_t n ) { if( on ) moved += n; return __real_memset( a, c, n ); }
NOCOV int __wrap_memcmp( const void *a, const void *b, size_t n ) { if( on ) moved += n; return __real_memcmp( a, b, n ); }

typedef struct { const valg *v; int shape; size_t kn, mn, chunk, off; int rc; size_t heap, held, stack; unsigned long long work, last; long allocs; } job;
#define STACK ( 2u << 20 )
static unsigned char *stk, *room_, *data, out[ 64 ], want[ 64 ]; static size_t room;
static const char *shapes[] = { "one-shot digest", "HMAC", "stream", "deprecated stream", "HMAC with a growing key" };

static NOCOV unsigned long long spent( void ) { return edges + moved + vh_provider_bytes(); }
static NOCOV void *run( void *p )
{
	job *j = p; verr *e = NULL; vctx *c = NULL; size_t at, n; unsigned long long w0 = spent(), w; const valg *v = j->v;
	data = room_ + j->off; vh_peak_reset(); j->allocs = vh_total_allocs();
	vh_track_on(); on = 1;
	if( j->shape == 0 ) j->rc = v->calc( data, j->mn, out, v->hs, &e );
	else if( j->shape == 1 || j->shape == 4 ) j->rc = v->hmac( data + 1, j->kn, data, j->mn, out, v->hs, &e );
	else
	{
		j->rc = ( j->shape == 2 ? v->init : v->linit )( &c, &e );
		for( at = 0; j->rc == 1 && at < j->mn; at += n )
		{
			n = j->mn - at < j->chunk ? j->mn - at : j->chunk; w = spent();
			j->rc = ( j->shape == 2 ? v->update : v->lupdate )( c, data + at, n, &e );
			j->last = spent() - w; if( j->last > 0 && n < j->chunk ) j->last = 0;
		}
		j->held = vh_live_bytes();
		if( j->rc == 1 ) j->rc = ( j->shape == 2 ? v->final : v->lfinal )( c, out, v->hs, &e );
		( j->shape == 2 ? v->freec : v->lfree )( &c, NULL );
	}
	on = 0; vh_track_off();
	j->work = spent() - w0; j->heap = vh_peak_bytes(); j->allocs = vh_total_allocs() - j->allocs;
	libhmac_error_free( &e );
	return NULL;
}
static void measure( job *j )
{
	pthread_attr_t a; pthread_t t; size_t i;
	memset( stk, 0xA5, STACK ); j->heap = j->held = j->stack = 0; j->last = 0;
	vh_case( "%s %s, %zu bytes at +%zu in pieces of %zu, key %zu (stack of %u bytes)", j->v->name, shapes[ j->shape ], j->mn, j->off, j->chunk, j->kn, STACK );
	pthread_attr_init( &a ); pthread_attr_setstack( &a, stk, STACK );
	if( pthread_create( &t, &a, run, j ) != 0 ) { vh_fail( "harness", "no thread" ); return; }
	pthread_join( t, NULL ); pthread_attr_destroy( &a );
	for( i = 0; i < STACK && stk[ i ] == 0xA5; i++ ) { }
	j->stack = STACK - i;
	vh_eval();
	if( j->shape == 1 || j->shape == 4 ) ref_hmac( j->v->ref, data + 1, j->kn, data, j->mn, want ); else ref_digest( j->v->ref, data, j->mn, want );
	if( j->rc != 1 || memcmp( out, want, j->v->hs ) != 0 ) vh_fail( "cost-digest", "%s %s of %zu bytes: rc %d %s expected %s", j->v->name, shapes[ j->shape ], j->mn, j->rc, vh_hex( out, j->v->hs ), vh_hex( want, j->v->hs ) );
}
static long long worst_heap, worst_stack, worst_ratio, compared;
static void judge( const job *s, const job *b )
{
	/* s: the same on less data */
	size_t ns = s->mn + s->kn, nb = b->mn + b->kn; double lin = (double) s->work * (double) nb / (double) ns;
	compared++;
	if( (long long) b->heap > worst_heap ) worst_heap = (long long) b->heap;
	if( (long long) b->stack > worst_stack ) worst_stack = (long long) b->stack;
	if( ns >= 16384 && (long long) ( (double) b->work * 100 / lin ) > worst_ratio ) worst_ratio = (long long) ( (double) b->work * 100 / lin );
	if( b->heap > s->heap + 4096 ) vh_fail( "memory-grows", "%s %s: %zu bytes of heap at most with %zu bytes of data in pieces of %zu (key %zu), %zu with %zu (key %zu)", b->v->name, shapes[ b->shape ], b->heap, b->mn, b->chunk, b->kn, s->heap, s->mn, s->kn );
	if( b->held > s->held + 4096 ) vh_fail( "context-grows", "%s %s: a context holds %zu bytes after %zu bytes of data in pieces of %zu, %zu after %zu", b->v->name, shapes[ b->shape ], b->held, b->mn, b->chunk, s->held, s->mn );
	if( b->stack > s->stack + 16384 ) vh_fail( "stack-grows", "%s %s: %zu bytes of stack with %zu bytes of data in pieces of %zu (key %zu), %zu with %zu (key %zu)", b->v->name, shapes[ b->shape ], b->stack, b->mn, b->chunk, b->kn, s->stack, s->mn, s->kn );
	if( (double) b->work > 1.5 * lin + 100000 ) vh_fail( "work-grows", "%s %s: work of %llu for %zu bytes of data in pieces of %zu (key %zu), but %llu for %zu (key %zu)", b->v->name, shapes[ b->shape ], b->work, b->mn, b->chunk, b->kn, s->work, s->mn, s->kn );
	if( s->last > 0 && b->last > 0 && b->last > 2 * s->last + 5000 + 16 * b->chunk ) vh_fail( "update-grows", "%s %s: work of %llu for an update of %zu bytes after %zu bytes, %llu after %zu", b->v->name, shapes[ b->shape ], b->last, b->chunk, b->mn, s->last, s->mn );
}
int mode_cost( void )
{
	static const size_t chunks[] = { 1, 3, 63, 64, 65, 129, 1000, 4096, 65536 };
	vrng r; int a, shape; size_t big = (size_t) argn( "big", 1 << 20 ), i, n; long more = argn( "n", 20 );
	room = big * 4 + 4096;
	stk = mmap( NULL, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 ); room_ = malloc( room );
	if( stk == MAP_FAILED || room_ == NULL ) return 1;
	rng_seed( &r, vh_seed, 0xc057 ); rng_fill( &r, room_, room );
	for( a = 0; a < NALG; a++ )
	{
		if( !algsel( a ) ) continue;
		for( shape = 0; shape < 5; shape++ )
			for( i = 0; i < ( shape == 2 || shape == 3 ? sizeof chunks / sizeof *chunks + (size_t) more : 1 + (size_t) more ); i++ )
			{
				job s, b; size_t chunk = i < sizeof chunks / sizeof *chunks ? chunks[ i ] : 1 + rng_log( &r, 100000 ), top = big, odd = i == 0 ? 0 : rngn( &r, 300 ), kn = shape == 1 ? rngn( &r, 400 ) : 0;
				/* the first run also pays for what the provider does once */
				memset( &s, 0, sizeof s ); s.v = &A[ a ]; s.shape = shape; s.chunk = chunk; s.off = i == 0 ? 0 : rngn( &r, 17 ); s.kn = kn; s.mn = 1; if( shape == 4 ) s.kn = 1; measure( &s );
				if( chunk < 60 ) top = big / 8;
				if( i > 0 && rngn( &r, 3 ) ) top = big >> rngn( &r, 6 );
				s.mn = top / 16 + odd;
				if( shape == 4 ) { s.kn = s.mn; s.mn = 100; }
				measure( &s );
				for( n = top / 4; n <= top * ( i == 0 ? 4 : 1 ); n *= 4 )
				{
					b = s; b.mn = n + odd; if( shape == 4 ) { b.kn = b.mn; b.mn = 100; }
					measure( &b ); judge( &s, &b );
					vh_distinct( vh_hash( &b.mn, sizeof b.mn, vh_hash( &chunk, sizeof chunk, (uint64_t) ( a * 8 + shape ) * 1000003 + b.kn ) ) );
					s = b;
				}
			}
	}
	vh_stat( "comparisons of memory and work", compared );
	vh_sample( "heap at most %lld bytes, stack at most %lld, work for N times the data at most N*%lld.%02lld times", worst_heap, worst_stack, worst_ratio / 100, worst_ratio % 100 );
	return 0;
}
