/* Shared parts of the library drivers. */
#ifndef VH_COMMON_H
#define VH_COMMON_H
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <libcerror.h>
#include <libhmac.h>
#include "ref_hash.h"
#include "vh_track.h"

/* ---- the library's public interface, one row per algorithm ---- */
typedef intptr_t vctx;
typedef libhmac_error_t verr;
typedef struct {
	const char *name;
	int ref;
	size_t hs, bs;
	int (*init)( vctx **, verr ** );
	int (*freec)( vctx **, verr ** );
	int (*update)( vctx *, const uint8_t *, size_t, verr ** );
	int (*final)( vctx *, uint8_t *, size_t, verr ** );
	int (*linit)( vctx **, verr ** );
	int (*lfree)( vctx **, verr ** );
	int (*lupdate)( vctx *, const uint8_t *, size_t, verr ** );
	int (*lfinal)( vctx *, uint8_t *, size_t, verr ** );
	int (*calc)( const uint8_t *, size_t, uint8_t *, size_t, verr ** );
	int (*hmac)( const uint8_t *, size_t, const uint8_t *, size_t, uint8_t *, size_t, verr ** );
} valg;
extern const valg A[ 5 ];
#define NALG 5

/* ---- deterministic randomness ---- */
typedef struct { uint64_t s[ 2 ]; } vrng;
void rng_seed( vrng *r, uint64_t seed, uint64_t stream );
uint64_t rng( vrng *r );
uint64_t rngn( vrng *r, uint64_t n );          /* 0 .. n-1 */
size_t rng_log( vrng *r, size_t max );         /* log-uniform 0 .. max */
void rng_fill( vrng *r, void *p, size_t n );
void rng_natural( vrng *r, void *p, size_t n );
int natural_mark( unsigned k, void *p, size_t n );
#if defined( VH_GUIDE )
extern const uint8_t *vh_fz; extern size_t vh_fzn;   /* what is left of a fuzzer's input: choices come from there first */
int guide_digest( const char *kind, const uint8_t *d, size_t n );
int guide_history( const char *kind, const uint8_t *d, size_t n );
int guide_sum( const char *kind, const uint8_t *d, size_t n );
#endif
size_t special_size( size_t k, size_t bs );
size_t rng_extra( vrng *r );                   /* what a result buffer has beyond the digest */
size_t rng_size( vrng *r, size_t bs, size_t max );   /* sizes around boundaries, mixed */

/* ---- reporting ---- */
void vh_case( const char *fmt, ... ) __attribute__ ((format (printf, 1, 2)));  /* what is about to run */
void vh_fail( const char *key, const char *fmt, ... ) __attribute__ ((format (printf, 2, 3)));
void vh_sample( const char *fmt, ... ) __attribute__ ((format (printf, 1, 2)));
void vh_stat( const char *name, long long v );        /* added up */
void vh_distinct( uint64_t h );                       /* one distinct non-trivial case */
extern long long vh_evals;
void vh_eval( void );                                 /* one evaluation (also feeds the watchdog) */
uint64_t vh_hash( const void *p, size_t n, uint64_t h );
const char *vh_hex( const void *p, size_t n );
int vh_end( void );

/* ---- buffers with guard pages ---- */
enum { PLACE_END, PLACE_START, PLACE_HEAP, NPLACE };
typedef struct { unsigned char *p; size_t n; int mode; void *base; unsigned char *w; } vbuf;
/* Slot: independent arenas 0..VH_ARENAS-1; only n bytes are accessible where
 * the mode and the sanitizer allow */
#define VH_ARENAS 6
unsigned char *vb_place( int slot, int mode, const void *data, size_t n, vbuf *b );
/* the same for data that is only to be read: at p it cannot be written, at w it can */
unsigned char *vb_input( int slot, int mode, const void *data, size_t n, vbuf *b );
void vb_release( vbuf *b );
int vb_same( const vbuf *b, const void *data );

/* output buffers with canaries: the library is told size n at the returned
 * address; vo_check says whether it wrote only the first w bytes */
typedef struct { unsigned char before[ 48 ], img[ 512 ]; vbuf b; size_t n; int mode; } vout;
unsigned char *vo_get( vout *o, int slot, int mode, size_t n, vrng *r );
const char *vo_check( vout *o, size_t w );   /* NULL when fine; releases */

extern int vh_quick; extern uint64_t vh_seed;
const char *arg( const char *name, const char *dflt );   /* name=value arguments */
long argn( const char *name, long dflt );
int algsel( int a );                         /* alg=... filter */

/* modes */
int mode_oneshot( void ); int mode_stream( void ); int mode_hmac( void );
int mode_crowd( void ); int mode_large( void ); int mode_seq( void ); int mode_invalid( void ); int mode_fault( void );
int mode_threads( void ); int mode_secret( void ); int mode_legacy( void ); int mode_ident( void ); int mode_error( void );
int mode_taint( void ); int mode_cost( void ); int mode_leak( void ); int mode_faultseq( void );
int mode_sum( void ); int mode_sizes( void ); int mode_hexstr( void ); int mode_getopt( void ); int mode_parts( void );
#endif
