/* Observation and fault injection at the allocation and crypto-provider
 * boundary of the code under test. */
#ifndef VH_TRACK_H
#define VH_TRACK_H
#include <stddef.h>
#include "vh_alloc.h"
#ifdef __cplusplus
extern "C" {
#endif
void vh_track_on( void );              /* this thread now runs code under test */
void vh_track_off( void );
void vh_track_always( int on );        /* all threads do */
int  vh_tracking( void );
void vh_fault_arm( long alloc_at, long crypto_at, int persistent ); /* 1-based; 0 = off */
void vh_fault_disarm( void );
long vh_alloc_count( void );           /* tracked allocations since arm */
long vh_crypto_count( void );          /* provider calls since arm */
long vh_faults_fired( void );
long vh_live_blocks( void );           /* tracked blocks not released */
size_t vh_live_bytes( void );
size_t vh_peak_bytes( void );          /* most at once since the reset */
void vh_peak_reset( void );
unsigned long long vh_provider_bytes( void );   /* given to the provider's update functions */
long vh_live_evp( void );              /* EVP_MD_CTX_new minus EVP_MD_CTX_free */
long vh_total_allocs( void );          /* over the process */
long vh_total_frees( void );
extern void (*vh_free_hook)( void *p, size_t n );   /* called before a tracked block is released */
extern int vh_junk_fill;
extern void (*vh_final_hook)( void *md, size_t n ), (*vh_size_hook)( void *p, size_t n );   /* after a provider wrote a digest, or its size */
size_t vh_block_size( const void *p ); /* size of a live tracked block, 0 if unknown */
void vh_live_foreach( void (*cb)( void *p, size_t n, void *arg ), void *arg );
#ifdef __cplusplus
}
#endif
#endif
