/* Without --wrap: no observation, no faults. */
#include <stdlib.h>
#include "vh_track.h"
void *vh_raw_malloc( size_t n ) { return malloc( n ); }
void *vh_raw_calloc( size_t n, size_t m ) { return calloc( n, m ); }
void *vh_raw_realloc( void *p, size_t n ) { return realloc( p, n ); }
void vh_raw_free( void *p ) { free( p ); }
void (*vh_free_hook)( void *p, size_t n ) = NULL;
int vh_junk_fill = 0;
void vh_track_on( void ) { }
void vh_track_off( void ) { }
int vh_tracking( void ) { return 0; }
void vh_fault_arm( long a, long c, int p ) { (void) a; (void) c; (void) p; }
void vh_fault_disarm( void ) { }
long vh_alloc_count( void ) { return 0; }
long vh_crypto_count( void ) { return 0; }
long vh_faults_fired( void ) { return 0; }
long vh_live_blocks( void ) { return 0; }
size_t vh_live_bytes( void ) { return 0; }
long vh_live_evp( void ) { return 0; }
long vh_total_allocs( void ) { return 0; }
long vh_total_frees( void ) { return 0; }
size_t vh_block_size( const void *p ) { (void) p; return 0; }
void vh_live_foreach( void (*cb)( void *, size_t, void * ), void *arg ) { (void) cb; (void) arg; }
