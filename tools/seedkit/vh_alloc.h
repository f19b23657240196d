/* Allocation layer of the verification machinery: raw (never observed, never
 * failed) allocation for the machinery itself, tracking and failing for the
 * code under test (link with -Wl,--wrap=malloc,... and vh_alloc.c), or plain
 * pass-through (link with vh_alloc_plain.c). */
#ifndef VH_ALLOC_H
#define VH_ALLOC_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
void *vh_raw_malloc( size_t n );
void *vh_raw_calloc( size_t n, size_t m );
void *vh_raw_realloc( void *p, size_t n );
void vh_raw_free( void *p );
#ifdef __cplusplus
}
#endif
#endif
