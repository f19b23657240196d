#if !defined( VH_STUB_LIBCSPLIT_H )
#define VH_STUB_LIBCSPLIT_H
#include <stddef.h>
#include <stdint.h>
#include <libcerror.h>
#define LIBCSPLIT_VERSION_STRING "00000000"
typedef intptr_t libcsplit_narrow_split_string_t;
int libcsplit_narrow_split_string_free( libcsplit_narrow_split_string_t **s, libcerror_error_t **error );
int libcsplit_narrow_split_string_get_string( libcsplit_narrow_split_string_t *s, char **string, size_t *string_size, libcerror_error_t **error );
int libcsplit_narrow_split_string_get_number_of_segments( libcsplit_narrow_split_string_t *s, int *n, libcerror_error_t **error );
int libcsplit_narrow_split_string_get_segment_by_index( libcsplit_narrow_split_string_t *s, int i, char **segment, size_t *segment_size, libcerror_error_t **error );
int libcsplit_narrow_string_split( const char *string, size_t string_size, char delimiter, libcsplit_narrow_split_string_t **s, libcerror_error_t **error );
#endif
