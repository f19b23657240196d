#if !defined( VH_STUB_LIBCNOTIFY_H )
#define VH_STUB_LIBCNOTIFY_H
#include <stdio.h>
#include <stdint.h>
#include <libcerror.h>
#define LIBCNOTIFY_VERSION_STRING "00000000"
extern int libcnotify_verbose;
int libcnotify_printf( const char *format, ... ) __attribute__ ((format (printf, 1, 2)));
int libcnotify_print_data( const uint8_t *data, size_t data_size, uint8_t print_data_flags );
int libcnotify_print_error_backtrace( libcerror_error_t *error );
int libcnotify_stream_set( FILE *stream, libcerror_error_t **error );
int libcnotify_stream_open( const char *filename, libcerror_error_t **error );
int libcnotify_stream_close( libcerror_error_t **error );
void libcnotify_verbose_set( int verbose );
#endif
