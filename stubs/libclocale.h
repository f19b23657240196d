#if !defined( VH_STUB_LIBCLOCALE_H )
#define VH_STUB_LIBCLOCALE_H
#include <libcerror.h>
#define LIBCLOCALE_VERSION_STRING "00000000"
extern int libclocale_codepage;
int libclocale_initialize( const char *domain_name, libcerror_error_t **error );
int libclocale_locale_get_decimal_point( int *decimal_point, libcerror_error_t **error );
int libclocale_locale_get_codepage( int *codepage, libcerror_error_t **error );
#endif
