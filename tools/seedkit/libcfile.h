#if !defined( VH_STUB_LIBCFILE_H )
#define VH_STUB_LIBCFILE_H
#include <stddef.h>
#include <stdint.h>
#include <sys/types.h>
#include <libcerror.h>
#define LIBCFILE_VERSION_STRING "00000000"
enum LIBCFILE_ACCESS_FLAGS { LIBCFILE_ACCESS_FLAG_READ = 0x01, LIBCFILE_ACCESS_FLAG_WRITE = 0x02, LIBCFILE_ACCESS_FLAG_TRUNCATE = 0x04 };
#define LIBCFILE_OPEN_READ ( LIBCFILE_ACCESS_FLAG_READ )
#define LIBCFILE_OPEN_WRITE ( LIBCFILE_ACCESS_FLAG_WRITE )
#define LIBCFILE_OPEN_READ_WRITE ( LIBCFILE_ACCESS_FLAG_READ | LIBCFILE_ACCESS_FLAG_WRITE )
typedef intptr_t libcfile_file_t;
int libcfile_file_initialize( libcfile_file_t **file, libcerror_error_t **error );
int libcfile_file_free( libcfile_file_t **file, libcerror_error_t **error );
int libcfile_file_open( libcfile_file_t *file, const char *filename, int access_flags, libcerror_error_t **error );
int libcfile_file_close( libcfile_file_t *file, libcerror_error_t **error );
ssize_t libcfile_file_read_buffer( libcfile_file_t *file, uint8_t *buffer, size_t size, libcerror_error_t **error );
int64_t libcfile_file_seek_offset( libcfile_file_t *file, int64_t offset, int whence, libcerror_error_t **error );
int libcfile_file_is_open( libcfile_file_t *file, libcerror_error_t **error );
int libcfile_file_get_offset( libcfile_file_t *file, int64_t *offset, libcerror_error_t **error );
int libcfile_file_get_size( libcfile_file_t *file, uint64_t *size, libcerror_error_t **error );
#endif
