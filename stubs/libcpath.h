#if !defined( VH_STUB_LIBCPATH_H )
#define VH_STUB_LIBCPATH_H
#define LIBCPATH_VERSION_STRING "00000000"
#endif
