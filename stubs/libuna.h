#if !defined( VH_STUB_LIBUNA_H )
#define VH_STUB_LIBUNA_H
#define LIBUNA_VERSION_STRING "00000000"
#endif
