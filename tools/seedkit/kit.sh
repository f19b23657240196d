# Sourced by a demo.sh that runs in the repository: a scratch directory $W and
# functions that compile the repository's sources there with small stand-ins
# for the libyal libraries that are not available.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
VER=$(sed -n "s/^  \[\([0-9]\{8\}\)\],/\1/p" "$R/configure.ac" | head -1)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
BASE="DLFCN_H ERRNO_H FCNTL_H FGETS FOPEN FREE GETOPT INTTYPES_H LIBINTL_H LIMITS_H LOCALE_H MALLOC MEMCHR MEMCMP MEMCPY MEMMOVE MEMORY_H MEMSET OPEN READ REALLOC SETLOCALE SETVBUF SIGNAL_H SNPRINTF SSCANF STAT STDARG_H STDINT_H STDIO_H STDLIB_H STRCASECMP STRCHR STRLEN STRNCASECMP STRNCMP STRNCPY STRRCHR STRSTR STRINGS_H STRING_H SYS_SIGNAL_H SYS_STAT_H SYS_TYPES_H UNISTD_H UNLINK VFPRINTF VSNPRINTF WCHAR_H WCTYPE_H WRITE"
EVPS="LIBCRYPTO OPENSSL_EVP_H EVP_MD5 EVP_SHA1 EVP_SHA224 EVP_SHA256 EVP_SHA512"
# kit_config fb|fbr|ossl|evp|evpex [nogetopt]
kit_config() {
	local m=""
	case $1 in
		ossl) m="LIBCRYPTO OPENSSL_MD5_H OPENSSL_SHA_H";;
		evp) m="$EVPS EVP_DIGESTINIT_EX2";;
		evpex) m="$EVPS";;
	esac
	mkdir -p "$W/common" "$W/include/libhmac" "$W/libhmac"
	for x in $BASE $m; do
		[ "$x:$2" = GETOPT:nogetopt ] || echo "#define HAVE_$x 1"
	done > "$W/common/config.h"
	cat >> "$W/common/config.h" <<-X
		#define PACKAGE "libhmac"
		#define PACKAGE_NAME "libhmac"
		#define PACKAGE_BUGREPORT "nobody"
		#define PACKAGE_VERSION "$VER"
		#define VERSION "$VER"
		#define SIZEOF_INT 4
		#define SIZEOF_LONG 8
		#define SIZEOF_OFF_T 8
		#define SIZEOF_SIZE_T 8
		#define SIZEOF_WCHAR_T 4
		#define STDC_HEADERS 1
	X
	for f in common/types.h include/libhmac.h include/libhmac/definitions.h include/libhmac/features.h include/libhmac/types.h libhmac/libhmac_definitions.h; do
		sed -e "s/@VERSION@/$VER/g" -e 's/@PACKAGE@/libhmac/g' -e 's/@HAVE_\(SYS_TYPES_H\|INTTYPES_H\|STDINT_H\|WCHAR_H\)@/1/g' -e 's/@[A-Z0-9_]*@/0/g' "$R/$f.in" > "$W/$f"
	done
	if [ "$1" = fbr ]; then
		sed -i '/define *LIBHMAC_UNFOLLED_LOOPS/d' "$W/libhmac/libhmac_definitions.h"
	fi
	FLAGS="-w -g -std=gnu11 -DHAVE_CONFIG_H -I$W/common -I$W/include -I$W/libhmac -I$R/common -I$R/include -I$R/libhmac -I$D -I$W"
	LIBS=""
	case $1 in ossl|evp|evpex) LIBS=-lcrypto;; esac
	LIBS="$LIBS -lpthread"
}
# kit_lib OUT FLAGS...: links $D/demo.c with the library
kit_lib() {
	local out=$1; shift
	gcc $FLAGS "$@" -o "$W/$out" "$D/demo.c" "$R"/libhmac/*.c "$D/libcerror.c" "$D/vh_alloc_plain.c" $LIBS || { echo "does not compile"; exit 99; }
}
# kit_tool OUT FLAGS...: links hmacsum
kit_tool() {
	local out=$1; shift
	gcc $FLAGS "$@" -I"$R/hmactools" -o "$W/$out" "$R"/hmactools/*.c "$R"/libhmac/*.c "$D/hmactools_stubs.c" "$D/libcerror.c" "$D/vh_alloc_plain.c" $LIBS || { echo "does not compile"; exit 99; }
}
# kit_py FLAGS...: builds pyhmac in $W/py
kit_py() {
	mkdir -p "$W/py"
	gcc $FLAGS "$@" -fPIC -shared -I"$R/pyhmac" -I/usr/include/python3.12 -o "$W/py/pyhmac.so" "$R"/pyhmac/*.c "$R"/libhmac/*.c "$D/libcerror.c" "$D/vh_alloc_plain.c" $LIBS || { echo "does not compile"; exit 99; }
}
