#include <string.h>
#include <math.h>
#include "ref_hash.h"
#if defined( __clang__ )
#define NOSAN __attribute__ ((no_sanitize( "address", "undefined", "thread" )))
#else
#define NOSAN __attribute__ ((no_sanitize( "address" ), no_sanitize( "undefined" ), no_sanitize( "thread" )))
#endif
#pragma GCC optimize ("O3")

static const uint32_t K256[ 64 ] = {
0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2 };
static const uint64_t K512[ 80 ] = {
0x428a2f98d728ae22ULL,0x7137449123ef65cdULL,0xb5c0fbcfec4d3b2fULL,0xe9b5dba58189dbbcULL,0x3956c25bf348b538ULL,0x59f111f1b605d019ULL,0x923f82a4af194f9bULL,0xab1c5ed5da6d8118ULL,0xd807aa98a3030242ULL,0x12835b0145706fbeULL,0x243185be4ee4b28cULL,0x550c7dc3d5ffb4e2ULL,0x72be5d74f27b896fULL,0x80deb1fe3b1696b1ULL,0x9bdc06a725c71235ULL,0xc19bf174cf692694ULL,0xe49b69c19ef14ad2ULL,0xefbe4786384f25e3ULL,0x0fc19dc68b8cd5b5ULL,0x240ca1cc77ac9c65ULL,0x2de92c6f592b0275ULL,0x4a7484aa6ea6e483ULL,0x5cb0a9dcbd41fbd4ULL,0x76f988da831153b5ULL,0x983e5152ee66dfabULL,0xa831c66d2db43210ULL,0xb00327c898fb213fULL,0xbf597fc7beef0ee4ULL,0xc6e00bf33da88fc2ULL,0xd5a79147930aa725ULL,0x06ca6351e003826fULL,0x142929670a0e6e70ULL,0x27b70a8546d22ffcULL,0x2e1b21385c26c926ULL,0x4d2c6dfc5ac42aedULL,0x53380d139d95b3dfULL,0x650a73548baf63deULL,0x766a0abb3c77b2a8ULL,0x81c2c92e47edaee6ULL,0x92722c851482353bULL,0xa2bfe8a14cf10364ULL,0xa81a664bbc423001ULL,0xc24b8b70d0f89791ULL,0xc76c51a30654be30ULL,0xd192e819d6ef5218ULL,0xd69906245565a910ULL,0xf40e35855771202aULL,0x106aa07032bbd1b8ULL,0x19a4c116b8d2d0c8ULL,0x1e376c085141ab53ULL,0x2748774cdf8eeb99ULL,0x34b0bcb5e19b48a8ULL,0x391c0cb3c5c95a63ULL,0x4ed8aa4ae3418acbULL,0x5b9cca4f7763e373ULL,0x682e6ff3d6b2b8a3ULL,0x748f82ee5defb2fcULL,0x78a5636f43172f60ULL,0x84c87814a1f0ab72ULL,0x8cc702081a6439ecULL,0x90befffa23631e28ULL,0xa4506cebde82bde9ULL,0xbef9a3f7b2c67915ULL,0xc67178f2e372532bULL,0xca273eceea26619cULL,0xd186b8c721c0c207ULL,0xeada7dd6cde0eb1eULL,0xf57d4f7fee6ed178ULL,0x06f067aa72176fbaULL,0x0a637dc5a2c898a6ULL,0x113f9804bef90daeULL,0x1b710b35131c471bULL,0x28db77f523047d84ULL,0x32caab7b40c72493ULL,0x3c9ebe0a15c9bebcULL,0x431d67c49c100d4cULL,0x4cc5d4becb3e42b6ULL,0x597f299cfc657e2aULL,0x5fcb6fab3ad6faecULL,0x6c44198c4a475817ULL };
static const uint32_t KMD5[ 64 ] = {
0xd76aa478,0xe8c7b756,0x242070db,0xc1bdceee,0xf57c0faf,0x4787c62a,0xa8304613,0xfd469501,0x698098d8,0x8b44f7af,0xffff5bb1,0x895cd7be,0x6b901122,0xfd987193,0xa679438e,0x49b40821,0xf61e2562,0xc040b340,0x265e5a51,0xe9b6c7aa,0xd62f105d,0x02441453,0xd8a1e681,0xe7d3fbc8,0x21e1cde6,0xc33707d6,0xf4d50d87,0x455a14ed,0xa9e3e905,0xfcefa3f8,0x676f02d9,0x8d2a4c8a,0xfffa3942,0x8771f681,0x6d9d6122,0xfde5380c,0xa4beea44,0x4bdecfa9,0xf6bb4b60,0xbebfbc70,0x289b7ec6,0xeaa127fa,0xd4ef3085,0x04881d05,0xd9d4d039,0xe6db99e5,0x1fa27cf8,0xc4ac5665,0xf4292244,0x432aff97,0xab9423a7,0xfc93a039,0x655b59c3,0x8f0ccc92,0xffeff47d,0x85845dd1,0x6fa87e4f,0xfe2ce6e0,0xa3014314,0x4e0811a1,0xf7537e82,0xbd3af235,0x2ad7d2bb,0xeb86d391 };
static const unsigned char SMD5[ 16 ] = { 7,12,17,22, 5,9,14,20, 4,11,16,23, 6,10,15,21 };

size_t ref_size( int a ) { static const size_t t[] = { 16, 20, 28, 32, 64 }; return t[ a ]; }
size_t ref_block( int a ) { return a == REF_SHA512 ? 128 : 64; }

#define ROL( x, n ) ( ( (x) << (n) ) | ( (x) >> ( 32 - (n) ) ) )
#define ROR( x, n ) ( ( (x) >> (n) ) | ( (x) << ( 32 - (n) ) ) )
#define ROR64( x, n ) ( ( (x) >> (n) ) | ( (x) << ( 64 - (n) ) ) )

NOSAN static uint32_t be32( const unsigned char *p ) { return ( (uint32_t) p[ 0 ] << 24 ) | ( (uint32_t) p[ 1 ] << 16 ) | ( (uint32_t) p[ 2 ] << 8 ) | p[ 3 ]; }
NOSAN static uint32_t le32( const unsigned char *p ) { return ( (uint32_t) p[ 3 ] << 24 ) | ( (uint32_t) p[ 2 ] << 16 ) | ( (uint32_t) p[ 1 ] << 8 ) | p[ 0 ]; }

NOSAN static void blk( ref_ctx *c, const unsigned char *p )
{
	int i;
	if( c->alg == REF_MD5 )
	{
		uint32_t a = c->s[ 0 ], b = c->s[ 1 ], cc = c->s[ 2 ], d = c->s[ 3 ], f, w[ 16 ]; int g;
		for( i = 0; i < 16; i++ ) w[ i ] = le32( p + 4 * i );
		for( i = 0; i < 64; i++ )
		{
			if( i < 16 ) { f = ( b & cc ) | ( ~b & d ); g = i; }
			else if( i < 32 ) { f = ( d & b ) | ( ~d & cc ); g = ( 5 * i + 1 ) & 15; }
			else if( i < 48 ) { f = b ^ cc ^ d; g = ( 3 * i + 5 ) & 15; }
			else { f = cc ^ ( b | ~d ); g = ( 7 * i ) & 15; }
			f += a + KMD5[ i ] + w[ g ];
			a = d; d = cc; cc = b;
			b += ROL( f, SMD5[ ( i >> 4 ) * 4 + ( i & 3 ) ] );
		}
		c->s[ 0 ] += a; c->s[ 1 ] += b; c->s[ 2 ] += cc; c->s[ 3 ] += d;
	}
	else if( c->alg == REF_SHA1 )
	{
		uint32_t w[ 80 ], a = c->s[ 0 ], b = c->s[ 1 ], cc = c->s[ 2 ], d = c->s[ 3 ], e = c->s[ 4 ], f, k, t;
		for( i = 0; i < 16; i++ ) w[ i ] = be32( p + 4 * i );
		for( ; i < 80; i++ ) { t = w[ i - 3 ] ^ w[ i - 8 ] ^ w[ i - 14 ] ^ w[ i - 16 ]; w[ i ] = ROL( t, 1 ); }
		for( i = 0; i < 80; i++ )
		{
			if( i < 20 ) { f = ( b & cc ) | ( ~b & d ); k = 0x5a827999; }
			else if( i < 40 ) { f = b ^ cc ^ d; k = 0x6ed9eba1; }
			else if( i < 60 ) { f = ( b & cc ) | ( b & d ) | ( cc & d ); k = 0x8f1bbcdc; }
			else { f = b ^ cc ^ d; k = 0xca62c1d6; }
			t = ROL( a, 5 ) + f + e + k + w[ i ];
			e = d; d = cc; cc = ROL( b, 30 ); b = a; a = t;
		}
		c->s[ 0 ] += a; c->s[ 1 ] += b; c->s[ 2 ] += cc; c->s[ 3 ] += d; c->s[ 4 ] += e;
	}
	else if( c->alg == REF_SHA512 )
	{
		uint64_t w[ 80 ], v[ 8 ], t1, t2;
		for( i = 0; i < 16; i++ ) w[ i ] = ( (uint64_t) be32( p + 8 * i ) << 32 ) | be32( p + 8 * i + 4 );
		for( ; i < 80; i++ )
		{
			uint64_t x = w[ i - 15 ], y = w[ i - 2 ];
			w[ i ] = w[ i - 16 ] + ( ROR64( x, 1 ) ^ ROR64( x, 8 ) ^ ( x >> 7 ) ) + w[ i - 7 ] + ( ROR64( y, 19 ) ^ ROR64( y, 61 ) ^ ( y >> 6 ) );
		}
		memcpy( v, c->q, sizeof v );
		for( i = 0; i < 80; i++ )
		{
			t1 = v[ 7 ] + ( ROR64( v[ 4 ], 14 ) ^ ROR64( v[ 4 ], 18 ) ^ ROR64( v[ 4 ], 41 ) ) + ( ( v[ 4 ] & v[ 5 ] ) ^ ( ~v[ 4 ] & v[ 6 ] ) ) + K512[ i ] + w[ i ];
			t2 = ( ROR64( v[ 0 ], 28 ) ^ ROR64( v[ 0 ], 34 ) ^ ROR64( v[ 0 ], 39 ) ) + ( ( v[ 0 ] & v[ 1 ] ) ^ ( v[ 0 ] & v[ 2 ] ) ^ ( v[ 1 ] & v[ 2 ] ) );
			v[ 7 ] = v[ 6 ]; v[ 6 ] = v[ 5 ]; v[ 5 ] = v[ 4 ]; v[ 4 ] = v[ 3 ] + t1; v[ 3 ] = v[ 2 ]; v[ 2 ] = v[ 1 ]; v[ 1 ] = v[ 0 ]; v[ 0 ] = t1 + t2;
		}
		for( i = 0; i < 8; i++ ) c->q[ i ] += v[ i ];
	}
	else
	{
		uint32_t w[ 64 ], v[ 8 ], t1, t2;
		for( i = 0; i < 16; i++ ) w[ i ] = be32( p + 4 * i );
		for( ; i < 64; i++ )
		{
			uint32_t x = w[ i - 15 ], y = w[ i - 2 ];
			w[ i ] = w[ i - 16 ] + ( ROR( x, 7 ) ^ ROR( x, 18 ) ^ ( x >> 3 ) ) + w[ i - 7 ] + ( ROR( y, 17 ) ^ ROR( y, 19 ) ^ ( y >> 10 ) );
		}
		memcpy( v, c->s, sizeof v );
		for( i = 0; i < 64; i++ )
		{
			t1 = v[ 7 ] + ( ROR( v[ 4 ], 6 ) ^ ROR( v[ 4 ], 11 ) ^ ROR( v[ 4 ], 25 ) ) + ( ( v[ 4 ] & v[ 5 ] ) ^ ( ~v[ 4 ] & v[ 6 ] ) ) + K256[ i ] + w[ i ];
			t2 = ( ROR( v[ 0 ], 2 ) ^ ROR( v[ 0 ], 13 ) ^ ROR( v[ 0 ], 22 ) ) + ( ( v[ 0 ] & v[ 1 ] ) ^ ( v[ 0 ] & v[ 2 ] ) ^ ( v[ 1 ] & v[ 2 ] ) );
			v[ 7 ] = v[ 6 ]; v[ 6 ] = v[ 5 ]; v[ 5 ] = v[ 4 ]; v[ 4 ] = v[ 3 ] + t1; v[ 3 ] = v[ 2 ]; v[ 2 ] = v[ 1 ]; v[ 1 ] = v[ 0 ]; v[ 0 ] = t1 + t2;
		}
		for( i = 0; i < 8; i++ ) c->s[ i ] += v[ i ];
	}
}

void ref_init( ref_ctx *c, int alg )
{
	static const uint32_t I224[ 8 ] = { 0xc1059ed8,0x367cd507,0x3070dd17,0xf70e5939,0xffc00b31,0x68581511,0x64f98fa7,0xbefa4fa4 };
	static const uint32_t I256[ 8 ] = { 0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19 };
	static const uint32_t I1[ 5 ] = { 0x67452301,0xefcdab89,0x98badcfe,0x10325476,0xc3d2e1f0 };
	static const uint64_t I512[ 8 ] = { 0x6a09e667f3bcc908ULL,0xbb67ae8584caa73bULL,0x3c6ef372fe94f82bULL,0xa54ff53a5f1d36f1ULL,0x510e527fade682d1ULL,0x9b05688c2b3e6c1fULL,0x1f83d9abfb41bd6bULL,0x5be0cd19137e2179ULL };
	memset( c, 0, sizeof *c );
	c->alg = alg;
	if( alg == REF_SHA512 ) memcpy( c->q, I512, sizeof I512 );
	else if( alg == REF_SHA224 ) memcpy( c->s, I224, sizeof I224 );
	else if( alg == REF_SHA256 ) memcpy( c->s, I256, sizeof I256 );
	else memcpy( c->s, I1, sizeof I1 );
}

NOSAN void ref_update( ref_ctx *c, const void *d, size_t n )
{
	const unsigned char *p = (const unsigned char *) d; size_t b = ref_block( c->alg );
	c->total += n;
	while( n > 0 )
	{
		if( c->fill == 0 && n >= b ) { blk( c, p ); p += b; n -= b; continue; }
		c->buf[ c->fill++ ] = *p++; n--;
		if( c->fill == b ) { blk( c, c->buf ); c->fill = 0; }
	}
}

void ref_final( const ref_ctx *src, unsigned char *out )
{
	ref_ctx c = *src; unsigned char pad[ 256 ]; size_t b = ref_block( c.alg ), l = b / 8, n, i;
	unsigned __int128 bits = c.total * 8;
	memset( pad, 0, sizeof pad );
	pad[ 0 ] = 0x80;
	n = 1;
	while( ( c.fill + n + l ) % b != 0 ) n++;
	for( i = 0; i < l; i++ ) pad[ n + i ] = (unsigned char) ( c.alg == REF_MD5 ? bits >> ( 8 * i ) : bits >> ( 8 * ( l - 1 - i ) ) );
	ref_update( &c, pad, n + l );
	for( i = 0; i < ref_size( c.alg ); i++ )
	{
		if( c.alg == REF_MD5 ) out[ i ] = (unsigned char) ( c.s[ i / 4 ] >> ( 8 * ( i % 4 ) ) );
		else if( c.alg == REF_SHA512 ) out[ i ] = (unsigned char) ( c.q[ i / 8 ] >> ( 8 * ( 7 - i % 8 ) ) );
		else out[ i ] = (unsigned char) ( c.s[ i / 4 ] >> ( 8 * ( 3 - i % 4 ) ) );
	}
}

void ref_digest( int alg, const void *d, size_t n, unsigned char *out ) { ref_ctx c; ref_init( &c, alg ); ref_update( &c, d, n ); ref_final( &c, out ); }

void ref_hmac( int alg, const void *k, size_t kn, const void *d, size_t n, unsigned char *out )
{
	unsigned char key[ 128 ], pad[ 128 ], in[ 64 ]; size_t b = ref_block( alg ), i; ref_ctx c;
	memset( key, 0, sizeof key );
	if( kn > b ) ref_digest( alg, k, kn, key ); else if( kn > 0 ) memcpy( key, k, kn );
	for( i = 0; i < b; i++ ) pad[ i ] = key[ i ] ^ 0x36;
	ref_init( &c, alg ); ref_update( &c, pad, b ); ref_update( &c, d, n ); ref_final( &c, in );
	for( i = 0; i < b; i++ ) pad[ i ] = key[ i ] ^ 0x5c;
	ref_init( &c, alg ); ref_update( &c, pad, b ); ref_update( &c, in, ref_size( alg ) ); ref_final( &c, out );
}
