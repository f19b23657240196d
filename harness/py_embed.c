/* The interpreter ends and starts again in one process, with further
 * interpreters beside the first one; contexts live in all of them. Two things
 * are left out, as CPython 3.12 itself crashes with any module that is
 * initialised in a single phase: a further interpreter as the first one to load
 * it, and a second import in an interpreter that is ended and started again. */
#define _GNU_SOURCE
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "ref_hash.h"

/* The values to compare with come from the reference: the interpreter's own
 * hashlib does not survive a restart of the interpreter. */
static PyObject *o_digest( PyObject *self, PyObject *args )
{
	int a; const char *d; Py_ssize_t n; unsigned char o[ 64 ]; (void) self;
	if( !PyArg_ParseTuple( args, "iy#", &a, &d, &n ) ) return NULL;
	ref_digest( a, d, (size_t) n, o );
	return PyBytes_FromStringAndSize( (char *) o, (Py_ssize_t) ref_size( a ) );
}
static PyObject *o_hmac( PyObject *self, PyObject *args )
{
	int a; const char *d, *k; Py_ssize_t n, kn; unsigned char o[ 64 ]; (void) self;
	if( !PyArg_ParseTuple( args, "iy#y#", &a, &k, &kn, &d, &n ) ) return NULL;
	ref_hmac( a, k, (size_t) kn, d, (size_t) n, o );
	return PyBytes_FromStringAndSize( (char *) o, (Py_ssize_t) ref_size( a ) );
}
static PyMethodDef ometh[] = { { "digest", o_digest, METH_VARARGS, NULL }, { "hmac", o_hmac, METH_VARARGS, NULL }, { NULL, NULL, 0, NULL } };
static PyModuleDef_Slot oslot[] = { { 0, NULL } };
static PyModuleDef odef = { PyModuleDef_HEAD_INIT, "oracle", NULL, 0, ometh, oslot, NULL, NULL, NULL };
static PyObject *oinit( void ) { return PyModuleDef_Init( &odef ); }

static long evals, fails_, distinct_; static const char *so; static char *casep; static int casefd = -1;
static void fail( const char *k, const char *t, long c ) { fails_++; printf( "FAIL\t%s\t%s (cycle %ld)\n", k, t, c ); fflush( stdout ); }
static void at( const char *s, long c ) { char b[ 200 ]; int n = snprintf( b, sizeof b, "%s, cycle %ld", s, c ); if( casefd >= 0 && n > 0 ) (void) !pwrite( casefd, b, (size_t) n + 1, 0 ); }
static const char *PRE =
"import sys, gc, oracle\n"
"sys.path.insert(0, DIR)\n"
"import pyhmac\n"
"N = ['md5', 'sha1', 'sha224', 'sha256', 'sha512']\n"
"class R:\n"
"    x = CYCLE * 100003 + len(WHO) + ord(WHO[-1]) * 77\n"
"    def n(s, k): s.x = (s.x * 6364136223846793005 + 1442695040888963407) % (1 << 64); return (s.x >> 33) % k\n"
"    def bytes(s, n): return bytes(s.n(256) for i in range(n))\n"
"rng = R()\n"
"live = {}\n"
"def check(what, got, want):\n"
"    if got != want: raise AssertionError('%s: %r is not %r' % (what, got, want))\n"
"def begin():\n"
"    for i in range(12):\n"
"        a = rng.n(5); live[i] = [a, getattr(pyhmac, N[a] + '_context')(), b'']\n"
"def step():\n"
"    for l in live.values():\n"
"        d = rng.bytes([0, 1, 63, 64, 65, 200, 5000][rng.n(7)]); l[1].update(d); l[2] += d\n"
"    for a in range(5):\n"
"        d = rng.bytes(rng.n(300)); k = rng.bytes(rng.n(200))\n"
"        check(N[a], getattr(pyhmac, N[a] + '_calculate')(d), oracle.digest(a, d))\n"
"        check(N[a] + ' hmac', getattr(pyhmac, N[a] + '_calculate_hmac')(k, d), oracle.hmac(a, k, d))\n"
"    try: pyhmac.md5_calculate(WHO)\n"
"    except TypeError as e: pass\n"
"    else: raise AssertionError('text was taken for bytes')\n"
"def finish(part):\n"
"    for i in list(live):\n"
"        if i % 3 < part:\n"
"            a, c, d = live.pop(i); check(N[a] + ' context', c.finalize(), oracle.digest(a, d))\n"
"begin(); step()\n";
static int run( const char *code, const char *what, long c )
{
	PyObject *m = PyImport_AddModule( "__main__" ), *d = PyModule_GetDict( m ), *r;
	at( what, c );
	r = PyRun_String( code, Py_file_input, d, d );
	evals++;
	if( r == NULL )
	{
		PyObject *e = PyErr_GetRaisedException(), *s = e ? PyObject_Repr( e ) : NULL; char b[ 700 ];
		snprintf( b, sizeof b, "%s: %s", what, s ? PyUnicode_AsUTF8( s ) : "?" );
		for( char *p = b; *p; p++ ) if( *p == '\n' || *p == '\t' ) *p = ' ';
		fail( strstr( b, "AssertionError" ) ? "wrong-digest" : "load", b, c );
		Py_XDECREF( s ); Py_XDECREF( e ); return 0;
	}
	Py_DECREF( r ); return 1;
}
static int begin( const char *dir, long c, const char *who )
{
	char b[ 1000 ];
	snprintf( b, sizeof b, "DIR, CYCLE, WHO = '%s', %ld, '%s'\n", dir, c, who );
	return run( b, "names", c ) && run( PRE, "import and first use", c );
}
static long sym( const char *n )
{
	void *h = dlopen( so, RTLD_NOW | RTLD_NOLOAD ); long ( *f )( void ) = NULL; long v = 0;
	if( h != NULL ) { f = (long (*)( void )) dlsym( h, n ); if( f != NULL ) v = f(); dlclose( h ); }
	return v;
}
int main( int argc, char **argv )
{
	const char *dir = NULL; long n = 10, seed = 1, c; int i; static char path[ 2000 ];
	for( i = 1; i < argc; i++ )
	{
		if( strncmp( argv[ i ], "dir=", 4 ) == 0 ) dir = argv[ i ] + 4;
		if( strncmp( argv[ i ], "n=", 2 ) == 0 ) n = atol( argv[ i ] + 2 );
		if( strncmp( argv[ i ], "seed=", 5 ) == 0 ) seed = atol( argv[ i ] + 5 );
	}
	if( dir == NULL ) return 2;
	snprintf( path, sizeof path, "%s/pyhmac.so", dir ); so = path;
	casep = getenv( "VH_CASE" ); if( casep != NULL ) casefd = open( casep, O_RDWR | O_CREAT, 0600 );
	for( c = 0; c < n && fails_ < 3; c++ )
	{
		PyThreadState *main_ts, *ts[ 4 ]; int k, subs = (int) ( ( c + seed ) % 4 ), rounds; unsigned r = (unsigned) ( c * 7919 + seed * 104729 );
		long blocks, evp, err;
		at( "start", c );
		PyImport_AppendInittab( "oracle", oinit );
		Py_Initialize();
		main_ts = PyThreadState_Get();
		begin( dir, c, "first" );
		for( k = 0; k < subs; k++ )
		{
			char who[ 20 ]; snprintf( who, sizeof who, "further%d", k );
			at( "further interpreter", c );
			ts[ k ] = Py_NewInterpreter();
			if( ts[ k ] == NULL ) { fail( "load", "no further interpreter", c ); break; }
			begin( dir, c, who );
		}
		PyThreadState_Swap( main_ts );
		for( rounds = 0; rounds < 12 && fails_ == 0; rounds++ )
		{
			r = r * 1103515245u + 12345u; k = (int) ( ( r >> 16 ) % (unsigned) ( subs + 1 ) );
			PyThreadState_Swap( k == 0 ? main_ts : ts[ k - 1 ] );
			run( ( r >> 20 ) % 5 == 0 ? "finish(1); begin()\n" : ( r >> 20 ) % 5 == 1 ? "finish(2); gc.collect()\n" : ( r >> 20 ) % 5 == 2 ? "live[3] = [0, pyhmac.md5_context(), b'']\n" : "step()\n", "interleaved use", c );
		}
		while( subs > 0 )
		{
			/* some end with contexts alive */
			PyThreadState_Swap( ts[ --subs ] );
			if( ( c + subs ) % 2 ) run( "finish(3)\n", "finish", c );
			at( "end of a further interpreter", c );
			Py_EndInterpreter( ts[ subs ] );
			PyThreadState_Swap( main_ts );
			run( "step()\n", "use after another interpreter ended", c );
		}
		if( c % 2 == 0 ) run( "finish(3)\n", "finish", c );
		if( c % 5 == 4 ) run( "class E:\n    def __init__(s): s.c = pyhmac.sha1_context()\n    def __del__(s):\n        s.c.update(b'x'); s.c.finalize()\ne = E(); e.me = e\n", "object that outlives its module", c );
		at( "end of the interpreter", c );
		if( Py_FinalizeEx() != 0 ) fail( "end", "the interpreter did not end well", c );
		distinct_++; evals++;
		blocks = sym( "vh_live_blocks" ); evp = sym( "vh_live_evp" ); err = sym( "vh_cerror_live" );
		if( blocks != 0 || evp != 0 || err != 0 ) { char b[ 200 ]; snprintf( b, sizeof b, "%ld blocks, %ld provider contexts, %ld error objects left after the interpreter ended", blocks, evp, err ); fail( "leak", b, c ); }
	}
	printf( "STAT\tevaluations\t%ld\nSTAT\tdistinct\t%ld\nSTAT\tinterpreters ended and started again\t%ld\nSAMPLE\t%ld cycles of an interpreter with up to 3 further ones, contexts alive in all of them\nEND\n", evals, distinct_, c, c );
	return 0;
}
