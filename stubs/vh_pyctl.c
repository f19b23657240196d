/* The allocations of pyhmac and the library inside it are observed from the
 * moment the module is loaded (only this shared object's own calls: the
 * interpreter's go elsewhere). What the module asks the interpreter for can be
 * made to fail as the interpreter fails it, and its locks are counted. */
#include <Python.h>
#include "vh_track.h"
__attribute__(( constructor )) static void start( void ) { vh_track_always( 1 ); }

static long n_, at_, fired_, locks_; static int persistent_;
void vh_py_arm( long at, int persistent ) { n_ = fired_ = 0; at_ = at; persistent_ = persistent; }
long vh_py_fired( void ) { return fired_; }
long vh_py_locks( void ) { return __atomic_load_n( &locks_, __ATOMIC_RELAXED ); }
static int fails( void )
{
	long c = __atomic_add_fetch( &n_, 1, __ATOMIC_RELAXED );
	if( at_ != 0 && ( c == at_ || ( persistent_ && c > at_ ) ) ) { __atomic_add_fetch( &fired_, 1, __ATOMIC_RELAXED ); return 1; }
	return 0;
}
PyObject *__real_PyBytes_FromStringAndSize( const char *, Py_ssize_t );
PyObject *__wrap_PyBytes_FromStringAndSize( const char *s, Py_ssize_t n ) { return fails() ? PyErr_NoMemory() : __real_PyBytes_FromStringAndSize( s, n ); }
PyObject *__real_PyUnicode_DecodeUTF8( const char *, Py_ssize_t, const char * );
PyObject *__wrap_PyUnicode_DecodeUTF8( const char *s, Py_ssize_t n, const char *e ) { return fails() ? PyErr_NoMemory() : __real_PyUnicode_DecodeUTF8( s, n, e ); }
PyObject *__real__PyObject_New( PyTypeObject * );
PyObject *__wrap__PyObject_New( PyTypeObject *t ) { return fails() ? PyErr_NoMemory() : __real__PyObject_New( t ); }
PyThread_type_lock __real_PyThread_allocate_lock( void );
void __real_PyThread_free_lock( PyThread_type_lock );
PyThread_type_lock __wrap_PyThread_allocate_lock( void )
{
	PyThread_type_lock l = fails() ? NULL : __real_PyThread_allocate_lock();
	if( l != NULL ) __atomic_add_fetch( &locks_, 1, __ATOMIC_RELAXED );
	return l;
}
void __wrap_PyThread_free_lock( PyThread_type_lock l ) { if( l != NULL ) __atomic_sub_fetch( &locks_, 1, __ATOMIC_RELAXED ); __real_PyThread_free_lock( l ); }
/* What the module asks for while it is loaded */
PyObject *__real_PyModule_Create2( PyModuleDef *, int );
PyObject *__wrap_PyModule_Create2( PyModuleDef *d, int v ) { return fails() ? PyErr_NoMemory() : __real_PyModule_Create2( d, v ); }
static int nomem( void ) { PyErr_NoMemory(); return -1; }
int __real_PyType_Ready( PyTypeObject * );
int __wrap_PyType_Ready( PyTypeObject *t ) { return fails() ? nomem() : __real_PyType_Ready( t ); }
int __real_PyModule_AddObject( PyObject *, const char *, PyObject * );
int __wrap_PyModule_AddObject( PyObject *m, const char *n, PyObject *v ) { return fails() ? nomem() : __real_PyModule_AddObject( m, n, v ); }
int __real_PyModule_AddObjectRef( PyObject *, const char *, PyObject * );
int __wrap_PyModule_AddObjectRef( PyObject *m, const char *n, PyObject *v ) { return fails() ? nomem() : __real_PyModule_AddObjectRef( m, n, v ); }
int __real_PyModule_AddType( PyObject *, PyTypeObject * );
int __wrap_PyModule_AddType( PyObject *m, PyTypeObject *t ) { return fails() ? nomem() : __real_PyModule_AddType( m, t ); }
