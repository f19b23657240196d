#if !defined( VH_OPENSSL10_ERR_H )
#define VH_OPENSSL10_ERR_H
#define ERR_remove_thread_state vh10_remove_thread_state
#define ERR_remove_state vh10_remove_state
void vh10_remove_state( unsigned long id );
unsigned long ERR_get_error( void );
unsigned long ERR_peek_error( void );
void ERR_clear_error( void );
void vh10_remove_thread_state( const void *id );
#endif
