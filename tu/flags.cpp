// Entry points for the analysis of the flags that one thread sets and another polls.
#include "xo/thread/stop_token.h"
#include "xo/thread/interruptible.h"
#define F extern "C" __attribute__((used, visibility("default"))) void
F src_make( void* p ) { new ( p ) xo::stop_source(); }
F src_request( xo::stop_source& s ) { s.request_stop(); }
F src_test( const xo::stop_source& s, bool& r ) { r = s.stop_requested(); }
F src_token( const xo::stop_source& s, void* p ) { new ( p ) xo::stop_token( s.get_token() ); }
F tok_test( const xo::stop_token& s, bool& r ) { r = s.stop_requested(); }
F tok_possible( const xo::stop_token& s, bool& r ) { r = s.stop_possible(); }
F tok_make( void* p ) { new ( p ) xo::stop_token(); }
F int_make( void* p ) { new ( p ) xo::interruptible(); }
F int_set( const xo::interruptible& s ) { s.xo::interruptible::interrupt(); }
F int_test( const xo::interruptible& s, bool& r ) { r = s.test_interrupt_flag(); }
