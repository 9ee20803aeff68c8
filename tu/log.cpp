// Entry points for the analysis of logging: outputs whose handlers are unknown to the analysis, and every way to log.
#include "xo/system/log.h"
#include "xo/system/log_sink.h"
#include <new>
using namespace xo;
#define F extern "C" __attribute__((used, visibility("default")))
extern "C" void got_message( void* s, int level );
extern "C" void got_flush( void* s );
struct probe : log::sink {
	probe( log::level l, log::sink_mode m ) : log::sink( l, {}, m ) {}
	~probe() { log::remove_sink( this ); }
	void hande_log_message( log::level l, const string& msg ) override { got_message( this, int( l ) ); }
	void flush() override { got_flush( this ); }
};
F void log_new( void* p, log::level l, log::sink_mode m ) { new ( p ) probe( l, m ); }
F void log_delete( void* p ) { static_cast<probe*>( p )->~probe(); }
F void log_level( void* p, log::level l ) { static_cast<probe*>( p )->set_log_level( l ); }
F void log_mode( void* p, log::sink_mode m ) { static_cast<probe*>( p )->set_sink_mode( m ); }
F bool log_test( log::level l ) { return log::test_log_level( l ); }
F int log_lowest_of( void* p ) { return int( static_cast<probe*>( p )->get_log_level() ); }
F void log_add( void* p ) { log::add_sink( static_cast<probe*>( p ) ); }
F void log_remove( void* p ) { log::remove_sink( static_cast<probe*>( p ) ); }
// every way to log; send_<name>_<level>
F void send_string_given( log::level l, const string& s ) { log::log_string( l, s ); }
F void send_message_given( log::level l, const string& s ) { log::message( l, s ); }
F void send_message2_given( log::level l, const string& s ) { log::message( l, s, "text", 1 ); }
F void send_messagef_given( log::level l, const string& s ) { log::messagef( l, "x" ); }
#define LEVEL( n_ ) \
	F void send_##n_##_##n_( const string& s ) { log::n_( s ); } \
	F void send_##n_##2_##n_( const string& s ) { log::n_( s, "text", 1 ); } \
	F void send_##n_##f_##n_( const string& s ) { log::n_##f( "x" ); }
LEVEL( trace )
LEVEL( debug )
LEVEL( info )
LEVEL( warning )
LEVEL( error )
LEVEL( critical )
