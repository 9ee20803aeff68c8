// Entry points for the analysis of timers, stopwatches and scoped helpers.
#include "xo/time/timer.h"
#include "xo/time/stopwatch.h"
#include "xo/string/string_tools.h"
#include "xo/container/prop_node.h"
#include <new>
using namespace xo;
#define F extern "C" __attribute__((used, visibility("default")))
extern "C" void scope_body( int k );
F void tim_new( void* p, bool start ) { new ( p ) timer( start ); }
F long long tim_get( const timer& t ) { return t().nanoseconds(); }
F long long tim_pause( timer& t ) { return t.pause().nanoseconds(); }
F void tim_resume( timer& t ) { t.resume(); }
F long long tim_restart( timer& t ) { return t.restart().nanoseconds(); }
F void tim_set( timer& t, long long ns ) { t.set( xo::time( ns ) ); }
F bool tim_running( const timer& t ) { return t.is_running(); }
F bool tim_paused( const timer& t ) { return t.is_paused(); }
F void tim_scope( timer& t, int k ) { scoped_timer_starter s( t ); scope_body( k ); }
F void sw_new( void* p ) { new ( p ) stopwatch(); }
F void sw_split( stopwatch& s, const char* n ) { s.split( n ); }
F void sw_restart( stopwatch& s ) { s.restart(); }
F void sw_clear( stopwatch& s ) { s.clear(); }
F long sw_size( stopwatch& s ) { return s.size(); }
F long long sw_time( stopwatch& s, long k ) { return s.split_times().at( k ).nanoseconds(); }
F const string* sw_name( stopwatch& s, long k ) { return &s.split_names().at( k ); }
F void sw_report( void* p, stopwatch& s, int d ) { new ( p ) prop_node( s.get_report( d ) ); }
