// Entry points for the analysis of profiled scopes.
#include "xo/system/profiler.h"
#include "xo/system/profiler_config.h"
#include "xo/container/prop_node.h"
#include <new>
using namespace xo;
#define F extern "C" __attribute__((used, visibility("default")))
extern "C" void scope_body( int k );
F void prof_new( void* p ) { new ( p ) profiler(); }
F void prof_delete( void* p ) { static_cast<profiler*>( p )->~profiler(); }
F void prof_start( profiler& p, const char* label ) { p.start( label ); }
F void prof_stop( profiler& p ) { p.stop(); }
F bool prof_enabled( profiler& p ) { return p.enabled(); }
F void prof_report( void* r, profiler& p ) { new ( r ) prop_node( p.report( -1.0 ) ); }
F void prof_scope( profiler& p, const char* name, int k ) { scoped_profiler_section s( name, p ); scope_body( k ); }
F void prof_macro( profiler& p, const char* name, int k ) { XO_PROFILE_SCOPE( p, name ); scope_body( k ); }
F long node_size( const prop_node& n ) { return n.size(); }
F const prop_node* node_child( const prop_node& n, long i ) { return &n.get_child( index_t( i ) ); }
F const string* node_key( const prop_node& n, long i ) { return &n.get_key( index_t( i ) ); }
F const string* node_value( const prop_node& n ) { return &n.get_str(); }
