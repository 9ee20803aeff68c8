// Entry points for the analysis of settings.
#include "xo/system/settings.h"
#include "xo/container/prop_node.h"
#include "xo/utility/color.h"
#include "xo/geometry/vec3.h"
#include "xo/utility/optional.h"
#include "xo/numerical/bounds.h"
#include <new>
using namespace xo;
#define F extern "C" __attribute__((used, visibility("default")))
F void node_new( void* p ) { new ( p ) prop_node(); }
F void node_copy( void* p, const prop_node& o ) { new ( p ) prop_node( o ); }
F prop_node* node_add( prop_node& p, const string& label, const string& value ) { auto& c = p.add_child( label ); c.set_value( string( value ) ); return &c; }
F long node_size( const prop_node& n ) { return n.size(); }
F const prop_node* node_child( const prop_node& n, long i ) { return &n.get_child( index_t( i ) ); }
F const string* node_key( const prop_node& n, long i ) { return &n.get_key( index_t( i ) ); }
F const string* node_value( const prop_node& n ) { return &n.get_str(); }
F bool node_equal( const prop_node& a, const prop_node& b ) { return a == b; }
F bool conv_float( const prop_node& n ) { return bool( n.try_get<double>() ); }
F bool conv_int( const prop_node& n ) { return bool( n.try_get<int>() ); }
F bool conv_bool( const prop_node& n ) { return bool( n.try_get<bool>() ); }
F bool conv_string( const prop_node& n ) { return bool( n.try_get<string>() ); }
F bool conv_color( const prop_node& n ) { return bool( n.try_get<color>() ); }
F bool conv_vec3( const prop_node& n ) { return bool( n.try_get<vec3d>() ); }
F void set_new( void* p, const prop_node& schema, const string& file ) { new ( p ) settings( schema, path( file ) ); }
F const prop_node* set_data( const settings& s ) { return &s.data(); }
F bool set_text( settings& s, const string& id, const string& v ) { return s.set< string >( id, v ); }
F bool set_int( settings& s, const string& id, int v ) { return s.set< int >( id, v ); }
F bool set_double( settings& s, const string& id, double v ) { return s.set< double >( id, v ); }
F bool set_bool( settings& s, const string& id, bool v ) { return s.set< bool >( id, v ); }
F void set_load( settings& s ) { s.load(); }
F void set_save( settings& s ) { s.save(); }
F void set_reset( settings& s ) { s.reset(); }
F void get_text( void* p, const settings& s, const string& id ) { new ( p ) string( s.get< string >( id ) ); }
F int get_int( const settings& s, const string& id ) { return s.get< int >( id ); }
F double get_double( const settings& s, const string& id ) { return s.get< double >( id ); }
