// Entry points for the analysis of writing and reading ZML text.
#include "xo/container/prop_node.h"
#include "xo/serialization/prop_node_serializer_zml.h"
#include <new>
using namespace xo;
#define F extern "C" __attribute__((used, visibility("default")))
F void zml_root( void* p ) { new ( p ) prop_node(); }
F prop_node* zml_add( prop_node& parent, const string& label, const string& value ) {
	auto& c = parent.add_child( label );
	c.set_value( string( value ) );
	return &c;
}
F bool zml_equal( const prop_node& a, const prop_node& b ) { return a == b; }
