// Entry points for the analysis of the dispatch over shape kinds.
#include "xo/xo_types.h"
#include "xo/shape/shape.h"
#include "xo/shape/shape_tools.h"
#include "xo/container/prop_node.h"
#include <new>
using namespace xo;
#define F extern "C" __attribute__((used, visibility("default")))
#define K( T ) F void make_##T( void* s ) { new ( s ) shape( T() ); } F int is_##T( const shape& s ) { return std::get_if<T>( &s ) != nullptr; }
K( sphere ) K( box ) K( cylinder ) K( capsule ) K( cone ) K( plane )
F int shape_kind( const shape& s ) { return int( s.index() ); }
F int shape_kinds() { return int( std::variant_size_v<shape> ); }
F void shape_ops( shape& s, shape& r, const transformf& t, const vec3f& v, float f, float* fo, vec3f* vo, aabbf* bo, prop_node* po, string* so ) {
	fo[ 0 ] = volume( s ); fo[ 1 ] = distance_from_center( s, v );
	vo[ 0 ] = dim( s ); vo[ 1 ] = inertia( s, f ); vo[ 2 ] = intersection_from_center( s, v );
	*bo = aabb( s, t );
	scale( s, f ); scale( s, v ); r = scaled( s, f ); r = scaled( s, v );
	*po = to_prop_node( s ); *so = to_str( s );
	fo[ 2 ] = is_valid( s );
}
