// instantiations of header-only operations that no other unit here uses
#include <array>
#include "xo/container/circular_deque.h"
#include "xo/container/collection.h"
#include "xo/container/collection_ic.h"
#include "xo/container/container_algorithms.h"
#include "xo/container/container_tools.h"
#include "xo/container/flag_set.h"
#include "xo/container/indexed_map.h"
#include "xo/container/label_vector.h"
#include "xo/container/prop_node.h"
#include "xo/container/prop_node_tools.h"
#include "xo/container/sorted_vector.h"
#include "xo/container/storage_tools.h"
#include "xo/container/stream_wrapper.h"
#include "xo/container/table.h"
#include "xo/container/view_if.h"
#include "xo/filesystem/path.h"
#include "xo/geometry/angle_type.h"
#include "xo/geometry/dynvec.h"
#include "xo/geometry/scale3.h"
#include "xo/geometry/vec.h"
#include "xo/numerical/bounds.h"
#include "xo/numerical/constants.h"
#include "xo/serialization/prop_node_serializer_zml.h"
#include "xo/serialization/prop_node_serializer_xml.h"
#include "xo/string/pattern_matcher.h"
#include "xo/string/string_cast.h"
#include "xo/string/string_tools.h"
#include "xo/system/settings.h"
#include "xo/system/system_tools.h"
#include "xo/time/time.h"
#include "xo/utility/color_gradient.h"
#include "xo/utility/factory.h"
#include "xo/utility/handle.h"
#include "xo/utility/hash.h"
#include "xo/utility/index.h"
#include "xo/utility/optional.h"
#include "xo/utility/pointer_iterator.h"
#include "xo/utility/proxy.h"
#include "xo/utility/result.h"
#include "xo/thread/thread_priority.h"
using namespace xo;
using std::string;

template struct xo::circular_deque<int>::iterator_impl<int>;
template struct xo::circular_deque<int>::iterator_impl<const int>;
template struct xo::circular_deque<string>::iterator_impl<string>;
template class xo::dynvec<double>;
template struct xo::pointer_iterator<int>;
template struct xo::vec_<3, double>;

const double& tu_x_table( const table<double>& c, const string& a ) { return c( a, a ); }

void tu_x_path( path& p, const string& s ) { p = s; p = string( s ); }
void tu_x_collection( collection<uint32, int, string>& c, const collection<uint32, int, string>& k ) { collection<uint32, int, string> d; d.data(); k.data(); c.data(); }
void tu_x_ic( collection_ic<uint32, int, string>& c, const collection_ic<uint32, int, string>& k ) {
	collection_ic<uint32, int, string> d; c.begin<int>(); c.end<int>(); k.begin<int>(); k.end<string>(); c.data(); k.data();
}
double tu_x_algo( const std::vector<double>& v ) {
	std::vector<double> w0( v ); auto sq = []( double a, double b ) { return a + b; };
	(void)xo::copy( v, w0.begin() ); xo::for_each( v, []( double ) {} );
	std::vector<double> w( v ); xo::for_each( w, []( double& d ) { d = 1; } );
	std::vector<int> o( 9 ); xo::copy( v, o.begin() ); xo::copy_to_range( v.begin(), o.begin(), o.end() ); xo::copy_to_range( v.begin(), o );
	xo::back_index( v ); xo::emplace_back_get_index( w, 1.0 );
	return xo::accumulate( v, 0.0, sq );
}
void tu_x_maps( const indexed_map<string, int>& m, const sorted_vector<int>& v ) { to_str( v ); }
void tu_x_prop( prop_node& p, const prop_node& c, const string& s, index_t i ) {
	prop_node q( { prop_node::pair_t( "a", prop_node() ) } ); c.get_str( s ); c.at( i ); p.at( i ); c.front(); p.front(); c.back(); "x"_pn; make_prop_node( s, 3 );
	for ( auto& x : c.select( s ) ) x.first.size();
	std::array<double, 3> a; from_prop_node( c, a ); std::vector<int> v; p.add_values( v.begin(), v.end() );
	pattern_matcher pm( c ), pm2( "a" ); from_prop_node( c, pm ); to_str( pm );
	factory<int> fi; find_factory_prop_node( fi, c );
}
void tu_x_serial( prop_node& p ) { prop_node_serializer_xml x( p ); prop_node_serializer_zml z( p ); prop_node_serializer_zml_concise d, e( p ), f( std::as_const( p ) ); }
void tu_x_str( const int* p, const vec3_<double>& v, const quat_<double>& q, const vec3_<radianf>& r ) { to_str( p ); vec3_str( v ); quat_str( q ); vec3deg_str( r ); get_type_name( v ); get_clean_type_name( v ); }
void tu_x_time( xo::time& t ) { t.is_zero(); t.reset(); t = 3_ns; t = 3_ms; t = 3_s; t = 2_minute; t = 2_hour; t = 2_day; t = 1_year; }
void tu_x_opt( const optional<int>& o ) { (void)( 1 == o ); (void)( 2 != o ); }
void tu_x_colors( color_gradient& g ) { g( 0.5f ); color_gradient h( { { 0.0f, color() } } ); }
void tu_x_index( index_class<int, int>& i, const std::vector<int>& v ) { }
void tu_x_result( const string& s ) { error_message e( s ); e = s; e.message(); }
void tu_x_settings( const settings& s ) { s.schema(); s.data_file(); s.data_version(); }
void tu_x_bounds( const bounds<float>& b ) { bounds<double> d( b ); }
void tu_x_thread() { scoped_thread_priority p( thread_priority::low ); }
namespace xo {
	struct tu_item { std::string name; };
	inline prop_node to_prop_node( const tu_item& i ) { return prop_node( i.name ); }
	inline bool from_prop_node( const prop_node& pn, tu_item& i ) { i.name = pn.get_str(); return true; }
	template<> struct proxy_data<tu_item, uint32> { static const tu_item& get_value( uint32 ) { static tu_item t; return t; } static uint32 get_index( const tu_item& ) { return 0; } };
}
void tu_x_proxy( proxy<tu_item>& p, const prop_node& c ) { proxy<tu_item> q( tu_item{ "a" } ), r; p.set( tu_item() ); p = tu_item(); p.get(); (void)( p == q ); (void)( p != r ); p.index(); to_prop_node( p ); from_prop_node( c, p ); }
void tu_x_streams( std::vector<double>& v, const vec3_<float>& a, vec3_<float>& b, quat_<float>& q ) {
	push_back_stream<std::vector<double>> p( v ); p << 1.0; p << 1;
	input_iterator_stream<std::vector<double>::iterator> i( v.begin() ); i >> b; i >> q;
	output_iterator_stream<std::vector<double>::iterator> o( v.begin() ); o << a; o << q;
}
bool tu_x_arrays( const prop_node& n, std::array<double, 3>& a ) {
	a = n.get<std::array<double, 3>>(); auto o = n.try_get<std::array<double, 3>>(); a = n.get<std::array<double, 3>>( "k" );
	return o && from_prop_node( n, a );
}
