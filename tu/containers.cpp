// Instantiates the container templates so that their bodies are analysed.
#include <map>
#include <string>
#include <algorithm>
#include <numeric>
#include <limits>
#include <cmath>
#include <fstream>
#include <iostream>
#include "xo/xo_types.h"
#include "xo/system/assert.h"
#include "xo/container/array.h"
#include "xo/container/circular_buffer.h"
#include "xo/container/circular_deque.h"
#include "xo/container/collection.h"
#include "xo/container/collection_ic.h"
#include "xo/container/container_algorithms.h"
#include "xo/container/container_tools.h"
#include "xo/container/dynarray.h"
#include "xo/container/flag_set.h"
#include "xo/container/flat_map.h"
#include "xo/container/flat_set.h"
#include "xo/container/handle_vector.h"
#include "xo/container/indexed_map.h"
#include "xo/container/indexed_set.h"
#include "xo/container/label_vector.h"
#include "xo/container/prop_node.h"
#include "xo/container/prop_node_tools.h"
#include "xo/container/sorted_vector.h"
#include "xo/container/storage.h"
#include "xo/container/storage_tools.h"
#include "xo/container/stream_wrapper.h"
#include "xo/container/table.h"
#include "xo/container/view_if.h"
#include "xo/container/zip.h"

template class xo::flat_map<std::string, int>;
template class xo::flat_map<int, std::string>;
template class xo::flat_set<std::string>;
template class xo::flat_set<int>;
template class xo::sorted_vector<int>;
template class xo::sorted_vector<std::string>;
template class xo::indexed_map<std::string, int>;
template class xo::indexed_set<std::string, xo::uint32>;
template class xo::circular_deque<int>;
template class xo::circular_deque<std::string>;
template class xo::circular_buffer<double>;
template class xo::dynarray<int>;
template class xo::dynarray<std::string>;
template class xo::storage<double>;
template class xo::file_storage<double>;
template class xo::handle_vector<std::string>;
template class xo::array<int, 4>;
template struct xo::optional<int>;
template struct xo::optional<double>;
template struct xo::optional<std::string>;
enum class tu_flag { a, b, c };
void tu_flag_set( xo::flag_set<tu_flag, xo::uint32>& f ) {
	f.set( tu_flag::a ); f.set( tu_flag::b, true ); f.get( tu_flag::c ); f.toggle( tu_flag::a ); f.any( { tu_flag::a } ); f.count( { tu_flag::b } ); f.clear(); f.any(); f( tu_flag::b );
	f.set<tu_flag::a>(); f.set<tu_flag::b>( false ); f.get<tu_flag::a>(); f.clear<tu_flag::a>(); f.toggle<tu_flag::c>(); f.set( { tu_flag::a } ); f.set( { tu_flag::a }, false ); f = f;
}

void tu_label_vector( xo::label_vector<std::string>& v, const std::vector<std::string>& l ) {
	xo::label_vector<std::string> a( 3 ), b( { "x" } ), c( l );
	v.add( "a" ); v.find( "a" ); v.find_or_throw( "a" ); v.resize( 4 ); v.reserve( 3 ); v.clear(); v.size(); v[0]; v.set( 1, "b" ); v.begin(); v.end();
	v = a;
}
void tu_table( xo::table<double>& t, const xo::table<double>& c, std::istream& is, std::ostream& os ) {
	xo::table<double> u( 2, 3 );
	t.add_row( "a" ); t.add_column( "b" ); t.find_column( "a" ); t.find_row( "b" ); t.get_or_add_row( "c" ); t.get_or_add_column( "d" ); t.resize( 3, 4 );
	t.row_size(); t.column_size(); t.empty(); t( 0, 1 ); c( 0, 1 ); t( std::string( "a" ), std::string( "b" ) ); c( 0, std::string( "a" ) ); t.back_row( 0 ); c.back_row( 0 );
	xo::read_table<double>( is ); xo::load_table<double>( xo::path( "x" ) );
	os << c;
}
void tu_storage( xo::storage<double>& s, const xo::storage<double>& c, std::istream& is, std::ostream& os ) {
	xo::find_frame_index( c, 1.0 ); is >> s; os << c; auto f = s.back(); f["a"]; f[0]; auto g = c.back(); g["a"]; g[0];
}
void tu_collection( xo::collection<xo::uint32, int, std::string>& c, const xo::collection<xo::uint32, int, std::string>& k ) {
	auto h = c.push_back( std::string( "a" ) ); const std::string s; h = c.push_back( s ); c[h]; k[h]; c.erase( h ); c.get_handle( s ); c.clear();
}
void tu_collection_ic( xo::collection_ic<xo::uint32, int, std::string>& c, const xo::collection_ic<xo::uint32, int, std::string>& k ) {
	auto h = c.push_back( std::string( "a" ) ); const std::string s; h = c.push_back( s ); c[h]; k[h]; c.get_index( s ); c.clear(); c.get_index_span<int>(); c.pop_back<int>();
}
void tu_tools( std::vector<int>& v, const std::vector<int>& c, std::vector<double>& d ) {
	auto p = []( int x ) { return x > 3; };
	xo::find( v, 1 ); xo::find( c, 1 ); xo::find_index( c, 1 ); xo::find_if( v, p ); xo::find_if( c, p ); xo::find_index_if( c, p ); xo::find_ref_if( v, p ); xo::find_ref_if( c, p );
	int e = 1; xo::count( c, e ); xo::count_if( c, p ); xo::any_of( c, p ); xo::none_of( c, p ); xo::contains( c, 2 ); xo::contains_if( c, p );
	xo::copy_cast( c, d ); xo::append( v, c ); xo::index_of( c[0], c );
	xo::average( d ); xo::mean_var( d ); xo::mean_std( d ); xo::sorted_indices( d ); xo::min_element( d ); xo::max_element( d ); xo::min_value( d ); xo::max_value( d ); xo::sorted_copy( d );
	xo::median( d ); xo::median_non_const( d ); xo::top_average( d, 2 );
	for ( auto x : xo::make_view_if( v, p ) ) e += x;
	for ( auto [x, y] : xo::zip( v, d ) ) e += x;
}
bool tu_maps( xo::flat_map<std::string, int>& m, const xo::prop_node& p, xo::flat_set<int>& s, xo::sorted_vector<int>& sv, xo::dynarray<int>& d ) {
	xo::to_str( m ); xo::to_prop_node( m ); xo::from_prop_node( p, m ); xo::to_str( s );
	xo::optional<int> o; xo::optional<std::string> q; xo::optional<double> r;
	return d == d && d != d && o == o && q == q && r == r && o == 1 && r != r;
}
xo::prop_node tu_prop_node( xo::prop_node& p, const xo::prop_node& c ) {
	p.set( "a", 1 ); p.set( 3 ); p.set( std::string( "x" ) ); p.get<int>(); p.get<std::string>(); p.get<double>( "a" ); p.get<bool>( "a", true ); p.get<size_t>( "q" );
	p.try_get<int>(); p.try_get<std::string>( "a" ); c.get<float>( "b" ); c.get<int>( 0 );
	int i; double d; std::string s; bool b;
	c.get<double>( "d", 1.0 ); p.try_get( d, "d" ); p.try_get( s, "s" ); c.get_all<int>( "z" ); c.try_get_any<int>( { "a" } ); p.set_query( "a.b", 1 ); p.add_value( 3 ); c.get_any<int>( { "a", "b" } ); c.get_any<int>( { "a", "b" }, 3 );
	c.get<std::vector<double>>( "v" ); p.set( "v", std::vector<double>{ 1, 2 } ); c.get<xo::path>( "f" ); p.add_key_value( "k", 4 ); 
	p["u"] = 3; p["t"] = std::string( "s" ); p["pp"] = c;
	xo::from_prop_node( c, b );
	return p;
}
