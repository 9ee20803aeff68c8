// Instantiates the geometry, numerical, shape and colour templates so that their bodies are analysed.
#include <map>
#include <array>
#include <string>
#include <vector>
#include <algorithm>
#include <numeric>
#include <limits>
#include <functional>
#include "xo/xo_types.h"
#include "xo/numerical/math.h"
#include "xo/numerical/compare.h"
#include "xo/numerical/constants.h"
#include "xo/system/assert.h"
#include "xo/container/array.h"
#include "xo/container/container_algorithms.h"
#include "xo/container/container_tools.h"
#include "xo/container/prop_node.h"
#include "xo/container/prop_node_tools.h"
#include "xo/geometry/angle.h"
#include "xo/geometry/angle_type.h"
#include "xo/geometry/vec3.h"
#include "xo/geometry/vec3_type.h"
#include "xo/geometry/vec4_type.h"
#include "xo/geometry/vec4.h"
#include "xo/geometry/quat.h"
#include "xo/geometry/mat33.h"
#include "xo/geometry/scale3.h"
#include "xo/geometry/transform.h"
#include "xo/geometry/line.h"
#include "xo/geometry/segment.h"
namespace xo { using vec3 = vec3f; }
#include "xo/geometry/mirror_tools.h"
#include "xo/geometry/path_alg.h"
#include "xo/geometry/catmull_rom.h"
#include "xo/geometry/dynvec.h"
#include "xo/numerical/average.h"
#include "xo/numerical/bounds.h"
#include "xo/numerical/delayer.h"
#include "xo/numerical/delta.h"
#include "xo/numerical/filter.h"
#include "xo/numerical/filter_1st_order.h"
#include "xo/numerical/functions.h"
#include "xo/numerical/function_tools.h"
#include "xo/numerical/interpolation.h"
#include "xo/numerical/piecewise_constant_function.h"
#include "xo/numerical/piecewise_linear_function.h"
#include "xo/numerical/polynomial.h"
#include "xo/numerical/random.h"
#include "xo/numerical/regression.h"
#include "xo/numerical/regular_piecewise_linear_function.h"
#include "xo/shape/aabb.h"
#include "xo/shape/shape.h"
#include "xo/shape/shape_tools.h"
#include "xo/utility/color.h"
#include "xo/utility/arithmetic.h"
#include "xo/utility/handle.h"
#include "xo/utility/index.h"
#include "xo/utility/frange.h"
#include "xo/utility/irange.h"
#include "xo/utility/side.h"
#include "xo/utility/pair_math.h"
#include "xo/time/time.h"
#include "xo/system/version.h"

using namespace xo;
template struct xo::vec3_<double>;
template struct xo::vec4_<double>;
template struct xo::quat_<double>;
template struct xo::mat33_<double>;
template struct xo::scale3_<double>;
template struct xo::transform_<double>;
template struct xo::line_<double>;
template struct xo::segment_<double>;
template struct xo::angle_<angle_unit::degrees, double>;
template struct xo::angle_<angle_unit::radians, double>;
template struct xo::aabb_<double>;
template struct xo::handle<int>;
template struct xo::index_class<int>;
template struct xo::index_span<int>;
template class xo::filter_1st_order<double, double>;
template struct xo::average_<double>;
template struct xo::delta<double>;
template struct xo::delayer<double, 3>;
template struct xo::smooth_delayer<double, 3>;
template struct xo::iir_filter<double, 2>;
template struct xo::polynomial<double, 3>;
template struct xo::piecewise_constant_function<double>;
template struct xo::piecewise_linear_function<double>;
template struct xo::regular_piecewise_linear_function<double, 10>;
template struct xo::frange<double>;
template struct xo::irange<int>;
template struct xo::irange_step<int>;
template class xo::catmull_rom<vec3d, double>;
template struct xo::catmull_rom_segment_alpha<vec3f>;

void tu_vec3( vec3d& a, const vec3d& b, double s, const prop_node& pn, size_t n ) {
	a = a + b; a += b; a = a - b; a -= b; a = -b; a *= s; a = s * a; a = a * s; a = a / s; a /= s; a = a / n; a /= n; a = s / a; a *= b; a = a / b; a /= b;
	length( a ); squared_length( a ); manhattan_length( a ); is_normalized( a ); distance( a, b ); squared_distance( a, b ); a == b; a != b; equal( a, b );
	normalize( a ); clamp( a, 0.0, 1.0 ); normalized( a ); direction_length( a ); xo::abs( a ); dot_product( a, b ); multiply( a, b ); scale( a, b ); scaled( a, b ); projection( a, b );
	projected_xy( a ); projected_xz( a ); projected_yz( a ); cross_product( a, b ); to_str( a ); from_prop_node( pn, a ); to_prop_node( a );
	vec3f f( a ); vec3d g( f ); vec3d h( 1, 2, 3 ); vec3d i( no_init );
}
void tu_vec4( vec4d& a, const vec4d& b, double s ) { a = a + b; a += b; a -= b; a = s * a; a = a * s; a *= s; a = a / s; a /= s; a = -a; }
template< typename V > auto tu_sub( const V& a, const V& b ) -> decltype( a - b ) { return a - b; }
void tu_quat( quatd& q, const quatd& p, vec3d& v, const vec3d& w, double s, radiand r, degreed d, const prop_node& pn, euler_order eo ) {
	q = q * p; v = q * v; q *= p; q *= s; length( q ); length_xyz( q ); squared_length( q ); is_normalized( q ); is_identity( q ); q == p; q != p; equal( q, p );
	normalize( q ); normalized( q ); normalize_fast( q ); normalized_fast( q ); normalize_try_fast( q ); normalized_try_fast( q ); conjugate( q ); q = -q; inverse( q ); positive( q );
	quat_from_axis_angle( v, r ); quat_from_axis_angle( v, d ); quat_from_rotation_vector( v ); quat_from_directions( v, w ); quat_from_quats( q, p ); rotation_vector_from_quat( q );
	rotation_vector_angle_from_quat( q ); axis_angle_from_quat( q ); quat_angle_around_axis_fast( q, v ); quat_angle_around_axis( q, v ); rotation_around_axis( q, v ); rotation_around_x( q );
	rotation_around_y( q ); rotation_around_z( q ); rotation_around_xyz( q ); local_x_axis( q ); local_y_axis( q ); local_z_axis( q ); axes_from_quat( q ); quat_from_x_angle( r ); quat_from_y_angle( r ); quat_from_z_angle( r );
	vec3radd e( r, r, r ); vec3degd f( d, d, d ); quat_from_euler( e, eo ); quat_from_euler( f, eo ); quat_from_euler( r, r, r, eo ); pitch( q ); yaw( q ); roll( q ); euler_from_quat( q, eo );
	to_str( q ); from_prop_node( pn, q ); to_prop_node( q ); quatf qf( q );
	mat33d m = mat33_from_axes( v, w, w ); mat33_from_diagonal( v );
	value( e ); vec3_from_polar( s, r, r ); to_str( r ); from_str( std::string(), r ); xo::sin( r ); xo::cos( r ); xo::tan( r ); xo::asin( d ); xo::acos( d ); xo::atan( d );
	r += r; r -= r; r = r + r; r = r - r; r = -r; r *= s; r /= s; r = r * s; r = r / s; r = s * r; xo::abs( r ); r < r; r > r; r <= r; r >= r; r == r; r != r; radiand rr( d ); degreed dd( r ); r.deg_value();
	rad_to_deg( s ); deg_to_rad( s );
}
void tu_scale( scale3d& s, const scale3d& t, vec3d& v, const prop_node& pn ) { v = s * v; v = v * s; s = s * t; v *= s; s *= t; v = v / s; s = s / t; v /= s; s /= t; from_prop_node( pn, s ); }
void tu_transform( transformd& a, const transformd& b, vec3d& v, const prop_node& pn, lined& l, segmentd& sg, bounds<double>& bd, vec3_<bounds<double>>& vb, quatd& q, bool m ) {
	a = a * b; v = a * v; from_prop_node( pn, a ); closest_points( l, l ); distance( l, l ); distance( v, sg ); mirror( v ); mirror_axis( v ); mirror( q ); mirror( bd ); mirror( a ); mirror( vb ); mirrored( v ); mirror_if( v, m ); mirror_axis_if( v, m ); mirrored_if( v, m );
	vec3f vf; mirrored_axis_if( vf, m );
	std::vector<vec3d> path; path_length( path ); insert_path_point( path, 1.0 ); compute_spline_length( catmull_rom_segment<vec3d>( v, v, v, v ), 0.0f, 1.0f );
}
template< typename T > void tu_math( T a, T b, T c ) {
	xo::min( a, b ); xo::min( a, b, c ); xo::max( a, b ); xo::max( a, b, c ); xo::abs( a ); xo::signum( a ); xo::same_sign( a, b ); xo::set_if_smaller( a, b ); xo::set_if_bigger( a, b ); xo::set_if_different( a, b );
	xo::clamp( a, b, c ); xo::clamped( a, b, c ); xo::is_between( a, b, c ); xo::squared( a ); xo::cubed( a ); xo::midpoint( a, b ); xo::sign( a );
}
template void tu_math<int>( int, int, int );
template void tu_math<double>( double, double, double );
void tu_math_d( double a, double b, double c ) {
	xo::inv( a ); xo::invsqrt( a ); xo::signed_sqrt( a ); power<3>( a ); power<-2>( a ); is_whole( a ); round_cast<int>( a ); round_decimals( a, 2 ); soft_clamp( a, b, c, c ); soft_clamped( a, b, c, c ); limit_transform( a, b );
	smooth_clamped( a, b, c, b, c ); float_to_byte( a ); wrap( a, b, c ); wrapped( a, b, c ); square_wave( a ); triangle_wave( a ); pos_mod( a, b ); triangle_wave( a, b, c );
	is_power_of_two( 3u ); is_even( 3 ); is_odd( 3 ); count_digits( 10 ); get_byte( 3u, 8 ); greatest_common_divisor( 3, 4 );
	equal( a, b ); less_than_or_equal( a, b ); less_than_not_equal( a, b ); greater_than_or_equal( a, b ); greater_than_not_equal( a, b );
	lerp( a, b, c ); lerp_precise( a, b, c ); fast_acos( a ); minimum_jerk( a ); make_lowpass_butterworth_2nd_order( a );
	std::vector<double> v; lerp_vec( v, a ); lerp_span( v.begin(), v.end(), a ); std::map<double, double> m; lerp_map( m, a ); linear_regression( v, v ); linear_regression( v, a, b ); linear_median_regression( v, a, b );
	repeated_median_regression( v.begin(), v.end(), v.begin(), v.end() ); evaluate_function<double>( std::function<double( double )>(), a, b, c );
	random_number_generator_default g; g.uniform( a, b ); g.uniform( boundsd( a, b ) ); g.normal( a, b ); g.uniform_int( 1, 3 ); g.uniform_vec3( a, b );
	linear_function<double> f( a, b ); f( c ); intersect_y( f, a ); polynomial<double, 2> p2( a, b, c ); p2( a );
	std::pair<double, double> pp( a, b ), pq( b, c ); pp = pp + pq; pp += pq; pp = pp - pq; pp -= pq;
	for ( auto i : make_irange( 1, 3 ) ) a += i; for ( auto i : make_irange( 1, 9, 2 ) ) a += i; for ( auto i : size_range( v ) ) a += i; for ( auto x : frange<double>( a, b, c ) ) a += x;
}
template< typename T > void tu_bounds( bounds<T>& b, const bounds<T>& c, T v, const prop_node& pn ) {
	b.is_within( v ); b.length(); b.center(); b.get_violation( v ); b.check( v ); b.extend( v ); b.extend( c ); b.clamp( v ); b.clamped( v ); b = -c; b.is_null(); to_str( b ); from_str( std::string(), b ); from_prop_node( pn, b );
	bounds<T>::infinite(); bounds<T>::positive(); bounds<T>::negative(); bounds<T> d( v, v );
}
template void tu_bounds<int>( bounds<int>&, const bounds<int>&, int, const prop_node& );
template void tu_bounds<double>( bounds<double>&, const bounds<double>&, double, const prop_node& );
void tu_color( color& a, const color& b, float s, double t ) {
	a = a + b; a = a - b; a = s * a; a = a * s; a = t * a; a == b; a != b; a < b; clamp( a ); color c( t, t, t, t ); color::red(); color::orange(); color::yellow(); color::green(); color::cyan(); color::blue(); color::magenta(); color::white(); color::null(); a.is_null();
}
void tu_shape( shape& s, const vec3f& v, const transformf& t, aabbf& a, lined& l, transformd& td, const aabbf& ab ) {
	volume( s ); dim( s ); aabb( s, t ); inertia( s, 1.f ); scale( s, 1.f ); scaled( s, 1.f ); scale( s, v ); scaled( s, v ); to_prop_node( s ); to_str( s ); is_valid( s ); distance_from_center( s, v ); intersection_from_center( s, v );
	a += v; a += ab; intersection( l, plane(), td ); capsule c; center_positions( c, t ); box b; corners( b );
}
void tu_side( side s, const std::string& n, std::string& m ) { mirrored( s ); side_postfix( s ); str_get_side( n ); str_remove_side( n ); str_set_side( n, s ); str_mirrored_side( n ); str_mirror_side( m ); str_append_before_side( n, n ); }
void tu_time( xo::time a, xo::time b, size_t n ) {
	a = a + b; a = a - b; a = -a; a += b; a -= b; a /= n; a = a / n; a / b; a * b; a * 2.0; a / 2.0; a < b; a <= b; a > b; a >= b; a == b; a != b; time_from_seconds( 1.0 ); time_from_milliseconds( 1.0 ); time_from_nanoseconds( 1.0 ); distance( a, b ); a.secondsd(); a.milliseconds();
}
void tu_handle( handle<int>& a, const handle<int>& b, handle_span<int>& s, index_class<int>& i, const index_class<int>& j, std::vector<int>& c ) {
	a < b; a == b; a != b; i < j; i <= j; i > j; i >= j; i == j; i != j; a.iter( c ); i.iter( c ); handle<int>::end( c ); handle<int>::back( c ); index_class<int>::end( c ); index_class<int>::back( c ); s.empty(); s.size(); s.contains( a ); s.is_beyond( a ); s.end(); for ( auto h : s ) a = h; handle_span<int> sp( a, b ); update_moved_handle( a, s, s.begin() ); a = std::move( a ); i = std::move( i );
}
bool tu_version( const version& a, const version& b ) { return a == b || a != b || a < b || a > b || a <= b || a >= b; }
void tu_dynvec( dynvec<double>& a, const dynvec<double>& b, double s ) { a == b; a != b; a = a + b; a += b; a = a - b; a -= b; a = -a; a = s * a; a = a * s; a *= s; a = a / s; a /= s; distance( a, b ); normalize( a ); normalized( a ); dot_product( a, b ); a.length(); a.is_null(); a.size(); a.resize( 3 ); }
