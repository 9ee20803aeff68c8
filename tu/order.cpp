// Entry points for the order and algebra analyses: one function per library operation, on references to unknown objects.
#include <array>
#include <map>
#include <string>
#include <vector>
#include <algorithm>
#include <numeric>
#include <limits>
#include <functional>
#include "xo/xo_types.h"
#include "xo/numerical/math.h"
#include "xo/numerical/compare.h"
#include "xo/numerical/bounds.h"
#include "xo/container/container_algorithms.h"
#include "xo/container/container_tools.h"
#include "xo/geometry/angle_type.h"
#include "xo/geometry/vec3.h"
#include "xo/geometry/quat.h"
#include "xo/shape/aabb.h"
#include "xo/time/time.h"
#include "xo/time/interval_checker.h"
#include "xo/utility/color.h"
#include "xo/utility/handle.h"
#include "xo/utility/index.h"
#include "xo/utility/irange.h"
#include "xo/utility/optional.h"
#include "xo/system/version.h"
#include "xo/filesystem/path.h"

using namespace xo;
using std::array;
#define F extern "C" __attribute__((used, visibility("default")))
#define OPS( N, T ) \
F bool N##_eq( const T& a, const T& b ) { return a == b; } F bool N##_ne( const T& a, const T& b ) { return a != b; }
#define LT( N, T ) F bool N##_lt( const T& a, const T& b ) { return a < b; }
#define CMP( N, T ) F bool N##_gt( const T& a, const T& b ) { return a > b; } F bool N##_le( const T& a, const T& b ) { return a <= b; } F bool N##_ge( const T& a, const T& b ) { return a >= b; }
// ---- comparison operators (G04)
OPS( version, version ) LT( version, version ) CMP( version, version )
OPS( index, index_class<int> ) LT( index, index_class<int> ) CMP( index, index_class<int> )
OPS( handle, handle<int> ) LT( handle, handle<int> )
OPS( time, xo::time ) LT( time, xo::time ) CMP( time, xo::time )
OPS( radian, radiand ) LT( radian, radiand ) CMP( radian, radiand )
OPS( degree, degreef ) LT( degree, degreef ) CMP( degree, degreef )
OPS( color, color ) LT( color, color )
OPS( vec3, vec3d )
OPS( quat, quatd )
OPS( path, path ) LT( path, path )
OPS( opti, xo::optional<int> ) OPS( optd, xo::optional<double> )
F bool version_atleast( const version& v, int a, int b, int c ) { return v.is_at_least( a, b, c ); }
F bool version_below( const version& v, int a, int b, int c ) { return v.is_below( a, b, c ); }
// ---- selection (G03)
#define SEL( N, T ) \
F const T* N##_min( const T& a, const T& b ) { return &xo::min( a, b ); } F const T* N##_max( const T& a, const T& b ) { return &xo::max( a, b ); } \
F const T* N##_min3( const T& a, const T& b, const T& c ) { return &xo::min( a, b, c ); } F const T* N##_max3( const T& a, const T& b, const T& c ) { return &xo::max( a, b, c ); } \
F T N##_abs( const T& a ) { return xo::abs( a ); } F T N##_sign( const T& a ) { return xo::sign( a ); } F int N##_signum( const T& a ) { return xo::signum( a ); } F bool N##_same_sign( const T& a, const T& b ) { return xo::same_sign( a, b ); } \
F void N##_smaller( T& a, const T& b ) { xo::set_if_smaller( a, b ); } F void N##_bigger( T& a, const T& b ) { xo::set_if_bigger( a, b ); } F bool N##_different( T& a, const T& b ) { return xo::set_if_different( a, b ); } \
F T* N##_clamp( T& a, const T& b, const T& c ) { return &xo::clamp( a, b, c ); } F T N##_clamped( const T& a, const T& b, const T& c ) { return xo::clamped( a, b, c ); } F bool N##_between( const T& a, const T& b, const T& c ) { return xo::is_between( a, b, c ); } \
F bool N##_b_within( const bounds<T>& b, const T& v ) { return b.is_within( v ); } F T N##_b_violation( const bounds<T>& b, const T& v ) { return b.get_violation( v ); } \
F void N##_b_check( const bounds<T>& b, const T& v, bool& ok, T& d ) { auto r = b.check( v ); ok = r.first; d = r.second; } \
F void N##_b_extend( bounds<T>& b, const T& v ) { b.extend( v ); } F void N##_b_extendb( bounds<T>& b, const bounds<T>& v ) { b.extend( v ); } \
F T* N##_b_clamp( const bounds<T>& b, T& v ) { return &b.clamp( v ); } F T N##_b_clamped( const bounds<T>& b, const T& v ) { return b.clamped( v ); } F bool N##_b_null( const bounds<T>& b ) { return b.is_null(); } F void N##_b_neg( const bounds<T>& b, bounds<T>& r ) { r = -b; } \
F T N##_minval( const array<T, 3>& v ) { return xo::min_value( v ); } F T N##_maxval( const array<T, 3>& v ) { return xo::max_value( v ); } \
F const T* N##_minel( const array<T, 3>& v ) { return xo::min_element( v ); } F const T* N##_maxel( const array<T, 3>& v ) { return xo::max_element( v ); }
SEL( d, double ) SEL( i, int ) SEL( f, float )
F double d_median3( array<double, 3>& v ) { return xo::median_non_const( v.begin(), v.end() ); }
F void aabb_addv( aabbd& b, const vec3d& v ) { b += v; }
F void aabb_addb( aabbd& b, const aabbd& v ) { b += v; }
F void aabb_init( aabbd& b ) { b = aabbd(); }
F void aabb_point( aabbd& b, const vec3d& v ) { b = aabbd( v ); }
F color* color_clamp( color& c, const float& l, const float& u ) { return &clamp( c, l, u ); }
F vec3d* vec3_clamp( vec3d& c, const double& l, const double& u ) { return &clamp( c, l, u ); }
F void time_distance( const xo::time& a, const xo::time& b, xo::time& r ) { r = distance( a, b ); }
F void rad_abs( const radiand& a, radiand& r ) { r = xo::abs( a ); }
F bool span_contains( const handle_span<int>& s, const handle<int>& h ) { return s.contains( h ); }
F bool span_beyond( const handle_span<int>& s, const handle<int>& h ) { return s.is_beyond( h ); }
F void bounds_inf( bounds<double>& b ) { b = bounds<double>::infinite(); }
F void bounds_pos( bounds<double>& b ) { b = bounds<double>::positive(); }
F void bounds_neg( bounds<double>& b ) { b = bounds<double>::negative(); }
F bool fle( const double& a, const double& b ) { return less_than_or_equal( a, b ); }
F bool fln( const double& a, const double& b ) { return less_than_not_equal( a, b ); }
F bool fge( const double& a, const double& b ) { return greater_than_or_equal( a, b ); }
F bool fgn( const double& a, const double& b ) { return greater_than_not_equal( a, b ); }
F bool feq( const double& a, const double& b ) { return equal( a, b ); }
F bool ic_check( interval_checker& c, const xo::time& t ) { return c.check( t ); }
F int opt_or( const xo::optional<int>& o, const int& d ) { return o.value_or( d ); }
F int count_eq( const array<int, 3>& v, int& e ) { return (int)xo::count( v, e ); }
F const int* find3( const array<int, 3>& v, const int& e ) { return &*xo::find( v, e ); }
F const int* find_index3( const array<int, 3>& v, const int& e, size_t& i ) { i = xo::find_index( v, e ); return 0; }
F bool contains3( const array<int, 3>& v, const int& e ) { return xo::contains( v, e ); }
