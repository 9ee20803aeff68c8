// Entry points for the analysis of dispatches over enumerations and variants.
#include "xo/xo_types.h"
#include "xo/utility/side.h"
#include "xo/geometry/quat.h"
#include "xo/system/log_level.h"
#include "xo/system/log_format.h"
#include "xo/shape/shape.h"
#include "xo/shape/shape_tools.h"
using namespace xo;
#define F extern "C" __attribute__((used, visibility("default")))
F int side_mirrored( int s ) { return int( mirrored( side( s ) ) ); }
F const char* side_text( int s ) { return side_postfix( side( s ) ); }
F int side_of( const string& s ) { return int( str_get_side( s ) ); }
F void euler_to( const vec3radd& a, int o, quat_<double>& r ) { r = quat_from_euler( a, euler_order( o ) ); }
F void euler_from( const quat_<double>& q, int o, vec3radd& r ) { r = euler_from_quat( q, euler_order( o ) ); }
F void euler_to_3( const radian_<double>& x, const radian_<double>& y, const radian_<double>& z, int o, quat_<double>& r ) { r = quat_from_euler( x, y, z, euler_order( o ) ); }
F string euler_name( euler_order o ) { return to_str( o ); }
F bool euler_parse( const string& s, euler_order& o ) { return from_str( s, o ); }
F void level_prefix( log::level l ) { log::get_log_prefix( log::format_flags(), l ); }
#define E( O ) F void euler_to_##O( const vec3radd& a, quat_<double>& r ) { r = quat_from_euler_##O( a ); } F void euler_from_##O( const quat_<double>& q, vec3radd& r ) { r = euler_##O##_from_quat( q ); }
E( xyz ) E( xzy ) E( yxz ) E( yzx ) E( zxy ) E( zyx )
