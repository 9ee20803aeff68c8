// Entry points for the formula analyses: one function per arithmetic operation, on references to unknown objects.
#include <array>
#include <string>
#include <vector>
#include <algorithm>
#include "xo/xo_types.h"
#include "xo/numerical/math.h"
#include "xo/numerical/compare.h"
#include "xo/numerical/bounds.h"
#include "xo/numerical/interpolation.h"
#include "xo/numerical/polynomial.h"
#include "xo/numerical/regression.h"
#include "xo/geometry/vec3.h"
#include "xo/geometry/vec4.h"
#include "xo/geometry/scale3.h"
#include "xo/geometry/quat.h"
#include "xo/geometry/mat33.h"
#include "xo/geometry/transform.h"
#include "xo/geometry/angle.h"
#include "xo/geometry/line.h"
#include "xo/geometry/segment.h"
#include "xo/geometry/catmull_rom.h"
#include "xo/shape/shape.h"
#include "xo/shape/shape_tools.h"
#include "xo/utility/color.h"
#include "xo/time/time.h"
#include "xo/numerical/average.h"
#include "xo/numerical/filter.h"
#include "xo/numerical/filter_1st_order.h"
#include "xo/numerical/functions.h"
#include "xo/numerical/delta.h"
#include "xo/numerical/piecewise_linear_function.h"
#include "xo/numerical/piecewise_constant_function.h"

using namespace xo;
#define F extern "C" __attribute__((used, visibility("default"))) void
using D = double; using V = vec3d; using W = vec4d; using S = scale3d; using Q = quatd; using X = transformd; using C = color; using R = radiand; using G = degreed; using M = mat33d;
// ---- element-wise vectors (G01)
F v3_add( const V& a, const V& b, V& r ) { r = a + b; } F v3_iadd( V& r, const V& b ) { r += b; } F v3_sub( const V& a, const V& b, V& r ) { r = a - b; } F v3_isub( V& r, const V& b ) { r -= b; }
F v3_neg( const V& a, V& r ) { r = -a; } F v3_imul( V& r, const D& s ) { r *= s; } F v3_smul( const D& s, const V& a, V& r ) { r = s * a; } F v3_muls( const V& a, const D& s, V& r ) { r = a * s; }
F v3_divs( const V& a, const D& s, V& r ) { r = a / s; } F v3_idivs( V& r, const D& s ) { r /= s; } F v3_divn( const V& a, const size_t& s, V& r ) { r = a / s; } F v3_idivn( V& r, const size_t& s ) { r /= s; }
F v3_sdiv( const D& s, const V& a, V& r ) { r = s / a; } F v3_imulv( V& r, const V& b ) { r *= b; } F v3_divv( const V& a, const V& b, V& r ) { r = a / b; } F v3_idivv( V& r, const V& b ) { r /= b; }
F v3_multiply( const V& a, const V& b, V& r ) { r = multiply( a, b ); } F v3_scale( V& r, const V& b ) { scale( r, b ); } F v3_scaled( const V& a, const V& b, V& r ) { r = scaled( a, b ); }
F v3_length( const V& a, D& r ) { r = length( a ); } F v3_sqlen( const V& a, D& r ) { r = squared_length( a ); } F v3_manh( const V& a, D& r ) { r = manhattan_length( a ); } F v3_dist( const V& a, const V& b, D& r ) { r = distance( a, b ); } F v3_sqdist( const V& a, const V& b, D& r ) { r = squared_distance( a, b ); }
F v3_abs( const V& a, V& r ) { r = abs( a ); } F v3_dot( const V& a, const V& b, D& r ) { r = dot_product( a, b ); } F v3_cross( const V& a, const V& b, V& r ) { r = cross_product( a, b ); } F v3_proj( const V& a, const V& b, V& r ) { r = projection( a, b ); }
F v3_pxy( const V& a, V& r ) { r = projected_xy( a ); } F v3_pxz( const V& a, V& r ) { r = projected_xz( a ); } F v3_pyz( const V& a, V& r ) { r = projected_yz( a ); }
F v3_set( V& r, const D& a, const D& b, const D& c ) { r.set( a, b, c ); } F v3_ctor( V& r, const D& a, const D& b, const D& c ) { r = V( a, b, c ); } F v3_clear( V& r ) { r.clear(); } F v3_zero( V& r ) { r = V::zero(); } F v3_one( V& r ) { r = V::one(); }
F v3_ux( V& r ) { r = V::unit_x(); } F v3_uy( V& r ) { r = V::unit_y(); } F v3_uz( V& r ) { r = V::unit_z(); } F v3_nx( V& r ) { r = V::neg_unit_x(); } F v3_ny( V& r ) { r = V::neg_unit_y(); } F v3_nz( V& r ) { r = V::neg_unit_z(); } F v3_diag( V& r, const D& s ) { r = V::diagonal( s ); } F v3_axis0( V& r ) { r = V::axis( 0 ); } F v3_axis1( V& r ) { r = V::axis( 1 ); } F v3_axis2( V& r ) { r = V::axis( 2 ); }
F v3_fromf( const vec3f& a, V& r ) { r = V( a ); } F v3_norm( const V& a, V& r ) { r = normalized( a ); } F v3_inorm( V& r, D& l ) { l = normalize( r ); } F v3_dirlen( const V& a, V& r, D& l ) { auto p = direction_length( a ); r = p.first; l = p.second; }
F v3_value( const vec3radd& a, V& r ) { r = value( a ); } F v3_polar( const D& s, const R& a, const R& b, V& r ) { r = vec3_from_polar( s, a, b ); } F v3_begin( V& a, V& r ) { auto it = a.begin(); r.x = *it++; r.y = *it++; r.z = *it; }
F v3_idx0( const V& a, D& r ) { r = a[0]; } F v3_idx1( const V& a, D& r ) { r = a[1]; } F v3_idx2( const V& a, D& r ) { r = a[2]; }
F v4_add( const W& a, const W& b, W& r ) { r = a + b; } F v4_iadd( W& r, const W& b ) { r += b; } F v4_sub( const W& a, const W& b, W& r ) { r = a - b; } F v4_isub( W& r, const W& b ) { r -= b; } F v4_neg( const W& a, W& r ) { r = -a; } F v4_smul( const D& s, const W& a, W& r ) { r = s * a; }
F v4_muls( const W& a, const D& s, W& r ) { r = a * s; } F v4_imuls( W& r, const D& s ) { r *= s; } F v4_divs( const W& a, const D& s, W& r ) { r = a / s; } F v4_idivs( W& r, const D& s ) { r /= s; } F v4_len( const W& a, D& r ) { r = a.length(); } F v4_sqlen( const W& a, D& r ) { r = a.squared_length(); }
F v4_ux( W& r ) { r = W::unit_x(); } F v4_uy( W& r ) { r = W::unit_y(); } F v4_uz( W& r ) { r = W::unit_z(); } F v4_uw( W& r ) { r = W::unit_w(); } F v4_zero( W& r ) { r = W::zero(); }
F s3_mulv( const S& a, const V& b, V& r ) { r = a * b; } F s3_vmul( const V& a, const S& b, V& r ) { r = a * b; } F s3_mul( const S& a, const S& b, S& r ) { r = a * b; } F s3_ivmul( V& r, const S& b ) { r *= b; } F s3_imul( S& r, const S& b ) { r *= b; } F s3_vdiv( const V& a, const S& b, V& r ) { r = a / b; } F s3_div( const S& a, const S& b, S& r ) { r = a / b; } F s3_ivdiv( V& r, const S& b ) { r /= b; } F s3_idiv( S& r, const S& b ) { r /= b; } F s3_set( S& r, const D& a, const D& b, const D& c ) { r.set( a, b, c ); } F s3_reset( S& r ) { r.reset(); } F s3_uni( V& r, const D& s ) { r = S::uniform( s ); } F s3_ctor( S& r ) { r = S(); } F s3_ctor1( S& r, const D& s ) { r = S( s ); }
F c_mul( const float& s, const C& a, C& r ) { r = s * a; } F c_muls( const C& a, const float& s, C& r ) { r = a * s; } F c_add( const C& a, const C& b, C& r ) { r = a + b; } F c_sub( const C& a, const C& b, C& r ) { r = a - b; } F c_ctor( const float& a, const float& b, const float& c, const float& s, C& r ) { r = C( a, b, c, s ); } F c_ctord( const D& a, const D& b, const D& c, const D& s, C& r ) { r = C( a, b, c, s ); } F c_def( C& r ) { r = C(); } F c_red( const float& s, C& r ) { r = C::red( s ); } F c_green( const float& s, C& r ) { r = C::green( s ); } F c_blue( const float& s, C& r ) { r = C::blue( s ); } F c_white( const float& s, C& r ) { r = C::white( s ); } F c_yellow( const float& s, C& r ) { r = C::yellow( s ); } F c_cyan( const float& s, C& r ) { r = C::cyan( s ); } F c_magenta( const float& s, C& r ) { r = C::magenta( s ); } F c_null( C& r ) { r = C::null(); }
F q_scale( Q& r, const D& s ) { r *= s; } F q_len( const Q& a, D& r ) { r = length( a ); } F q_sqlen( const Q& a, D& r ) { r = squared_length( a ); } F q_lenxyz( const Q& a, D& r ) { r = length_xyz( a ); } F q_set( Q& r, const D& a, const D& b, const D& c, const D& s ) { r.set( a, b, c, s ); } F q_id( Q& r ) { r = Q::identity(); } F q_def( Q& r ) { r = Q(); } F q_fromf( const quatf& a, Q& r ) { r = Q( a ); }
F a_add( const R& a, const R& b, R& r ) { r = a + b; } F a_sub( const R& a, const R& b, R& r ) { r = a - b; } F a_neg( const R& a, R& r ) { r = -a; } F a_muls( const R& a, const D& s, R& r ) { r = a * s; } F a_smul( const D& s, const R& a, R& r ) { r = s * a; } F a_divs( const R& a, const D& s, R& r ) { r = a / s; } F a_imul( R& r, const D& s ) { r *= s; } F a_idiv( R& r, const D& s ) { r /= s; } F a_iadd( R& r, const R& b ) { r += b; } F a_isub( R& r, const R& b ) { r -= b; }
F a_todeg( const R& a, G& r ) { r = G( a ); } F a_torad( const G& a, R& r ) { r = R( a ); } F a_degval( const R& a, D& r ) { r = a.deg_value(); } F a_radval( const G& a, D& r ) { r = a.rad_value(); } F a_r2d( const D& a, D& r ) { r = rad_to_deg( a ); } F a_d2r( const D& a, D& r ) { r = deg_to_rad( a ); }
F m_inv( const D& a, D& r ) { r = inv( a ); } F m_sq( const D& a, D& r ) { r = squared( a ); } F m_cub( const D& a, D& r ) { r = cubed( a ); } F m_mid( const D& a, const D& b, D& r ) { r = midpoint( a, b ); } F m_pow3( const D& a, D& r ) { r = power<3>( a ); } F m_pown2( const D& a, D& r ) { r = power<-2>( a ); } F m_pow0( const D& a, D& r ) { r = power<0>( a ); } F m_invsqrt( const D& a, D& r ) { r = invsqrt( a ); } F b_len( const bounds<D>& a, D& r ) { r = a.length(); } F b_center( const bounds<D>& a, D& r ) { r = a.center(); }
// ---- shapes (G02)
#define SHAPE( N, T ) F N##_volume( const T& a, float& r ) { r = volume( a ); } F N##_scale( T& a, const float& s ) { scale( a, s ); } F N##_scalev( T& a, const vec3f& s ) { scale( a, s ); }
SHAPE( sphere, sphere ) SHAPE( box, box ) SHAPE( cyl, cylinder ) SHAPE( cap, capsule ) SHAPE( cone, cone ) SHAPE( plane, plane )
#define DIM( N, T ) F N##_dim( const T& a, vec3f& r ) { r = dim( a ); }
DIM( sphere, sphere ) DIM( box, box ) DIM( cyl, cylinder ) DIM( cone, cone ) DIM( cap, capsule )
#define INERTIA( N, T ) F N##_inertia( const T& a, const float& s, vec3f& r ) { r = inertia( a, s ); }
INERTIA( sphere, sphere ) INERTIA( box, box ) INERTIA( cyl, cylinder ) INERTIA( cap, capsule ) INERTIA( plane, plane )
#define DIST( N, T ) F N##_dist( const T& a, const vec3f& b, float& r ) { r = distance_from_center( a, b ); }
DIST( sphere, sphere ) DIST( box, box ) DIST( cyl, cylinder ) DIST( cap, capsule )
F sphere_aabb( const sphere& a, const transformf& t, aabbf& r ) { r = aabb( a, t ); }
F box_corners( const box& a, vec3f* r ) { auto c = corners( a ); for ( int i = 0; i < 8; ++i ) r[i] = c[i]; }
F box_make( const float& a, const float& b, const float& c, box& r ) { r = make_box( a, b, c ); }
F cap_centers( const capsule& a, const transformf& t, vec3f& r, vec3f& s ) { auto p = center_positions( a, t ); r = p.first; s = p.second; }
F plane_hit( const line_<float>& l, const plane& a, const transformf& t, vec3f& r ) { r = intersection( l, a, t ); }
F seg_dist( const V& a, const segment_<D>& b, D& r ) { r = distance( a, b ); }
F line_closest( const line_<D>& a, const line_<D>& b, V& r, V& s ) { auto p = closest_points( a, b ); r = p.first; s = p.second; }
F line_dist( const line_<D>& a, const line_<D>& b, D& r ) { r = distance( a, b ); }
// ---- rotations and transforms (N02)
F q_mul( const Q& a, const Q& b, Q& r ) { r = a * b; } F q_imul( Q& r, const Q& b ) { r *= b; } F q_rot( const Q& a, const V& b, V& r ) { r = a * b; } F q_conj( const Q& a, Q& r ) { r = conjugate( a ); } F q_neg( const Q& a, Q& r ) { r = -a; } F q_inv( const Q& a, Q& r ) { r = inverse( a ); } F q_pos( const Q& a, Q& r ) { r = positive( a ); } F q_norm( const Q& a, Q& r ) { r = normalized( a ); } F q_normfast( const Q& a, Q& r ) { r = normalized_fast( a ); } F q_normtry( const Q& a, Q& r ) { r = normalized_try_fast( a ); }
F q_axang( const V& a, const R& b, Q& r ) { r = quat_from_axis_angle( a, b ); } F q_axangd( const V& a, const G& b, Q& r ) { r = quat_from_axis_angle( a, b ); } F q_rv( const V& a, Q& r ) { r = quat_from_rotation_vector( a ); } F q_dirs( const V& a, const V& b, Q& r ) { r = quat_from_directions( a, b ); } F q_quats( const Q& a, const Q& b, Q& r ) { r = quat_from_quats( a, b ); }
F q_torv( const Q& a, V& r ) { r = rotation_vector_from_quat( a ); } F q_torva( const Q& a, V& r, R& s ) { auto p = rotation_vector_angle_from_quat( a ); r = p.first; s = p.second; } F q_toaa( const Q& a, V& r, R& s ) { auto p = axis_angle_from_quat( a ); r = p.first; s = p.second; }
F q_lx( const Q& a, V& r ) { r = local_x_axis( a ); } F q_ly( const Q& a, V& r ) { r = local_y_axis( a ); } F q_lz( const Q& a, V& r ) { r = local_z_axis( a ); } F q_axes( const Q& a, V& r, V& s, V& t ) { auto p = axes_from_quat( a ); r = p.x; s = p.y; t = p.z; }
F q_fx( const R& a, Q& r ) { r = quat_from_x_angle( a ); } F q_fy( const R& a, Q& r ) { r = quat_from_y_angle( a ); } F q_fz( const R& a, Q& r ) { r = quat_from_z_angle( a ); } F q_fxd( const G& a, Q& r ) { r = quat_from_x_angle( a ); } F q_fyd( const G& a, Q& r ) { r = quat_from_y_angle( a ); } F q_fzd( const G& a, Q& r ) { r = quat_from_z_angle( a ); }
#define EUL( O ) F q_fe_##O( const vec3radd& a, Q& r ) { r = quat_from_euler( a, euler_order::O ); } F q_te_##O( const Q& a, vec3radd& r ) { r = euler_from_quat( a, euler_order::O ); }
EUL( xyz ) EUL( xzy ) EUL( yxz ) EUL( yzx ) EUL( zxy ) EUL( zyx )
F q_rax( const Q& a, D& r ) { r = rotation_around_x( a ).value; } F q_ray( const Q& a, D& r ) { r = rotation_around_y( a ).value; } F q_raz( const Q& a, D& r ) { r = rotation_around_z( a ).value; } F q_ra( const Q& a, const V& b, D& r ) { r = rotation_around_axis( a, b ).value; } F q_raxyz( const Q& a, vec3radd& r ) { r = rotation_around_xyz( a ); }
F m_q( const M& a, Q& r ) { r = quat_from_mat33( a ); } F m_axes( const V& a, const V& b, const V& c, M& r ) { r = mat33_from_axes( a, b, c ); } F m_diag( const V& a, M& r ) { r = mat33_from_diagonal( a ); }
F t_mul( const X& a, const X& b, X& r ) { r = a * b; } F t_imul( X& r, const X& b ) { r *= b; } F t_trans( const X& a, const X& b, X& r ) { r = a.trans( b ); } F t_inv( const X& a, X& r ) { r = a.inv(); } F t_invt( const X& a, const X& b, X& r ) { r = a.inv_trans( b ); } F t_v( const X& a, const V& b, V& r ) { r = a * b; } F t_tv( const X& a, const V& b, V& r ) { r = a.trans( b ); } F t_itv( const X& a, const V& b, V& r ) { r = a.inv_trans( b ); } F t_q( const X& a, const Q& b, Q& r ) { r = a * b; } F t_tq( const X& a, const Q& b, Q& r ) { r = a.trans( b ); } F t_itq( const X& a, const Q& b, Q& r ) { r = a.inv_trans( b ); } F t_id( X& r ) { r = X::identity(); } F t_pos( const V& a, X& r ) { r = X( a ); } F t_ori( const Q& a, X& r ) { r = X( a ); } F t_def( X& r ) { r = X(); }
// ---- interpolation and fitting (N03)
F n_lerp( const D& a, const D& b, const D& t, D& r ) { r = lerp( a, b, t ); } F n_lerpp( const D& a, const D& b, const D& t, D& r ) { r = lerp_precise( a, b, t ); } F n_lerpv( const V& a, const V& b, const D& t, V& r ) { r = lerp( a, b, t ); }
F n_cr( const D& a, const D& b, const D& c, const D& d, const D& t, D& r ) { r = catmull_rom_segment<D>( a, b, c, d )( t ); }
F n_lin( const D& a, const D& b, const D& t, D& r ) { r = linear_function<D>( a, b )( t ); } F n_quad( const D& a, const D& b, const D& c, const D& t, D& r ) { r = quadratic_function<D>( a, b, c )( t ); } F n_cubic( const D& a, const D& b, const D& c, const D& d, const D& t, D& r ) { r = cubic_function<D>( a, b, c, d )( t ); } F n_icy( const D& a, const D& b, const D& t, D& r ) { r = intersect_y( linear_function<D>( a, b ), t ); }
using VI = __gnu_cxx::__normal_iterator<const double*, std::vector<double>>;
struct It : VI { using value_type = double; using VI::VI; It( const double* p ) : VI( p ) {} };
F n_reg( const std::array<D, 3>& a, const std::array<D, 3>& b, D& r, D& s ) { auto f = linear_regression( VI( a.data() ), VI( a.data() + 3 ), VI( b.data() ), VI( b.data() + 3 ) ); r = f.offset(); s = f.slope(); }
F n_regs( const std::array<D, 4>& a, const D& b, const D& c, D& r, D& s ) { auto f = linear_regression( a, b, c ); r = f.offset(); s = f.slope(); }
F n_avg( const std::array<D, 3>& a, D& r ) { r = average( a ); } F n_meanvar( const std::array<D, 3>& a, D& r, D& s ) { auto p = mean_var( a ); r = p.first; s = p.second; } F n_meanstd( const std::array<D, 3>& a, D& r, D& s ) { auto p = mean_std( a ); r = p.first; s = p.second; } F n_acc( const std::array<D, 3>& a, const D& b, D& r ) { r = xo::accumulate( a, b ); }
F n_lspan( const std::array<D, 3>& a, const D& t, D& r ) { r = lerp_span( a.data(), a.data() + 3, t ); }
using IIR = iir_filter<D, 2>; using LP = filter_1st_order<D, D>; using AV = average_<D>; using DE = delta<D>; using PL = piecewise_linear_function<D>; using PC = piecewise_constant_function<D>;
F n_iir( IIR& a, const D& b, D& r ) { r = a( b ); } F n_butter( const D& a, IIR& r ) { r = make_lowpass_butterworth_2nd_order<D>( a ); } F n_lpa( LP& a, const D& b, const D& c, D& r ) { r = a.update_accurate( b, c ); } F n_lpf( LP& a, const D& b, const D& c, D& r ) { r = a.update_fast( b, c ); } F n_lpc( LP& a, const D& b, const D& c, D& r ) { r = a( b, c ); }
F n_jerk( const D& a, D& r ) { r = minimum_jerk( a ); } F n_delta( DE& a, const D& b, D& r ) { r = a( b ); } F n_avadd( AV& a, const D& b, const D& c ) { a.add( b, c ); } F n_avadd1( AV& a, const D& b ) { a.add( b ); } F n_avget( AV& a, D& r ) { r = a.get(); } F n_avreset( AV& a ) { a.reset(); }
F n_pwl( const PL& a, const D& b, D& r ) { r = a( b ); } F n_pwc( const PC& a, const D& b, D& r ) { r = a( b ); }
F n_cra( const D& a, const D& b, const D& c, const D& d, const D& t, D& r ) { r = catmull_rom_segment<D>( a, b, c, d )( t ); }
// ---- time arithmetic
F tm_add( const xo::time& a, const xo::time& b, xo::time& r ) { r = a + b; } F tm_sub( const xo::time& a, const xo::time& b, xo::time& r ) { r = a - b; } F tm_iadd( xo::time& r, const xo::time& b ) { r += b; } F tm_isub( xo::time& r, const xo::time& b ) { r -= b; }
