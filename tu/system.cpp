// Instantiates the serialization, system, thread and utility templates so that their bodies are analysed.
#include <map>
#include <tuple>
#include <string>
#include <vector>
#include <variant>
#include <functional>
#include "xo/xo_types.h"
#include "xo/system/assert.h"
#include "xo/numerical/constants.h"
#include "xo/numerical/math.h"
#include "xo/container/container_tools.h"
#include "xo/container/prop_node.h"
#include "xo/container/prop_node_tools.h"
#include "xo/filesystem/filesystem.h"
#include "xo/filesystem/path.h"
#include "xo/serialization/char_stream.h"
#include "xo/serialization/container_io.h"
#include "xo/serialization/serialize.h"
#include "xo/serialization/prop_node_serializer.h"
#include "xo/serialization/prop_node_serializer_ini.h"
#include "xo/serialization/prop_node_serializer_xml.h"
#include "xo/serialization/prop_node_serializer_zml.h"
#include "xo/string/dictionary.h"
#include "xo/string/pattern_matcher.h"
#include "xo/string/stack_string.h"
#include "xo/string/string_cast.h"
#include "xo/string/string_tools.h"
#include "xo/system/log.h"
#include "xo/system/log_sink.h"
#include "xo/system/profiler.h"
#include "xo/system/settings.h"
#include "xo/system/system_tools.h"
#include "xo/system/test_case.h"
#include "xo/system/type_class.h"
#include "xo/system/error_code.h"
#include "xo/thread/interruptible.h"
#include "xo/thread/stop_token.h"
#include "xo/thread/thread_priority.h"
#include "xo/time/date.h"
#include "xo/time/interval_checker.h"
#include "xo/time/stopwatch.h"
#include "xo/time/timer.h"
#include "xo/utility/arg_parser.h"
#include "xo/utility/cached_var.h"
#include "xo/utility/factory.h"
#include "xo/utility/file_resource_cache.h"
#include "xo/utility/hash.h"
#include "xo/utility/memoize.h"
#include "xo/utility/memory_tools.h"
#include "xo/utility/optional.h"
#include "xo/utility/overload.h"
#include "xo/utility/pointer_types.h"
#include "xo/utility/proxy.h"
#include "xo/utility/result.h"
#include "xo/utility/smart_enum.h"
#include "xo/utility/variant_cast.h"

using namespace xo;
struct tu_base { virtual ~tu_base() {} };
struct tu_derived : tu_base { tu_derived( const prop_node& ) {} };
struct tu_resource { tu_resource( const path& ) {} std::vector<int> data; };
struct tu_interrupt : interruptible {};
template class xo::factory<tu_base, const prop_node&>;
using tu_factory = xo::factory<tu_base, const prop_node&>;
template class xo::factory_registrant<tu_factory, tu_derived>;
template struct xo::memoize<double( int, double )>;
template struct xo::memoize_thread_safe<double( int, double )>;
template struct xo::file_resource_cache<tu_resource, xo::path>;
template class xo::dictionary<int>;
template struct xo::result<std::string>;
template struct xo::result<int>;
template struct xo::cached_var<double, double>;
xo_smart_enum_class( tu_enum, one, two, three );

void tu_use_factory( tu_factory& f, const prop_node& pn ) {
	f.register_type<tu_derived>( "a" ); auto r = make_factory_registrant<tu_derived>( f, "b" ); find_factory_prop_node( f, pn ); f.create( "a", pn ); f.try_create( "a", pn );
	u_ptr<tu_base> p = f.create( "a", pn ); auto q = try_dynamic_unique_cast<tu_derived>( p ); auto s = dynamic_unique_cast<tu_derived>( std::move( p ) );
	auto c = clone( q ); std::vector<u_ptr<tu_derived>> v; auto w = clone( v ); dereference_or_throw( q.get(), "x" ); const tu_derived* cq = q.get(); dereference_or_throw( cq, "x" );
}
void tu_string( const std::string& s, std::vector<std::string>& v, tu_enum e, date d, std::istream& is, std::pair<int, int>& pr, std::vector<int>& vi ) {
	to_str( v ); from_str( s, e ); to_str( e ); to_str( d ); from_str( s, d ); is >> e; lookup<int>( s, { { "a", 1 }, { "b", 2 } } ); make_dictionary<int>( { { 1, "a" } } )( 1 );
	pattern_matcher pm( s ); pm.match( s ); pm.str(); is_pattern( s ); stack_string ss; ss.set( s ); ss.push_back( s ); ss.pop_back(); using xo::operator>>; is >> pr; is >> vi; read_data<std::vector<int>>( path( s ) );
	hash( s ); get_type_class<int>(); concat_str( v, "," ); result<std::string> r( s ); bool b = r.has_value(); error_message m; m.append( m ); stringf( "%d", 3 );
}
void tu_stream( char_stream& c, std::string& s ) {
	float f; double d; long l; long long ll; unsigned long ul; unsigned long long ull; int i; unsigned u; short sh; unsigned short us; optional<double> od; optional<int> oi; optional<float> of;
	c >> f >> d >> l >> ll >> ul >> ull >> i >> u >> sh >> us >> s; c >> od; c >> oi; c >> of; c.get_line(); c.get_token(); c.getc(); c.peekc(); c.seek( s ); c.seek_past( s ); c.try_get( s ); c.try_get( 'c' ); c.good(); c.eof(); c.fail(); c.line_number();
}
void tu_log( const std::string& s, int i, double d ) {
	log::trace( s, i ); log::debug( s, d ); log::info( s, i, d ); log::warning( s ); log::error( s, i ); log::critical( s ); log::message( log::level::info, s ); log::message( log::level::error, s );
}
void tu_settings( settings& s, const settings& c ) {
	s.set<int>( "a", 1 ); s.set<double>( "b", 2 ); s.set<std::string>( "c", "d" ); s.set<bool>( "e", true ); c.get<int>( "a" ); c.get<double>( "b" ); c.get<std::string>( "c" ); c.get<bool>( "d" );
}
void tu_misc( stop_source& s, const tu_interrupt& t, profiler& p, timer& tm, stopwatch& sw, xo::time ti, int argc, const char** argv, const std::variant<int, double>& vr ) {
	stop_token k = s.get_token(); k.stop_requested(); k.stop_possible(); s.request_stop(); s.stop_requested(); s.stop_possible(); t.interrupt(); t.test_interrupt_flag();
	{ scoped_profiler_section sec( "a", p ); } { scoped_timer_starter st( tm ); } sw.split( "a" ); sw.reserve( 3 ); sw.clear(); sw.restart(); interval_checker ic( ti ); ic.check( ti );
	arg_parser ap( argc, argv ); ap.find_flag( "a" ); ap.has_flag( "a" ); ap.get<int>( "a", 1 ); ap.get<int>( index_t( 0 ), 1 ); ap.arg( 0 ); variant_cast<std::variant<int, double, float>>( vr );
	cached_var<double, double> cv( 0.0 ); cv( 1.0, []() { return 2.0; } ); test::test_result tr; tr += tr; tr.success();
	memoize<int( int )> mm( []( int i ) { return i; } ); mm( 2 ); mm.size(); scoped_thread_priority tp( thread_priority::normal );
}
