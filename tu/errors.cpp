// Entry points for the analysis of error reporting.
#include "xo/system/error_code.h"
#include "xo/system/debug_storage.h"
#define F extern "C" __attribute__((used, visibility("default"))) void
F ec_bad( const xo::error_code& e, bool& r ) { r = e.bad(); }
F ec_good( const xo::error_code& e, bool& r ) { r = e.good(); }
F ec_code( const xo::error_code& e, int& r ) { r = e.code(); }
F ec_message( const xo::error_code& e, const xo::string*& r ) { r = &e.message(); }
F wf( const xo::path& p, float a, float b ) { xo::write_function<float>( p, a, b, []( float x ) { return x; } ); }
