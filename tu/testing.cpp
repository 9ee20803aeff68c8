// Entry points for the analysis of the test runner: test functions whose steps are chosen by the analysis.
#include "xo/system/test_case.h"
#include "xo/container/vector_type.h"
#include "xo/utility/pointer_types.h"
#include <exception>
#include <new>
using namespace xo;
#define F extern "C" __attribute__((used, visibility("default")))
extern "C" int next_step( const test::test_case* tc );
namespace xo::test { vector< u_ptr< test_case > >& get_test_cases(); }
struct failure : std::exception { const char* text; failure( const char* t ) : text( t ) {} const char* what() const noexcept override { return text; } };
struct derived_failure : failure { derived_failure() : failure( "derived" ) {} };
static bool raise( const char* t ) { throw failure( t ); }
static void steps( test::test_case& XO_ACTIVE_TEST_CASE )
{
	for ( ;; ) switch ( next_step( &XO_ACTIVE_TEST_CASE ) )
	{
	case 1: XO_ACTIVE_TEST_CASE.check( true, "c" ); break;
	case 2: XO_ACTIVE_TEST_CASE.check( false, "c" ); break;
	case 3: XO_CHECK( true ); break;
	case 4: XO_CHECK( false ); break;
	case 5: XO_CHECK( raise( "in check" ) ); break;
	case 6: XO_CHECK_MESSAGE( true, "m" ); break;
	case 7: XO_CHECK_MESSAGE( false, "m" ); break;
	case 8: XO_CHECK_MESSAGE( raise( "in check" ), "m" ); break;
	case 9: throw failure( "thrown" );
	case 10: throw derived_failure();
	case 11: throw failure( "" );
	case 12: throw 1;
	default: return;
	}
}
F void test_add( const string& name ) { test::add_test_case( name, steps ); }
F int test_run() { return test::run_tests(); }
F int test_run_async() { return test::run_tests_async(); }
F long test_count() { return test::get_test_cases().size(); }
F const test::test_case* test_get( long i ) { return test::get_test_cases()[ i ].get(); }
F const test::test_result* test_single( long i ) { return &test::get_test_cases()[ i ]->run(); }
F bool res_success( const test::test_result& r ) { return r.success(); }
F int res_checks( const test::test_result& r ) { return r.checks_; }
F int res_passed( const test::test_result& r ) { return r.passed_; }
F int res_failed( const test::test_result& r ) { return r.failed_; }
F void res_new( void* p ) { new ( p ) test::test_result(); }
F void res_add( test::test_result& a, const test::test_result& b ) { a += b; }
F void res_set( test::test_result& r, int checks, int passed, int failed, const string& error ) { r.checks_ = checks; r.passed_ = passed; r.failed_ = failed; r.error_ = error; }
