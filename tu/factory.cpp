// Entry points for the analysis of factories.
#include "xo/utility/factory.h"
#include <new>
using namespace xo;
#define F extern "C" __attribute__((used, visibility("default")))
extern "C" void made( int kind, int arg );
struct product { virtual ~product() {} };
template< int N > struct kind : product { kind( int a ) { made( N, a ); } };
using fac = factory< product, int >;
F void fac_new( void* p ) { new ( p ) fac(); }
F void fac_delete( void* p ) { static_cast<fac*>( p )->~fac(); }
F void fac_register_1( fac& f, const string& n ) { f.register_type< kind<1> >( n ); }
F void fac_register_2( fac& f, const string& n ) { f.register_type< kind<2> >( n ); }
F void fac_unregister( fac& f, const string& n ) { f.unregister_type( n ); }
F bool fac_create( fac& f, const string& n, int a ) { return bool( f.create( n, a ) ); }
F bool fac_try( fac& f, const string& n, int a ) { return bool( f.try_create( n, a ) ); }
F bool fac_has( const fac& f, const string& n ) { return f.has_type( n ); }
F bool fac_empty( const fac& f ) { return f.empty(); }
F long fac_size( const fac& f ) { return f.end() - f.begin(); }
using reg = factory_registrant< fac, kind<3> >;
F void reg_new( void* p, fac& f, const string& n ) { new ( p ) reg( f, n ); }
F void reg_delete( void* p ) { static_cast<reg*>( p )->~reg(); }
F void reg_make( void* p, fac& f, const string& n ) { new ( p ) reg( make_factory_registrant< kind<3> >( f, n ) ); }
