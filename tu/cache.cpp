// Entry points for the analysis of the resource cache and of memoized functions.
#include <map>
#include <tuple>
#include <functional>
#include "xo/system/assert.h"
#include "xo/filesystem/path.h"
#include "xo/filesystem/filesystem.h"
#include "xo/utility/file_resource_cache.h"
#include "xo/utility/memoize.h"
#include <new>
using namespace xo;
#define F extern "C" __attribute__((used, visibility("default")))
// makes the resource: 0 = failure without an exception; may throw
extern "C" int make( int what );
extern "C" int make2( int a, int b );
struct resource { int version; resource( int v ) : version( v ) {} resource( const path& p ) : version( make( p.str().size() ) ) {} };
using cache = file_resource_cache< resource, path >;
F void cache_new( void* p ) { new ( p ) cache( []( const path& f ) -> resource* { int v = make( f.str().size() ); return v ? new resource( v ) : nullptr; } ); }
F void cache_default( void* p ) { new ( p ) cache(); }
F int cache_get( cache& c, const path& f ) { auto r = c( f ); return r ? r->version : -1; }
F void make_path( void* p, const string& s ) { new ( p ) path( s ); }
using memo = memoize< int( int, int ) >;
F void memo_new( void* p ) { new ( p ) memo( make2 ); }
F int memo_get( memo& m, int a, int b ) { return m( a, b ); }
F long memo_size( memo& m ) { return m.size(); }
using safe = memoize_thread_safe< int( int, int ) >;
F void safe_new( void* p ) { new ( p ) safe( make2 ); }
F int safe_get( safe& m, int a, int b ) { return m( a, b ); }
F long safe_size( safe& m ) { return m.size(); }
