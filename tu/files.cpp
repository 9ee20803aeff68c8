// Entry points for the analysis of file formats, their readers and writers, and file inclusion.
#include "xo/container/prop_node.h"
#include "xo/filesystem/path.h"
#include "xo/serialization/serialize.h"
#include "xo/serialization/prop_node_serializer_zml.h"
#include "xo/system/error_code.h"
#include <istream>
#include <new>
using namespace xo;
#define F extern "C" __attribute__((used, visibility("default")))
F void node_new( void* p ) { new ( p ) prop_node(); }
F prop_node* node_add( prop_node& p, const string& label, const string& value ) { auto& c = p.add_child( label ); c.set_value( string( value ) ); return &c; }
F long node_size( const prop_node& n ) { return n.size(); }
F const prop_node* node_child( const prop_node& n, long i ) { return &n.get_child( index_t( i ) ); }
F const string* node_key( const prop_node& n, long i ) { return &n.get_key( index_t( i ) ); }
F const string* node_value( const prop_node& n ) { return &n.get_str(); }
F void node_copy( void* p, const prop_node& n ) { new ( p ) prop_node( n ); }
F void ec_new( void* p ) { new ( p ) error_code(); }
F bool ec_bad( const error_code& e ) { return e.bad(); }
F void zml_load( void* r, const string& file, error_code* ec ) { new ( r ) prop_node( load_zml( path( file ), ec ) ); }
F void any_load( void* r, const string& file, error_code* ec ) { new ( r ) prop_node( load_file( path( file ), ec ) ); }
F void typed_load( void* r, const string& file, const string& type, error_code* ec ) { new ( r ) prop_node( load_file( path( file ), type, ec ) ); }
F bool any_save( const prop_node& n, const string& file, error_code* ec ) { return save_file( n, path( file ), ec ); }
F bool typed_save( const prop_node& n, const string& file, const string& type, error_code* ec ) { return save_file( n, path( file ), type, ec ); }
F void include_load( void* r, const string& file ) { new ( r ) prop_node( load_file_with_include( path( file ) ) ); }
F prop_node_serializer* ser_make( const string& type, prop_node& n, error_code* ec ) { return make_serializer( type, n, ec, path( "folder" ) ).release(); }
F prop_node_serializer* ser_make_const( const string& type, const prop_node& n, error_code* ec ) { return make_serializer( type, n, ec, path( "folder" ) ).release(); }
F prop_node_serializer* ser_create( const string& type ) { return get_serializer_factory().try_create( type ).release(); }
F void ser_read( prop_node_serializer& s, std::istream& str ) { str >> s; }
F void ser_write( const prop_node_serializer& s, std::ostream& str ) { str << s; }
F prop_node* ser_read_target( prop_node_serializer& s ) { return s.read_pn_; }
F const prop_node* ser_write_source( prop_node_serializer& s ) { return s.write_pn_; }
F error_code* ser_error( prop_node_serializer& s ) { return s.ec_; }
F void ser_set( prop_node_serializer& s, prop_node* r, const prop_node* w, error_code* ec ) { s.read_pn_ = r; s.write_pn_ = w; s.ec_ = ec; }
