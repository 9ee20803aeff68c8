// Entry points for the analysis of text scanning and quoting.
#include "xo/string/string_tools.h"
#include "xo/serialization/char_stream.h"
using namespace xo;
#define F extern "C" __attribute__((used, visibility("default")))
F void text_token( const char* s, string& out ) { char_stream str( s ); out = str.get_token(); }
F void text_token_own( string& s, string& out ) { char_stream str( std::move( s ) ); out = str.get_token(); }
#define S( NAME, OP ) F void text_op_##NAME( string& s, string& arg, char c, string& out ) { char_stream str( std::move( s ) ); OP; str.line_number(); str.getc(); str.line_number(); }
#define SZ( NAME, OP ) F void text_opz_##NAME( string& s, string& arg, char c, string& out ) { char_stream str( std::move( s ), " \n", "\"'", { "{", "//", "/*" } ); OP; str.line_number(); str.getc(); str.line_number(); }
S( token, out = str.get_token() )
S( line, out = str.get_line() )
S( getc, out = string( 1, str.getc() ) )
S( peekc, out = string( 1, str.peekc() ) )
S( seek, str.seek( arg ) )
S( seek_past, str.seek_past( arg ) )
S( try_get_text, str.try_get( arg ) )
S( try_get_char, str.try_get( c ) )
S( number, double d; str >> d )
S( integer, int d; str >> d )
S( lines, str.get_line(); out = str.get_line() )
S( tokens, str.get_token(); out = str.get_token() )
S( token_line, str.get_token(); out = str.get_line() )
S( line_token, str.get_line(); out = str.get_token() )
S( number_token, double d; str >> d; out = str.get_token() )
SZ( token, out = str.get_token() )
SZ( tokens, str.get_token(); out = str.get_token() )
