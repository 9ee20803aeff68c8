From 9a7e26a42b18260834ebd57e5a27ec5684025e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:52 +0000
Subject: [PATCH 01/53] fix: pass unsigned char values to the ctype functions

---
 xo/serialization/prop_node_serializer_zml.cpp | 2 +-
 xo/string/string_tools.cpp                    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/xo/serialization/prop_node_serializer_zml.cpp b/xo/serialization/prop_node_serializer_zml.cpp
index c3bc481..f4d0fd5 100644
--- a/xo/serialization/prop_node_serializer_zml.cpp
+++ b/xo/serialization/prop_node_serializer_zml.cpp
@@ -77,7 +77,7 @@ namespace xo
 						// t is a label
 						if ( t[0] == '$' )
 							next_parent = &macros.add_child( t ); // add macro
-						else if ( !isgraph( t[0] ) )
+						else if ( !isgraph( static_cast<unsigned char>( t[0] ) ) )
 							return zml_error( str, ec, "Invalid label " + t );
 						else
 							next_parent = &parent.add_child( t ); // add new item
diff --git a/xo/string/string_tools.cpp b/xo/string/string_tools.cpp
index ce39b70..c1694f2 100644
--- a/xo/string/string_tools.cpp
+++ b/xo/string/string_tools.cpp
@@ -186,14 +186,14 @@ namespace xo
 	string to_lower( string s )
 	{
 		for ( char& c : s )
-			c = std::tolower( c );
+			c = static_cast<char>( std::tolower( static_cast<unsigned char>( c ) ) );
 		return s;
 	}
 
 	string to_upper( string s )
 	{
 		for ( char& c : s )
-			c = std::toupper( c );
+			c = static_cast<char>( std::toupper( static_cast<unsigned char>( c ) ) );
 		return s;
 	}
 
-- 
2.43.0


From 13a4f89bfa42c09cfa3813205c004bf05b9b2329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:20 +0000
Subject: [PATCH 02/53] fix: terminate the host name buffer in
 get_computer_name

---
 xo/system/system_tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/system/system_tools.cpp b/xo/system/system_tools.cpp
index 9927117..ae4ba9a 100644
--- a/xo/system/system_tools.cpp
+++ b/xo/system/system_tools.cpp
@@ -113,7 +113,7 @@ namespace xo
 			return buf;
 		else return "";
 #elif defined( __linux__ )
-		char hostname[HOST_NAME_MAX];
+		char hostname[HOST_NAME_MAX + 1] = ""; // zero-initialized, so it is always terminated
 		gethostname( hostname, HOST_NAME_MAX );
 		return string( hostname );
 #elif defined( __APPLE__ )
-- 
2.43.0


From e920c82654ce78fa2896cf84f9fe4a2fa54b0056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:27 +0000
Subject: [PATCH 03/53] fix: right_str and mid_str accept lengths and positions
 beyond the text

---
 xo/string/string_tools.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xo/string/string_tools.cpp b/xo/string/string_tools.cpp
index c1694f2..821550a 100644
--- a/xo/string/string_tools.cpp
+++ b/xo/string/string_tools.cpp
@@ -35,14 +35,14 @@ namespace xo
 
 	string mid_str( const string& str, index_t pos, size_t n )
 	{
-		return str.substr( pos, n );
+		return pos < str.size() ? str.substr( pos, n ) : string();
 	}
 
 	string right_str( const string& str, int n )
 	{
 		if ( n >= 0 )
-			return str.substr( str.size() - n, string::npos );
-		else return str.substr( size_t( -n ), string::npos );
+			return size_t( n ) < str.size() ? str.substr( str.size() - n, string::npos ) : str;
+		else return mid_str( str, size_t( -static_cast<long long>( n ) ) );
 	}
 
 	index_t in_str( const string& str, const string& substr, index_t p /*= 0 */ )
-- 
2.43.0


From 8345deee8aa4f8eccb4de2d0f6b85512256af8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:04 +0000
Subject: [PATCH 04/53] fix: format size_t arguments with %zu

---
 xo/serialization/prop_node_serializer_zml.cpp | 2 +-
 xo/system/profiler.cpp                        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/xo/serialization/prop_node_serializer_zml.cpp b/xo/serialization/prop_node_serializer_zml.cpp
index f4d0fd5..59282bf 100644
--- a/xo/serialization/prop_node_serializer_zml.cpp
+++ b/xo/serialization/prop_node_serializer_zml.cpp
@@ -22,7 +22,7 @@ namespace xo
 
 	void zml_error( const char_stream& str, error_code* ec, const string& message )
 	{
-		set_error_or_throw( ec, stringf( "Error parsing line %d: ", str.line_number() ) + message );
+		set_error_or_throw( ec, stringf( "Error parsing line %zu: ", str.line_number() ) + message );
 	}
 
 	string get_zml_token( char_stream& str, error_code* ec )
diff --git a/xo/system/profiler.cpp b/xo/system/profiler.cpp
index 7ec8771..a4a3b4a 100644
--- a/xo/system/profiler.cpp
+++ b/xo/system/profiler.cpp
@@ -153,7 +153,7 @@ namespace xo
 			else key += "@5";
 		}
 
-		auto value = stringf( "%6.0fms %6.2f%% (%5.2f%%) %6d %6.0fns ~%2.0f%% OH", total_ms, total_perc, excl_perc, s->count, excl_avg_ns, clamped( over_perc, 0.0, 99.0 ) );
+		auto value = stringf( "%6.0fms %6.2f%% (%5.2f%%) %6zu %6.0fns ~%2.0f%% OH", total_ms, total_perc, excl_perc, s->count, excl_avg_ns, clamped( over_perc, 0.0, 99.0 ) );
 		auto& child_pn = pn.add_key_value( key + s->name, value );
 		if ( total_perc >= minimum_expand_percentage )
 		{
-- 
2.43.0


From 48b8ee2e27c44bc21cbc627370ffed01975bb265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:48 +0000
Subject: [PATCH 05/53] fix: handle missing HOME, current folder, demangled
 name and local time

---
 xo/filesystem/filesystem.cpp | 20 +++++++++++++++-----
 xo/system/system_tools.cpp   | 18 +++++++++++++-----
 2 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/xo/filesystem/filesystem.cpp b/xo/filesystem/filesystem.cpp
index 1b65df7..2fea1b8 100644
--- a/xo/filesystem/filesystem.cpp
+++ b/xo/filesystem/filesystem.cpp
@@ -61,8 +61,10 @@ namespace xo
 #ifdef XO_COMP_MSVC
 		return get_known_windows_folder( FOLDERID_LocalAppData, "LocalAppData" );
 #else
-		string homeDir = std::getenv( "HOME" );
-		return path{ homeDir + "/.config" };
+		if ( auto* home = std::getenv( "HOME" ) )
+			return path{ string( home ) + "/.config" };
+		log::error( "Could not get config folder: HOME is not set" );
+		return path();
 #endif
 	}
 
@@ -70,10 +72,17 @@ namespace xo
 	{
 #ifdef XO_COMP_MSVC
 		return get_known_windows_folder( FOLDERID_Documents, "Documents" );
-#elif defined(__APPLE__)
-		return path( std::getenv( "HOME" ) ) / "Documents";
 #else
-		return path( std::getenv( "HOME" ) );
+		auto* home = std::getenv( "HOME" );
+		if ( !home ) {
+			log::error( "Could not get documents folder: HOME is not set" );
+			return path();
+		}
+#	if defined(__APPLE__)
+		return path( home ) / "Documents";
+#	else
+		return path( home );
+#	endif
 #endif
 	}
 
@@ -300,6 +309,7 @@ namespace xo
 	path current_path()
 	{
 		char* buf = getcwd( NULL, 0 );
+		xo_error_if( !buf, "Could not get current folder" );
 		path p( buf );
 		free( buf );
 		return p;
diff --git a/xo/system/system_tools.cpp b/xo/system/system_tools.cpp
index ae4ba9a..7b98933 100644
--- a/xo/system/system_tools.cpp
+++ b/xo/system/system_tools.cpp
@@ -47,7 +47,13 @@ namespace xo
 	XO_API string get_date_time_str( const std::time_t& t, const char* format )
 	{
 		std::stringstream ss;
-		ss << std::put_time( std::localtime( &t ), format );
+		std::tm tm = {};
+#ifdef XO_COMP_MSVC
+		xo_error_if( localtime_s( &tm, &t ) != 0, "Could not get local time" );
+#else
+		xo_error_if( !localtime_r( &t, &tm ), "Could not get local time" );
+#endif
+		ss << std::put_time( &tm, format );
 		return ss.str();
 	}
 
@@ -88,10 +94,12 @@ namespace xo
 #ifndef XO_COMP_MSVC
 		int status;
 		char* cleanType = abi::__cxa_demangle( name.c_str(), 0, 0, &status );
-		auto cleanStr = std::string( cleanType );
-		free( cleanType );
-		name = cleanStr;
-		//return cleanStr;
+		if ( cleanType )
+		{
+			auto cleanStr = std::string( cleanType );
+			free( cleanType );
+			name = cleanStr;
+		}
 #endif
 		auto endpos = name.find_first_of( "<" );
 		size_t pos = name.find_last_of( ": ", endpos );
-- 
2.43.0


From 3d1e20fb17e8d3f34ac77adbdcee539685376c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:23 +0000
Subject: [PATCH 06/53] fix: update log levels atomically and without
 unregistering sinks

---
 xo/system/log.cpp      | 15 ++++++++++++---
 xo/system/log.h        |  3 +++
 xo/system/log_sink.cpp |  5 ++---
 xo/system/log_sink.h   |  7 ++++---
 4 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/xo/system/log.cpp b/xo/system/log.cpp
index a22e881..9f18636 100644
--- a/xo/system/log.cpp
+++ b/xo/system/log.cpp
@@ -5,6 +5,7 @@
 #include "xo/container/vector_type.h"
 #include "xo/container/container_tools.h"
 #include <stdarg.h>
+#include <atomic>
 #include <mutex>
 #include <shared_mutex>
 
@@ -14,7 +15,7 @@ namespace xo
 	{
 		xo::vector< sink* > global_sinks;
 		std::shared_mutex global_sink_mutex;
-		level global_lowest_log_level = level::never;
+		std::atomic< level > global_lowest_log_level = level::never; // read without lock
 
 		void log_string( level l, const string& str )
 		{
@@ -43,9 +44,11 @@ namespace xo
 
 		void update_global_log_level_thread_unsafe()
 		{
-			global_lowest_log_level = log::level::never;
+			// update once, other threads must never see an intermediate value
+			level lowest = log::level::never;
 			for ( auto s : global_sinks )
-				xo::set_if_smaller( global_lowest_log_level, s->get_log_level() );
+				xo::set_if_smaller( lowest, s->get_log_level() );
+			global_lowest_log_level = lowest;
 		}
 
 		void add_sink( sink* s )
@@ -66,6 +69,12 @@ namespace xo
 			update_global_log_level_thread_unsafe();
 		}
 
+		void update_log_level()
+		{
+			std::unique_lock lock{ global_sink_mutex };
+			update_global_log_level_thread_unsafe();
+		}
+
 		bool test_log_level( level l )
 		{
 			if ( l < global_lowest_log_level )
diff --git a/xo/system/log.h b/xo/system/log.h
index be6101b..be955c0 100644
--- a/xo/system/log.h
+++ b/xo/system/log.h
@@ -23,6 +23,9 @@ namespace xo
 		XO_API void add_sink( sink* s );
 		XO_API void remove_sink( sink* s );
 
+		// update the global log level after the log level of a sink was changed
+		XO_API void update_log_level();
+
 		// test log level for all sinks
 		XO_API bool test_log_level( level l );
 
diff --git a/xo/system/log_sink.cpp b/xo/system/log_sink.cpp
index 507ff18..9db92c2 100644
--- a/xo/system/log_sink.cpp
+++ b/xo/system/log_sink.cpp
@@ -50,8 +50,7 @@ namespace xo
 		void sink::set_log_level( level l )
 		{
 			log_level_ = l;
-			remove_sink( this );
-			add_sink( this ); // re-add to update global log level
+			update_log_level(); // update global log level
 		}
 
 		level sink::get_log_level()
@@ -61,8 +60,8 @@ namespace xo
 
 		void sink::set_sink_mode( sink_mode m )
 		{
-			sink_mode_ = m;
 			thread_id_ = std::this_thread::get_id();
+			sink_mode_ = m;
 		}
 
 		stream_sink::stream_sink( std::ostream& str, level l, sink_mode m ) :
diff --git a/xo/system/log_sink.h b/xo/system/log_sink.h
index 269262d..8177829 100644
--- a/xo/system/log_sink.h
+++ b/xo/system/log_sink.h
@@ -4,6 +4,7 @@
 #include "xo/string/string_type.h"
 #include "xo/filesystem/path.h"
 
+#include <atomic>
 #include <fstream>
 #include <thread>
 #include "log_format.h"
@@ -39,10 +40,10 @@ namespace xo
 			format_flags& format() { return format_; }
 
 		protected:
-			level log_level_;
+			std::atomic< level > log_level_; // can be changed while other threads log
 			format_flags format_;
-			sink_mode sink_mode_;
-			std::thread::id thread_id_;
+			std::atomic< sink_mode > sink_mode_;
+			std::atomic< std::thread::id > thread_id_;
 
 			/// handle log message without testing
 			virtual void hande_log_message( level l, const string& msg ) = 0;
-- 
2.43.0


From 6b8cf74eaf7bc2b91765bc867a000ef2e207e5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:01 +0000
Subject: [PATCH 07/53] fix: serialize writing and flushing of log streams

---
 xo/system/log_sink.cpp | 8 ++++++++
 xo/system/log_sink.h   | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/xo/system/log_sink.cpp b/xo/system/log_sink.cpp
index 9db92c2..7cd3863 100644
--- a/xo/system/log_sink.cpp
+++ b/xo/system/log_sink.cpp
@@ -73,11 +73,13 @@ namespace xo
 		{
 			// #todo: make the time prefix an option
 			auto str = get_date_time_str( "%H:%M:%S " );
+			std::scoped_lock lock( stream_mutex_ );
 			stream_ << str << msg << std::endl;
 		}
 
 		void stream_sink::flush()
 		{
+			std::scoped_lock lock( stream_mutex_ );
 			stream_.flush();
 		}
 
@@ -133,6 +135,12 @@ namespace xo
 			}
 		}
 
+		void console_sink::flush()
+		{
+			std::scoped_lock lock( g_console_mutex );
+			stream_.flush();
+		}
+
 		file_sink::file_sink( const path& file, level l, sink_mode m ) :
 			stream_sink( file_stream_, l, m )
 		{
diff --git a/xo/system/log_sink.h b/xo/system/log_sink.h
index 8177829..694145e 100644
--- a/xo/system/log_sink.h
+++ b/xo/system/log_sink.h
@@ -6,6 +6,7 @@
 
 #include <atomic>
 #include <fstream>
+#include <mutex>
 #include <thread>
 #include "log_format.h"
 
@@ -58,6 +59,7 @@ namespace xo
 
 		protected:
 			std::ostream& stream_;
+			std::mutex stream_mutex_;
 		};
 
 		class XO_API console_sink : public stream_sink
@@ -65,6 +67,7 @@ namespace xo
 		public:
 			console_sink( level l, sink_mode m = sink_mode::all_threads );
 			virtual void hande_log_message( level l, const string& msg ) override;
+			virtual void flush() override;
 		};
 
 		class XO_API file_sink : public stream_sink
-- 
2.43.0


From ceccc4af5896cd7d1b7b730dee64ff3c86f59d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:03 +0000
Subject: [PATCH 08/53] fix: unregister log sinks before they are partly
 destroyed

---
 xo/system/log_sink.cpp | 15 +++++++++++++++
 xo/system/log_sink.h   |  5 +++++
 2 files changed, 20 insertions(+)

diff --git a/xo/system/log_sink.cpp b/xo/system/log_sink.cpp
index 7cd3863..091c074 100644
--- a/xo/system/log_sink.cpp
+++ b/xo/system/log_sink.cpp
@@ -69,6 +69,11 @@ namespace xo
 			stream_( str )
 		{}
 
+		stream_sink::~stream_sink()
+		{
+			remove_sink( this ); // unregister before any part of the sink is destroyed
+		}
+
 		void stream_sink::hande_log_message( level l, const string& msg )
 		{
 			// #todo: make the time prefix an option
@@ -87,6 +92,11 @@ namespace xo
 			stream_sink( std::cout, l, m )
 		{}
 
+		console_sink::~console_sink()
+		{
+			remove_sink( this );
+		}
+
 		void console_sink::hande_log_message( level l, const string& msg )
 		{
 			auto prefix = get_log_prefix( format_, l );
@@ -149,6 +159,11 @@ namespace xo
 			file_stream_.open( file.str() );
 		}
 
+		file_sink::~file_sink()
+		{
+			remove_sink( this ); // unregister before the file stream is destroyed
+		}
+
 		void file_sink::hande_log_message( level l, const string& msg )
 		{
 			if ( file_stream_.good() )
diff --git a/xo/system/log_sink.h b/xo/system/log_sink.h
index 694145e..3780dfe 100644
--- a/xo/system/log_sink.h
+++ b/xo/system/log_sink.h
@@ -20,6 +20,8 @@ namespace xo
 		{
 		public:
 			sink( level l, format_flags fmt, sink_mode m = sink_mode::all_threads );
+			sink( const sink& ) = delete;
+			sink& operator=( const sink& ) = delete;
 			virtual ~sink();
 
 			/// returns true if log_level is accepted
@@ -54,6 +56,7 @@ namespace xo
 		{
 		public:
 			stream_sink( std::ostream& str, level l, sink_mode m = sink_mode::all_threads );
+			virtual ~stream_sink();
 			virtual void hande_log_message( level l, const string& msg ) override;
 			virtual void flush() override;
 
@@ -66,6 +69,7 @@ namespace xo
 		{
 		public:
 			console_sink( level l, sink_mode m = sink_mode::all_threads );
+			virtual ~console_sink();
 			virtual void hande_log_message( level l, const string& msg ) override;
 			virtual void flush() override;
 		};
@@ -74,6 +78,7 @@ namespace xo
 		{
 		public:
 			file_sink( const path& file, level l, sink_mode m = sink_mode::all_threads );
+			virtual ~file_sink();
 			virtual void hande_log_message( level l, const string& msg ) override;
 			const std::ofstream& file_stream() const { return file_stream_; }
 
-- 
2.43.0


From 73d650ae4f03e85c919b3df77ad8180fcfd6cd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:05 +0000
Subject: [PATCH 09/53] fix: flush sinks for every message at error level and
 above

---
 xo/system/log.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xo/system/log.cpp b/xo/system/log.cpp
index 9f18636..101ce77 100644
--- a/xo/system/log.cpp
+++ b/xo/system/log.cpp
@@ -23,6 +23,9 @@ namespace xo
 			std::shared_lock lock{ global_sink_mutex };
 			for ( auto s : global_sinks )
 				s->submit_log_message( l, str );
+			if ( l >= level::error ) // see log.h, every way of logging errors must flush
+				for ( auto s : global_sinks )
+					s->flush();
 		}
 
 		void log_vstring( level l, const char* format, va_list list )
-- 
2.43.0


From 4fa87ef704fc8abca9bacff2e2aac1864c7d0d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:05 +0000
Subject: [PATCH 10/53] fix: make the interrupt flag atomic

---
 xo/thread/interruptible.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xo/thread/interruptible.h b/xo/thread/interruptible.h
index 70b4755..0866a16 100644
--- a/xo/thread/interruptible.h
+++ b/xo/thread/interruptible.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "xo/system/xo_config.h"
+#include <atomic>
 
 namespace xo
 {
@@ -14,6 +15,6 @@ namespace xo
 		bool test_interrupt_flag() const;
 
 	private:
-		mutable bool interrupt_flag_;
+		mutable std::atomic_bool interrupt_flag_; // set and tested by different threads
 	};
 }
-- 
2.43.0


From 32c974fb46f9bae03bb878b5beeb64e41787c9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:08 +0000
Subject: [PATCH 11/53] fix: synchronize hidden shared state

---
 xo/string/string_tools.cpp  | 5 +++--
 xo/system/debug_storage.cpp | 4 ++++
 xo/utility/color.cpp        | 2 +-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/xo/string/string_tools.cpp b/xo/string/string_tools.cpp
index 821550a..5d02876 100644
--- a/xo/string/string_tools.cpp
+++ b/xo/string/string_tools.cpp
@@ -11,6 +11,7 @@
 #endif
 
 #include <stdarg.h>
+#include <atomic>
 #include <memory>
 #include <sstream>
 #include <fstream>
@@ -24,7 +25,7 @@
 
 namespace xo
 {
-	int to_str_precision_value = 4;
+	static std::atomic< int > to_str_precision_value = 4;
 
 	string left_str( const string& str, int n )
 	{
@@ -280,7 +281,7 @@ namespace xo
 	}
 
 	int set_to_str_precision( int p )
-	{ int old = to_str_precision_value; to_str_precision_value = p; return old; }
+	{ return to_str_precision_value.exchange( p ); }
 
 	int to_str_precision()
 	{ return to_str_precision_value; }
diff --git a/xo/system/debug_storage.cpp b/xo/system/debug_storage.cpp
index e2f160c..067c53d 100644
--- a/xo/system/debug_storage.cpp
+++ b/xo/system/debug_storage.cpp
@@ -3,6 +3,7 @@
 #include "xo/numerical/constants.h"
 #include "xo/filesystem/path.h"
 #include <fstream>
+#include <mutex>
 
 namespace xo
 {
@@ -27,15 +28,18 @@ namespace xo
 		storage< T, L > storage_;
 	};
 
+	std::mutex g_debug_storage_mutex;
 	auto g_debug_storage_writer = auto_storage_writer< float, string >( debug_out_file );
 
 	void set_debug_output( const path& filename )
 	{
+		std::scoped_lock lock( g_debug_storage_mutex );
 		g_debug_storage_writer.filename_ = filename;
 	}
 
 	void write_debug( const string& label, float data )
 	{
+		std::scoped_lock lock( g_debug_storage_mutex );
 		g_debug_storage_writer.write( label, data );
 	}
 }
diff --git a/xo/utility/color.cpp b/xo/utility/color.cpp
index e60225b..90f6128 100644
--- a/xo/utility/color.cpp
+++ b/xo/utility/color.cpp
@@ -86,7 +86,7 @@ namespace xo
 
 	color make_unique_color( index_t idx, float brightness )
 	{
-		static std::array< float, 12 > standard_hue{ 0, 120, 240, 45, 195, 310, 20, 75, 165, 215, 275, 330 };
+		static const std::array< float, 12 > standard_hue{ 0, 120, 240, 45, 195, 310, 20, 75, 165, 215, 275, 330 };
 		float hue = standard_hue[idx % standard_hue.size()];
 		float sat = 1.0f / ( 1.0f + idx / standard_hue.size() );
 		float pbr = perceived_brightness( color_from_hsv( hue, sat, 1.0f ) );
-- 
2.43.0


From a426dc2d8a4487d4d9c05c5b852df1bfa02f1dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:58 +0000
Subject: [PATCH 12/53] fix: only mark cached resources as up to date after
 they were reloaded

---
 xo/utility/file_resource_cache.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xo/utility/file_resource_cache.h b/xo/utility/file_resource_cache.h
index 335d301..a97f91b 100644
--- a/xo/utility/file_resource_cache.h
+++ b/xo/utility/file_resource_cache.h
@@ -38,14 +38,16 @@ namespace xo
 					{
 						// check if the file has been modified
 						std::unique_lock write_lock( mutex_ );
-						item->last_checked_time_ = wall_time;
 						auto file_time = last_write_time( p );
 						if ( file_time != item->file_time_ )
 						{
 							// file was modified, reload
+							u_ptr<T> data( create_( p ) );
+							xo_error_if( !data, "Could not create resource" );
+							item->data_ = std::move( data );
 							item->file_time_ = file_time;
-							item->data_.reset( create_( p ) );
 						}
+						item->last_checked_time_ = wall_time; // only after success, otherwise the next request must try again
 					}
 					catch ( std::exception& e ) {
 						xo_error( "Error reading " + to_str( p ) + ": " + e.what() );
@@ -70,6 +72,7 @@ namespace xo
 						new_item.file_time_ = last_write_time( p );
 						new_item.last_checked_time_ = std::time( nullptr );
 						new_item.data_.reset( create_( p ) );
+						xo_error_if( !new_item.data_, "Could not create resource" );
 						auto [it, is_new_item] = cached_items_.insert( std::make_pair( p, std::move( new_item ) ) );
 						item = &it->second;
 					}
-- 
2.43.0


From 82d7b7a3a40fd5b619352d0b4a3c446a508cc7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:00 +0000
Subject: [PATCH 13/53] fix: count every exception that leaves a test as a
 failure

---
 xo/system/test_case.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xo/system/test_case.cpp b/xo/system/test_case.cpp
index a67fea7..b0f9286 100644
--- a/xo/system/test_case.cpp
+++ b/xo/system/test_case.cpp
@@ -57,6 +57,13 @@ namespace xo
 			catch ( std::exception& e )
 			{
 				result_.error_ = e.what();
+				if ( result_.error_.empty() )
+					result_.error_ = "exception without message"; // an empty error would count as success
+				return false;
+			}
+			catch ( ... )
+			{
+				result_.error_ = "unknown exception";
 				return false;
 			}
 		}
-- 
2.43.0


From 1527c41335c7f93908a103c4361bf9f24c092acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:01 +0000
Subject: [PATCH 14/53] fix: restore the text precision when get_report is left
 by an exception

---
 xo/time/stopwatch.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/xo/time/stopwatch.cpp b/xo/time/stopwatch.cpp
index d374c46..baea7f2 100644
--- a/xo/time/stopwatch.cpp
+++ b/xo/time/stopwatch.cpp
@@ -7,7 +7,13 @@ namespace xo
 {
 	prop_node stopwatch::get_report( int decimals )
 	{
-		auto old_precision = set_to_str_precision( decimals );
+		// restore precision when leaving, also by exception
+		struct scoped_precision {
+			explicit scoped_precision( int p ) : old_( set_to_str_precision( p ) ) {}
+			~scoped_precision() { set_to_str_precision( old_ ); }
+			int old_;
+		} precision( decimals );
+
 		prop_node pn;
 		time total;
 		for ( index_t idx = 0; idx < size(); ++idx ) {
@@ -16,8 +22,6 @@ namespace xo
 		}
 		pn["TOTAL"] = total;
 
-		set_to_str_precision( old_precision );
-
 		return pn;
 	}
 }
-- 
2.43.0


From 11ff065f43d09492d4aa480d8ea1c0270d3e855c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:10 +0000
Subject: [PATCH 15/53] fix: test the state of the log file under the stream
 lock

---
 xo/system/log_sink.cpp | 10 ++++++++--
 xo/system/log_sink.h   |  3 +++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/xo/system/log_sink.cpp b/xo/system/log_sink.cpp
index 091c074..e630b4b 100644
--- a/xo/system/log_sink.cpp
+++ b/xo/system/log_sink.cpp
@@ -75,10 +75,15 @@ namespace xo
 		}
 
 		void stream_sink::hande_log_message( level l, const string& msg )
+		{
+			std::scoped_lock lock( stream_mutex_ );
+			write_message( msg );
+		}
+
+		void stream_sink::write_message( const string& msg )
 		{
 			// #todo: make the time prefix an option
 			auto str = get_date_time_str( "%H:%M:%S " );
-			std::scoped_lock lock( stream_mutex_ );
 			stream_ << str << msg << std::endl;
 		}
 
@@ -166,8 +171,9 @@ namespace xo
 
 		void file_sink::hande_log_message( level l, const string& msg )
 		{
+			std::scoped_lock lock( stream_mutex_ ); // the stream state is changed by other threads that log
 			if ( file_stream_.good() )
-				stream_sink::hande_log_message( l, msg );
+				write_message( msg );
 		}
 	}
 }
diff --git a/xo/system/log_sink.h b/xo/system/log_sink.h
index 3780dfe..c86c167 100644
--- a/xo/system/log_sink.h
+++ b/xo/system/log_sink.h
@@ -61,6 +61,9 @@ namespace xo
 			virtual void flush() override;
 
 		protected:
+			/// write message to stream_, stream_mutex_ must be locked
+			void write_message( const string& msg );
+
 			std::ostream& stream_;
 			std::mutex stream_mutex_;
 		};
-- 
2.43.0


From cfe7e9243f0f640432a307900284f42761b621df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:25 +0000
Subject: [PATCH 16/53] Revert "fix: count every exception that leaves a test
 as a failure"

This reverts commit 82d7b7a3a40fd5b619352d0b4a3c446a508cc7b4.
---
 xo/system/test_case.cpp | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/xo/system/test_case.cpp b/xo/system/test_case.cpp
index b0f9286..a67fea7 100644
--- a/xo/system/test_case.cpp
+++ b/xo/system/test_case.cpp
@@ -57,13 +57,6 @@ namespace xo
 			catch ( std::exception& e )
 			{
 				result_.error_ = e.what();
-				if ( result_.error_.empty() )
-					result_.error_ = "exception without message"; // an empty error would count as success
-				return false;
-			}
-			catch ( ... )
-			{
-				result_.error_ = "unknown exception";
 				return false;
 			}
 		}
-- 
2.43.0


From 1fc85edf2d184a0395b7644dc4ae073b53222c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:58 +0000
Subject: [PATCH 17/53] fix: compare optionals for inequality without infinite
 recursion

---
 xo/utility/optional.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/utility/optional.h b/xo/utility/optional.h
index c51c2b5..76d52b5 100644
--- a/xo/utility/optional.h
+++ b/xo/utility/optional.h
@@ -74,5 +74,5 @@ namespace xo
 	template< typename T > bool operator==( const T& lhs, const optional<T>& rhs ) { return rhs == lhs; }
 	template< typename T > bool operator!=( const T& lhs, const optional<T>& rhs ) { return rhs != lhs; }
 	template< typename T > bool operator==( const optional<T>& lhs, const optional<T>& rhs ) { return ( lhs && rhs && *rhs == *lhs ) || ( !lhs && !rhs ); }
-	template< typename T > bool operator!=( const optional<T>& lhs, const optional<T>& rhs ) { return rhs != lhs; }
+	template< typename T > bool operator!=( const optional<T>& lhs, const optional<T>& rhs ) { return !( lhs == rhs ); }
 }
-- 
2.43.0


From 0c78c0a9210885d5b1afa395e257b20f206bdd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:54 +0000
Subject: [PATCH 18/53] fix: count the cylinder mass once in the capsule
 inertia

---
 xo/shape/capsule.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/shape/capsule.h b/xo/shape/capsule.h
index 894ddc4..c5ee469 100644
--- a/xo/shape/capsule.h
+++ b/xo/shape/capsule.h
@@ -36,7 +36,7 @@ namespace xo
 
 		float m1 = pi * r2 * h * density;
 		float m2 = ( 4.0f / 3.0f ) * pi * r3 * density;
-		float Ia = m1 * ( 0.25f * r2 + ( 1.0f / 12.0f ) * m1 * h * h ) + m2 * ( 0.4f * r2 + 0.375f * r * h + 0.25f * h * h );
+		float Ia = m1 * ( 0.25f * r2 + ( 1.0f / 12.0f ) * h * h ) + m2 * ( 0.4f * r2 + 0.375f * r * h + 0.25f * h * h );
 		float Ib = ( m1 * 0.5f + m2 * 0.4f ) * r2;
 
 		return vec3f{ Ia, Ib, Ia };
-- 
2.43.0


From 3c2bcac5495f77e9de0b47dfc56a221f893305cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:54 +0000
Subject: [PATCH 19/53] fix: compute the distance to a cylinder top along the
 direction

---
 xo/shape/shape_tools.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/shape/shape_tools.h b/xo/shape/shape_tools.h
index ce9e09f..7270db7 100644
--- a/xo/shape/shape_tools.h
+++ b/xo/shape/shape_tools.h
@@ -24,7 +24,7 @@ namespace xo
 		const auto r = s.radius_;
 		auto vxz = std::sqrt( dir.x * dir.x + dir.z * dir.z );
 		if ( std::abs( dir.y ) * r > hh * vxz )
-			return std::sqrt( hh * hh + vxz * vxz ); // point is on cylinder top
+			return hh / std::abs( dir.y ); // point is on cylinder top
 		else return r / vxz; // point is on cylinder side
 	}
 	inline float distance_from_center( const xo::capsule& s, const vec3f& dir ) {
-- 
2.43.0


From 7d15770d63b4a07bd7e2074f17de91fdaf56cd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:57 +0000
Subject: [PATCH 20/53] fix: set alpha from the alpha argument in the double
 constructor of color

---
 xo/utility/color.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/utility/color.h b/xo/utility/color.h
index 8948ec8..e9f0c67 100644
--- a/xo/utility/color.h
+++ b/xo/utility/color.h
@@ -9,7 +9,7 @@ namespace xo
 	{
 		color() : r( 0.0f ), g( 0.0f ), b( 0.0f ), a( 1.0f ) {}
 		color( float pr, float pg, float pb, float pa = 1.0f ) : r( pr ), g( pg ), b( pb ), a( pa ) {}
-		color( double pr, double pg, double pb, double pa = 1.0 ) : r( float( pr ) ), g( float( pg ) ), b( float( pb ) ), a( float( pb ) ) {}
+		color( double pr, double pg, double pb, double pa = 1.0 ) : r( float( pr ) ), g( float( pg ) ), b( float( pb ) ), a( float( pa ) ) {}
 
 		float r, g, b, a;
 
-- 
2.43.0


From 148018a9748620407eb928ea76a97c61ee165a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:03 +0000
Subject: [PATCH 21/53] fix: scale all components in the quaternion inverse

---
 xo/geometry/quat.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xo/geometry/quat.h b/xo/geometry/quat.h
index b53a4b5..628cc3f 100644
--- a/xo/geometry/quat.h
+++ b/xo/geometry/quat.h
@@ -100,9 +100,9 @@ namespace xo
 	/// get quaternion conjugate
 	template< typename T > quat_<T> operator-( quat_<T> q ) { q.x = -q.x; q.y = -q.y; q.z = -q.z; return q; }
 
-	/// get quaternion inverse; #todo: verify correctness
+	/// get quaternion inverse
 	template< typename T > quat_<T> inverse( quat_<T> q )
-	{ auto f = T( -1 ) / squared_length( q ); q.x *= f; q.y *= f; q.z *= f; return q; }
+	{ auto f = T( -1 ) / squared_length( q ); q.w *= -f; q.x *= f; q.y *= f; q.z *= f; return q; }
 
 	/// return quaternion in which w is positive (negate if w < 0)
 	template< typename T > quat_<T> positive( quat_<T> q )
-- 
2.43.0


From 13fd3ce626419d354c14aa08475ae2880f7ef2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:05 +0000
Subject: [PATCH 22/53] fix: use the complementary weight in lerp_precise

---
 xo/numerical/interpolation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/numerical/interpolation.h b/xo/numerical/interpolation.h
index 67dcf29..fe191cb 100644
--- a/xo/numerical/interpolation.h
+++ b/xo/numerical/interpolation.h
@@ -12,7 +12,7 @@ namespace xo
 
 	/// linearly interpolate between v1 (t=0) and v2 (t=1)
 	template< typename T, typename S > T lerp_precise( const T& v1, const T& v2, const S& t ) {
-		return ( t - T( 1 ) ) * v1 + t * v2;
+		return ( S( 1 ) - t ) * v1 + t * v2;
 	}
 
 	template< typename M >
-- 
2.43.0


From 889f04cde298f2eccc3304b33071a8c29cb02961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:12 +0000
Subject: [PATCH 23/53] fix: return the scaled vector by value

---
 xo/geometry/vec3.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/geometry/vec3.h b/xo/geometry/vec3.h
index a40e2c2..34845d8 100644
--- a/xo/geometry/vec3.h
+++ b/xo/geometry/vec3.h
@@ -132,7 +132,7 @@ namespace xo
 	{ v.x *= s.x; v.y *= s.y; v.z *= s.z; return v; }
 
 	/// Scale vector elements
-	template< typename T > vec3_<T>& scaled( vec3_<T> v, const vec3_<T>& s ) { return scale( v, s ); }
+	template< typename T > vec3_<T> scaled( vec3_<T> v, const vec3_<T>& s ) { return scale( v, s ); }
 
 	/// Projection of v1 onto v2
 	template< typename T > vec3_<T> projection( const vec3_<T>& v1, const vec3_<T>& v2 )
-- 
2.43.0


From 219e037768c8fe83b2f06d75561148510023afee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:19 +0000
Subject: [PATCH 24/53] fix: add const element access to mat33

---
 xo/geometry/mat33_type.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xo/geometry/mat33_type.h b/xo/geometry/mat33_type.h
index 820b202..8021e3b 100644
--- a/xo/geometry/mat33_type.h
+++ b/xo/geometry/mat33_type.h
@@ -18,7 +18,9 @@ namespace xo
 
 		T e00, e01, e02, e10, e11, e12, e20, e21, e22;
 		T* operator[]( index_t row ) { return &ptr()[row * 3]; }
+		const T* operator[]( index_t row ) const { return &ptr()[row * 3]; }
 		T* ptr() { return &e00; }
+		const T* ptr() const { return &e00; }
 	};
 
 	using mat33f = mat33_< float >;
-- 
2.43.0


From 4352db0660d9f7a8857a50c0d19e562d6e5855d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:39 +0000
Subject: [PATCH 25/53] fix: include w in all vec4 operations

---
 xo/geometry/vec4.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/xo/geometry/vec4.h b/xo/geometry/vec4.h
index e4ef529..b0d15e1 100644
--- a/xo/geometry/vec4.h
+++ b/xo/geometry/vec4.h
@@ -1,7 +1,7 @@
 #pragma once
 
 #include "vec4_type.h"
-#include "math.h"
+#include "xo/numerical/math.h"
 
 namespace xo
 {
@@ -14,30 +14,30 @@ namespace xo
 
 	/// Subtraction
 	template< typename T > vec4_<T> operator-( const vec4_<T>& v1, const vec4_<T>& v2 )
-	{ return vec4_<T>( v1.x - v2.x, v1.y - v2.y, v1.z - v2.z ); }
+	{ return vec4_<T>( v1.x - v2.x, v1.y - v2.y, v1.z - v2.z, v1.w - v2.w ); }
 	/// Subtraction
 	template< typename T > vec4_<T>& operator-=( vec4_<T>& v1, const vec4_<T>& v2 )
-	{ v1.x -= v2.x; v1.y -= v2.y; v1.z -= v2.z; return v1; }
+	{ v1.x -= v2.x; v1.y -= v2.y; v1.z -= v2.z; v1.w -= v2.w; return v1; }
 
 	/// Negation
 	template< typename T > vec4_<T> operator-( vec4_<T> v )
-	{ v.x = -v.x; v.y = -v.y; v.z = -v.z; return v; }
+	{ v.x = -v.x; v.y = -v.y; v.z = -v.z; v.w = -v.w; return v; }
 
 	/// Scalar multiplication
 	template< typename T > vec4_<T> operator*( T s, vec4_<T> v )
-	{ v.x *= s; v.y *= s; v.z *= s; return v; }
+	{ v.x *= s; v.y *= s; v.z *= s; v.w *= s; return v; }
 	/// Scalar multiplication
 	template< typename T > vec4_<T> operator*( vec4_<T> v, T s )
-	{ v.x *= s; v.y *= s; v.z *= s; return v; }
+	{ v.x *= s; v.y *= s; v.z *= s; v.w *= s; return v; }
 	/// Scalar multiplication
 	template< typename T > vec4_<T>& operator*=( vec4_<T>& v, T s )
-	{ v.x *= s; v.y *= s; v.z *= s; return v; }
+	{ v.x *= s; v.y *= s; v.z *= s; v.w *= s; return v; }
 
 	/// Scalar division
 	template< typename T > vec4_<T> operator/( vec4_<T> v, T s )
-	{ T ms = inv( s ); v.x *= ms; v.y *= ms; v.z *= ms; return v; }
+	{ T ms = inv( s ); v.x *= ms; v.y *= ms; v.z *= ms; v.w *= ms; return v; }
 	/// Scalar division
 	template< typename T > vec4_<T>& operator/=( vec4_<T>& v, T s )
-	{ T ms = inv( s ); v.x *= ms; v.y *= ms; v.z *= ms; return v; }
+	{ T ms = inv( s ); v.x *= ms; v.y *= ms; v.z *= ms; v.w *= ms; return v; }
 }
 
-- 
2.43.0


From 1e1380dfd18a7cf306ad1071cd53f7f79556b19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:03 +0000
Subject: [PATCH 26/53] fix: pass the error object on when load_zml reads its
 file

---
 xo/serialization/prop_node_serializer_zml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/serialization/prop_node_serializer_zml.cpp b/xo/serialization/prop_node_serializer_zml.cpp
index 59282bf..d363545 100644
--- a/xo/serialization/prop_node_serializer_zml.cpp
+++ b/xo/serialization/prop_node_serializer_zml.cpp
@@ -288,7 +288,7 @@ namespace xo
 
 	XO_API prop_node load_zml( const path& filename, error_code* ec, path parent_folder, vector<path>* included_files )
 	{
-		char_stream stream( load_string( filename ) );
+		char_stream stream( load_string( filename, ec ) );
 		return parse_zml( stream, ec, filename.parent_path(), included_files );
 	}
 
-- 
2.43.0


From 6a4d8b0a71aad1fea6c90246a77a9a78a98f5922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:04 +0000
Subject: [PATCH 27/53] fix: report ini syntax errors through the error object

---
 xo/serialization/prop_node_serializer_ini.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xo/serialization/prop_node_serializer_ini.cpp b/xo/serialization/prop_node_serializer_ini.cpp
index 88eecbe..eb81096 100644
--- a/xo/serialization/prop_node_serializer_ini.cpp
+++ b/xo/serialization/prop_node_serializer_ini.cpp
@@ -52,7 +52,8 @@ namespace xo
 
 			// must be a key = value line
 			auto kvp = make_key_value_str( line );
-			xo_error_if( kvp.first == line, "Error loading ini file, expected '='" );
+			if ( kvp.first == line )
+				return set_error_or_throw( ec_, "Error loading ini file, expected '='" ), str;
 			cur_group->set( kvp.first, kvp.second );
 		}
 		return str;
-- 
2.43.0


From 6ef5fe1f62af8fbe5cbbc3406a7f7d59cbdb6a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:07 +0000
Subject: [PATCH 28/53] fix: report xml parse errors through the error object

---
 xo/serialization/prop_node_serializer_xml.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/xo/serialization/prop_node_serializer_xml.cpp b/xo/serialization/prop_node_serializer_xml.cpp
index 4641d89..b44bc15 100644
--- a/xo/serialization/prop_node_serializer_xml.cpp
+++ b/xo/serialization/prop_node_serializer_xml.cpp
@@ -20,6 +20,7 @@ namespace rapidxml {
 #include <contrib/rapidxml-1.13/rapidxml_print.hpp>
 
 #include "xo/container/prop_node.h"
+#include "xo/system/error_code.h"
 #include <iostream>
 
 namespace xo
@@ -60,7 +61,14 @@ namespace xo
 		xo_assert( read_pn_ );
 		rapidxml::xml_document<> doc;
 		std::string file_contents( std::istreambuf_iterator<char>( str ), {} );
-		doc.parse< 0 >( &file_contents[0] ); // not officially supported but probably safe
+		try
+		{
+			doc.parse< 0 >( &file_contents[0] ); // not officially supported but probably safe
+		}
+		catch ( const rapidxml::parse_error& e )
+		{
+			return set_error_or_throw( ec_, string( "Error parsing xml: " ) + e.what() ), str;
+		}
 		if ( doc.first_node() )
 			read_pn_->add_child( doc.first_node()->name(), get_rapid_xml_node( doc.first_node() ) );
 		return str;
-- 
2.43.0


From be9e6f6038242b9089fab10d651aadd05a1a523d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:43 +0000
Subject: [PATCH 29/53] fix: report unlabelled values through the error object
 when writing zml

---
 xo/serialization/prop_node_serializer_zml.cpp | 31 ++++++++++---------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/xo/serialization/prop_node_serializer_zml.cpp b/xo/serialization/prop_node_serializer_zml.cpp
index d363545..72b0337 100644
--- a/xo/serialization/prop_node_serializer_zml.cpp
+++ b/xo/serialization/prop_node_serializer_zml.cpp
@@ -166,11 +166,12 @@ namespace xo
 		return parse_zml( stream, ec, path() );
 	}
 
-	void write_zml_kvp( std::ostream& str, const string& label, const prop_node& pn, const char* equals_str, bool inside_array )
+	void write_zml_kvp( std::ostream& str, const string& label, const prop_node& pn, const char* equals_str, bool inside_array, error_code* ec )
 	{
 		bool show_label = !label.empty();
 		bool show_value = !pn.get_str().empty() || pn.size() == 0;
-		xo_error_if( !show_label && show_value && !inside_array, "Value without label outside array" );
+		if ( !show_label && show_value && !inside_array )
+			return set_error_or_throw( ec, "Value without label outside array" );
 		if ( show_label )
 			str << try_quoted( label, "{}[]#<>\\/" );
 		if ( show_label && show_value )
@@ -179,9 +180,9 @@ namespace xo
 			str << try_quoted( pn.get_str(), "{}[]#<>\\/" );
 	}
 
-	void write_zml_node_one_line( std::ostream& str, const string& label, const prop_node& pn, bool inside_array )
+	void write_zml_node_one_line( std::ostream& str, const string& label, const prop_node& pn, bool inside_array, error_code* ec )
 	{
-		write_zml_kvp( str, label, pn, " = ", inside_array );
+		write_zml_kvp( str, label, pn, " = ", inside_array, ec );
 		if ( pn.size() > 0 )
 		{
 			// add space if there's a label
@@ -194,13 +195,13 @@ namespace xo
 			for ( auto it = pn.begin(); it != pn.end(); ++it )
 			{
 				if ( it != pn.begin() ) str << " ";
-				write_zml_node_one_line( str, it->first, it->second, is_array );
+				write_zml_node_one_line( str, it->first, it->second, is_array, ec );
 			}
 			str << ( is_array ? " ]" : " }" );
 		}
 	}
 
-	void write_zml_node( std::ostream& str, const string& label, const prop_node& pn, int level, bool inside_array )
+	void write_zml_node( std::ostream& str, const string& label, const prop_node& pn, int level, bool inside_array, error_code* ec )
 	{
 		if ( level > 0 )
 			str << string( level - 1, '\t' );
@@ -208,7 +209,7 @@ namespace xo
 		if ( pn.size() == 0 )
 		{
 			// just output kvp
-			write_zml_kvp( str, label, pn, " = ", inside_array );
+			write_zml_kvp( str, label, pn, " = ", inside_array, ec );
 		}
 		else
 		{
@@ -219,7 +220,7 @@ namespace xo
 			if ( level != 0 && pn.count_layers() <= 2 && pn.count_children() <= 5 )
 			{
 				std::ostringstream oneliner;
-				write_zml_node_one_line( oneliner, label, pn, is_array );
+				write_zml_node_one_line( oneliner, label, pn, is_array, ec );
 				if ( level + label.size() + 1 + oneliner.str().size() <= max_oneliner_length )
 				{
 					str << oneliner.str();
@@ -228,7 +229,7 @@ namespace xo
 			}
 
 			// no oneliner, try normal output
-			write_zml_kvp( str, label, pn, " = ", inside_array );
+			write_zml_kvp( str, label, pn, " = ", inside_array, ec );
 			if ( !label.empty() )
 				str << ' '; // add space before { or [
 
@@ -237,7 +238,7 @@ namespace xo
 				str << ( is_array ? "[" : "{" ) << std::endl;
 			for ( auto it = pn.begin(); it != pn.end(); ++it )
 			{
-				write_zml_node( str, it->first, it->second, level + 1, is_array );
+				write_zml_node( str, it->first, it->second, level + 1, is_array, ec );
 				str << std::endl;
 			}
 			if ( level != 0 )
@@ -245,9 +246,9 @@ namespace xo
 		}
 	}
 
-	void write_zml_node_concise( std::ostream& str, const string& label, const prop_node& pn, int level, bool inside_array )
+	void write_zml_node_concise( std::ostream& str, const string& label, const prop_node& pn, int level, bool inside_array, error_code* ec )
 	{
-		write_zml_kvp( str, label, pn, "=", inside_array );
+		write_zml_kvp( str, label, pn, "=", inside_array, ec );
 		if ( pn.size() > 0 )
 		{
 			// add children, either array or group
@@ -256,7 +257,7 @@ namespace xo
 			for ( auto it = pn.begin(); it != pn.end(); ++it )
 			{
 				if ( it != pn.begin() ) str << " ";
-				write_zml_node_concise( str, it->first, it->second, level + 1, is_array );
+				write_zml_node_concise( str, it->first, it->second, level + 1, is_array, ec );
 			}
 			if ( level > 0 ) str << ( is_array ? ']' : '}' );
 		}
@@ -275,14 +276,14 @@ namespace xo
 	{
 		xo_assert( write_pn_ );
 		if ( !write_pn_->empty() )
-			write_zml_node( str, "", *write_pn_, 0, false );
+			write_zml_node( str, "", *write_pn_, 0, false, ec_ );
 		return str;
 	}
 
 	std::ostream& prop_node_serializer_zml_concise::write_stream( std::ostream& str ) const
 	{
 		xo_assert( write_pn_ );
-		write_zml_node_concise( str, "", *write_pn_, 0, false );
+		write_zml_node_concise( str, "", *write_pn_, 0, false, ec_ );
 		return str;
 	}
 
-- 
2.43.0


From bcd94c518376b057e5673fe21bc65d0118c83e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:36 +0000
Subject: [PATCH 30/53] fix: limit the depth of nested zml includes

---
 xo/serialization/prop_node_serializer_zml.cpp | 30 ++++++++++++++-----
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/xo/serialization/prop_node_serializer_zml.cpp b/xo/serialization/prop_node_serializer_zml.cpp
index 72b0337..27f5645 100644
--- a/xo/serialization/prop_node_serializer_zml.cpp
+++ b/xo/serialization/prop_node_serializer_zml.cpp
@@ -43,7 +43,12 @@ namespace xo
 		}
 	}
 
-	void read_zml_layer( char_stream& str, prop_node& parent, const string& close, error_code* ec, const path& folder, vector<path>* included_files, const prop_node& root, prop_node& macros )
+	// maximum depth of nested file includes
+	constexpr int max_include_depth = 64;
+
+	prop_node load_zml_file( const path& filename, error_code* ec, vector<path>* included_files, int include_depth );
+
+	void read_zml_layer( char_stream& str, prop_node& parent, const string& close, error_code* ec, const path& folder, vector<path>* included_files, const prop_node& root, prop_node& macros, int include_depth )
 	{
 		// keep track of the number of macros so we can delete them at the end of this scope
 		auto macro_count = macros.size();
@@ -61,7 +66,11 @@ namespace xo
 					zml_error( str, ec, "'<<' has no find matching '>>'" );
 				if ( filename.is_relative() )
 					filename = folder / filename;
-				parent.append( load_zml( filename, ec ) );
+				if ( include_depth >= max_include_depth )
+					return zml_error( str, ec, "Too many nested includes: " + filename.str() );
+				parent.append( load_zml_file( filename, ec, nullptr, include_depth + 1 ) );
+				if ( ec && ec->bad() )
+					return;
 				if ( included_files )
 					included_files->emplace_back( std::move( filename ) );
 			}
@@ -101,9 +110,9 @@ namespace xo
 
 				// parse value element after
 				if ( t == "{" ) // new group
-					read_zml_layer( str, *next_parent, "}", ec, folder, included_files, root, macros );
+					read_zml_layer( str, *next_parent, "}", ec, folder, included_files, root, macros, include_depth );
 				else if ( t == "[" ) // new array
-					read_zml_layer( str, *next_parent, "]", ec, folder, included_files, root, macros );
+					read_zml_layer( str, *next_parent, "]", ec, folder, included_files, root, macros, include_depth );
 				else if ( str_begins_with( t, '@' ) )
 				{
 					// assign previous value
@@ -149,14 +158,14 @@ namespace xo
 			macros.pop_back();
 	}
 
-	prop_node parse_zml( char_stream& str, error_code* ec, const path& folder, vector<path>* included_files = nullptr )
+	prop_node parse_zml( char_stream& str, error_code* ec, const path& folder, vector<path>* included_files = nullptr, int include_depth = 0 )
 	{
 		str.set_operators( { "=", ": ", "{", "}", "[", "]", "#", "<<", ">>", "//", "/*", "*/" } );
 		str.set_delimiter_chars( " \n\r\t\v" );
 		str.set_quotation_chars( "\"'" );
 
 		prop_node root, macros;
-		read_zml_layer( str, root, "", ec, folder, included_files, root, macros );
+		read_zml_layer( str, root, "", ec, folder, included_files, root, macros, include_depth );
 		return root;
 	}
 
@@ -287,10 +296,15 @@ namespace xo
 		return str;
 	}
 
-	XO_API prop_node load_zml( const path& filename, error_code* ec, path parent_folder, vector<path>* included_files )
+	prop_node load_zml_file( const path& filename, error_code* ec, vector<path>* included_files, int include_depth )
 	{
 		char_stream stream( load_string( filename, ec ) );
-		return parse_zml( stream, ec, filename.parent_path(), included_files );
+		return parse_zml( stream, ec, filename.parent_path(), included_files, include_depth );
+	}
+
+	XO_API prop_node load_zml( const path& filename, error_code* ec, path parent_folder, vector<path>* included_files )
+	{
+		return load_zml_file( filename, ec, included_files, 0 );
 	}
 
 	XO_API void save_zml( const prop_node& pn, const path& filename, error_code* ec )
-- 
2.43.0


From 375870797b8f860e83918fd440518fc8f4a340ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:55 +0000
Subject: [PATCH 31/53] fix: report an error when a table file cannot be opened

---
 xo/container/table.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xo/container/table.h b/xo/container/table.h
index 0c00ff9..104c9c1 100644
--- a/xo/container/table.h
+++ b/xo/container/table.h
@@ -122,6 +122,7 @@ namespace xo
 	template< typename T, typename S = string >
 	table<T, S> load_table( const path& filename, bool first_row_has_header = true ) {
 		auto str = std::ifstream( filename.str() );
+		xo_error_if( !str.good(), "Could not open " + filename.str() );
 		return read_table<T, S>( str, first_row_has_header );
 	}
 }
-- 
2.43.0


From 8717950ac54d9de1c37c20d6426f6d1b673f42e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:58 +0000
Subject: [PATCH 32/53] fix: check for a source document when writing xml

---
 xo/serialization/prop_node_serializer_xml.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xo/serialization/prop_node_serializer_xml.cpp b/xo/serialization/prop_node_serializer_xml.cpp
index b44bc15..88a7436 100644
--- a/xo/serialization/prop_node_serializer_xml.cpp
+++ b/xo/serialization/prop_node_serializer_xml.cpp
@@ -76,6 +76,7 @@ namespace xo
 
 	std::ostream& prop_node_serializer_xml::write_stream( std::ostream& str ) const
 	{
+		xo_assert( write_pn_ );
 		rapidxml::xml_document<> doc;
 		set_rapid_xml_node( doc, &doc, *write_pn_ );
 		return str << doc;
-- 
2.43.0


From ec0853595c7a90e0414b826a1b51c4108a90bc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:51 +0000
Subject: [PATCH 33/53] fix: do not throw from time stamps when the local time
 is unavailable

---
 xo/system/system_tools.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xo/system/system_tools.cpp b/xo/system/system_tools.cpp
index 7b98933..23e136b 100644
--- a/xo/system/system_tools.cpp
+++ b/xo/system/system_tools.cpp
@@ -49,9 +49,11 @@ namespace xo
 		std::stringstream ss;
 		std::tm tm = {};
 #ifdef XO_COMP_MSVC
-		xo_error_if( localtime_s( &tm, &t ) != 0, "Could not get local time" );
+		if ( localtime_s( &tm, &t ) != 0 )
+			return "";
 #else
-		xo_error_if( !localtime_r( &t, &tm ), "Could not get local time" );
+		if ( !localtime_r( &t, &tm ) )
+			return "";
 #endif
 		ss << std::put_time( &tm, format );
 		return ss.str();
-- 
2.43.0


From 5cce1747be7edce84adaf6f771054f351b17578a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:41 +0000
Subject: [PATCH 34/53] fix: Quote bytes above 127 and NUL so that they are
 read back unchanged

---
 xo/string/string_tools.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xo/string/string_tools.cpp b/xo/string/string_tools.cpp
index 5d02876..b5d07ad 100644
--- a/xo/string/string_tools.cpp
+++ b/xo/string/string_tools.cpp
@@ -292,7 +292,7 @@ namespace xo
 			return "\\\"";
 		else if ( c == '\\' )
 			return "\\\\";
-		else if ( c < 32 )
+		else if ( static_cast<unsigned char>( c ) < 32 )
 		{
 			switch ( c )
 			{
@@ -332,7 +332,7 @@ namespace xo
 					value = value * 8 + *buf++ - '0';
 				else break;
 			}
-			if ( *len > 1 && value > 0 && value < 32 )
+			if ( *len > 1 && value < 256 )
 				return char( value ); // we read a valid char
 			else return '?'; // no valid char could be read
 		}
@@ -344,7 +344,7 @@ namespace xo
 		string sout = "\"";
 		for ( const char& c : s )
 		{
-			if ( c == '\"' || c == '\\' || c < 32 )
+			if ( c == '\"' || c == '\\' || static_cast<unsigned char>( c ) < 32 )
 				sout += encode_char( c );
 			else sout += c;
 		}
-- 
2.43.0


From ddbf1223d4570fdbe7de94c25d265843f00ca822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:44 +0000
Subject: [PATCH 35/53] fix: Let decode_char report a character that is not an
 escape as used, get_token never ended on a trailing backslash

---
 xo/string/string_tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/string/string_tools.cpp b/xo/string/string_tools.cpp
index b5d07ad..29a6140 100644
--- a/xo/string/string_tools.cpp
+++ b/xo/string/string_tools.cpp
@@ -308,7 +308,7 @@ namespace xo
 	char decode_char( const char* buf, size_t buf_size, int* len )
 	{
 		xo_error_if( buf_size == 0, "Invalid buffer size" );
-		*len = 0;
+		*len = 1;
 		if ( *buf != '\\' || buf_size == 1 )
 			return *buf;
 
-- 
2.43.0


From 638f2f2227bf93142bbecfffa8aa581d35a43026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:48 +0000
Subject: [PATCH 36/53] fix: Stop try_unquoted at the end of the text

---
 xo/string/string_tools.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xo/string/string_tools.cpp b/xo/string/string_tools.cpp
index 29a6140..86d785e 100644
--- a/xo/string/string_tools.cpp
+++ b/xo/string/string_tools.cpp
@@ -369,11 +369,11 @@ namespace xo
 
 	string try_unquoted( const string& s )
 	{
-		if ( s.empty() || s.front() != '\"' || s.back() != '\"' )
+		if ( s.size() < 2 || s.front() != '\"' || s.back() != '\"' )
 			return s; // no quotes
 
 		string sout;
-		for ( auto it = s.begin() + 1; *it != '\"'; ++it )
+		for ( auto it = s.begin() + 1; it != s.end() && *it != '\"'; ++it )
 		{
 			if ( *it == '\\' )
 			{
-- 
2.43.0


From fa13fc711c82c27f8a09980c400e15044fabc2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:50 +0000
Subject: [PATCH 37/53] fix: Do not append a NUL character to a token without
 closing quote

---
 xo/serialization/char_stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/serialization/char_stream.cpp b/xo/serialization/char_stream.cpp
index e153bc6..3817aeb 100644
--- a/xo/serialization/char_stream.cpp
+++ b/xo/serialization/char_stream.cpp
@@ -77,7 +77,7 @@ namespace xo
 				// this is a part between quotes and must be decoded
 				cur_pos = cur_pos_end;
 				char quote_char = getc();
-				while ( good() )
+				while ( !test_eof() )
 				{
 					char c = peekc();
 					if ( c == quote_char ) // end of quote
-- 
2.43.0


From 2faace28683e40b28dcd473fd7ef81f1120e85f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:53 +0000
Subject: [PATCH 38/53] fix: Do not let char_stream::try_get move past the end

---
 xo/serialization/char_stream.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xo/serialization/char_stream.cpp b/xo/serialization/char_stream.cpp
index 3817aeb..2376807 100644
--- a/xo/serialization/char_stream.cpp
+++ b/xo/serialization/char_stream.cpp
@@ -161,7 +161,7 @@ namespace xo
 
 	bool char_stream::try_get( const string& s )
 	{
-		if ( strncmp( cur_pos, s.c_str(), s.length() ) == 0 )
+		if ( s.length() <= size_t( buffer_end - cur_pos ) && strncmp( cur_pos, s.c_str(), s.length() ) == 0 )
 		{
 			cur_pos += s.length();
 			return true;
@@ -171,7 +171,7 @@ namespace xo
 
 	bool char_stream::try_get( char c )
 	{
-		if ( *cur_pos == c )
+		if ( cur_pos != buffer_end && *cur_pos == c )
 		{
 			++cur_pos;
 			return true;
-- 
2.43.0


From da9ad753637e370aa4e4efd4d8433f81a3fa5993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:22 +0000
Subject: [PATCH 39/53] fix: Do not give quoted zml tokens a special meaning

---
 xo/serialization/char_stream.cpp              |  2 ++
 xo/serialization/char_stream.h                |  4 +++
 xo/serialization/prop_node_serializer_zml.cpp | 35 +++++++++++--------
 3 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/xo/serialization/char_stream.cpp b/xo/serialization/char_stream.cpp
index 2376807..7a96dae 100644
--- a/xo/serialization/char_stream.cpp
+++ b/xo/serialization/char_stream.cpp
@@ -62,6 +62,7 @@ namespace xo
 	{
 		skip_delimiters();
 		string s;
+		quoted_token_ = false;
 		cur_pos_end = const_cast<char*>( cur_pos );
 		while ( good() )
 		{
@@ -75,6 +76,7 @@ namespace xo
 			else if ( strchr( quotations_.c_str(), *cur_pos_end ) ) // check for quote
 			{
 				// this is a part between quotes and must be decoded
+				quoted_token_ = true;
 				cur_pos = cur_pos_end;
 				char quote_char = getc();
 				while ( !test_eof() )
diff --git a/xo/serialization/char_stream.h b/xo/serialization/char_stream.h
index 2763bd4..5f7d529 100644
--- a/xo/serialization/char_stream.h
+++ b/xo/serialization/char_stream.h
@@ -50,6 +50,9 @@ namespace xo
 		string get_line();
 		string get_token();
 
+		/// check if (part of) the last token was between quotes
+		bool is_quoted_token() const { return quoted_token_; }
+
 		char getc() { if ( !test_eof() ) return *cur_pos++; else return '\0'; }
 		char peekc() { if ( !test_eof() ) return *cur_pos; else return '\0'; }
 
@@ -81,6 +84,7 @@ namespace xo
 		std::vector< string > operators_;
 		string delimiters_;
 		string quotations_;
+		bool quoted_token_ = false;
 
 		enum buffer_flag { fail_flag, eof_flag };
 		flag_set< buffer_flag > buffer_flags;
diff --git a/xo/serialization/prop_node_serializer_zml.cpp b/xo/serialization/prop_node_serializer_zml.cpp
index 27f5645..184dd35 100644
--- a/xo/serialization/prop_node_serializer_zml.cpp
+++ b/xo/serialization/prop_node_serializer_zml.cpp
@@ -30,7 +30,9 @@ namespace xo
 		while ( true )
 		{
 			string t = str.get_token();
-			if ( t == "#" || t == "//" ) {
+			if ( str.is_quoted_token() )
+				return t; // text between quotes is never a comment
+			else if ( t == "#" || t == "//" ) {
 				// single line comment
 				str.get_line(); 
 			}
@@ -53,16 +55,21 @@ namespace xo
 		// keep track of the number of macros so we can delete them at the end of this scope
 		auto macro_count = macros.size();
 
+		// text between quotes is never an operator, reference or macro
+		string t;
+		auto is_op = [&]( const char* op ) { return !str.is_quoted_token() && t == op; };
+
 		// iterate over all items in this scope
-		for ( string t = get_zml_token( str, ec ); t != close; t = get_zml_token( str, ec ) )
+		for ( t = get_zml_token( str, ec ); !is_op( close.c_str() ); t = get_zml_token( str, ec ) )
 		{
-			if ( t.empty() ) // check if the stream has ended while expecting a close tag
+			if ( is_op( "" ) ) // check if the stream has ended while expecting a close tag
 				return zml_error( str, ec, "Unexpected end of stream" );
 
-			if ( t == "<<" ) // check directive statement
+			if ( is_op( "<<" ) ) // check directive statement
 			{
 				auto filename = path( get_zml_token( str, ec ) );
-				if ( get_zml_token( str, ec ) != ">>" )
+				t = get_zml_token( str, ec );
+				if ( !is_op( ">>" ) )
 					zml_error( str, ec, "'<<' has no find matching '>>'" );
 				if ( filename.is_relative() )
 					filename = folder / filename;
@@ -81,21 +88,21 @@ namespace xo
 				// check if we're reading an array or if this is a label
 				if ( close != "]" )
 				{
-					if ( t != "{" && t != "[" )
+					if ( !is_op( "{" ) && !is_op( "[" ) )
 					{
 						// t is a label
-						if ( t[0] == '$' )
+						if ( !str.is_quoted_token() && t[0] == '$' )
 							next_parent = &macros.add_child( t ); // add macro
-						else if ( !isgraph( static_cast<unsigned char>( t[0] ) ) )
+						else if ( !str.is_quoted_token() && !isgraph( static_cast<unsigned char>( t[0] ) ) )
 							return zml_error( str, ec, "Invalid label " + t );
 						else
 							next_parent = &parent.add_child( t ); // add new item
 
 						// read = or :
 						t = get_zml_token( str, ec );
-						if ( t == "=" || t == ": " )
+						if ( is_op( "=" ) || is_op( ": " ) )
 							t = get_zml_token( str, ec );
-						else if ( t != "{" && t != "[" )
+						else if ( !is_op( "{" ) && !is_op( "[" ) )
 							return zml_error( str, ec, "Expected '=', ':', '{' or '['" );
 					}
 					else
@@ -109,18 +116,18 @@ namespace xo
 				else next_parent = &parent.add_child( "" ); // add array child
 
 				// parse value element after
-				if ( t == "{" ) // new group
+				if ( is_op( "{" ) ) // new group
 					read_zml_layer( str, *next_parent, "}", ec, folder, included_files, root, macros, include_depth );
-				else if ( t == "[" ) // new array
+				else if ( is_op( "[" ) ) // new array
 					read_zml_layer( str, *next_parent, "]", ec, folder, included_files, root, macros, include_depth );
-				else if ( str_begins_with( t, '@' ) )
+				else if ( !str.is_quoted_token() && str_begins_with( t, '@' ) )
 				{
 					// assign previous value
 					if ( auto ref_pn = root.try_get_query( t.substr( 1 ) ) )
 						*next_parent = std::move( *ref_pn );
 					else return zml_error( str, ec, "Could not find " + t );
 				}
-				else if ( t.size() >= 2 && t[0] == '$' && t[1] != '{' )
+				else if ( !str.is_quoted_token() && t.size() >= 2 && t[0] == '$' && t[1] != '{' )
 				{
 					// replace non-inline macro
 					auto it = std::find_if( macros.rbegin(), macros.rend(), [&]( auto& l ) { return t == l.first; } );
-- 
2.43.0


From e5884546dd631a4d039902fc2cf57553425f56bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:27 +0000
Subject: [PATCH 40/53] fix: Quote all characters that have a meaning in zml

---
 xo/serialization/prop_node_serializer_zml.cpp | 7 +++++--
 xo/string/string_tools.cpp                    | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/xo/serialization/prop_node_serializer_zml.cpp b/xo/serialization/prop_node_serializer_zml.cpp
index 184dd35..769ba0e 100644
--- a/xo/serialization/prop_node_serializer_zml.cpp
+++ b/xo/serialization/prop_node_serializer_zml.cpp
@@ -182,6 +182,9 @@ namespace xo
 		return parse_zml( stream, ec, path() );
 	}
 
+	// characters that have a meaning to the reader
+	constexpr const char* zml_special_chars = "{}[]#<>\\/=:'@$";
+
 	void write_zml_kvp( std::ostream& str, const string& label, const prop_node& pn, const char* equals_str, bool inside_array, error_code* ec )
 	{
 		bool show_label = !label.empty();
@@ -189,11 +192,11 @@ namespace xo
 		if ( !show_label && show_value && !inside_array )
 			return set_error_or_throw( ec, "Value without label outside array" );
 		if ( show_label )
-			str << try_quoted( label, "{}[]#<>\\/" );
+			str << try_quoted( label, zml_special_chars );
 		if ( show_label && show_value )
 			str << equals_str;
 		if ( show_value )
-			str << try_quoted( pn.get_str(), "{}[]#<>\\/" );
+			str << try_quoted( pn.get_str(), zml_special_chars );
 	}
 
 	void write_zml_node_one_line( std::ostream& str, const string& label, const prop_node& pn, bool inside_array, error_code* ec )
diff --git a/xo/string/string_tools.cpp b/xo/string/string_tools.cpp
index 86d785e..af4dc71 100644
--- a/xo/string/string_tools.cpp
+++ b/xo/string/string_tools.cpp
@@ -355,7 +355,7 @@ namespace xo
 	bool needs_quotes( const string& s, const char* special_chars )
 	{
 		for ( const char& c : s )
-			if ( c < 33 || c == '\"' || strchr( special_chars, c ) )
+			if ( !isgraph( static_cast<unsigned char>( c ) ) || c == '\"' || strchr( special_chars, c ) )
 				return true;
 		return s.empty();
 	}
-- 
2.43.0


From cc6c64f0cbdebc48fe5ec08a1cf1d07c1fbfea94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:30 +0000
Subject: [PATCH 41/53] fix: Do not let char_stream::seek_past move past the
 end

---
 xo/serialization/char_stream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xo/serialization/char_stream.cpp b/xo/serialization/char_stream.cpp
index 7a96dae..7cef477 100644
--- a/xo/serialization/char_stream.cpp
+++ b/xo/serialization/char_stream.cpp
@@ -130,7 +130,8 @@ namespace xo
 	{
 		if ( good() )
 		{
-			if ( const char* p = strstr( cur_pos, s.c_str() ) )
+			const char* p = std::search( cur_pos, buffer_end, s.begin(), s.end() );
+			if ( p != buffer_end || s.empty() )
 			{
 				cur_pos = p;
 				return true;
-- 
2.43.0


From 41405eb1df0ff4d1354cdeb094e9774c38ce35e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:24 +0000
Subject: [PATCH 42/53] fix: empty quoted text followed by an operator is a
 token of its own

---
 xo/serialization/char_stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/serialization/char_stream.cpp b/xo/serialization/char_stream.cpp
index 7cef477..d09f5c5 100644
--- a/xo/serialization/char_stream.cpp
+++ b/xo/serialization/char_stream.cpp
@@ -99,7 +99,7 @@ namespace xo
 			}
 			else if ( auto opstr = check_operator( cur_pos_end ) ) // check for operator
 			{
-				if ( cur_pos == cur_pos_end && s.empty() )
+				if ( cur_pos == cur_pos_end && s.empty() && !quoted_token_ )
 				{
 					s = *opstr; // token is an operator
 					cur_pos += opstr->length();
-- 
2.43.0


From 76218d67502ba3a56f26a82149b8389574ec44bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:16 +0000
Subject: [PATCH 43/53] fix: ZML writers report documents that have no ZML form

---
 xo/serialization/prop_node_serializer_zml.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/xo/serialization/prop_node_serializer_zml.cpp b/xo/serialization/prop_node_serializer_zml.cpp
index 769ba0e..0ef0078 100644
--- a/xo/serialization/prop_node_serializer_zml.cpp
+++ b/xo/serialization/prop_node_serializer_zml.cpp
@@ -189,8 +189,10 @@ namespace xo
 	{
 		bool show_label = !label.empty();
 		bool show_value = !pn.get_str().empty() || pn.size() == 0;
-		if ( !show_label && show_value && !inside_array )
+		if ( !show_label && !inside_array )
 			return set_error_or_throw( ec, "Value without label outside array" );
+		if ( inside_array && show_value && pn.size() > 0 )
+			return set_error_or_throw( ec, "Array element with both a value and children" );
 		if ( show_label )
 			str << try_quoted( label, zml_special_chars );
 		if ( show_label && show_value )
@@ -239,7 +241,7 @@ namespace xo
 			if ( level != 0 && pn.count_layers() <= 2 && pn.count_children() <= 5 )
 			{
 				std::ostringstream oneliner;
-				write_zml_node_one_line( oneliner, label, pn, is_array, ec );
+				write_zml_node_one_line( oneliner, label, pn, inside_array, ec );
 				if ( level + label.size() + 1 + oneliner.str().size() <= max_oneliner_length )
 				{
 					str << oneliner.str();
@@ -247,8 +249,9 @@ namespace xo
 				}
 			}
 
-			// no oneliner, try normal output
-			write_zml_kvp( str, label, pn, " = ", inside_array, ec );
+			// no oneliner, try normal output (the root only has children)
+			if ( level != 0 || !label.empty() || pn.has_value() )
+				write_zml_kvp( str, label, pn, " = ", inside_array, ec );
 			if ( !label.empty() )
 				str << ' '; // add space before { or [
 
@@ -257,7 +260,7 @@ namespace xo
 				str << ( is_array ? "[" : "{" ) << std::endl;
 			for ( auto it = pn.begin(); it != pn.end(); ++it )
 			{
-				write_zml_node( str, it->first, it->second, level + 1, is_array, ec );
+				write_zml_node( str, it->first, it->second, level + 1, is_array && level != 0, ec );
 				str << std::endl;
 			}
 			if ( level != 0 )
@@ -267,7 +270,8 @@ namespace xo
 
 	void write_zml_node_concise( std::ostream& str, const string& label, const prop_node& pn, int level, bool inside_array, error_code* ec )
 	{
-		write_zml_kvp( str, label, pn, "=", inside_array, ec );
+		if ( level != 0 || !label.empty() || pn.has_value() )
+			write_zml_kvp( str, label, pn, "=", inside_array, ec );
 		if ( pn.size() > 0 )
 		{
 			// add children, either array or group
@@ -276,7 +280,7 @@ namespace xo
 			for ( auto it = pn.begin(); it != pn.end(); ++it )
 			{
 				if ( it != pn.begin() ) str << " ";
-				write_zml_node_concise( str, it->first, it->second, level + 1, is_array, ec );
+				write_zml_node_concise( str, it->first, it->second, level + 1, is_array && level > 0, ec );
 			}
 			if ( level > 0 ) str << ( is_array ? ']' : '}' );
 		}
-- 
2.43.0


From 7085dab5b862f27e042c3aeebf32f9cae1756af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:17 +0000
Subject: [PATCH 44/53] fix: factory registrants cannot be copied

---
 xo/utility/factory.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xo/utility/factory.h b/xo/utility/factory.h
index a3e6f1e..244941b 100644
--- a/xo/utility/factory.h
+++ b/xo/utility/factory.h
@@ -95,6 +95,10 @@ namespace xo
 		{ factory_.template register_type<T>( name_ ); }
 
 		~factory_registrant() { factory_.unregister_type( name_ ); }
+
+		// a copy would unregister the same name again
+		factory_registrant( const factory_registrant& ) = delete;
+		factory_registrant& operator=( const factory_registrant& ) = delete;
 	private:
 		F& factory_;
 		string name_;
-- 
2.43.0


From b0f354a3c358ea5766a8b98c1b2e64421194f930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:47 +0000
Subject: [PATCH 45/53] fix: profiled scopes cannot be copied

---
 xo/system/profiler.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xo/system/profiler.h b/xo/system/profiler.h
index 8b4771c..c439448 100644
--- a/xo/system/profiler.h
+++ b/xo/system/profiler.h
@@ -69,6 +69,8 @@ namespace xo
 			if ( enabled_ )
 				profiler_.start_section( name );
 		}
+		scoped_profiler_section( const scoped_profiler_section& ) = delete;
+		scoped_profiler_section& operator=( const scoped_profiler_section& ) = delete;
 		~scoped_profiler_section() {
 			if ( enabled_ )
 				profiler_.end_section();
-- 
2.43.0


From 18b827ca99b697d65d77c4c9a8257b74e1ca92d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:21 +0000
Subject: [PATCH 46/53] fix: timers keep their time when paused, resumed or
 restarted twice

---
 xo/time/timer.cpp | 18 ++++++++++--------
 xo/time/timer.h   |  5 +++--
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/xo/time/timer.cpp b/xo/time/timer.cpp
index c01e684..1bb7f45 100644
--- a/xo/time/timer.cpp
+++ b/xo/time/timer.cpp
@@ -82,15 +82,15 @@ namespace xo
 
 	time timer::operator()() const
 	{
-		auto current_time = epoch_ > 0 ? get_tick_count() - epoch_ : -epoch_;
-		return get_time_from_ticks( current_time );
+		return get_time_from_ticks( tick_count() );
 	}
 
 	time timer::restart()
 	{
-		auto prev_epoch = epoch_;
-		epoch_ = get_tick_count();
-		return get_time_from_ticks( epoch_ - prev_epoch );
+		auto now = get_tick_count();
+		auto ticks = is_running() ? now - epoch_ : -epoch_;
+		epoch_ = now;
+		return get_time_from_ticks( ticks );
 	}
 
 	void timer::set( time t )
@@ -103,18 +103,20 @@ namespace xo
 
 	long long timer::tick_count() const
 	{
-		return get_tick_count() - epoch_;
+		return is_running() ? get_tick_count() - epoch_ : -epoch_;
 	}
 
 	time timer::pause()
 	{
 		// store current time in epoch
-		epoch_ = -( get_tick_count() - epoch_ );
+		if ( is_running() )
+			epoch_ = -( get_tick_count() - epoch_ );
 		return get_time_from_ticks( -epoch_ );
 	}
 
 	void timer::resume()
 	{
-		epoch_ = get_tick_count() + epoch_;
+		if ( is_paused() )
+			epoch_ = get_tick_count() + epoch_;
 	}
 }
diff --git a/xo/time/timer.h b/xo/time/timer.h
index 205d56a..1da87fc 100644
--- a/xo/time/timer.h
+++ b/xo/time/timer.h
@@ -26,8 +26,9 @@ namespace xo
 
 	struct scoped_timer_starter
 	{
-		scoped_timer_starter( timer& t ) : t_( t ) { t_.resume(); }
-		~scoped_timer_starter() { t_.pause(); }
+		scoped_timer_starter( timer& t ) : t_( t ), was_paused_( t.is_paused() ) { t_.resume(); }
+		~scoped_timer_starter() { if ( was_paused_ ) t_.pause(); }
 		timer& t_;
+		bool was_paused_;
 	};
 }
-- 
2.43.0


From d9e744d98d7fee32495761d27859a2760cf59fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:29 +0000
Subject: [PATCH 47/53] fix: settings are found by name only, not by position

---
 xo/system/settings.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xo/system/settings.cpp b/xo/system/settings.cpp
index aee4e96..5fd128b 100644
--- a/xo/system/settings.cpp
+++ b/xo/system/settings.cpp
@@ -20,7 +20,13 @@ namespace xo
 
 	const prop_node* settings::try_find_setting( const string& id ) const
 	{
-		const auto* schema_node = schema_.try_get_query( id );
+		// settings are identified by name only, since the order of schema_ and data_ may differ
+		const prop_node* schema_node = &schema_;
+		for ( size_t b = 0, e = 0; schema_node && e != string::npos; b = e + 1 )
+		{
+			e = id.find( '.', b );
+			schema_node = schema_node->try_get_child( id.substr( b, e == string::npos ? e : e - b ) );
+		}
 		if ( schema_node && schema_node->has_key( "default" ) )
 			return schema_node;
 		else return nullptr;
-- 
2.43.0


From 5e28e32e2a39747daf5f27fec8d470c3315d94ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:33 +0000
Subject: [PATCH 48/53] fix: settings with a range refuse values that are not a
 number

---
 xo/system/settings.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xo/system/settings.cpp b/xo/system/settings.cpp
index 5fd128b..725539e 100644
--- a/xo/system/settings.cpp
+++ b/xo/system/settings.cpp
@@ -74,8 +74,12 @@ namespace xo
 			// check if the setting is within a specified 'range'
 			if ( auto range = schema_node->try_get< bounds< double > >( "range" ) )
 			{
-				auto dvalue = schema_node->get< double >( "default" );
-				from_str( value.get_str(), dvalue );
+				double dvalue = 0.0;
+				if ( !from_str( value.get_str(), dvalue ) || dvalue != dvalue )
+				{
+					log::error( "Error setting ", id, ": could not convert '", value.get_str(), "' to number" );
+					return false;
+				}
 				if ( !range->is_within( dvalue ) )
 				{
 					log::warning( "Invalid value for ", id, ": ", dvalue, ", restricting to range ", *range );
-- 
2.43.0


From b4d5a32af3ee4b37b2c61f58d781ea167afd7093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:36 +0000
Subject: [PATCH 49/53] fix: settings store values within range as given

---
 xo/system/settings.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/xo/system/settings.cpp b/xo/system/settings.cpp
index 725539e..dcb1344 100644
--- a/xo/system/settings.cpp
+++ b/xo/system/settings.cpp
@@ -84,9 +84,17 @@ namespace xo
 				{
 					log::warning( "Invalid value for ", id, ": ", dvalue, ", restricting to range ", *range );
 					range->clamp( dvalue );
+					if ( type != "int" )
+					{
+						data_.set_query( id, dvalue );
+						return true;
+					}
+				}
+				if ( type == "int" )
+				{
+					data_.set_query( id, static_cast<long long>( dvalue ) );
+					return true;
 				}
-				data_.set_query( id, dvalue );
-				return true;
 			}
 
 			// value can be set
-- 
2.43.0


From 9b87a412e12824fa7aff88f70f5fba46a595a47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:00 +0000
Subject: [PATCH 50/53] fix: zml reader stops after an error inside a group or
 array

---
 xo/serialization/prop_node_serializer_zml.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xo/serialization/prop_node_serializer_zml.cpp b/xo/serialization/prop_node_serializer_zml.cpp
index 0ef0078..ad02a84 100644
--- a/xo/serialization/prop_node_serializer_zml.cpp
+++ b/xo/serialization/prop_node_serializer_zml.cpp
@@ -157,6 +157,10 @@ namespace xo
 					// assign value
 					next_parent->set_value( std::move( t ) );
 				}
+
+				// don't continue after an error inside a group or array
+				if ( ec && ec->bad() )
+					return;
 			}
 		}
 
-- 
2.43.0


From 73bf2c7a6b239897b2ffe0f2ebb4687f72ea07b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:28 +0000
Subject: [PATCH 51/53] fix: circular_deque iterator: postfix increment returns
 its result by value

---
 xo/container/circular_deque.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/container/circular_deque.h b/xo/container/circular_deque.h
index ea89fb9..54f295b 100644
--- a/xo/container/circular_deque.h
+++ b/xo/container/circular_deque.h
@@ -55,7 +55,7 @@ namespace xo
 			using reference = IT&;
 			iterator_impl( size_t index, const buffer_type& buffer ) : index_( index ), buffer_( buffer ) {}
 			iterator_impl< IT >& operator++() { ++index_; return *this; }
-			iterator_impl< IT >& operator++( int ) { auto ret = *this; ++index_; return ret; }
+			iterator_impl< IT > operator++( int ) { auto ret = *this; ++index_; return ret; }
 			iterator_impl< IT > operator+( int v ) const { return iterator_impl< IT >( index_ + v, buffer_ ); }
 			iterator_impl< IT > operator-( int v ) const { return iterator_impl< IT >( index_ - v, buffer_ ); }
 			auto operator-( const iterator_impl< IT >& other ) const { return index_ - other.index_; }
-- 
2.43.0


From b0272ca0de3f71eea7247dfc7f243ef97e1781f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:34 +0000
Subject: [PATCH 52/53] fix: table: reading a cell by labels returns the cell

---
 xo/container/table.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/container/table.h b/xo/container/table.h
index 104c9c1..7289d45 100644
--- a/xo/container/table.h
+++ b/xo/container/table.h
@@ -63,7 +63,7 @@ namespace xo
 		const T& operator()( index_t row, index_t col ) const { xo_assert( row < row_size() && col < column_size() ); return data[row * column_size() + col]; }
 		T& operator()( index_t row, index_t col ) { xo_assert( row < row_size() && col < column_size() ); return data[row * column_size() + col]; }
 
-		const T& operator()( const L& row, const L& col ) const { operator()( find_row( row ), find_column( col ) ); }
+		const T& operator()( const L& row, const L& col ) const { return operator()( find_row( row ), find_column( col ) ); }
 		T& operator()( const L& row, const L& col ) { return operator()( get_or_add_row( row ), get_or_add_column( col ) ); }
 
 		const T& operator()( index_t row, const L& col ) const { return operator()( row, find_column( col ) ); }
-- 
2.43.0


From a31ff9f0ce60297f1cb104b2bad8dc8a936d3d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:04 +0000
Subject: [PATCH 53/53] fix: std::array read from a prop_node with too few
 children had uninitialised elements

---
 xo/container/prop_node.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xo/container/prop_node.h b/xo/container/prop_node.h
index 2bd7920..35bb581 100644
--- a/xo/container/prop_node.h
+++ b/xo/container/prop_node.h
@@ -14,6 +14,7 @@
 
 #include <initializer_list>
 #include <array>
+#include <algorithm>
 
 namespace xo
 {
@@ -302,6 +303,7 @@ namespace xo
 		for ( index_t i = 0; i < n; ++i )
 			if ( !from_prop_node( pn[i], arr[i] ) )
 				return false;
+		std::fill( arr.begin() + n, arr.end(), T() ); // missing elements
 		pn.access();
 		return true;
 	};
-- 
2.43.0

