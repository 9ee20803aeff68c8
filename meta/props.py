# Single source of the property list: gen.py turns it into properties.jsonl (and MANIFEST.json).
# P(id, title, statement, over, quantifier text, why tests can't, files, mechanisms[(name, where)], observe_at)
PROPS = []
def P(id, title, statement, over, qtext, why, files, mech, observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=qtext),
        why_tests_cant=why, anchors=dict(files=files.split(), mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))

# ---------------------------------------------------------------- errors and effects
P("E01", "An error object turns every detected failure into a report, never a throw",
  "When the caller passes an error object to an operation that loads, parses, saves or copies data, every failure the operation detects (missing file, unsupported format, malformed content, failed include) is stored in that object and no exception of the library or of its bundled XML parser escapes. When no error object is passed, the same failure is thrown, so it can never be silently swallowed.",
  "inputs fault_sequences", "every file content, file name, format and fault met by load/parse/save/copy calls, with and without an error object",
  "The tests parse a few well-formed documents and one missing file; which failures exist and on which path each is reported is a property of every error path, most of which no test enters.",
  "xo/system/error_code.cpp xo/serialization/serialize.cpp xo/serialization/prop_node_serializer.cpp xo/serialization/prop_node_serializer_zml.cpp xo/serialization/prop_node_serializer_ini.cpp xo/serialization/prop_node_serializer_xml.cpp xo/filesystem/filesystem.cpp",
  [("set_error_or_throw", "xo/system/error_code.cpp"), ("error_code* parameter threaded through loaders", "xo/serialization/serialize.h"), ("serializer ec_ member", "xo/serialization/prop_node_serializer.h")],
  ["error_code::bad()", "exceptions leaving load_file, parse_zml, load_zml, save_file, load_string, save_string, copy_file"])
P("E02", "A file that cannot be opened is never treated as success",
  "Every load, save or append operation (apart from writing out storage when it is destroyed) checks that the file it opened is usable before it reads from or writes to it, and when it is not, the caller gets an error (stored in the error object or thrown) rather than an empty result or silent loss of output.",
  "inputs fault_sequences", "every path name and file-system state met by the load/save/append operations",
  "Tests run on a healthy file system with files that exist; failing opens at each of the operations are never provoked.",
  "xo/filesystem/filesystem.cpp xo/serialization/prop_node_serializer.cpp xo/container/storage_tools.h xo/system/log_sink.cpp",
  [("stream state test before use, error on the failing branch", "xo/filesystem/filesystem.cpp load_string/save_string/append_string"), ("prop_node_serializer::load_file / save_file", "xo/serialization/prop_node_serializer.cpp")],
  ["error_code / exception of load_string, save_string, append_string, load_file, save_file"])
P("E03", "Missing environment facts are handled, never dereferenced",
  "Operations that consult the process environment or the operating system for optional information (home directory, environment variables, current directory, temporary directory, demangled type names, local time) never crash when that information is unavailable; they fall back or report an error.",
  "configurations fault_sequences", "every process environment and every failing operating-system lookup",
  "Tests run with HOME set and a live working directory; a missing value is never simulated.",
  "xo/filesystem/filesystem.cpp xo/system/system_tools.cpp",
  [("null test of getenv / getcwd / __cxa_demangle / localtime results", "xo/filesystem/filesystem.cpp, xo/system/system_tools.cpp")],
  ["get_config_dir, get_documents_dir, temp_directory_path, current_path, tidy_type_name, get_date_time_str"])
P("E04", "Query, load and parse operations never modify the file system",
  "Operations that only inspect or read (existence tests, finding and loading files, parsing, path manipulation, in-memory containers, geometry, numerics) create, overwrite, move or delete nothing on disk. Only the documented writers do (save, append, copy, remove, create-directory, file log, file-backed storage, settings), each with its documented kind of effect only: append never truncates, copy overwrites only when asked to. Loading settings writes only when the settings file does not exist yet.",
  "inputs programs", "every call of a non-writing operation with any argument",
  "A test can look at one directory after one call; absence of a side effect over all inputs and call paths is not observable by sampling.",
  "xo/filesystem/filesystem.cpp xo/serialization/serialize.cpp xo/system/settings.cpp xo/container/storage_tools.h",
  [("who may reach an operation that writes to disk", "whole-library call graph")],
  ["file system state before/after"])
P("E05", "The test runner counts every failed check and every exception as a failure",
  "A test case in which a check fails or which throws is reported as not successful and counted by the result of the runner, in the sequential and in the parallel runner alike; no failed check or escaping exception is ever dropped from the counts. Checks that throw count as failed and do not end the test.",
  "programs histories", "every test function: any sequence of passing/failing checks with or without a thrown exception",
  "The framework's own tests all pass, so the failing branches that make the other tests meaningful are never executed.",
  "xo/system/test_case.h xo/system/test_case.cpp xo/system/test_main.h",
  [("test_case::check / try_run_func / run / run_tests / run_tests_async", "xo/system/test_case.cpp"), ("test_result::success", "xo/system/test_case.h")],
  ["return value of run_tests(), test_case::run()"])

# ---------------------------------------------------------------- serialization
P("S01", "What a ZML writer writes is read back as an equal tree",
  "Every tree that has a ZML form (labelled members, or unlabelled array elements that have a value or children) is written, in the normal and in the concise style, as text from which parse_zml rebuilds an equal tree without an error: same labels, values, order, duplicates, groups and arrays. This holds whatever characters labels and values contain: operators, brackets, comment markers, white space, quotes, empty text and non-printable bytes are never re-read as structure. A tree without a ZML form is reported as an error instead of being written as something else.",
  "inputs", "every label and value string",
  "The tests write a handful of identifiers and numbers; the tables of reader and writer are never compared.",
  "xo/serialization/prop_node_serializer_zml.cpp xo/serialization/char_stream.cpp xo/string/string_tools.cpp",
  [("reader operator, delimiter and quote tables", "parse_zml in prop_node_serializer_zml.cpp"), ("writer special-character table", "write_zml_kvp in prop_node_serializer_zml.cpp"), ("needs_quotes / try_quoted", "xo/string/string_tools.cpp")],
  ["save_zml output re-read by load_zml"])
P("S02", "Escape encoding and decoding are inverse for every byte",
  "Reading the quoted form of a text, with try_unquoted or with the token reader, gives back exactly that text, for every byte value in every position and next to every other kind of byte. The quote and the escape character are always escaped, and decoding an escape consumes exactly the characters that encoding wrote.",
  "inputs", "all 256 byte values in any position of a quoted string",
  "One test round-trips a short ASCII string; non-ASCII bytes and most control characters are never tried.",
  "xo/string/string_tools.cpp xo/serialization/char_stream.cpp",
  [("encode_char / decode_char / quoted / try_unquoted", "xo/string/string_tools.cpp")],
  ["quoted(), try_unquoted(), zml files"])
P("S03", "Reading a value type back uses exactly the fields its writer stored",
  "For every value type that can be written to and read from a property node, the reader consumes the same set of named (or positioned) fields that the writer stores and assigns each one to the member it was written from.",
  "inputs programs", "every value of every type that has both directions",
  "Round-trip tests exist for two or three of the types; agreement of the two tables for all types is structural.",
  "xo/shape/sphere.h xo/shape/box.h xo/shape/box.cpp xo/shape/capsule.h xo/shape/cylinder.h xo/shape/cone.h xo/shape/plane.h xo/geometry/vec3.h xo/geometry/quat.h xo/utility/color.h xo/utility/color.cpp xo/numerical/bounds.h xo/system/version.h",
  [("to_prop_node / from_prop_node pairs", "per type")],
  ["from_prop_node(to_prop_node(x))"])
P("S04", "Every file format both reads and writes, and unknown formats are errors",
  "Every file format the library registers comes with a reader and a writer that are bound to the given document and error object, restore what they saved, and refuse to run without a target or source document. Asking for a format that is not registered, to make a serializer, load or save, is reported as an error, and so is a file that cannot be opened.",
  "inputs programs", "every registered format name and every other name",
  "Tests exercise zml and one ini/xml call each with valid nodes; the unbound serializer and unknown-extension paths are not run.",
  "xo/serialization/serialize.cpp xo/serialization/prop_node_serializer_xml.cpp xo/serialization/prop_node_serializer_ini.cpp xo/serialization/prop_node_serializer_zml.cpp",
  [("get_serializer_factory registrations", "xo/serialization/serialize.cpp"), ("xo_assert( read_pn_ ) / xo_assert( write_pn_ )", "serializers")],
  ["load_file/save_file with any extension"])
P("S05", "Text scanning never moves past the end of its input",
  "Whatever text it is given, the character-stream reader and the routines that decode escaped or quoted text end, never read or advance beyond the end of the text, and never return a character that does not come from it, even when a closing quote or escape is missing.",
  "inputs", "every input text, including truncated quotes, escapes, comments and empty text",
  "Tests feed complete documents; truncated or adversarial text at each scanning loop is not sampled.",
  "xo/serialization/char_stream.h xo/serialization/char_stream.cpp xo/string/string_tools.cpp",
  [("test_eof before *cur_pos++", "xo/serialization/char_stream.h"), ("bounded loops in decode_char / try_unquoted", "xo/string/string_tools.cpp")],
  ["memory safety of char_stream, try_unquoted, decode_char"])
P("S06", "File inclusion is always bounded",
  "Loading a document that includes itself, directly or through other files, always ends with an error after a bounded number of files, instead of recursing without bound or opening files without end. Files that do not include themselves load without such an error, with every include replaced by the included content.",
  "inputs", "every set of files with any include graph",
  "One test includes a single file; cyclic include graphs are not tried.",
  "xo/serialization/serialize.cpp xo/serialization/prop_node_serializer_zml.cpp",
  [("level check in load_file_with_include", "xo/serialization/serialize.cpp"), ("<< include >> handling", "xo/serialization/prop_node_serializer_zml.cpp")],
  ["load_file_with_include, load_zml on cyclic includes"])

# ---------------------------------------------------------------- containers
P("K01", "Sorted containers are sorted and duplicate-free after every operation",
  "After any sequence of operations through their interface, the flat map and flat set hold strictly increasing keys, the sorted vector holds non-decreasing elements, and lookups search with the same order, so an element that was inserted is found and a key is never stored twice.",
  "histories inputs", "every sequence of constructions, insertions, erasures and lookups on any keys",
  "The tests run one insertion sequence per container; construction from unordered or duplicate lists, and each overload, are not covered.",
  "xo/container/flat_map.h xo/container/flat_set.h xo/container/sorted_vector.h",
  [("insertion at lower_bound/upper_bound position after an equality test", "xo/container/flat_map.h, flat_set.h, sorted_vector.h"), ("sort on construction", "same")],
  ["iteration order, size, find, contains, insert"])
P("K02", "Containers that keep a value list and an index keep them in step",
  "In containers that store elements together with a lookup index (labelled vectors, indexed sets, labelled storage), every operation that adds, replaces or removes an element updates both structures, so looking up an element by value yields the position that holds it and nothing else.",
  "histories", "every sequence of add, set, resize, clear and construct operations",
  "Tests add a few distinct labels and look them up; replacement, clearing and construction from a list are not sampled.",
  "xo/container/label_vector.h xo/container/indexed_set.h xo/container/storage.h",
  [("paired updates of the list and the index", "xo/container/label_vector.h, indexed_set.h")],
  ["find/try_get results versus operator[]"])
P("K03", "A failed lookup is never used as if it had succeeded",
  "Whenever the library looks something up (in a container, a string, a registry or a settings tree) the result is compared with the not-found value before it is used; a missing element yields the documented error, default or empty result and never an access through an end position.",
  "inputs histories", "every lookup with every present or absent key",
  "Tests look up keys that exist; the missing-key branch of each lookup is mostly not executed.",
  "xo/container/flat_map.h xo/container/indexed_map.h xo/container/prop_node.cpp xo/utility/factory.h xo/system/log.cpp xo/string/dictionary.h xo/container/container_tools.h",
  [("comparison with end()/npos/no_index before use", "all lookup sites")],
  ["at(), operator[] const, get_child, create, find-based operations"])
P("K04", "Indexed access that promises checking rejects every out-of-range position",
  "Accessors documented to check (at, checked front/back/pop, index-based property access) test their position or emptiness against the current size before touching the element and raise an error otherwise.",
  "inputs histories", "every index and every container state, including empty",
  "Tests use in-range indices.",
  "xo/container/dynarray.h xo/container/circular_deque.h xo/container/prop_node.h xo/container/prop_node.cpp xo/container/storage.h",
  [("xo_error_if / xo_assert guarding the element access", "same files")],
  ["exceptions from at(), pop_front(), front(), back()"])
P("K05", "Copying, moving or comparing an object covers its complete state",
  "Every hand-written copy, move, swap or equality operation of the library's types accounts for every data member of the type (and leaves a moved-from container in a valid, empty state), so a copy never silently loses part of the original and two objects that differ are never reported equal.",
  "inputs programs", "every object of every type with a hand-written copy, move, swap or equality operation",
  "Tests compare single fields of a few copies; completeness over members is structural.",
  "xo/container/prop_node.h xo/container/prop_node.cpp xo/container/dynarray.h xo/utility/handle.h xo/utility/optional.h xo/geometry/vec3_type.h xo/geometry/vec4.h xo/geometry/quat.h xo/utility/color.h xo/system/version.h",
  [("copy/move constructors, assignment operators, operator==", "same files")],
  ["state of copies, moved-from objects, ==/!="])
P("K06", "Reading a property marks it as used; peeking, testing and copying do not",
  "Every accessor that hands out a property's value, or converts it, marks that property as accessed, while existence tests, peeks and reporting leave the mark unchanged, so the report of unused settings lists exactly the properties nobody read.",
  "histories programs", "every sequence of property reads through any accessor",
  "One test checks the mark for one accessor; the other accessors are not checked.",
  "xo/container/prop_node.h xo/container/prop_node.cpp",
  [("access() in value accessors; mutable accessed flag", "xo/container/prop_node.h")],
  ["count_unaccessed, is_accessed, log_unaccessed"])
P("K07", "Const access never hands out a way to modify",
  "Through a const object of any of the library's containers, documents, settings or other classes, no operation returns a mutable reference, pointer, iterator or view to anything the object owns, and no const operation casts constness away to modify it.",
  "programs", "every program that holds a const object",
  "It is about programs that must not compile; a test suite contains only programs that do.",
  "xo/container/flat_map.h xo/container/flat_set.h xo/container/prop_node.h xo/container/dynarray.h xo/container/table.h xo/container/storage.h xo/system/settings.h xo/utility/handle_vector.h xo/container/label_vector.h",
  [("const overloads returning const references/iterators", "same files")],
  ["type of const access expressions"])

# ---------------------------------------------------------------- concurrency
P("T01", "Log sinks may be added, removed and used from any thread",
  "The set of log outputs and the derived global log threshold are only read while a lock that excludes writers is held and only changed while that lock is held exclusively, so logging, adding and removing outputs concurrently is free of data races.",
  "schedules", "every interleaving of logging, flushing, adding and removing outputs on any number of threads",
  "Tests log from one thread at a time; a race needs a particular interleaving and may not even fail when it happens.",
  "xo/system/log.cpp xo/system/log_sink.cpp",
  [("global_sink_mutex guarding the sink list and the global level", "xo/system/log.cpp")],
  ["data races under concurrent logging"])
P("T02", "Shared caches may be used from any thread",
  "The thread-safe memoizer and the file resource cache read their tables only under at least a shared lock and change the table or an entry only under the exclusive lock, and re-check for the entry after upgrading from the shared to the exclusive lock.",
  "schedules", "every interleaving of lookups, insertions and reloads",
  "There is no multi-threaded test of these caches.",
  "xo/utility/file_resource_cache.h xo/utility/memoize.h",
  [("shared_mutex, unique_lock/shared_lock regions", "same files")],
  ["data races, duplicate creation"])
P("T03", "Flags that one thread sets and another polls are race-free",
  "Interrupt and stop requests are stored in atomic objects (or under a lock), so a request made on one thread is seen by a polling thread without a data race, and a stop token can only observe, never make or clear, a request.",
  "schedules", "every interleaving of a requesting and a polling thread",
  "The tests set and read the flag on the same thread.",
  "xo/thread/interruptible.h xo/thread/interruptible.cpp xo/thread/stop_token.h",
  [("std::atomic stop state", "xo/thread/stop_token.h"), ("interrupt flag", "xo/thread/interruptible.h")],
  ["test_interrupt_flag, stop_requested"])
P("T04", "No hidden unsynchronised shared state",
  "Operations on distinct objects may run concurrently: apart from state that is constant, thread-local, atomic, guarded by its lock or documented as process-wide configuration, the library keeps no mutable global or function-local static data and calls no C library function that returns shared static storage.",
  "schedules programs", "every pair of library calls on distinct objects from different threads",
  "Races through hidden statics only show under particular schedules.",
  "xo/system/system_tools.cpp xo/system/log.cpp xo/string/string_tools.cpp xo/system/debug_storage.cpp xo/filesystem/filesystem.cpp xo/system/test_case.cpp xo/numerical/random.h",
  [("thread_local / atomic / mutex-guarded globals", "same files")],
  ["data races"])
P("T05", "Locks are released on every path and never re-acquired while held",
  "Every lock the library takes is released on every exit of the scope that took it, including exceptions; no thread acquires a non-recursive lock it already holds through any call path, and locks are always nested in one global order.",
  "schedules fault_sequences", "every call path and exception through code that takes a lock",
  "A deadlock or leaked lock needs the specific path (exception, re-entrant sink) that tests do not take.",
  "xo/system/log.cpp xo/system/log_sink.cpp xo/system/test_case.cpp xo/utility/memoize.h xo/utility/file_resource_cache.h",
  [("scoped lock objects", "same files")],
  ["absence of deadlock"])

# ---------------------------------------------------------------- life cycles
P("L01", "A log output receives messages exactly while it exists",
  "Every log output registers itself when it is constructed and is unregistered before its storage goes away, and changing its level keeps it registered, so the logging system never calls a destroyed output and never loses a live one.",
  "histories", "every sequence of creating, reconfiguring and destroying outputs",
  "Tests keep one console output alive for the whole run.",
  "xo/system/log_sink.cpp xo/system/log.cpp",
  [("sink constructor/destructor, add_sink/remove_sink", "xo/system/log_sink.cpp")],
  ["messages delivered to sinks"])
P("L02", "Profiler sections are balanced on every path",
  "The profiler's report has one entry for each distinct path of scope names that was entered while profiling, with the exact number of entries and the time spent in it, also when scopes are left by exceptions and when profiling is started or stopped in between. A scope ends the section it started exactly once, and starting twice or stopping inside a scope are errors that lose nothing.",
  "histories fault_sequences", "every nesting of profiled scopes with exceptions and enable/disable in between",
  "One test profiles a fixed nesting without exceptions.",
  "xo/system/profiler.h xo/system/profiler.cpp xo/system/profiler_config.h",
  [("scoped_profiler_section constructor/destructor with remembered enable state", "xo/system/profiler.h")],
  ["profiler::report structure"])
P("L03", "Factories never silently replace or invent types",
  "Registering a name twice and creating or unregistering an unknown name are errors, the non-throwing lookup yields null for an unknown name, and a scoped registration removes exactly the name it added when it ends.",
  "histories inputs", "every sequence of register, unregister and create calls with any names",
  "Tests register and create a couple of distinct types.",
  "xo/utility/factory.h",
  [("contains check before insertion; end() check before use; registrant destructor", "xo/utility/factory.h")],
  ["factory::create/try_create/register_type/unregister_type"])
P("L04", "A failed reload never leaves stale data marked as fresh",
  "When (re)creating a cached resource or a memoized value fails, the error reaches the caller and the next request tries again. A request that looks at a file again never yields a resource older than the file's last change, and a memoized value is always the value of its own arguments.",
  "fault_sequences histories", "every sequence of requests in which the creation function may fail",
  "Failing creation functions are never used in tests.",
  "xo/utility/file_resource_cache.h xo/utility/memoize.h",
  [("ordering of time-stamp update and creation", "xo/utility/file_resource_cache.h")],
  ["operator() after a failed reload"])
P("L05", "Error and critical messages are flushed before the call returns",
  "Every way of logging at error or critical level flushes all outputs after delivering the message and before returning to the caller, so the message survives a crash that follows.",
  "programs crash_points", "every logging call at error or critical level, followed by a crash",
  "No test crashes after logging.",
  "xo/system/log.h xo/system/log.cpp",
  [("flush() after message/log_vstring in error, critical, errorf, criticalf", "xo/system/log.h, xo/system/log.cpp")],
  ["log sink contents after a crash"])
P("L06", "Every message reaches exactly the outputs whose level admits it",
  "A message is handed to an output exactly when its level is at or above the threshold of that output, all registered outputs are considered for every message, and the early-out on the global threshold never suppresses a message some output would accept.",
  "inputs histories", "every message level and every set of outputs with any thresholds",
  "Tests use one output with one threshold.",
  "xo/system/log.h xo/system/log.cpp xo/system/log_sink.cpp xo/system/log_level.h",
  [("test_log_level / submit_log_message / update of the global threshold", "xo/system/log.cpp, xo/system/log_sink.cpp")],
  ["messages delivered to sinks"])
P("L07", "Settings only ever store values that passed validation",
  "A value reaches the settings data through set or load only if its dotted name is in the schema, it converts to the declared type, it is in the allowed list when there is one, and it is a number when there is a declared range. Settings with a range read back as the number that was given, or as the nearest limit when it is outside the range (as whole numbers for int settings). Every refused value leaves the data as it was and makes set return false; settings without a stored value read as their default.",
  "inputs histories", "every setting name, value and settings file",
  "Tests set a few valid values.",
  "xo/system/settings.cpp xo/system/settings.h",
  [("settings::try_set checks before data_.set_query", "xo/system/settings.cpp")],
  ["settings::get, settings::data"])
P("L08", "Restarted, paused and scoped helpers restore what they changed",
  "Helpers that temporarily change shared configuration (text precision, current search folder) restore the previous value on every exit, including exceptions. A timer shows exactly the time during which it was running, whatever the order of pausing, resuming, restarting and setting, and a scoped start leaves it paused or running as it was; splits of a stopwatch add up over restarts.",
  "fault_sequences histories", "every exit of a scope that temporarily changes configuration",
  "Tests never throw inside such scopes.",
  "xo/time/stopwatch.h xo/time/stopwatch.cpp xo/time/timer.h xo/time/timer.cpp xo/string/string_tools.cpp",
  [("save/restore pairs and scoped guards", "same files")],
  ["configuration after the scope"])

# ---------------------------------------------------------------- types and ownership
P("Y01", "Strongly typed quantities do not mix implicitly",
  "Angles in degrees and radians (single and double precision), typed handles and typed indices of different kinds, and time values are distinct types: code that passes, assigns, compares or adds one where the other is expected, or that silently turns a bare number into one of them or back, does not compile. The documented explicit conversions between them do compile.",
  "programs", "every program that mixes two of these types",
  "It is about programs that must be rejected by the compiler.",
  "xo/geometry/angle_type.h xo/utility/handle.h xo/utility/index.h xo/time/time.h",
  [("explicit constructors, distinct template instantiations, deleted conversions", "same files")],
  ["compilation"])
P("Y02", "Everything the library allocates has an owner",
  "Every allocation made by the library is handed to an owning object in the same expression or scope on every path, factories return owning pointers, and objects that own a resource cannot be copied implicitly unless copying duplicates the resource.",
  "programs fault_sequences", "every allocation site and every path, including exceptions",
  "Leaks and double frees do not make a functional test fail.",
  "xo/utility/factory.h xo/utility/pointer_types.h xo/container/dynarray.h xo/system/test_case.cpp xo/utility/file_resource_cache.h xo/filesystem/filesystem.cpp xo/system/system_tools.cpp",
  [("u_ptr / s_ptr ownership at each new / malloc-returning call", "same files")],
  ["leaks, double frees"])
P("Y03", "No operation returns a reference to something already destroyed",
  "No operation returns a reference, pointer, view, iterator or closure that refers to one of its own local variables, by-value parameters or temporaries, or to storage such an object owns and frees. Every non-void operation returns a value on every path that reaches its end.",
  "inputs programs", "every operation on every path",
  "Reading a dangling reference often still yields the old value, so tests pass.",
  "xo/geometry/vec3.h xo/container/circular_deque.h xo/utility/frange.h xo/container/table.h xo/container/collection_ic.h",
  [("return expressions of all reference-, pointer- and view-returning operations", "whole library")],
  ["memory safety of results"])
P("Y04", "No result is computed from an uninitialised value",
  "No operation reads, returns, stores or branches on a local variable or member of a local object that has not been assigned on every path leading there; in particular a conversion that reports success has assigned its result. A constructor assigns every scalar member of its object (except where no_init or the default mat33 ask for none), and an object returned by value is fully assigned.",
  "inputs", "every input, including unconvertible text and lists that are too short",
  "Indeterminate values are often zero in tests.",
  "xo/container/prop_node.h xo/string/string_cast.h xo/serialization/char_stream.h xo/numerical/math.h",
  [("initialisation of locals before use", "whole library")],
  ["returned values"])

# ---------------------------------------------------------------- geometry and numerics
P("G01", "Vector operations act on every component and mix none",
  "Arithmetic on vectors, points, colours, quaternions, scale factors, angles and times gives, in exact arithmetic, every component of the result from the corresponding components of the operands, and leaves none out. Dot and cross products, lengths, distances, normalisation, projections, unit vectors, polar coordinates, bounds length and centre, degree/radian conversions and the small power functions equal their defining formulas.",
  "inputs", "every operand value",
  "Tests use a few vectors, mostly 3D; the 4D, colour, scale and angle operations are not covered.",
  "xo/geometry/vec3.h xo/geometry/vec3_type.h xo/geometry/vec4.h xo/geometry/vec4_type.h xo/geometry/quat_type.h xo/utility/color.h xo/geometry/scale3.h xo/geometry/angle.h xo/numerical/math.h xo/numerical/bounds.h xo/time/time.h",
  [("component formulas", "same files")],
  ["components of results"])
P("G02", "Shape measures equal the closed formulas of the solids",
  "For every shape, volume, rotational inertia for a given density, overall size, uniform and per-axis scaling, and the distance from the centre to the surface equal, in exact arithmetic, the closed formula of the solid, for every positive size. The bounding box of a sphere, the corners of a box, the point where a line meets a plane, the distance from a point to a segment and the closest points of two lines are the geometric ones.",
  "inputs", "every shape size, density, scale, direction and position",
  "Tests check one value per shape at most, often with unit sizes, where wrong exponents or swapped axes are invisible.",
  "xo/shape/sphere.h xo/shape/box.h xo/shape/box.cpp xo/shape/capsule.h xo/shape/cylinder.h xo/shape/cone.h xo/shape/plane.h xo/shape/shape_tools.h xo/geometry/line.h xo/geometry/segment.h",
  [("volume, inertia, size, scaling and distance formulas", "same files")],
  ["volume(), inertia(), dim(), scale(), distance_from_center(), aabb(), corners(), intersection(), distance()"])
P("G03", "Clamping, bounds and extrema select correctly for every ordering",
  "Minimum, maximum, clamping, range membership, range extension and interval overlap return the documented one of their arguments (or truth value) for every possible ordering of the arguments, including equal ones.",
  "inputs", "every ordering of the (finite, comparable) arguments",
  "Tests sample some orderings.",
  "xo/numerical/math.h xo/numerical/bounds.h xo/utility/arithmetic.h xo/shape/aabb.h xo/container/container_algorithms.h",
  [("comparisons and selections", "same files")],
  ["returned values"])
P("G04", "Equality and ordering operators are mutually consistent",
  "For versions, indices, handles, times, angles, colours, paths, vectors, quaternions and optionals, comparisons terminate, equality is symmetric and holds only when the compared fields are equal, and inequality is its negation. Where ordering operators exist, an object is never less than itself, the operators agree with each other, less-than in one direction excludes equality and the other direction, and the order is transitive (except where versions skip an unset build number).",
  "inputs", "every pair of objects, through all orderings of their fields",
  "Tests compare one or two pairs.",
  "xo/system/version.h xo/utility/index.h xo/utility/handle.h xo/time/time.h xo/geometry/angle_type.h xo/utility/color.h xo/utility/optional.h xo/filesystem/path.h",
  [("comparison operators", "same files")],
  ["operator results"])
P("G05", "Every enumerated case has a handler",
  "Every dispatch over an enumeration (rotation orders, sides, axes, log levels, formats, priorities) handles every enumerator and every name table has one entry per enumerator, so no value falls through to an undefined result or an out-of-range table entry.",
  "inputs programs", "every enumerator of every enumeration used for dispatch",
  "Tests use one or two enumerators per dispatch.",
  "xo/geometry/quat.h xo/utility/side.h xo/system/log_level.h xo/thread/thread_priority.cpp xo/utility/smart_enum.h xo/geometry/mirror_tools.h",
  [("switches and name tables", "same files")],
  ["results for every enumerator"])
P("G06", "Every shape kind supports every shape operation",
  "Each generic shape operation (volume, dimensions, inertia, bounding box, scaling, distance from the centre, saving, text) runs the implementation of the kind that is stored, on the stored shape, with its arguments and result unchanged, for every kind; no implementation always ends in an error. The text of a shape begins with the name of its kind; loading what was saved for a shape restores its kind and parameters, and an unknown type tag is refused.",
  "inputs programs", "every shape kind and every generic shape operation",
  "Tests use one or two kinds.",
  "xo/shape/shape.h xo/shape/shape.cpp xo/shape/shape_tools.h xo/shape/sphere.h xo/shape/box.h xo/shape/capsule.h xo/shape/cylinder.h xo/shape/cone.h xo/shape/plane.h",
  [("variant visitation and type tags", "xo/shape/shape.h, xo/shape/shape.cpp")],
  ["shape API per kind"])

# ---------------------------------------------------------------- strings
P("R01", "Character classification and case mapping are defined for all bytes",
  "Every use of a character-classification or case-mapping function of the C library receives a value it is defined for, whatever byte of the input text it is applied to, including bytes of 128 and above.",
  "inputs", "every byte of every input text",
  "Tests use ASCII.",
  "xo/string/string_tools.cpp xo/serialization/prop_node_serializer_zml.cpp",
  [("conversion to unsigned char before isgraph/tolower/toupper/...", "all call sites")],
  ["to_lower, to_upper, parsing of non-ASCII text"])
P("R02", "Formatted output never exceeds its buffer",
  "Every formatted or copied text that is written to a fixed-size buffer is limited to the size of that buffer and is terminated within it, for every format argument and input length.",
  "inputs", "every argument value and text length",
  "Tests format short texts.",
  "xo/string/string_tools.cpp xo/system/log.cpp xo/system/system_tools.cpp xo/filesystem/filesystem.cpp xo/string/string_cast.cpp xo/serialization/prop_node_serializer_ini.cpp",
  [("size arguments of snprintf/vsnprintf/readlink/gethostname/getline/copy", "all call sites")],
  ["memory safety"])
P("R03", "Substring helpers accept every position and length",
  "Taking the left, middle or right part of a text, splitting, trimming and testing prefixes or suffixes never fails or reads out of range for any requested length or position, including negative, zero and larger than the text.",
  "inputs", "every text and every position/length argument",
  "Tests use in-range arguments.",
  "xo/string/string_tools.cpp xo/filesystem/path.cpp xo/system/system_tools.cpp",
  [("range tests around substr/erase/compare positions", "same files")],
  ["left_str, mid_str, right_str, trim_*, split_*"])
P("R04", "Every format string matches its arguments",
  "Every printf-style call in the library passes arguments whose number and types match its format text, so formatted output never reads a wrong argument.",
  "inputs programs", "every formatting call with every argument value",
  "A mismatch often prints something plausible on one platform.",
  "xo/string/string_tools.cpp xo/string/string_cast.cpp xo/system/profiler.cpp xo/system/log.cpp xo/serialization/prop_node_serializer_zml.cpp xo/time/stopwatch.cpp",
  [("stringf / snprintf / log::*f call sites", "whole library")],
  ["formatted text"])

# ---------------------------------------------------------------- numerics and long-run behaviour
P("N01", "Documents survive a save and load round trip unchanged",
  "Saving any document and loading it back in the same format yields an equal document, including nesting, empty values, arrays, order and every text.",
  "inputs", "every document", "Tests round-trip one or two documents.",
  "xo/serialization/prop_node_serializer_zml.cpp xo/serialization/prop_node_serializer_xml.cpp xo/serialization/prop_node_serializer_ini.cpp",
  [("writers and readers", "serializers")], ["load_file(save_file(x)) == x"])
P("N02", "Rotations and transforms obey their algebra",
  "In exact arithmetic and for unit quaternions: quaternion products, conjugates and inverses are those of rotation composition, rotating a vector and the local axes follow them, and composing a transform with its inverse gives the identity. Conversions between quaternions, rotation matrices, axis and angle, rotation vectors and Euler angles in all six orders describe the same rotation.",
  "inputs", "every rotation and position", "Tests sample a few rotations.",
  "xo/geometry/quat.h xo/geometry/quat_type.h xo/geometry/mat33.h xo/geometry/mat33_type.h xo/geometry/transform.h", [("formulas", "quat.h, transform.h")], ["numeric results"])
P("N03", "Interpolation, fitting and filters compute their defining formulas",
  "In exact arithmetic: linear interpolation, spline segments, polynomials and piecewise functions pass through the points they are built from and follow their formula between them, linear regression returns the least-squares line and averages and variances their definitions. The low-pass filters apply their documented recurrence to the current and the previous samples, in order.",
  "inputs histories", "every data value and argument (data sets of three or four values; filters of order two)", "Tests sample a few points.",
  "xo/numerical/piecewise_linear_function.h xo/numerical/piecewise_constant_function.h xo/numerical/interpolation.h xo/geometry/catmull_rom.h xo/numerical/regression.h xo/numerical/polynomial.h xo/numerical/average.h xo/numerical/filter.h xo/numerical/filter_1st_order.h xo/numerical/functions.h", [("formulas", "numerical/")], ["numeric results"])
P("N04", "Measured times are accurate and never negative",
  "Timers, stopwatches and the profiler report elapsed times that are monotone, non-negative and exclude paused intervals.",
  "schedules histories", "every sequence of timer operations", "Timing tests can only bound from one side.",
  "xo/time/timer.cpp xo/time/stopwatch.cpp xo/system/profiler.cpp", [("clock arithmetic", "timer.cpp")], ["reported durations"])
P("N05", "Numbers written as text read back to the same number",
  "Converting any number to text and back yields the same number (within the documented precision), independent of locale and of earlier precision settings.",
  "inputs configurations", "every finite number", "Tests convert a few numbers.",
  "xo/string/string_cast.h xo/string/string_cast.cpp", [("to_str/from_str", "string_cast")], ["from_str(to_str(x))"])
P("N06", "Ring buffers deliver elements in order for every capacity",
  "After any mix of pushes and pops at either end, growth and clearing, the circular containers contain exactly the elements a double-ended queue would, in the same order.",
  "histories", "every operation sequence and capacity", "Tests run one sequence.",
  "xo/container/circular_deque.h xo/container/circular_buffer.h", [("index arithmetic modulo capacity", "circular_deque.h")], ["element order"])
P("N07", "Pattern matching implements globbing",
  "A text matches a pattern exactly when the glob rules say so, for any combination of wildcards and pattern lists.",
  "inputs", "every text and pattern", "Tests sample a few patterns.",
  "xo/string/pattern_matcher.h xo/string/string_tools.cpp", [("fnmatch", "string_tools.cpp")], ["match results"])
P("N08", "Document parsing time is bounded by the document size",
  "Parsing, including macro substitution, comments and nesting, terminates for every document in time and stack proportional to its size.",
  "inputs", "every document", "Tests use small documents.",
  "xo/serialization/char_stream.cpp xo/serialization/prop_node_serializer_zml.cpp", [("scanner and recursive layer reader", "prop_node_serializer_zml.cpp")], ["time, stack depth"])
