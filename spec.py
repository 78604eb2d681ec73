# The properties: SPEC are claimed (each has a check, see props.py), NA are not applicable to this technique.
SPEC, NA = [], []
def P(id, title, statement, over, quant, why, files, mech, technique, note, observe=()):
    SPEC.append(dict(id=id, title=title, statement=statement, over=over.split(), quant=quant, why=why, files=files, mech=mech, technique=technique, note=note, observe=list(observe)))
def N(id, title, statement, over, quant, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over.split(), quant=quant, why=why, files=files, mech=mech, reason=reason))

CF = ['vital/config/config_block_io.cxx', 'vital/config/config_parser.cxx', 'vital/config/config_block.cxx', 'vital/config/token_expander.cxx']
P('C01', 'A written configuration file reads back equal, or the write reports failure',
  'If write_config_file returns normally, the file exists and reading it back yields exactly the keys of the block with their (whitespace-trimmed) values, whatever descriptions (which stand as comments before their entries), source locations and read-only marks the entries carry and whatever was at that path before. '
  'If the storage cannot hold the file (no space, write, close, open or directory-creation error, target is a directory, empty block) the call reports a configuration write error instead of succeeding. '
  'No file descriptor stays open afterwards, and transient conditions (interrupted or short writes) never change the result.',
  'inputs histories fault_sequences', 'all blocks with macro-free single-line values, over every placement of storage faults (ENOSPC with partial data, EIO, short writes, EINTR, EMFILE/EACCES opens, mkdir failure, close failure)',
  'The config tests write one small block to a healthy disk; none makes the disk fail or checks that what was reported as written is what is on disk.',
  CF, [('write_config, stream state check before success', 'vital/config/config_block_io.cxx write_config_file')],
  'simulated file system with seeded storage faults around write_config_file, read-back oracle',
  'Seeded sampling over generated blocks and fault sequences; assumes the simulated POSIX file system (errno, short-write and ENOSPC semantics) is faithful. Values are single-line and contain no macro references, as the format requires.')
P('C02', 'Reading a configuration under storage faults is complete or an error',
  'Reading a configuration file, with all files it includes, either returns exactly the configuration the files define or raises a configuration exception. '
  'A read error in the middle of any of the files is never taken for end of file, short or interrupted reads do not change the result, and without a storage error a well-formed file is never rejected. '
  'Every descriptor opened is closed again on success and on failure.',
  'inputs fault_sequences', 'all well-formed multi-file configurations, over every placement of read, open and access errors, short and interrupted reads',
  'The tests read fixed files from a healthy disk; they never interrupt a read in the middle of a file.',
  CF, [('config_parser read loop and error detection', 'vital/config/config_parser.cxx'), ('include stack', 'vital/config/config_parser.cxx process_file')],
  'simulated file system with seeded read faults, compared with an independent reference interpreter of the configuration language',
  'Seeded sampling; the oracle is a separately written interpreter of the file language.')
P('C03', 'The configuration language means what its documentation says',
  'For every set of files, reading the main file yields the values obtained by interpreting statements in order: assignments under nested blocks, := local symbols, $LOCAL, $ENV, $CONFIG and $SYSENV macros (unknown macro types stay literal, unknown names expand to nothing), relativepath, [RO] entries, comments, and include files looked up first in the search path and then next to the including files. '
  'Malformed input is rejected: unbalanced block/endblock, syntax errors, missing includes, include cycles, assignment to a read-only entry. '
  'The recorded source location of each entry is the file and line of its last assignment.',
  'inputs histories configurations', 'all programs of several files generated from the grammar, including invalid ones, with any search path, environment and working directory',
  'The tests cover about a dozen fixed files; interactions of includes, blocks, macros and search order are not enumerated.',
  CF, [('statement loop', 'vital/config/config_parser.cxx'), ('macro expansion', 'vital/config/token_expander.cxx'), ('include resolution', 'vital/config/config_parser.cxx')],
  'seeded generation of whole configuration file worlds in a simulated file system and environment, compared with a reference interpreter',
  'Seeded sampling of generated file worlds; the oracle is a separately written interpreter.')
P('C04', 'Standard configuration locations are searched in order and merged by precedence',
  'Reading a configuration by application name, version and install prefix considers exactly the documented locations (KWIVER_CONFIG_PATH, the XDG/HOME configuration directories, /etc/xdg and /etc, the share directories, the install prefix, and the current directory), in precedence order, versioned before unversioned. '
  'With merging the result contains every readable candidate and earlier locations win for each key; without it the first readable candidate alone is used; directories and unreadable files with the same name are skipped. '
  'If nothing usable is found a file-not-found exception is raised, and include statements are resolved along the same locations.',
  'configurations inputs fault_sequences', 'all environments, application names, versions, prefixes and layouts of candidate and decoy files',
  'Results depend on environment variables, home directory and files under /etc and /usr of the machine; the tests set one variable and one prefix.',
  ['vital/config/config_block_io.cxx'], [('application_config_file_paths / merge loop', 'vital/config/config_block_io.cxx')],
  'simulated file system, environment and working directory with seeded layouts, compared with an independent model of the search and merge rules',
  'Seeded sampling of layouts. The model follows the implemented list of locations (the header comment mentions a /config suffix the shipped code does not use).')

T = ['vital/types/rotation.cxx']
P('C32', 'Timers measure the time that passed, whatever happens to the system clock',
  'A wall timer is available and reports the real time between start and stop, or start and now while it runs; a processor timer likewise reports processor time used. '
  'Setting the system clock meanwhile changes no interval, no interval is negative, a stopped timer does not change, and a timer can be restarted. '
  'A scoped timer prints its title and the time its scope lasted, also when the scope is left by an exception.',
  'histories schedules fault_sequences', 'all histories of start, stop and elapsed on several timers and threads, with arbitrary intervals, processor use and settings of the system clock forward and back',
  'The tests cannot set the clock and skip themselves when the timer is unavailable.', ['vital/util/timer.h', 'vital/util/wall_timer.h.in', 'vital/util/cpu_timer.h.in'],
  [('wall_timer', 'vital/util/wall_timer.h.in'), ('cpu_timer', 'vital/util/cpu_timer.h.in'), ('scoped_timer', 'vital/util/timer.h')],
  'simulated monotonic, settable and processor clocks, intervals compared with bounds taken around each call', 'Seeded sampling; stopping a timer that was never started is excluded.')
P('C33', 'The program and the module it runs from are located exactly, or not at all',
  'get_executable_path and get_module_path return the directory of the running program, and of the file the code was loaded from, with links resolved, whatever characters the path contains and whichever threads ask first. '
  'If the system cannot tell, the result is empty and a later call tries again; no descriptor is lost and no memory outside the result is touched.',
  'inputs schedules fault_sequences', 'all places of installation, links, memory maps around the module, working directories, interleavings of first calls, short and failing reads, failing opens and allocations',
  'No test calls these functions.', ['vital/util/get_paths.cxx', 'vital/util/whereami.c'], [('get_executable_path, get_module_path', 'vital/util/get_paths.cxx'), ('reading the memory map', 'vital/util/whereami.c')],
  'simulated file system with /proc/self/exe and /proc/self/maps, seeded scheduler with race detection', 'Seeded sampling; programs in the root directory and paths beyond 3900 bytes are excluded.')
P('C34', 'Images share, copy and keep their pixels under any history',
  'Every image shows exactly the pixels of its memory that its layout says, however it was made (allocated, cropped, flipped, subsampled, wrapped, taken from a container): a copy or view shares them, copy_from makes them independent, and memory lives as long as any image uses it. '
  'Access outside an image is refused, equal_content compares pixels whatever the layout, and transform_image changes each pixel exactly once. '
  'An operation that fails for lack of memory leaves all images as they were, and threads may share images they do not modify.',
  'histories schedules fault_sequences', 'all histories of creating, copying, viewing, resizing, transforming, comparing and destroying images of small sizes in any order, with failing allocations, and interleavings of threads with images that share memory',
  'The tests try a few layouts and no failure.', ['vital/types/image.h', 'vital/types/image.cxx', 'vital/types/image_container.h'],
  [('image_memory, image', 'vital/types/image.cxx'), ('pixel access', 'vital/types/image.h')],
  'seeded histories with failing allocations and a seeded thread scheduler against a model of shared buffers, on a checking heap', 'Seeded sampling of images up to 5x5x4; copy_from between overlapping views is excluded.')
P('C35', 'Tracks and track sets answer every query as the set of their states',
  'A track holds exactly the states appended, in increasing frame order; a state or track out of order is refused and changes nothing. '
  'Every query of a track set (active, inactive, new and terminated tracks, frames, ids, features and descriptors of a frame, first and last frame, percentage tracked) gives exactly what the states say, for absolute and relative frames, and a track without states appears on no frame. '
  'This holds when allocations fail, and for threads that query one set at the same time.',
  'histories schedules fault_sequences', 'all histories of appending states and tracks and of queries with any frame offset on small sets, with failing allocations and interleavings of reading threads',
  'The tests query one generated set.', ['vital/types/track.cxx', 'vital/types/track_set.cxx'],
  [('append, find', 'vital/types/track.cxx'), ('queries', 'vital/types/track_set.cxx')],
  'seeded histories with failing allocations and a seeded thread scheduler against a plain list of states', 'Seeded sampling; frame numbers are not negative.')

P('C48', 'Values copy, convert, collect and stream without loss, or report failure',
  'Features, landmarks, cameras, colours, descriptors, rotations, similarities and homographies keep everything they hold (the covariance included) through copying, cloning and conversion between precisions, clones and copies do not follow later changes of the original, and composing frame homographies is refused unless the frames meet. '
  'What is written to a stream reads back as the same value, and reading from a damaged, cut or failing stream is reported and leaves the value as it was. '
  'Feature, descriptor, match, landmark and camera collections give exactly the elements they were made of, whatever becomes of the source, also when allocations fail and while other threads read them.',
  'histories inputs fault_sequences', 'all histories of creating, changing, copying, converting, streaming and collecting values, with any finite numbers, damage at any place of a stream, failing allocations and interleavings of reading threads',
  'The tests construct a few values and do not stream, convert or collect them.', ['vital/types/feature.cxx', 'vital/types/landmark.cxx', 'vital/types/covariance.h', 'vital/types/color.h', 'vital/types/camera.h', 'vital/types/descriptor.h', 'vital/types/homography_f2f.cxx', 'vital/types/homography_f2w.cxx', 'vital/types/similarity.cxx', 'vital/types/rotation.cxx', 'vital/types/feature_set.h', 'vital/types/landmark_map.h', 'vital/io/eigen_io.h'],
  [('stream operators and conversion', 'vital/types/feature.cxx'), ('stream operators and conversion', 'vital/types/landmark.cxx'), ('converting constructor', 'vital/types/covariance.h')],
  'seeded histories with damaged streams, failing allocations and a seeded thread scheduler against plain values', 'Seeded sampling; numbers are finite and of ordinary size, streams are read with enough digits set, and the covariance is not part of the streamed form.')

P('C36', 'File times, links, permissions and types are reported and changed exactly',
  'Comparing and reading times of files, creating and reading links, reading and setting permissions, touching files and detecting file types give exactly what the file system holds, and change exactly the file named and nothing else: permissions set are the permissions asked for (under the process umask when told to honour it), a touched file gets the current time and is created only when asked for. '
  'Under any storage fault the call reports failure instead of a wrong answer, leaves every other file and the umask as they were, and leaves no descriptor open.',
  'histories fault_sequences inputs', 'all histories of metadata operations on small trees with links, odd modes, equal and nanosecond-apart times, over every placement of storage faults',
  'The tests touch one file and read one mode on a healthy disk.', ['vital/kwiversys/SystemTools.cxx', 'vital/kwiversys/SystemTools.hxx.in'],
  [('Touch, FileTimeCompare, ModifiedTime, CreationTime', 'vital/kwiversys/SystemTools.cxx'), ('CreateSymlink, ReadSymlink, FileIsSymlink', 'vital/kwiversys/SystemTools.cxx'), ('GetPermissions, SetPermissions, DetectFileType, FileHasSignature', 'vital/kwiversys/SystemTools.cxx')],
  'seeded histories with storage faults on a simulated file system, compared with a reference of the tree', 'Seeded sampling; file times are those of the simulated clock.')

P('C37', 'Paths are collapsed, resolved, split and related as the file system follows them',
  'Collapsing, making absolute, making relative, joining, splitting and taking apart a path gives a path that names the same file, for any working directory and any "." and ".." components, and resolving links gives the name without links or, when that cannot be found out, the path unresolved. '
  'Whether a file lies below a directory, the parent of a path, path translations kept for a directory, the search path of an environment variable and locating a file above or inside a directory agree with the tree and with the directories registered, in any order of registration, changing directories, and storage faults.',
  'histories inputs fault_sequences schedules', 'all histories of changing the working directory and registering translations, over generated paths and trees with links and storage faults',
  'The tests check a fixed list of paths in one working directory.', ['vital/kwiversys/SystemTools.cxx', 'vital/kwiversys/SystemTools.hxx.in'],
  [('CollapseFullPath, SplitPath, JoinPath, RelativePath', 'vital/kwiversys/SystemTools.cxx'), ('GetRealPath, IsSubDirectory, GetParentDirectory', 'vital/kwiversys/SystemTools.cxx'), ('AddTranslationPath, GetPath, LocateFileInDir', 'vital/kwiversys/SystemTools.cxx')],
  'seeded histories over a simulated tree and working directory with storage faults, compared with a reference resolver', 'Seeded sampling; POSIX path syntax.')

P('C38', 'Algorithm front ends check their input and pass on exactly the matching data',
  'Loading or saving an image calls the implementation exactly once, with the name given, if the file (or the directory to save into) exists and is of the right type, and otherwise reports which check failed without calling it. '
  'Estimators, camera optimization and feature filtering hand to the implementation exactly the pairs that correspond (by index, match or shared identifier), once, in order, and return its result unchanged. '
  'When the implementation or an allocation fails, the failure reaches the caller and the data given stays as it was; threads that share one algorithm do not disturb each other.',
  'inputs fault_sequences schedules', 'all small inputs and paths, with storage faults, failing allocations, implementations that throw at any call, and interleavings of calling threads',
  'The tests never call most front ends, and never with failures.', ['vital/algo/image_io.cxx', 'vital/algo/estimate_similarity_transform.cxx', 'vital/algo/estimate_essential_matrix.cxx', 'vital/algo/optimize_cameras.cxx', 'vital/algo/filter_features.cxx'],
  [('load, save', 'vital/algo/image_io.cxx'), ('map_to_pts', 'vital/algo/estimate_similarity_transform.cxx'), ('optimize', 'vital/algo/optimize_cameras.cxx'), ('estimate', 'vital/algo/estimate_homography.cxx'), ('filter', 'vital/algo/filter_features.cxx')],
  'seeded inputs, faults and schedules around recording implementations, compared with a reference pairing', 'Seeded sampling; identifiers occur once in each set.')

P('C39', 'System information is what the kernel reports, or is reported as unknown',
  'The processor counts, identification, clock, cache size and features, the memory totals of the host and the memory available to and used by the process, the operating system and host names and the load average equal what the kernel files and calls say, including limits from the environment and resource limits. '
  'When a file cannot be opened or read, or a call fails, the affected values are reported as unknown (zero, -1, empty or the documented default), never as part of or mixed with other values, and the query returns. '
  'Interrupted and short reads change nothing that is reported as known, repeated queries report the current state, and no query leaves a descriptor or an interface list behind.',
  'inputs fault_sequences schedules', 'all contents of the processor, memory and process status files, kernel releases, host names, interfaces and limits, with faults in each read and call, and two threads with their own objects',
  'The tests print the values of the machine they run on.', ['vital/kwiversys/SystemInformation.cxx'],
  [('RunCPUCheck', 'vital/kwiversys/SystemInformation.cxx'), ('RunMemoryCheck', 'vital/kwiversys/SystemInformation.cxx'), ('GetProcMemoryAvailable', 'vital/kwiversys/SystemInformation.cxx'), ('GetFullyQualifiedDomainName', 'vital/kwiversys/SystemInformation.cxx'), ('LoadLines', 'vital/kwiversys/SystemInformation.cxx')],
  'seeded machine descriptions and faults behind /proc, uname, getifaddrs, getrlimit and getloadavg, compared with the values they were generated from', 'Linux on x86; seeded sampling.')

P('C40', 'Text expansion substitutes each token with its current value and nothing else',
  'Expanding a text replaces every token of a registered type by the value its provider has at that moment (the environment, a symbol table, a configuration block, or the system), or by nothing if the provider has none, and leaves all other text, unknown token types and malformed tokens as they are; inserted values are not expanded again. '
  'Looking a name up reports exactly whether it is known, entries added or removed take effect at once, and a type added under a used name replaces the former. '
  'When memory runs out the expansion raises and never gives a wrong text, the expander stays usable and owns its types to the end, and expanders of different threads do not disturb each other.',
  'histories inputs fault_sequences', 'all histories of adding types, changing entries, environment and configuration, and expanding texts, with failing allocations and preemption between threads with their own expanders',
  'The tests expand two texts.', ['vital/config/token_expander.cxx', 'vital/config/token_type_symtab.cxx', 'vital/config/token_type_sysenv.cxx', 'vital/config/token_type_config.cxx', 'vital/config/token_type_env.cxx'],
  [('expand_token', 'vital/config/token_expander.cxx'), ('lookup_entry', 'vital/config/token_type_sysenv.cxx'), ('lookup_entry', 'vital/config/token_type_symtab.cxx')],
  'seeded histories with failing allocations and schedules, compared with a reference expander', 'Texts without NUL characters; missing configuration values are not looked up while allocations fail, because building the exception would end the program.')

P('C41', 'The plug-in explorer reports exactly what the plug-in manager found',
  'For every command line the program either refuses it, saying so and loading nothing, or shows help, or loads exactly the plug-ins asked for from the environment, the default directories and the directories given with --path and -I, in that order. '
  'It then lists the search path, the registered modules and each registered algorithm exactly once, and with --detail the complete configuration and descriptions of each of them. '
  'Libraries that cannot be loaded, have no entry point or report failure do not end the program or change what it says about the others.',
  'configurations inputs fault_sequences', 'all plug-in directories, library contents, environments and command lines, with loader failures',
  'There is no test of the program.', ['vital/tools/plugin_explorer.cxx', 'vital/kwiversys/CommandLineArguments.cxx', 'vital/algorithm_plugin_manager.cxx'],
  [('main, detailed_algo', 'vital/tools/plugin_explorer.cxx'), ('Parse', 'vital/kwiversys/CommandLineArguments.cxx'), ('register_plugins', 'vital/algorithm_plugin_manager.cxx')],
  'the whole program runs in the simulator with seeded directories, libraries, loader faults and command lines; its output is parsed and compared with the model of the search path and registry', 'One process per run; no storage faults.')

P('C42', 'Crash reports name the signal, cause and stack and restore the handlers',
  'With error reporting enabled, each of SIGINT, SIGTERM, SIGABRT, SIGFPE, SIGSEGV, SIGBUS and SIGILL gives one report on standard error with the process, the signal, the address and documented cause, and every frame of the stack below the handler, and then ends the program by abort with the handlers it had before. '
  'GetProgramStack lists exactly the frames from the given one on, with demangled names, and unknown parts marked as such. '
  'Disabling restores the handlers found when enabling, enabling twice changes nothing, and no other signal is touched.',
  'histories inputs schedules fault_sequences', 'all histories of enabling, disabling and changed handlers, all signals, codes and addresses arriving at any instruction, and stacks with long, unknown and mangled names and program paths of any length',
  'No test crashes or looks at a report.', ['vital/kwiversys/SystemInformation.cxx'],
  [('SetStackTraceOnError, StacktraceSignalHandler', 'vital/kwiversys/SystemInformation.cxx'), ('GetProgramStack, SymbolProperties', 'vital/kwiversys/SystemInformation.cxx')],
  'simulated sigaction, backtrace, dladdr, readlink and abort with seeded signals at any instruction; the report is compared with the one expected', 'Seeded sampling; signals arriving during a report, and memory running out in one, are excluded.')

N('N01', 'Rotation conversions agree and compose as a group', 'Converting a rotation between quaternion, axis-angle, matrix, Rodrigues and yaw/pitch/roll forms preserves the rotation, and composition and inversion obey the group laws.', 'inputs', 'all rotations', 'Tests sample a few.', T, [('rotation_', 'vital/types/rotation.cxx')], 'pure arithmetic: no schedule, time, I/O, fault or history for a simulator to control')
N('N02', 'Camera projection and intrinsics are mutually consistent', 'Projection, depth, distortion and intrinsic mapping functions are inverse or consistent with each other for all cameras and points.', 'inputs', 'all cameras and points', 'Tests sample a few.', ['vital/types/camera.cxx', 'vital/types/camera_intrinsics.cxx'], [('project/map/unmap', 'vital/types/camera_intrinsics.cxx')], 'pure arithmetic: no schedule, time, I/O, fault or history for a simulator to control')
N('N03', 'Similarity and homography transforms compose and invert', 'Applying a composed transform equals applying the parts in order, and a transform followed by its inverse is the identity up to rounding.', 'inputs', 'all transforms', 'Tests sample a few.', ['vital/types/similarity.cxx', 'vital/types/homography.cxx'], [('similarity_/homography_', 'vital/types/similarity.cxx')], 'pure arithmetic: no schedule, time, I/O, fault or history for a simulator to control')
N('N04', 'Essential and fundamental matrices satisfy their defining constraints', 'Constructed essential matrices have two equal and one zero singular value, fundamental matrices have rank two.', 'inputs', 'all inputs', 'Tests sample a few.', ['vital/types/essential_matrix.cxx', 'vital/types/fundamental_matrix.cxx'], [('constructors', 'vital/types/essential_matrix.cxx')], 'pure arithmetic: no schedule, time, I/O, fault or history for a simulator to control')
N('N05', 'Timestamps are ordered consistently', 'The comparison operators of timestamps are consistent with each other, and two that cannot be compared are not ordered.', 'inputs', 'all values', 'Tests sample a few.', ['vital/types/timestamp.cxx', 'vital/types/timestamp.h'], [('operators', 'vital/types/timestamp.h')], 'pure functions of their arguments: nothing for a simulator to control')
N('N07', 'Encoding conversions and string utilities match their definitions', 'Conversions between narrow and wide text and the string utilities (upper and lower case, trimming, counting, joining, cropping) compute their documented functions.', 'inputs', 'all strings', 'Tests sample a few.', ['vital/kwiversys/EncodingC.c', 'vital/kwiversys/SystemTools.cxx'], [('narrow and wide text', 'vital/kwiversys/EncodingCXX.cxx'), ('pure string functions', 'vital/kwiversys/SystemTools.cxx')], 'pure functions of their arguments: no schedule, time, I/O, fault or history for a simulator to control')
P('C05', 'A configuration block behaves as a map under any history of views and copies',
  'Under any sequence of set, unset, merge, copy (subblock), view (subblock_view) and mark-read-only operations, every block and view shows exactly the keys, trimmed values and descriptions that a plain key/value map would: a view reads and writes its parent under its prefix (entries beginning with _global: are visible in every view under their own name), a copy is independent. '
  'Read-only entries cannot be set, unset or merged over through the block or any of its views, typed reads convert or raise a configuration exception, and defaults are returned only for missing or unconvertible entries. '
  'An operation that fails, including for lack of memory, leaves every entry either as it was before or completely changed.',
  'histories inputs fault_sequences', 'all histories over any number of blocks, nested views and copies, with the k-th allocation of any operation failing',
  'Unit tests exercise a handful of two-step histories on one view and never run out of memory.',
  ['vital/config/config_block.cxx', 'vital/config/config_block.h'], [('parent/child delegation with key prefix', 'vital/config/config_block.cxx'), ('read-only list', 'vital/config/config_block.cxx i_set_value/unset_value')],
  'seeded histories against a reference map with seeded allocation failures inside operations; heap red zones',
  'Seeded sampling. Allocation failures are injected only into operations that would otherwise succeed, because exception objects of the library allocate in constructors declared not to throw. Merging a block into a view of itself is not exercised.')

P('C06', 'Concurrent threads read, write and query configurations independently',
  'Threads that read, write, format and merge their own configurations at the same time, or query a shared block none of them modifies, each get exactly the result they would get running alone. '
  'No schedule produces a data race, a crash, a deadlock or a value belonging to another thread.',
  'schedules inputs', 'all interleavings of up to four threads at memory-access granularity, over generated configuration worlds',
  'The tests are single threaded.',
  ['vital/config/config_parser.cxx', 'vital/config/token_expander.cxx', 'vital/config/config_block.cxx', 'vital/kwiversys/RegularExpression.cxx'], [('regular expression matching state', 'vital/kwiversys/RegularExpression.cxx'), ('static data of the parser', 'vital/config/config_parser.cxx')],
  'seeded preemptive scheduling of threads as fibers with happens-before race detection, against the reference interpreter',
  'Seeded sampling of schedules. Code of libstdc++ and libc that is not instrumented is not checked for races.')
P('C07', 'Log messages are delivered exactly once, whole, in order and filtered by level',
  'Every message logged through an enabled level appears exactly once in the output, as one contiguous piece with its level, logger name and complete text, whatever other threads log at the same time; messages of one thread appear in the order it issued them. '
  'A message below the current level of its logger never appears, and the is_X_enabled() queries agree with the level set.',
  'schedules inputs histories', 'all interleavings of several threads logging through shared and separate loggers and changing levels, over a sink that accepts output in pieces',
  'The tests log from one thread and look at the output by eye.',
  ['vital/logger/default_logger.cxx', 'vital/logger/kwiver_logger.cxx', 'vital/logger/logger.h'], [('logger_ns::logger_default level filter, log_message_i lock', 'vital/logger/default_logger.cxx')],
  'seeded preemptive scheduling of logging threads with a stream buffer that splits writes and yields; output parsed back into messages',
  'Seeded sampling. The underlying console is a stream buffer that never fails.')
P('C08', 'Loggers are shared by name and the logger back end is chosen exactly once',
  'All threads asking for a logger of one name get the same back end, created by one logger manager even when first requests race at start-up. '
  'The plug-in named by VITAL_LOGGER_FACTORY is loaded once; if it is missing, broken, lacks its entry point or returns no factory, the built-in logger is used, the reason is reported, and the program continues.',
  'schedules configurations fault_sequences', 'all interleavings of first requests from several threads over all kinds of working and failing plug-ins',
  'Start-up happens once per process and the tests start from one thread with no plug-in.',
  ['vital/logger/kwiver_logger_manager.cxx', 'vital/logger/logger.h', 'vital/logger/kwiver_logger_factory.cxx', 'vital/logger/default_logger.cxx'], [('logger_manager::instance', 'vital/logger/kwiver_logger_manager.cxx'), ('initialize / load_factory', 'vital/logger/kwiver_logger_manager.cxx')],
  'seeded scheduling of start-up with a simulated dynamic loader injecting plug-in failures; race detection',
  'Seeded sampling; plug-ins are scripted stand-ins behind a simulated dlopen/dlsym.')
P('C09', 'Log time stamps are the time of logging',
  'The time printed in a log message is the local calendar time, to the millisecond, of a moment between the start and the end of the call that logged it, for every clock value. '
  'This holds when several threads log at once and when the clock jumps.',
  'schedules inputs', 'all clock readings (including values around second boundaries and jumps) and interleavings of several logging threads',
  'The clock cannot be controlled in the tests, which never look at the time stamp.',
  ['vital/logger/default_logger.cxx'], [('get_timestamp', 'vital/logger/default_logger.cxx')],
  'simulated clock with jumps and seeded thread scheduling; stamps parsed back and compared with the clock values held during each call',
  'Seeded sampling of clock values; the time zone database is that of the C library.')

P('C10', 'Plug-ins are found along the search path, loaded once and kept while in use',
  'Loading plug-ins opens, directory by directory along the search path (environment variable, then built-in, then added directories), every file with the shared-library suffix and the requested name exactly once and runs its registration function; missing directories, empty path entries, other files and directories are ignored, and a library that cannot be opened or reports failed registrations is reported without affecting the others. '
  'A library without registration function is closed again and one that registered algorithms stays loaded. '
  'When several threads ask for loading once, exactly one call does it and every caller, on return, sees all algorithms registered.',
  'schedules configurations fault_sequences', 'all search paths, directory contents and kinds of libraries (good, unloadable, without entry point, partly failing), loader failures, and interleavings of up to four threads',
  'The tests load a few real libraries from one directory, from one thread, and none of them fails to load.',
  ['vital/algorithm_plugin_manager.cxx', 'vital/kwiversys/DynamicLoader.cxx'], [('load_modules_in_directory / register_from_module', 'vital/algorithm_plugin_manager.cxx'), ('load_plugins_once, instance', 'vital/algorithm_plugin_manager.cxx')],
  'simulated file system and dynamic loader with scripted plug-ins and injected loader failures under seeded thread scheduling, against a model of the search path and registry',
  'Seeded sampling. Plug-ins are scripted stand-ins; plug-ins that throw and failing directory reads are not exercised.')
P('C11', 'The algorithm registry returns independent copies of the last registration',
  'For every history of registrations, the registered names by type are exactly those registered, creating an algorithm by type and implementation name yields an independent copy of the instance registered last under that name (or nothing if there is none), and both the generic and the typed interface agree. '
  'Configuring a nested algorithm from a configuration block creates exactly the chosen implementation with the values of its sub-block, describing it lists every registered choice, and checking it accepts exactly the valid blocks. '
  'Any number of threads may query and create at the same time.',
  'histories schedules inputs', 'all registration histories over several types and names, all nested configurations, and interleavings of up to four querying threads',
  'The tests register one implementation per type and create it once, from one thread.',
  ['vital/registrar.h', 'vital/algo/algorithm.cxx', 'vital/algo/algorithm.txx'], [('register_item / find', 'vital/registrar.h'), ('nested configuration helpers', 'vital/algo/algorithm.cxx')],
  'seeded histories and thread schedules against a reference registry, with race detection',
  'Seeded sampling; registration itself is done from one thread, as documented.')

CB = ['vital/bindings/c/helpers/c_utils.h', 'vital/bindings/c/camera.cxx', 'vital/bindings/c/camera_map.cxx', 'vital/bindings/c/config_block.cxx', 'vital/bindings/c/track.cxx', 'vital/bindings/c/track_set.cxx', 'vital/bindings/c/image.cxx', 'vital/bindings/c/image_container.cxx', 'vital/bindings/c/algorithm.cxx', 'vital/bindings/c/error_handle.cxx', 'vital/bindings/c/helpers/algorithm.h', 'vital/bindings/c/common.cxx']
P('C12', 'C API handles keep their object alive exactly as long as they are held',
  'An object obtained through the C interface stays valid and unchanged by other calls until it has been destroyed as often as it was handed out, independently of the order of calls and of containers (maps, views, sets) that share it. '
  'After the last destroy it is gone: the handle is rejected wherever the interface looks handles up, a destroy of it fails cleanly, and once every handle is destroyed no memory remains allocated. '
  'This also holds when allocations fail in the middle of a call.',
  'histories fault_sequences', 'all sequences of C calls on configurations, cameras, camera maps, tracks, track sets, images, containers and algorithms, including misuse of destroyed handles, with failing allocations and storage faults',
  'The C interface has no C++ tests, and the Python ones hold each object once and never destroy in another order or run out of memory.',
  CB, [('SharedPointerCache get/store/erase', 'vital/bindings/c/helpers/c_utils.h'), ('destroy functions', 'vital/bindings/c/*.cxx')],
  'seeded call histories against a model of handles and reference counts on an arena allocator with red zones, allocation failure injection and storage faults',
  'Seeded sampling; a single allocation fails per call, and only in calls that would otherwise succeed. Functions declared not to throw may end the program when out of memory and are not injected.')
P('C13', 'C API calls report failure through the error handle and never corrupt memory',
  'A call of the C interface that succeeds does what the C++ interface does and leaves the error handle clear; one that fails (bad input, missing or unreadable file, disk error, failing algorithm, lack of memory) sets a non-zero code and the message of the C++ exception and returns the neutral value. '
  'No C++ exception leaves a C function, with or without an error handle, and no memory is read or written out of bounds, used after release, or leaked. '
  'Strings, string lists and arrays returned are complete and are released by the documented free functions.',
  'histories inputs fault_sequences', 'all sequences of C calls over all argument values and error-handle uses (fresh, reused, absent), with failing allocations, storage faults and throwing algorithms',
  'No test passes an absent error handle, makes an algorithm throw, fails an allocation or fills the disk under the C interface.',
  CB, [('STANDARD_CATCH, populate_eh', 'vital/bindings/c/helpers/c_utils.h'), ('string and list copies', 'vital/bindings/c/common.cxx, helpers/c_utils.h')],
  'seeded call histories with fault injection compared with the C++ interface, memory checked by an instrumented arena allocator',
  'Seeded sampling; memory errors inside uninstrumented libraries show only when they hit red zones or the allocator.')

P('C14', 'A camera file reads back as the camera written, or an error is reported',
  'If write_krtd_file returns normally, reading the file yields a camera with the same calibration, lens distortion, rotation and translation up to the 12 digits written; otherwise it reports a write error. '
  'read_krtd_file returns a camera only if the file contains all its values: missing, unreadable, truncated or malformed files and read errors in the middle are reported by the documented exceptions. '
  'Interrupted or short transfers change nothing, concurrent calls on different files do not disturb each other, and no descriptor or memory is lost.',
  'inputs schedules fault_sequences', 'all finite cameras with 0 to 12 distortion coefficients, all target paths, all damages of a file, all placements of storage faults, interleavings of up to four threads',
  'The tests read one good and one bad file and never write one to a failing disk or read a written file back.',
  ['vital/io/camera_io.cxx', 'vital/io/eigen_io.h', 'vital/types/camera.cxx', 'vital/types/camera_intrinsics.cxx'], [('read_krtd_file, write_krtd_file', 'vital/io/camera_io.cxx'), ('stream operators', 'vital/types/camera.cxx, vital/io/eigen_io.h')],
  'simulated file system with seeded storage faults and thread schedules, round-trip and reference-parser oracle',
  'Seeded sampling; infinite and not-a-number values are outside the text format.')
P('C15', 'A landmark (PLY) file reads back as the landmarks written, or reports an error',
  'If write_ply_file returns normally, reading the file yields exactly the same landmarks by id: coordinates and normals up to the digits written, colours and observation counts exactly; otherwise it reports a write error. '
  'read_ply_file takes exactly the declared number of vertices, whatever the order and spelling of the properties, unknown properties, comments, blank lines and elements after the vertices; a missing, truncated or headless file and a read error in the middle are reported. '
  'No descriptor or memory is lost.',
  'inputs fault_sequences', 'all landmark maps, all ASCII PLY files with the vertex element first, all truncations at line ends, all placements of storage faults',
  'There is no test of PLY files.',
  ['vital/io/landmark_map_io.cxx'], [('read_ply_file, write_ply_file', 'vital/io/landmark_map_io.cxx')],
  'simulated file system with seeded storage faults, round-trip and reference-interpretation oracle',
  'Seeded sampling; values that are not numbers are outside the property (the reader documents that it does not check them).')
P('C16', 'A track file reads back as the tracks written, or an error is reported',
  'If write_track_file returns normally, reading the file yields the same tracks with the same frames, colours and, up to the digits written, feature values; otherwise it reports a write error. '
  'read_track_file accepts a file only if every line is a complete track state, keeps the order of states within a track however tracks are interleaved, and reports missing files, malformed lines and read errors in the middle. '
  'No descriptor or memory is lost.',
  'inputs fault_sequences', 'all track sets whose states have features, all interleavings of lines, all damages of a line, all placements of storage faults',
  'There is no test of track files.',
  ['vital/io/track_set_io.cxx', 'vital/types/track.cxx', 'vital/types/feature.cxx'], [('read_track_file, write_track_file', 'vital/io/track_set_io.cxx')],
  'simulated file system with seeded storage faults, round-trip and reference oracle',
  'Seeded sampling; tracks without states and states without features cannot be represented in the format.')
P('C17', 'A directory of camera files gives exactly the cameras that exist, by frame',
  'read_krtd_files returns, for each image that has a camera file in the directory, the camera of that file under the index of the image, and no entry for the others. '
  'A missing directory, no camera at all, and a camera file that is damaged or fails to be read are reported by exceptions. '
  'The result never contains a null camera, and no descriptor or memory is lost.',
  'inputs configurations fault_sequences', 'all lists of image names (paths, extensions, repetitions) and layouts of present, missing, damaged and non-file entries, all placements of read faults',
  'There is no test of reading camera directories.',
  ['vital/io/camera_map_io.cxx', 'vital/io/camera_io.cxx'], [('read_krtd_files', 'vital/io/camera_map_io.cxx')],
  'simulated file system with seeded read faults against a model of the directory',
  'Seeded sampling; failing existence tests (stat, access) are not injected because they cannot be told from missing files.')

P('C18', 'A file copy is complete with its permissions, or fails and touches nothing else',
  'CopyFileAlways, CopyFileIfDifferent and CopyAFile report success only if the target (the named file, or the file of that name in a named directory) holds exactly the bytes of the source and, unless it already held them and only differing files are copied, its permissions. '
  'They fail only for a reason, a failure changes nothing but the target and directories made for it, copying a file onto itself in whatever way loses nothing, and copy-if-different leaves an equal file alone. '
  'This holds whatever calls fail, are interrupted, transfer less or run out of space, and no descriptor or memory is lost.',
  'inputs configurations fault_sequences', 'all sources, destinations (missing, existing, read-only, directory, link, itself, nested), user rights, and placements of storage faults',
  'The test copies a few files on a working disk.',
  ['vital/kwiversys/SystemTools.cxx'], [('CopyFileAlways, CopyFileIfDifferent, CopyAFile', 'vital/kwiversys/SystemTools.cxx')],
  'simulated file system with seeded faults, checked against a model of the tree',
  'Seeded sampling; an injected failure of stat or access may legitimately make a destination look different, so permissions are not compared after one. Copying a directory onto itself and a non-root link in a read-only directory are excluded.')
P('C19', 'Removing a file or directory tree removes exactly that, or reports failure',
  'RemoveADirectory reports success only if the whole tree is gone, and RemoveFile only if the file is gone or was missing. '
  'Neither ever removes or changes anything outside the named path, in particular nothing behind a symbolic link within the tree, and what is left after a failure is as it was. '
  'A removal that nothing prevents succeeds, and no descriptor or memory is lost.',
  'inputs configurations fault_sequences', 'all trees up to depth four with links and closed directories, user rights, and placements of faults on stat, chmod, opendir, readdir, unlink and rmdir',
  'The test removes one small directory on a working disk.',
  ['vital/kwiversys/SystemTools.cxx', 'vital/kwiversys/Directory.cxx'], [('RemoveFile, RemoveADirectory', 'vital/kwiversys/SystemTools.cxx')],
  'simulated file system with seeded faults, whole-tree snapshots before and after',
  'Seeded sampling; the attributes of directories within the removed tree may change.')
P('C20', 'MakeDirectory succeeds exactly when the directory exists afterwards',
  'MakeDirectory reports success only if the path names a directory afterwards, and succeeds whenever nothing prevents that, also when several threads create overlapping paths at once. '
  'It creates only directories, only on the path asked for, and changes nothing that existed.',
  'inputs schedules fault_sequences', 'all path forms over existing directories, files, links and closed directories, interleavings of up to four threads, and placements of faults on stat, access and mkdir',
  'The test makes two directories on a working disk in one thread.',
  ['vital/kwiversys/SystemTools.cxx'], [('MakeDirectory', 'vital/kwiversys/SystemTools.cxx')],
  'simulated file system with seeded faults and thread schedules against a model of the tree',
  'Seeded sampling.')
P('C21', 'A directory copy is complete, or fails',
  'CopyADirectory reports success only if every directory and file of the source, seen through links, exists in the destination with the same content and permissions; missing or unreadable sources and every failing step are reported. '
  'It fails only for a reason, changes nothing outside the destination, leaves other files of the destination alone, and in copy-if-different mode does not rewrite equal files. '
  'No descriptor or memory is lost.',
  'inputs configurations fault_sequences', 'all source trees without link cycles up to depth four, all destinations, and all placements of storage faults',
  'The tests never copy a directory.',
  ['vital/kwiversys/SystemTools.cxx', 'vital/kwiversys/Directory.cxx'], [('CopyADirectory', 'vital/kwiversys/SystemTools.cxx')],
  'simulated file system with seeded faults against a model of the resulting tree',
  'Seeded sampling; completeness is not required after an injected failure of stat or access, which makes a directory look like a file. A destination inside the source is excluded.')
P('C22', 'Comparing files never reports different files as equal',
  'FilesDiffer returns false only for two files with the same bytes, whatever reads fail or are short, and true without a failure only if they differ or are no files. '
  'SameFile holds only for two names of one file, and FileHasSignature only if the bytes are there at that offset. '
  'None of them changes anything, and no descriptor or memory is lost.',
  'inputs fault_sequences', 'all pairs of file contents around the block sizes, links, directories and missing files, and all placements of storage faults',
  'The tests compare no files with failing reads.',
  ['vital/kwiversys/SystemTools.cxx'], [('FilesDiffer, SameFile, FileHasSignature', 'vital/kwiversys/SystemTools.cxx')],
  'simulated file system with seeded faults against a byte comparison', 'Seeded sampling.')
P('C23', 'A directory listing is complete, or loading it fails',
  'Directory::Load returns success only with exactly the entries of the directory, also when an object is reused, and otherwise leaves no entries; GetNumberOfFilesInDirectory gives their exact number or zero. '
  'An error in the middle of a directory is a failure, not its end. '
  'No descriptor or memory is lost.',
  'inputs fault_sequences', 'all directories of up to two hundred entries, repeated loads, user rights, and all placements of faults on opendir and readdir',
  'The test lists one directory on a working disk.',
  ['vital/kwiversys/Directory.cxx'], [('Directory::Load', 'vital/kwiversys/Directory.cxx')],
  'simulated file system with seeded faults against a model of the directory', 'Seeded sampling.')
P('C24', 'Reading lines from a stream loses and invents no character',
  'Successive calls of GetLineFromStream give exactly the lines of the stream without their line ends, of whatever length and however the reads are split or interrupted. '
  'With a size limit the result is a prefix of the line of at most that length, and the whole line if it is shorter. '
  'A read error never yields characters that are not there.',
  'inputs fault_sequences', 'all texts with lines around the block sizes and carriage returns anywhere, size limits, and all placements of short, interrupted and failing reads',
  'The tests read one long file without faults.',
  ['vital/kwiversys/SystemTools.cxx'], [('GetLineFromStream', 'vital/kwiversys/SystemTools.cxx')],
  'simulated file system with seeded read faults against a reference splitter', 'Seeded sampling; a null byte in a text is outside the property.')
P('C25', 'A glob gives exactly the matching paths',
  'Glob::FindFiles gives exactly the existing paths that match the expression under the chosen options (recursion, following links, listing directories, relative names), each once per way to it, whatever the object was used for before, and reports cyclic links and the number of links followed. '
  'When a directory cannot be read it gives fewer paths but never one that does not exist. '
  'Concurrent globs do not disturb each other, and no descriptor or memory is lost.',
  'inputs schedules configurations fault_sequences', 'all trees up to depth four with links, expressions with *, ?, sets and recursion, options, interleavings of up to three threads, and placements of faults on opendir, readdir, stat and getcwd',
  'The repository has no test of Glob in a tree with links or failures.',
  ['vital/kwiversys/Glob.cxx', 'vital/kwiversys/Directory.cxx', 'vital/kwiversys/RegularExpression.cxx'], [('Glob::FindFiles', 'vital/kwiversys/Glob.cxx')],
  'simulated file system with seeded faults and thread schedules against a reference matcher', 'Seeded sampling; trees in which link cycles give more than 3000 paths are skipped.')
P('C26', 'Program and library search finds the first usable file, and nothing else',
  'FindProgram gives the named file itself, or else the first readable regular file of that name in the directories of PATH and then the given ones, and FindLibrary likewise with the library prefixes and suffixes; neither ever gives a directory, a dangling link or an unreadable file. '
  'FindFile and FindDirectory give the first readable entry of the name that is a file, respectively a directory, and if there is none the result is empty.',
  'inputs configurations fault_sequences', 'all layouts of candidates over the directories, PATH values, options, user rights, and placements of faults on stat and access',
  'The tests search nothing.',
  ['vital/kwiversys/SystemTools.cxx'], [('FindProgram, FindLibrary, GetPath', 'vital/kwiversys/SystemTools.cxx')],
  'simulated file system with seeded faults against a reference search', 'Seeded sampling; whether FindFile and FindDirectory look past an entry of the other kind is left open.')

A_PU = ['vital/kwiversys/ProcessUNIX.c']
P('C27', 'A child process delivers its whole output and its exact exit status',
  'WaitForData hands over every byte each program of the pipeline wrote to the pipes, in order, and WaitForExit reports the end only after all programs ended, with the exit code or signal of the last one; a failing wait is an error, not an end. '
  'This holds for every split of reads, every order in which programs write, close, spawn and die, and under interruption. '
  'No descriptor, child or memory is left.',
  'schedules inputs fault_sequences', 'all pipelines of up to three generated programs, output modes, amounts of output around the pipe capacity, interleavings of the processes at their system calls, and placements of EINTR, short reads and failing select',
  'The tests run a handful of real programs under one schedule each.', A_PU, [('WaitForData, WaitForExit', 'vital/kwiversys/ProcessUNIX.c')],
  'simulated kernel with a seeded scheduler and faults, history of all bytes written compared with those delivered',
  'Seeded sampling; programs that hold an output pipe open for ever are excluded where no timeout is set.')
P('C28', 'Timeouts and kills act in time and leave nothing behind',
  'A process expires no earlier than its timeout and not much later, WaitForData honours its own time limit, and after a timeout or Kill no program started by the object is alive except descendants already orphaned. '
  'Signals go only to processes the object started and has not yet waited for, also when process ids are reused. '
  'The state reported is the one that ended the process.',
  'schedules histories fault_sequences', 'all histories of two objects being started, waited for, interrupted, killed, deleted and reused, trees of generated programs, stalls of the parent, and placements of faults on select, the process directory and ps',
  'The tests cannot choose when a timeout meets an exit, and never reuse a process id.', A_PU, [('Kill, timeouts', 'vital/kwiversys/ProcessUNIX.c')],
  'simulated kernel with a seeded scheduler, clock and faults, with all signals and survivors checked',
  'Seeded sampling; survivors are tolerated when reading the process table failed.')
P('C29', 'A process that cannot be started reports an error and leaves nothing behind',
  'Whatever system call or allocation fails during Execute, the object ends in the error state with a message, or runs as asked; no child, zombie, descriptor, signal handler, working directory or memory of the attempt remains and no foreign process is signalled. '
  'A command that cannot be executed is reported with the system\'s reason.',
  'fault_sequences schedules histories', 'all placements of failures of pipe, fork, fcntl, exec, setsid, chdir, getcwd, open and of memory allocations over pipelines, detached processes and reused objects',
  'The tests provoke only a missing program.', A_PU, [('Execute and its error paths', 'vital/kwiversys/ProcessUNIX.c')],
  'simulated kernel with seeded failures of every system call and allocation, resources compared before and after', 'Seeded sampling.')
P('C30', 'Signals and concurrent child processes leave the parent as it was',
  'With several objects running, SIGINT or SIGTERM to the parent interrupts the process groups of its children, waits for them and then ends it by that signal; SIGCHLD, EINTR and signals at any point lose no output, change no errno and hang nothing. '
  'When no child runs the parent has its own handlers, mask, working directory and descriptors back.',
  'schedules histories', 'all interleavings of up to three objects with signals arriving at any instruction, signal dispositions and masks of the program, and orders in which the objects end',
  'The tests send no signals.', A_PU, [('signal handlers', 'vital/kwiversys/ProcessUNIX.c')],
  'simulated kernel delivering seeded signals at any instruction, with the parent compared before and after',
  'Seeded sampling; a handler that waits for a child blocked on a full pipe is excluded, as that deadlock is inherent in the design.')
P('C31', 'Detached processes are independent, and disowning loses nothing',
  'A detached process is no child of the program (with a process group it runs in its own session), survives deletion and disowning of its object, and is never waited for or signalled afterwards; one that cannot be started is reported as an error with its reason. '
  'A detached process that is killed or times out is gone afterwards. '
  'No helper process, descriptor or memory is left in the parent.',
  'schedules fault_sequences histories', 'all histories of detached objects being started, waited for, killed, disowned and deleted, timeouts, interleavings with the helper process, and placements of failing system calls',
  'The tests disown one real process.', A_PU, [('detached start, Disown', 'vital/kwiversys/ProcessUNIX.c')],
  'simulated kernel with a seeded scheduler and faults, with sessions and survivors checked',
  'Seeded sampling; the exit code reported for a detached process is not checked.')

P('C43', 'Hash containers hold exactly what was put in, under any history and failure',
  'Under any sequence of insertions (single, hinted and ranges), erasures, lookups, copies, assignments, swaps, resizes and clears, the hash maps, sets, multimaps and multisets contain exactly the elements a sorted reference container contains, with the same counts, sizes, equal ranges and insertion results, and iterating visits each element once. '
  'Copies are independent, every node is released exactly once, and threads that only read one container do not disturb each other. '
  'If an allocation fails during an operation the container stays usable and consistent: no element is lost, invented or leaked by an insertion, erasure or resize that fails, and elements of a failed assignment are a part of the source.',
  'histories inputs schedules fault_sequences', 'all histories over any keys and any bucket counts, with the k-th allocation failing and concurrent readers',
  'The tests insert a few entries into one map and set.', ['vital/kwiversys/hashtable.hxx.in', 'vital/kwiversys/hash_map.hxx.in', 'vital/kwiversys/hash_set.hxx.in'],
  [('resize, insert and erase', 'vital/kwiversys/hashtable.hxx.in'), ('hash_map, hash_multimap', 'vital/kwiversys/hash_map.hxx.in'), ('hash_set, hash_multiset', 'vital/kwiversys/hash_set.hxx.in')],
  'seeded histories with failing allocations and scheduled concurrent readers, compared with sorted reference containers', 'Key and value types are integers and strings; the equality operator of the containers, which depends on the order within buckets, is not judged, nor are iterators kept across a swap.')

P('C44', 'The environment is set, unset and read back exactly, one variable at a time',
  'After any sequence of PutEnv, UnPutEnv and changes by others, GetEnv finds a variable exactly if it is set and gives its current value, and no operation changes any other variable; names that are a prefix of one another are independent. '
  'GetPath appends exactly the directories of the list, in order and with normalised slashes, to what the caller already has. '
  'An operation that runs out of memory or gets an unusable name reports failure and leaves the variable as it was.',
  'histories inputs fault_sequences', 'all histories over any names, values and lists, with the k-th allocation failing',
  'The tests set and unset one variable.', ['vital/kwiversys/SystemTools.cxx'], [('PutEnv, UnPutEnv, GetEnv, GetPath', 'vital/kwiversys/SystemTools.cxx')],
  'seeded histories with failing allocations, compared with a reference map of the environment', 'One thread, since the C environment itself is not synchronised.')

P('C45', 'A regular expression finds the documented match, whatever its history',
  'Compiling accepts exactly the expressions of the documented language that fit, and find reports the leftmost match that backtracking in the documented order gives, with the documented start and end of every group. '
  'Copies and assigned expressions are independent, behave as the original and carry its last match; expressions compare equal exactly if they have the same program; an expression that could not be compiled is never used. '
  'Expressions of different threads do not disturb each other, and when memory runs out an expression keeps working as before or is invalid, and nothing leaks.',
  'histories inputs schedules fault_sequences', 'all expressions and texts, all histories of compiling, copying, assigning, invalidating and searching, failing allocations, interleavings of threads',
  'No test of the repository covers it beyond what globbing needs.', ['vital/kwiversys/RegularExpression.cxx', 'vital/kwiversys/RegularExpression.hxx.in'], [('compile, find, regmatch', 'vital/kwiversys/RegularExpression.cxx'), ('copying', 'vital/kwiversys/RegularExpression.cxx')],
  'seeded histories, schedules and failing allocations against a reference parser and backtracking matcher', 'Runs in which the reference matcher exceeds its step limit are not judged; group positions are compared only for groups that took part in the match.')

P('C46', 'Digests and encodings do not depend on how the data arrive or who else computes',
  'The MD5 digest is that of the bytes appended since it was initialised, however they were cut into pieces and whatever other digests progress at the same time, in this thread or others. '
  'Base64 encoding followed by decoding gives back exactly the bytes, with and without an end mark and with either way of bounding the input; damaged input gives a shorter result, and no byte outside the given buffers is read or written. '
  'When the digest cannot be allocated none is returned.',
  'histories inputs schedules fault_sequences', 'all byte strings, all ways of cutting them, interleaved and concurrent digests, damaged and truncated encodings, failing allocations',
  'The tests encode one string in fixed ways.', ['vital/kwiversys/MD5.c', 'vital/kwiversys/Base64.c'], [('kwsysMD5_Append', 'vital/kwiversys/MD5.c'), ('kwsysBase64_Decode', 'vital/kwiversys/Base64.c')],
  'seeded histories and schedules over exactly bounded buffers, compared with reference implementations', 'Data of up to a few thousand bytes.')

P('C47', 'Command lines set exactly the variables and run the callbacks they name',
  'Parsing gives each registered option, in order, exactly the values the command line names for it (the longest matching option wins), sets no other variable, calls each callback once per use with its own data, and fails exactly on an unknown argument, a missing value or a refusing callback. '
  'The remaining and unused arguments are exactly those not consumed, and the last-argument index agrees. The help shows every option with its whole text at every line width, and looking up help always ends. '
  'When memory runs out parsing raises and nothing leaks.',
  'histories inputs fault_sequences', 'all sets of options of every kind and variable type, command lines, repeated parsing, refusing callbacks, line widths, failing allocations',
  'The tests parse one fixed command line each.', ['vital/kwiversys/CommandLineArguments.cxx', 'vital/kwiversys/CommandLineArguments.hxx.in'], [('Parse', 'vital/kwiversys/CommandLineArguments.cxx'), ('GenerateHelp', 'vital/kwiversys/CommandLineArguments.cxx')],
  'seeded histories of registrations and command lines with refusing callbacks and failing allocations, compared with a reference parser', 'Registering options is not run out of memory; the layout of the help is not judged, only its content.')
