# Harnesses (which code of /repo each links) and properties (budget, description for the evidence files).
CONFIG = r'vital/config/CMakeFiles/vital_config\.dir/|vital/logger/CMakeFiles/vital_logger\.dir/|vital/kwiversys/CMakeFiles/kwiversys\.dir/|^vital/CMakeFiles/vital\.dir/|vital/(exceptions|util)/'
ENG = ['core.cc', 'fiber.cc', 'mem.cc', 'str.cc', 'vfs.cc', 'host.cc']
HARNESS = {
    'config_io': dict(harness=['config_io.cc'], engine=ENG, objs=CONFIG, noobjs=r'log4cxx'),
    'conc': dict(harness=['conc.cc'], engine=ENG + ['dl.cc'], objs=CONFIG, noobjs=r'log4cxx'),
    'plugin': dict(harness=['plugin.cc'], engine=ENG + ['dl.cc'], objs=CONFIG + r'|vital/CMakeFiles/vital_apm\.dir/|vital/tools/CMakeFiles/plugin_explorer\.dir/', noobjs=r'log4cxx', redefine=(r'plugin_explorer', 'explorer.syms')),
    'capi': dict(harness=['capi.cc'], engine=ENG + ['dl.cc'], objs=CONFIG + r'|vital/bindings/c/CMakeFiles/vital_c\.dir/|vital/CMakeFiles/vital_apm\.dir/', noobjs=r'log4cxx'),
    'geo_io': dict(harness=['geo_io.cc'], engine=ENG, objs=CONFIG, noobjs=r'log4cxx'),
    'fs': dict(harness=['fs.cc'], engine=ENG, objs=CONFIG, noobjs=r'log4cxx'),
    'process': dict(harness=['process.cc'], plain=['process.cc'], engine=ENG, objs=r'vital/kwiversys/CMakeFiles/kwiversys\.dir/(ProcessUNIX|System)\.c\.o$', redefine=(r'ProcessUNIX', 'process.syms'), objcopy=['--rename-section .data=procdata', '--rename-section .bss=procbss,alloc,load,data,contents'], ldflags='-Wl,--defsym=pk_alias_vfork=pk_fork -Wl,--defsym=pk_alias_fcntl64=pk_fcntl -Wl,--defsym=pk_alias_execv=pk_execvp -Wl,--defsym=pk_alias__Exit=pk__exit -Wl,--defsym=pk_alias_exit=pk__exit -Wl,--defsym=pk_alias_pthread_sigmask=pk_sigprocmask -Wl,--defsym=pk_alias_open64=pk_open -Wl,--defsym=pk_alias_readdir64=pk_readdir -Wl,--defsym=pk_alias_stat64=pk_stat -Wl,--defsym=pk_alias_lstat=pk_stat -Wl,--defsym=pk_alias_lstat64=pk_stat -Wl,--defsym=pk_alias_fopen64=pk_fopen'),
    'sys': dict(harness=['sys.cc'], engine=ENG, objs=CONFIG, noobjs=r'log4cxx'),
    'algo': dict(harness=['algo.cc'], engine=ENG, objs=CONFIG + r'|vital/algo/CMakeFiles/vital_algo\.dir/|vital/CMakeFiles/vital_apm\.dir/', noobjs=r'log4cxx'),
    'info': dict(harness=['info.cc'], engine=ENG, objs=CONFIG, noobjs=r'log4cxx'),
    'types': dict(harness=['types.cc'], engine=ENG, objs=CONFIG, noobjs=r'log4cxx'),
    'value': dict(harness=['value.cc'], engine=ENG, objs=CONFIG, noobjs=r'log4cxx'),
    'box': dict(harness=['box.cc'], engine=ENG, objs=CONFIG, noobjs=r'log4cxx'),
    'text': dict(harness=['text.cc', 'md5_native.c'], engine=ENG, objs=CONFIG, noobjs=r'log4cxx'),
    'util': dict(harness=['util.cc'], engine=ENG, objs=CONFIG, noobjs=r'log4cxx'),
    'config_mem': dict(harness=['config_mem.cc'], engine=ENG, objs=CONFIG, noobjs=r'log4cxx'),
}
R_CFG = ['vital/config: config_block, config_block_io, config_parser, token_expander and token types', 'vital/logger default logger', 'vital/kwiversys: SystemTools, RegularExpression, Directory']
S_FS = ['file system and descriptors (in-memory, behind open/read/write/stat/... and stdio streams)', 'clock', 'heap allocator (arena with red zones and failure injection)']
S_THR = ['threads (fibers under a seeded scheduler that preempts at instrumented memory accesses, locks, clock reads and I/O), mutexes, static-initialisation guards, atomics']
A_THR = ['races inside uninstrumented library code are not detected, except those on strings (instrumented copies of the std::string members) and on memory passed to the mem and str functions']
ASSUME = ['the simulated libc calls behave as POSIX specifies them', 'libstdc++ and libc code that is not interposed behaves deterministically']
S_PROC = ['processes, process groups, pipes, descriptors, signals, select, waiting, exec, /proc and ps (a simulated kernel behind the calls ProcessUNIX.c makes)', 'child programs (generated scripts of writes, reads, sleeps, spawns and exits)', 'clock', 'heap allocator (arena with red zones and failure injection)']
A_PROC = ['the simulated kernel behaves as Linux does for the calls made', 'a process is preempted only at the system calls it makes, except for signals, which may arrive at any instrumented instruction']
PROPS = {
    'C01': dict(harness='config_io', runs=60000, wall=70, rule='a run is non-trivial when the write returned or raised and its outcome was compared with the read-back or with the injected faults; distinct by hash of the event log', real=R_CFG, stub=S_FS, assumptions=ASSUME),
    'C02': dict(harness='config_io', runs=60000, wall=70, rule='a run is non-trivial when a configuration was compared key by key with the reference interpreter, or an error was raised after a storage fault', real=R_CFG, stub=S_FS, assumptions=ASSUME),
    'C03': dict(harness='config_io', runs=100000, wall=70, rule='a run is non-trivial when the generated program was accepted or rejected and compared with the reference interpreter', real=R_CFG, stub=S_FS + ['environment variables, working directory'], assumptions=ASSUME),
    'C04': dict(harness='config_io', runs=100000, wall=70, rule='a run is non-trivial when the outcome of a standard-location read was compared with the model', real=R_CFG, stub=S_FS + ['environment variables, working directory'], assumptions=ASSUME),
    'C05': dict(harness='config_mem', runs=60000, wall=70, rule='a run is non-trivial when a view was used or an allocation failure was injected; every operation is followed by a full comparison of all live blocks and views with the model', real=R_CFG[:2], stub=S_FS[1:], assumptions=ASSUME),
    'C06': dict(harness='conc', runs=40000, wall=70, rule='a run is non-trivial when at least two threads read or wrote configurations and every result was compared with the reference', real=R_CFG, stub=S_FS + S_THR, assumptions=ASSUME + A_THR),
    'C07': dict(harness='conc', runs=150000, wall=70, rule='a run is non-trivial when two or more log lines were written and the whole output was parsed back into complete messages', real=R_CFG[1:], stub=['std::cerr stream buffer (captures, splits and yields)'] + S_FS[1:] + S_THR, assumptions=ASSUME + A_THR),
    'C08': dict(harness='conc', runs=150000, wall=70, rule='a run is non-trivial when at least two threads asked for loggers while the logger manager was being created', real=R_CFG[1:], stub=['dynamic loader (dlopen/dlsym/dlclose)', 'logger plug-ins (scripted)'] + S_FS[1:] + S_THR, assumptions=ASSUME + A_THR),
    'C09': dict(harness='conc', runs=150000, wall=70, rule='a run is non-trivial when two or more log lines were written and their time stamps compared with the simulated clock readings held during the call', real=R_CFG[1:], stub=['std::cerr stream buffer (captures, splits and yields)'] + S_FS[1:] + S_THR, assumptions=ASSUME + A_THR),
    'C10': dict(harness='plugin', runs=60000, wall=70, rule='a run is non-trivial when at least one plug-in registration function ran or several threads raced to load; every pass is compared with the model of the search path', real=['vital_apm: algorithm_plugin_manager', 'vital: registrar, algorithm, config_block', 'vital/logger default logger', 'vital/kwiversys: DynamicLoader, SystemTools, Directory'], stub=['dynamic loader (dlopen/dlsym/dlclose)', 'plug-ins (scripted registration functions)'] + S_FS + S_THR, assumptions=ASSUME + A_THR),
    'C11': dict(harness='plugin', runs=60000, wall=70, rule='a run is non-trivial when at least two implementations were registered; every query is compared with the model registry', real=['vital: registrar, algorithm, algo/*, config_block', 'vital/logger default logger'], stub=['algorithm implementations (small configurable classes)'] + S_FS[1:] + S_THR, assumptions=ASSUME + A_THR),
    'C12': dict(harness='capi', runs=40000, wall=70, rule='a run is non-trivial when objects were shared, destroyed handles were used, or allocations failed; after each step the touched objects are compared with the model and at the end the heap must be as before', real=['vital_c: all of vital/bindings/c', 'vital: types, io, algo, registrar, config_block'], stub=['algorithm implementations (small configurable classes)'] + S_FS, assumptions=ASSUME),
    'C13': dict(harness='capi', runs=40000, wall=70, rule='a run is non-trivial when calls failed or allocations failed; every call is compared with the same operation through the C++ interface', real=['vital_c: all of vital/bindings/c', 'vital: types, io, algo, registrar, config_block'], stub=['algorithm implementations (small configurable classes)'] + S_FS, assumptions=ASSUME),
    'C14': dict(harness='geo_io', runs=60000, wall=70, rule='a run is non-trivial when a camera was written or read and the outcome compared with the round trip, the reference reader or the injected faults', real=['vital/io', 'vital/types: camera, camera_intrinsics, rotation, landmark, track, feature', 'vital/kwiversys: SystemTools'], stub=S_FS + S_THR, assumptions=ASSUME),
    'C15': dict(harness='geo_io', runs=60000, wall=70, rule='a run is non-trivial when landmarks were written or read and the outcome compared with the reference', real=['vital/io', 'vital/types: camera, camera_intrinsics, rotation, landmark, track, feature', 'vital/kwiversys: SystemTools'], stub=S_FS, assumptions=ASSUME),
    'C16': dict(harness='geo_io', runs=60000, wall=70, rule='a run is non-trivial when tracks were written or read and the outcome compared with the reference', real=['vital/io', 'vital/types: camera, camera_intrinsics, rotation, landmark, track, feature', 'vital/kwiversys: SystemTools'], stub=S_FS, assumptions=ASSUME),
    'C17': dict(harness='geo_io', runs=60000, wall=70, rule='a run is non-trivial when a camera directory was read and the outcome compared with the model', real=['vital/io', 'vital/types: camera, camera_intrinsics, rotation, landmark, track, feature', 'vital/kwiversys: SystemTools'], stub=S_FS, assumptions=ASSUME),
    'C18': dict(harness='fs', runs=60000, wall=70, rule='a run is non-trivial when a file was copied and the tree compared with the model; distinct by hash of the event log', real=['vital/kwiversys: SystemTools, Directory'], stub=S_FS, assumptions=ASSUME),
    'C19': dict(harness='fs', runs=60000, wall=70, rule='a run is non-trivial when a file or directory was removed and the tree compared with the snapshot; distinct by hash of the event log', real=['vital/kwiversys: SystemTools, Directory'], stub=S_FS, assumptions=ASSUME),
    'C20': dict(harness='fs', runs=60000, wall=70, rule='a run is non-trivial when directories were created and the tree compared with the model; distinct by hash of the event log', real=['vital/kwiversys: SystemTools, Directory'], stub=S_FS + S_THR, assumptions=ASSUME),
    'C21': dict(harness='fs', runs=60000, wall=70, rule='a run is non-trivial when a tree of at least one entry was copied and compared with the model; distinct by hash of the event log', real=['vital/kwiversys: SystemTools, Directory'], stub=S_FS, assumptions=ASSUME),
    'C22': dict(harness='fs', runs=60000, wall=70, rule='a run is non-trivial when files were compared and the answer checked; distinct by hash of the event log', real=['vital/kwiversys: SystemTools, Directory'], stub=S_FS, assumptions=ASSUME),
    'C23': dict(harness='fs', runs=60000, wall=70, rule='a run is non-trivial when a directory was listed and compared with the model; distinct by hash of the event log', real=['vital/kwiversys: Directory'], stub=S_FS, assumptions=ASSUME),
    'C24': dict(harness='fs', runs=60000, wall=70, rule='a run is non-trivial when a text was read line by line and compared with the reference; distinct by hash of the event log', real=['vital/kwiversys: SystemTools, Directory'], stub=S_FS, assumptions=ASSUME),
    'C25': dict(harness='fs', runs=60000, wall=70, rule='a run is non-trivial when a glob ran and its result was compared with the reference; distinct by hash of the event log', real=['vital/kwiversys: Glob, Directory, RegularExpression, SystemTools'], stub=S_FS + S_THR, assumptions=ASSUME),
    'C26': dict(harness='fs', runs=60000, wall=70, rule='a run is non-trivial when a search ran and its result was compared with the reference; distinct by hash of the event log', real=['vital/kwiversys: SystemTools, Directory'], stub=S_FS, assumptions=ASSUME),
    'C27': dict(harness='process', runs=120000, wall=70, rule='a run is non-trivial when the whole output and the exit status of at least one started program were compared with what the simulated programs wrote and returned; distinct by hash of the event log', real=['vital/kwiversys: ProcessUNIX (all of it), System'], stub=S_PROC, assumptions=ASSUME[:1] + A_PROC),
    'C28': dict(harness='process', runs=120000, wall=70, rule='a run is non-trivial when a process expired, was killed, or ended and was compared with the state of the simulated kernel; distinct by hash of the event log', real=['vital/kwiversys: ProcessUNIX (all of it), System'], stub=S_PROC, assumptions=ASSUME[:1] + A_PROC),
    'C29': dict(harness='process', runs=120000, wall=70, rule='a run is non-trivial when a start failed or a process was killed and descriptors, children, handlers and memory were compared with the state before; distinct by hash of the event log', real=['vital/kwiversys: ProcessUNIX (all of it), System'], stub=S_PROC, assumptions=ASSUME[:1] + A_PROC),
    'C30': dict(harness='process', runs=120000, wall=70, rule='a run is non-trivial when an object ran to its end or an external signal was handled, with the state of the parent compared afterwards; distinct by hash of the event log', real=['vital/kwiversys: ProcessUNIX (all of it), System'], stub=S_PROC, assumptions=ASSUME[:1] + A_PROC),
    'C31': dict(harness='process', runs=120000, wall=70, rule='a run is non-trivial when a detached process was started, killed, expired, failed to start or was disowned; distinct by hash of the event log', real=['vital/kwiversys: ProcessUNIX (all of it), System'], stub=S_PROC, assumptions=ASSUME[:1] + A_PROC),
    'C32': dict(harness='util', runs=150000, wall=60, rule='a run is non-trivial when an interval reported by a timer was compared with the simulated clocks; distinct by hash of the event log', real=['vital/util: wall_timer, cpu_timer, scoped_timer', 'std::chrono'], stub=['clocks (monotonic, settable real time, processor time)', 'std::cerr stream buffer'] + S_THR, assumptions=ASSUME + A_THR),
    'C33': dict(harness='util', runs=100000, wall=60, rule='a run is non-trivial when a path was found and compared with the simulated program and module location; distinct by hash of the event log', real=['vital/util: get_paths, whereami'], stub=S_FS + ['/proc/self/exe and /proc/self/maps'] + S_THR, assumptions=ASSUME + A_THR),
    'C43': dict(harness='box', runs=100000, wall=60, rule='a run is non-trivial when elements were inserted, queried or copied; after every step every element of every container is compared with the model; distinct by hash of the event log', real=['vital/kwiversys: hash_map, hash_set, hashtable, hash_fun'], stub=['heap allocator (arena with red zones and failure injection)'] + S_THR, assumptions=ASSUME[1:] + A_THR),
    'C44': dict(harness='text', runs=60000, wall=45, rule='a run is non-trivial when a variable was set or removed, or a list of directories was split; after every step the whole environment is compared with the model; distinct by hash of the event log', real=['vital/kwiversys: SystemTools', 'C library environment'], stub=['heap allocator (arena with red zones and failure injection)'], assumptions=ASSUME[1:]),
    'C45': dict(harness='text', runs=100000, wall=60, rule='a run is non-trivial when a search matched and the match and every group were compared with the reference matcher; distinct by hash of the event log', real=['vital/kwiversys: RegularExpression'], stub=['heap allocator (arena with red zones and failure injection)'] + S_THR, assumptions=ASSUME[1:] + A_THR),
    'C46': dict(harness='text', runs=60000, wall=45, rule='a run is non-trivial when a digest or an encoding was compared with the reference; distinct by hash of the event log', real=['vital/kwiversys: MD5, Base64'], stub=['heap allocator (arena with red zones and failure injection)'] + S_THR, assumptions=ASSUME[1:] + A_THR),
    'C47': dict(harness='text', runs=100000, wall=60, rule='a run is non-trivial when a non-empty command line was accepted and every variable, callback and list compared with the model; distinct by hash of the event log', real=['vital/kwiversys: CommandLineArguments'], stub=['heap allocator (arena with red zones and failure injection)', 'standard error'], assumptions=ASSUME[1:]),
    'C34': dict(harness='types', runs=100000, wall=60, rule='a run is non-trivial when an image was resized, deeply copied or transformed, or threads shared one; after every step every pixel of every image is compared with the model; distinct by hash of the event log', real=['vital/types: image, image_memory, image_container, color'], stub=['heap allocator (arena with red zones and failure injection)'] + S_THR, assumptions=ASSUME[1:] + A_THR),
    'C48': dict(harness='value', runs=60000, wall=50, rule='a run is non-trivial when a value was copied, converted or streamed and compared with the model, a collection was compared with its elements, or threads read one; distinct by hash of the event log', real=['vital/types: feature, landmark, color, covariance, camera, camera_intrinsics, rotation, similarity, homography, homography_f2f, homography_f2w, descriptor, feature_set, descriptor_set, match_set, landmark_map, camera_map', 'vital/io: eigen_io'], stub=['input streams (a stream buffer that delivers pieces, ends or fails at any place)', 'heap allocator (arena with red zones and failure injection)'] + S_THR, assumptions=ASSUME[1:] + A_THR),
    'C35': dict(harness='types', runs=100000, wall=60, rule='a run is non-trivial when a query with a non-empty answer was compared with the reference, or threads queried one set; distinct by hash of the event log', real=['vital/types: track, track_set, feature_set, descriptor_set, feature, descriptor'], stub=['heap allocator (arena with red zones and failure injection)'] + S_THR, assumptions=ASSUME[1:] + A_THR),
    'C36': dict(harness='sys', runs=100000, wall=60, rule='a run is non-trivial when an operation changed or reported file metadata and was compared with the reference; distinct by hash of the event log', real=['vital/kwiversys: SystemTools'], stub=S_FS + ['process umask'], assumptions=ASSUME),
    'C37': dict(harness='sys', runs=100000, wall=60, rule='a run is non-trivial when a path answer was compared with the reference; distinct by hash of the event log', real=['vital/kwiversys: SystemTools'], stub=S_FS + ['working directory and environment'] + S_THR, assumptions=ASSUME + A_THR),
    'C38': dict(harness='algo', runs=100000, wall=60, rule='a run is non-trivial when an implementation was called and its arguments compared, or a bad path was refused; distinct by hash of the event log', real=['vital/algo: image_io, estimate_*, optimize_cameras, filter_features', 'vital/types: track, track_set, feature_set, descriptor_set, match_set, camera_map, landmark_map', 'vital/kwiversys: SystemTools'], stub=S_FS + ['algorithm implementations (recording, sometimes throwing)'] + S_THR, assumptions=ASSUME + A_THR),
    'C39': dict(harness='info', runs=40000, wall=60, rule='a run is non-trivial when a query was answered and compared with the generated machine; distinct by hash of the event log', real=['vital/kwiversys: SystemInformation'], stub=S_FS + ['/proc files, uname, host name, network interfaces and their names, resource limits, load average'] + S_THR, assumptions=ASSUME + A_THR),
    'C40': dict(harness='info', runs=40000, wall=60, rule='a run is non-trivial when an expanded text held a token of a registered type; distinct by hash of the event log', real=['vital/config: token_expander, token types, config_block', 'vital/kwiversys: SystemInformation, RegularExpression, SystemTools'], stub=S_FS + ['environment, working directory, /proc files, uname, host name, network interfaces'] + S_THR, assumptions=ASSUME + A_THR),
    'C41': dict(harness='plugin', runs=60000, wall=60, rule='a run is non-trivial when the explorer was started and its output compared with the model of the search path and registry; distinct by hash of the event log', real=['vital/tools: plugin_explorer', 'vital_apm: algorithm_plugin_manager', 'vital: registrar, algorithm, config_block', 'vital/kwiversys: CommandLineArguments, DynamicLoader, Directory, SystemTools'], stub=S_FS + ['dynamic loader (dlopen/dlsym/dlclose), standard output and error', 'environment, command line'], assumptions=ASSUME),
    'C42': dict(harness='info', runs=40000, wall=60, rule='a run is non-trivial when reporting was switched or a stack was compared; distinct by hash of the event log', real=['vital/kwiversys: SystemInformation', 'C++ demangler'], stub=['sigaction, delivery of signals, abort, backtrace, dladdr, readlink', 'standard error'], assumptions=ASSUME),
}
