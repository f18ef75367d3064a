"""Which harness decides which property, and what of it is real code and what is simulated."""
SIMULATED_COMMON = [
    "thread scheduling, mutexes, condition variables, one-time and static initialisation, futexes, atomics (real pthreads parked and released one at a time by the seeded scheduler)",
    "monotonic and wall clocks, sleeps and timed waits (discrete-event simulated time)",
    "heap (arena with redzones, no reuse, use-after-free and bounds detection, injected allocation failures)",
]
DISK = "files named by relative path (open, read, write, close with injected errors, short and interrupted transfers, full disk, crash cut) on a scratch directory"
P = {
    # id: (module, level, real components, extra simulated components, quick seconds)
    "P01": ("jobqueue", "exploration", ["sm_boost JobQueue, boost::thread, boost futures (as built)"], [], 20),
    "P02": ("jobqueue", "exploration", ["sm_boost JobQueue, boost::thread"], [], 20),
    "P03": ("jobqueue", "exploration", ["sm_boost JobQueue, boost::thread, boost futures"], [], 20),
    "P04": ("logging", "exploration", ["sm_logging macros, globals, Logger, Formatter, StdOutLogger"], ["recording logger in place of the console where the event itself is checked"], 20),
    "P05": ("logging", "exploration", ["sm_logging macros and globals"], ["recording logger"], 20),
    "P06": ("logging", "exploration", ["sm_logging macros and globals"], ["recording logger that throws and re-enters"], 20),
    "P07": ("logging", "exploration", ["sm_logging macros and globals"], ["recording loggers"], 20),
    "P08": ("logging", "exploration", ["sm_logging ONCE and THROTTLE macros"], ["recording logger with a clock that jumps"], 20),
    "P09": ("timing", "exploration", ["sm_timing Timing and Timer registry, boost::accumulators"], [], 20),
    "P10": ("timing", "exploration", ["sm_timing Timer and clock code, libc time zone code"], [], 15),
    "P11": ("corrector", "exploration", ["sm_timing TimestampCorrector (header, instrumented)"], ["remote clock (offset, skew, quantisation) and network link (delay, jitter, loss, reordering)"], 15),
    "P12": ("corrector", "exploration", ["sm_timing TimestampCorrector (header, instrumented)"], ["remote clock with steps and resets, network link that duplicates and reorders"], 15),
    "P13": ("ids", "exploration", ["sm_common HashId, boost::random, boost uuid code used by it"], ["clock resolution and coincidences"], 15),
    "P14": ("ids", "exploration", ["sm_random, sm_eigen random"], [], 15),
    "P15": ("archive", "exploration", ["sm_matrix_archive MatrixArchive, libstdc++ streams"], [DISK], 20),
    "P16": ("archive", "fault_enumeration", ["sm_matrix_archive MatrixArchive, libstdc++ streams"], [DISK], 20),
    "P17": ("archive", "fault_enumeration", ["sm_matrix_archive MatrixArchive, libstdc++ streams"], [DISK], 20),
    "P18": ("ptree", "fault_enumeration", ["sm_property_tree, boost::property_tree, libstdc++ streams"], [DISK], 20),
    "P19": ("ptree", "exploration", ["sm_property_tree BoostPropertyTreeLoader, boost::property_tree, boost::filesystem"], [DISK], 20),
    "P20": ("values", "exploration", ["sm_value_store, sm_property_tree, boost::property_tree"], [DISK, "log callbacks that throw"], 20),
    "P23": ("ids", "exploration", ["sm_common HashId text, comparison and hashing, std containers of ids"], ["the channel between the processes (a queue in memory)"], 12),
    "P22": ("timing", "exploration", ["sm_timing NsecTimeUtilities, sm_logging Logger clock functions, std::chrono", "sm_boost ptimeToTimeval"], [], 15),
    "P24": ("shared", "exploration", ["sm_kinematics setRandom and quatRandom, sm_common Id, sm_random, Eigen's Random"], ["libc rand() (also constant, alternating and near-constant sources)"], 15),
    "P25": ("shared", "exploration", ["sm_kinematics, sm_matrix_archive, sm_property_tree, sm_value_store, sm_timing TimestampCorrector, sm_boost and sm_eigen serialization, sm_common, boost libraries as built"], [DISK], 20),
    "P26": ("poses", "exploration", ["sm_kinematics and sm_eigen property tree readers, sm_property_tree, sm_value_store, boost::property_tree, libstdc++ file streams"], [DISK], 15),
    "P27": ("console", "exploration", ["sm_logging StdOutLogger, Formatter, tokens, level names, macros and globals, std::cout, libc environment"], ["the console (a stream buffer whose writes and flushes fail)"], 15),
    "P30": ("matlab", "fault_enumeration", ["sm_matlab Engine"], ["Matlab: its engine and matrix interface (starts, dies, refuses, runs out of memory, keeps variables of every class)"], 10),
    "P29": ("pylog", "exploration", ["sm_python Logging.cpp, sm_logging globals, macros and locations"], ["the Python interpreter (the exported functions are called directly)", "the logger (recording, failing)"], 12),
    "P28": ("archive", "fault_enumeration", ["sm_matrix_archive lsma and MatrixArchive, libstdc++ streams"], [DISK, "the standard output (a stream buffer that fails or fills up)"], 12),
    "P39": ("serial", "exploration", ["sm_common serialization_macros.hpp, sm_kinematics classes, sm_boost and sm_eigen serialization, boost::serialization"], [DISK], 10),
    "P41": ("images", "fault_enumeration", ["sm_opencv serialization.hpp, sm_boost serialization.hpp, sm_common serialization_macros.hpp, boost::serialization"], [DISK, "OpenCV's core (matrix headers over shared pixels, key points)"], 10),
    "P21": ("serial", "fault_enumeration", ["sm_boost serialization.hpp, sm_eigen serialization.hpp, sm_kinematics classes, boost::serialization"], [DISK], 20),
}

_T = " A quiet check means no violation among the runs sampled from this seed (counts in the evidence file); sequentially consistent memory is assumed."
NOTE = {
    "P01": "Schedules of clients and up to nine workers, bursts of up to 70 jobs, value, void and throwing futures, naps and jobs that schedule or query are sampled down to single memory accesses, with spurious wakeups and failing allocations; oracle over the full history: exactly once, order up to what idle workers may have taken, work conservation at quiescence, future results." + _T,
    "P02": "Several waiters, nested jobs, early and late start; oracle: no return before completion of what was scheduled before the call, no deadlock once jobs end." + _T,
    "P03": "Stop, join and destruction at every point of a queue's life, including never started, just started and from inside a job; use-after-free and deadlock detection by the simulator, broken-promise check for jobs never run." + _T,
    "P04": "Clients execute all 176 generated macros and statements with run-time levels (named streams, conditions, printf and stream style, special characters, texts around the 4096-byte and grown buffers) under sampled schedules; a recording logger compares every event with what the statement said, and a second scenario reads the real console logger's output line by line under sampled formats, environments and colours." + _T,
    "P05": "Level and stream changes race with first and repeated executions; oracle: register histories (each statement must agree with a state that was possible during it), deadlock detection, and all statements against the final state at rest." + _T,
    "P06": "Logger exceptions of two kinds, failing allocations, throwing message arguments, re-entrant and nested statements at sampled points, and a console whose writes and flushes fail for a while; oracle: what may escape, and that every later statement of every thread is delivered." + _T,
    "P07": "setLogger, getLogger, statements and throttled statements race, loggers replace themselves during delivery; oracle: exactly one delivery to a logger installed during the statement, no destruction or use after free of a logger in use." + _T,
    "P08": "ONCE statements race; THROTTLE statements against an exact model over clock histories with forward and backward jumps, and from several threads on a monotone clock." + _T,
    "P09": "Timers, queries, reports, resets and tag creation of several threads under sampled schedules and failing allocations; oracle: per tag a linearizability search over the recorded operations with all statistics as one observation, one over all tags with each report as one observation, handle/tag bijection, and exact statistics of up to 130 samples in one thread." + _T,
    "P10": "Timer operations with steps of the wall clock, settings around daylight-saving switches and time zone changes at every point of the plan; oracle: simulated elapsed time to clock resolution, and the legal state machine of a timer." + _T,
    "P11": "Histories come from a simulated remote clock (offset, skew, quantisation, units) over a simulated link (delay, jitter, loss, stalls, local clock steps), as doubles and as int64 nanoseconds up to epoch magnitudes; oracle: lower hull of the whole history recomputed from scratch in 128-bit or long double arithmetic; nearly collinear histories whose hull depends on rounding are not judged (counted as a probe)." + _T,
    "P12": "As P11 plus duplicates, reordering, remote clock steps, resets, copies and switching; oracle: rejected stamps change nothing, a two-corrector reference model, bounds and freed-memory checks on every access." + _T,
    "P13": "Clients draw ids under sampled schedules (first draw raced, clock frozen or stepping); oracle: all ids distinct and valid, and each equal to one draw of what a process started at the same clock reading draws alone; several processes whose first readings differ by 1 ns up to 2^57 ns must share no id." + _T,
    "P14": "Series of draws in histories with different seeds, earlier draws, clock steps and dirtied memory are compared bit by bit with the same series in other processes; ranges on every draw including bounds adjacent to each other and as wide as int; Kolmogorov-Smirnov, serial correlation and cell counts at thresholds below 1e-8. No thread safety is promised by the code, so only one thread draws at a time." + _T,
    "P15": "Histories of sets of both kinds, clears, mutation through references, copies, saves, appends and loads (all or chosen names, three file names, two archives per client, several clients at once) against a map model; every getter, size and iteration is compared after every operation and every written file is parsed by an independent reader; short and interrupted transfers in half of the runs." + _T,
    "P16": "Every save and append of sampled archives runs on a disk that refuses the open, fails some write, fills up at a sampled byte, fails the close, or only shortens and interrupts transfers; oracle: normal return if and only if no system call failed, and then complete entries; the archive and what append found stay unchanged." + _T,
    "P17": "Files torn by a crash at a sampled byte, truncated, bit-flipped, with overwritten sizes, zeroed, duplicated or cut-out ranges, and read errors, loaded into archives that hold other values; oracle: an independent parser decides which entries are complete; the simulator's heap checks bounds and the largest request. Files with a zero byte inside a name are only checked for crashes and memory." + _T,
    "P18": "Histories of sets, saves and loads of two trees and two files in each format on a disk that refuses opens, fails, shortens or interrupts transfers, fills up at a sampled byte, fails the close or loses everything after a crash point, with failing allocations, truncations and damaged bytes; oracle: a key/value model tree compared after every operation, every save that returns is read back, a save throws if and only if something failed. What boost's formats cannot represent is left out of the generator (ini and xml trim or reject some texts)." + _T,
    "P19": "Graphs of up to eight files in six directories and four formats, with parents (also cyclic and nested), '!' names, search paths, infixes, hidden, vanishing, malformed and unreadable files, callbacks that throw, and two clients at once; oracle: an independent resolution and merge over the same files, order of the reported merges, and whether the call may throw. A list names one file always in the same way." + _T,
    "P20": "Histories of reads with and without defaults, additions, updates through handles, merges, enumerations, saves and reloads over stacks of child, prefixed (both ways), layered, verbose and property-tree views on up to three trees and a store written by a user, with failing allocations, throwing log callbacks and stores, and I/O errors; oracle: one tree model per store, resolved independently through each stack of views and compared with the trees after every operation. Children listed by getChildren are judged when listed; reading numbers under failing allocations may give the default (boost's streams swallow the exception)." + _T,
    "P22": "Readings and conversions of several threads on a simulated wall clock that ticks while it is read, is stepped in both directions and set to boundary values; oracle: the reading is what the clock showed at some moment of the call; conversions compared in extended precision." + _T,
    "P23": "Senders put ids as text on a channel that loses, repeats, reorders, cuts, stretches, splices and damages texts (also into what number parsers accept: signs, blanks, 0x); a receiver reads each into one register, under failing allocations; oracle: accepted if and only if 32 hex digits, equal to what an independent parser reads and, for an intact text, to the id sent, register unchanged by a refused text, and ordered and hashed sets of what arrived hold exactly the different ids." + _T,
    "P24": "Series of draws under libc sources of randomness that are ordinary, constant, alternating or next to constant, with bounds from 0 to 1e150 m and 0 to pi; every drawn value is checked (finite, unit, rotation, bounds, symmetric and positive semidefinite covariances), every series is drawn twice, into fresh and into used objects; of 120 bounded draws of ordinary randomness one must reach half of each bound." + _T,
    "P25": "Two to four clients run operations on objects of their own (archives, trees, stores, correctors, transformations, serialised files, config loading) and const operations on shared ones, under sampled schedules with accesses to memory checked for races in six of ten runs, and with allocations failing in some operations; every result is compared byte for byte with the same operation run alone, and shared objects with their state before. Reads that write by design (a default for a missing key) are left out." + _T,
    "P26": "Histories of poses written whole, in part, scaled or as odd text into two trees, saved and loaded in three formats on a faulty disk, and read as transformations through the tree, its children and layered and prefixed value-store views, against a reference computed from the texts in extended precision." + _T,
    "P27": "Formats drawn from tokens, near-tokens and text that is special to patterns and printf, from the environment, Formatter::init or the default, with extra tokens and colours; several threads log and replace console loggers, the environment changes, writes fail and allocations fail; every event's bytes on the console are compared with an independent rendering (under a failure: with a beginning of it)." + _T,
    "P29": "Statements through rawLog and rawLogNamed among C++ statements, stream switches, logger replacements and shutdown under sampled schedules, logger exceptions and failing allocations; oracle: one event at a time, each with the statement's fields, exactly once if its stream was on." + _T,
    "P30": "Sessions of puts, gets, questions, commands, line input, restarts and destruction against a simulated Matlab that does not start, dies, refuses or runs out of arrays, with variables of 12 classes and shapes and failing allocations; oracle: the simulated workspace, and the interface's own rules (valid handles and arrays, none left behind)." + _T,
    "P39": "Ten types (kinematics classes, shared pointers, user records chaining the macros in several forms) stored and restored, the file in between left whole, with one bit of a number flipped, a number lost, the write torn or missed; oracle: the members compared one by one by the harness." + _T,
    "P41": "Images, frames and vectors of images and key points saved and loaded in all three archive formats under refused opens, failing, short and interrupted transfers, full disks, crashes at a sampled byte, failing closes and allocations and truncation, loaded also into parts of larger images and into shared ones; OpenCV itself is a stand-in with 2.4's header, step and reuse rules." + _T,
    "P28": "One to three archives, damaged in six ways or missing, listed under open and read errors, short and interrupted reads, failing allocations and an output that fails, fails once or fills up at a sampled byte; oracle: an independent parser and rendering of the listing, and whether the tool may report success. Files with a zero byte inside a name are only checked for crashes." + _T,
    "P21": "31 types saved and loaded in all three archive formats under refused opens, failing, short and interrupted writes, disks full or crashed at a sampled byte, failing closes, read errors, failing allocations, truncation, other archive kinds and other matrix types; oracle: bytes of the object's elements before and after. Not judged: what boost's formats cannot show (the type of the object in binary files, the outermost xml tag), and files left by a failed save under an error that passed." + _T,
}
