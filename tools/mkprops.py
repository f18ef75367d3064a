#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        observe_at=list(obs),hook_needed=None)))

JQ=["sm_boost/include/sm/boost/JobQueue.hpp","sm_boost/include/sm/boost/implementation/JobQueue.hpp","sm_boost/src/JobQueue.cpp"]
p("P01","JobQueue runs each accepted job exactly once, in order; futures deliver",
  "Every job accepted by scheduleWork or scheduleFuture while the queue keeps running is executed exactly once, whatever threads schedule it, whenever the workers start and however many there are. Workers take jobs in the order in which they were scheduled: with one worker they run strictly one after another in that order, with n workers a job may only be overtaken by later jobs that other workers took meanwhile and never more than n run at a time. No scheduled job is left waiting while a worker is idle. A future obtained from scheduleFuture becomes ready with exactly the value the job returned or the exception it threw. Jobs, and the destructors of the job objects, may themselves use the queue, a shortage of memory or threads surfaces as an exception of the call that scheduled or started (after a failed start the queue works with the threads there are or can be started again) and never loses an accepted job, and no two threads access the queue's state without synchronisation.",
  ["schedules","programs"],"all interleavings of scheduling threads, workers and waiters, all worker counts, all job mixes (values, exceptions, jobs that schedule jobs)",
  "testFuture.cpp runs a handful of jobs on whatever schedule the machine happens to produce; it does not control interleavings, so a lost or doubled wake-up is invisible.",
  JQ,[("mutex_ guards q_; exec_loop pops under the lock and runs the job unlocked","sm_boost/src/JobQueue.cpp"),("packaged_task shared by copies of taskWrapper","sm_boost/include/sm/boost/implementation/JobQueue.hpp")],
  [("q_","jobs not yet started","sm_boost/include/sm/boost/JobQueue.hpp"),("activeThreads_","jobs being executed","sm_boost/include/sm/boost/JobQueue.hpp")],["scheduleWork/scheduleFuture call and return","job body entry and exit","future get()"])
p("P02","JobQueue::waitForEmptyQueue returns exactly when all scheduled work is done",
  "When waitForEmptyQueue returns, every job that was scheduled before the call has finished executing, and jobs scheduled by those jobs have too. On a started, unstopped queue whose jobs all terminate and to which no more work is added, every call to waitForEmptyQueue returns, for any number of concurrent waiters. empty() is true exactly when no job is waiting to be started.",
  ["schedules","programs"],"all interleavings of any number of waiters, schedulers and workers",
  "A test sees one schedule; a waiter that misses the last completion hangs only under a particular interleaving, and a premature return needs the window between dequeue and start.",
  JQ,[("workCondition_ is notified after each job under mutex_; the wait predicate is activeThreads_ || !q_.empty()","sm_boost/src/JobQueue.cpp")],
  [("activeThreads_","jobs between dequeue and completion","sm_boost/include/sm/boost/JobQueue.hpp")],["waitForEmptyQueue call and return","job end"])
p("P03","JobQueue stop, join and destruction terminate, run nothing afterwards, stay safe",
  "join() and the destructor always return once the jobs being executed have finished, from whatever state the queue is in (idle, busy, with a backlog, just started, never started, already stopped), and after they return no job is running and none ever starts; after stop() returns no waiting job is started, apart from ones a worker had already taken. Destroying the queue at any moment after its other member calls have returned touches no freed memory, whether or not its start failed, and the futures of jobs that were never run report a broken promise instead of blocking forever.",
  ["schedules","programs"],"all interleavings of start, schedule, stop, join, destruction and workers",
  "Shutdown races need a stop to land between a worker's check of its exit flag and its wait; no existing test stops or joins a queue with work pending.",
  JQ,[("killWorkers_ + condition_ wake-up, threadsInPool_ counted down by exiting workers, destructor waits for zero","sm_boost/src/JobQueue.cpp")],
  [("killWorkers_","stop requested","sm_boost/include/sm/boost/JobQueue.hpp"),("threadsInPool_","workers still inside the object","sm_boost/include/sm/boost/JobQueue.hpp")],["stop/join/destructor call and return","job body entry","accesses to the queue's memory"])
LG=["sm_logging/src/LoggingGlobals.cpp","sm_logging/include/sm/logging/LoggingGlobals.hpp","sm_logging/include/sm/logging/console.hpp","sm_logging/include/sm/logging/macros_generated.hpp","sm_logging/src/Logger.cpp"]
p("P04","Each enabled log statement reaches the logger exactly once, intact, serialised",
  "Every execution of a logging statement whose level and named stream are enabled, and whose condition is true, hands exactly one event to the installed logger, carrying that statement's own complete text (of any length, printf- or stream-style), level, stream name, file, line and the logger's current time; events of one thread arrive in program order and the logger is never entered by two threads at once; statements share their state without data races. A statement below the level, on a disabled stream or with a false condition produces no event and does not evaluate its message arguments.",
  ["schedules","programs","configurations"],"all interleavings of logging threads (including the first execution of a statement), all levels, stream sets, message lengths and statement kinds",
  "logTest.cpp is single threaded and prints to stdout without checking what arrived; mixed-up or truncated messages need two threads inside print or a first-use race.",
  LG,[("_print_mutex serialises formatting into the shared buffer and the logger call","sm_logging/src/LoggingGlobals.cpp"),("per-statement static LogLocation initialised once under _locations_mutex","sm_logging/include/sm/logging/console.hpp")],
  [("_globalCharBuffer","shared formatting buffer","sm_logging/include/sm/logging/LoggingGlobals.hpp"),("LogLocation","cached enablement of a statement","sm_logging/include/sm/logging/LogLocation.hpp")],["logImplementation of a recording logger","macro entry"])
p("P05","Log level and stream changes terminate and take effect for every statement",
  "After any set of concurrent setLevel, enableNamedStream and disableNamedStream calls and first executions of log statements has finished, every log statement, old or new, is enabled exactly if its level is at least the current level and its stream is enabled; getLevel and isNamedStreamEnabled report that same state. A change made by one thread is respected by every statement executed after the call returned, stream names work with or without the \"sm.\" prefix, and no combination of these calls with logging can block forever.",
  ["schedules","programs","configurations"],"all interleavings of configuration changes, first-time and repeated log statements from any number of threads",
  "logTest.cpp toggles streams in one thread; a stale cached enable flag or a lock-order inversion needs a change to land inside another thread's first use of a statement.",
  LG,[("notifyLoggerLevelsChanged re-evaluates all registered locations under _locations_mutex; _named_stream_mutex guards the set","sm_logging/src/LoggingGlobals.cpp")],
  [("_log_locations","all statements seen so far","sm_logging/include/sm/logging/LoggingGlobals.hpp"),("_namedStreamsEnabled","enabled streams","sm_logging/include/sm/logging/LoggingGlobals.hpp")],["macro entry/exit","setLevel/enable/disable return"])
p("P06","A failing or re-entrant logger or message never silences or blocks later logging",
  "If the installed logger throws a std::exception, that exception does not escape from the log statement; if anything else goes wrong while a message is being formatted or delivered (an exception of another type, a failing allocation, a user stream operator that throws), it may surface at that statement but every later statement of every thread, including the same thread, is still delivered. A log statement executed by the logger from within its own delivery is dropped instead of deadlocking or recursing, without disturbing the outer message or other threads. The console logger shows again, as whole lines, what is logged once the console can be written, after whatever could not be.",
  ["fault_sequences","schedules"],"all placements of logger exceptions, allocation failures and recursive statements over all interleavings",
  "No existing test installs a failing logger; the damage shows only on messages after the failure.",
  LG,[("_printing_thread_id marks the thread inside print; try/catch around Logger::log","sm_logging/src/LoggingGlobals.cpp"),("StdOutLogger clears a failed std::cout","sm_logging/src/StdOutLogger.cpp")],
  [("_printing_thread_id","thread currently delivering","sm_logging/include/sm/logging/LoggingGlobals.hpp")],["logImplementation","log statement return or exception"])
p("P07","Replacing the logger while others log is safe and loses or doubles no message",
  "setLogger may be called at any time from any thread, also while other threads are logging or calling getLogger: each message is delivered to exactly one logger that was the installed one at some moment during that statement, a statement that starts after setLogger returned uses the new logger (or a later one), each event bears the time of the clock of the logger that gets it, and a logger is not destroyed while a delivery is using it. setLogger with a null pointer changes nothing, and getLogger always returns a logger that was installed and keeps it alive.",
  ["schedules","programs"],"all interleavings of setLogger, getLogger, log statements and throttled statements",
  "logTest.cpp never replaces the logger concurrently; the failure is a shared_ptr race that destroys a logger in use only under a particular interleaving.",
  LG,[("_logger shared_ptr read by print and by the throttle macros, replaced by setLogger","sm_logging/src/LoggingGlobals.cpp")],
  [("_logger","installed logger","sm_logging/include/sm/logging/LoggingGlobals.hpp")],["setLogger/getLogger","logImplementation","logger destructor"])
p("P08","ONCE prints once; THROTTLE keeps its rate on the logger's clock, despite jumps",
  "An SM_*_ONCE statement prints on its first enabled execution and never again, whichever threads execute it. An SM_*_THROTTLE statement with period r prints on its first enabled execution and thereafter exactly when at least r seconds of the logger's clock have passed since its last print; two threads never both print within one period. When the clock jumps backwards the statement does not fall silent for longer than r: it prints again at the latest once r seconds have passed on the new clock since it was first executed there.",
  ["schedules","histories","fault_sequences"],"all interleavings of executing threads and all clock histories including forward and backward jumps and periods",
  "Tests run ONCE/THROTTLE statements from one thread on the real clock, which neither jumps nor races.",
  ["sm_logging/include/sm/logging/console.hpp","sm_logging/include/sm/logging/macros_generated.hpp","sm_logging/src/Logger.cpp"],[("per-statement static hit flag / last_hit time","sm_logging/include/sm/logging/console.hpp")],
  [("last_hit","clock time of the last print of the statement","sm_logging/include/sm/logging/console.hpp")],["logImplementation","virtual currentTimeImplementation"])
TM=["sm_timing/src/Timer.cpp","sm_timing/include/sm/timing/Timer.hpp"]
p("P09","Timing registry statistics are exact and race-free under concurrent use",
  "Each tag has exactly one handle and each handle one tag, whichever threads ask first, and handles stay valid. For every tag, number of samples, total, mean, variance, minimum, maximum and rate (reciprocal mean of the last 50 samples) equal those of exactly the measurements completed since the last reset, with no sample lost, doubled or credited to another tag. Creating timers, querying, printing (listing every tag once with its values) and resetting from any number of threads at the same time is free of data races and shows only states that some order of the completed operations explains, one report showing one such state; an invalid handle is reported as a TimerException, and an operation that runs out of memory throws and changes no statistics and no handle.",
  ["schedules","programs"],"all interleavings of timers, queries, prints, resets and tag creation",
  "No existing test uses Timer or Timing at all; a reader that races with the registry growing reads freed memory only under a particular interleaving.",
  TM,[("m_mutex guards getHandle, addTime and reset","sm_timing/src/Timer.cpp")],
  [("m_timers","accumulators by handle","sm_timing/include/sm/timing/Timer.hpp"),("m_tagMap","tag to handle","sm_timing/include/sm/timing/Timer.hpp")],["Timing static functions","Timer stop"])
p("P10","Timers measure elapsed time, unaffected by wall-clock and time-zone steps",
  "The duration a Timer records is the time that elapsed between start and stop to within clock resolution: never negative, and unchanged by steps of the system's wall clock, daylight-saving switches or a change of time zone in between. A running timer that is destroyed records exactly once, a stopped one records nothing; starting a running or stopping a stopped timer throws TimerException and disturbs neither the timer nor its statistics.",
  ["histories","fault_sequences","schedules"],"all sequences of timer operations with wall-clock steps of any size and direction at any point",
  "No existing test uses Timer; a wall-clock step cannot be provoked from a unit test.",
  TM,[("Timer::start/stop take time stamps and add the difference","sm_timing/src/Timer.cpp")],
  [("m_time","start stamp","sm_timing/include/sm/timing/Timer.hpp")],["clock reads","Timing statistics after stop"])
TC=["sm_timing/include/sm/timing/TimestampCorrector.hpp","sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp"]
p("P11","TimestampCorrector maps to the best line under the delayed arrivals, never later",
  "For any history of (remote stamp, arrival stamp) pairs, of type double or of 64-bit integer nanoseconds over any span, the corrector keeps exactly the lower convex hull of the history since its last reset (points on its edges optional), and once that hull has three or more points its estimate for a remote time is the line through the hull segment that contains the middle of the remote-time range. Hence no correction is later than the arrival it corrects (to rounding), and with constant clock skew and offset and non-negative random network delays the estimate equals the true time plus the smallest delays seen on that segment. Before that the arrival stamp itself is returned; slope, offset, hull size and span describe the same hull.",
  ["histories","fault_sequences"],"all arrival histories produced by clocks with skew, drift and steps and networks that delay, jitter, drop and stall; all magnitudes and time types",
  "TestTimestampCorrector.cpp runs one smooth double-valued history with moderate numbers; overflow or a wrong hull needs long spans, integer nanoseconds or particular delay patterns.",
  TC,[("Graham-scan update of the hull stack and the midpoint segment index","sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp")],
  [("_convexHull","lower hull of the history","sm_timing/include/sm/timing/TimestampCorrector.hpp"),("_midpointSegmentIndex","segment used for estimates","sm_timing/include/sm/timing/TimestampCorrector.hpp")],["correctTimestamp","getLocalTime","getSlope","getOffset","convexHullSize","span"])
p("P12","TimestampCorrector rejects bad stamps and switches and resets cleanly",
  "A remote stamp that is not later than its predecessor (duplicate, reordered or stepped-back clock) raises TimeWentBackwardsException and leaves the corrector exactly as it was; queries with fewer than two points raise NotInitializedException. With a switching period, a second corrector is started once the history spans more than half the period and, once it spans more than the period, replaces the first while a new second one is started, so results equal those of that two-corrector model; reset() makes the corrector behave like a new one, a copy behaves like the original and neither influences the other afterwards, and a stamp that fails for lack of memory (without switching) changes nothing. No query or update reads outside the stored history at any time.",
  ["histories","fault_sequences"],"all histories with duplicated, reordered and stepped remote stamps, stalls, resets and queries at any point, all switching periods",
  "The existing test feeds one increasing history; state left behind by a rejected stamp, a hull that shrinks to one segment, a reset or a switch-over needs particular sequences.",
  TC,[("monotonicity assertion before any mutation","sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp"),("_pendingCorrector swap","sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp")],
  [("_pendingCorrector","the corrector that will take over","sm_timing/include/sm/timing/TimestampCorrector.hpp")],["correctTimestamp (both forms)","getLocalTime","reset"])
p("P13","HashId::randomize yields unique, whole ids from any threads, at any clock",
  "Ids drawn with HashId::random()/randomize() in one process are pairwise different, valid, and each is one whole 128-bit draw of the generator, no matter how many threads draw at the same time, which of them draws first, or what the clocks return meanwhile. Two processes whose first draws happen at different clock readings (nanosecond resolution) produce different id sequences.",
  ["schedules","histories"],"all interleavings of drawing threads including the very first draw; all clock readings at first use",
  "hash_id.cpp draws in one thread; torn or duplicated draws and a shared seed need concurrent first use or controlled clock readings.",
  ["sm_common/include/sm/hash_id.hpp","sm_common/src/hash_id.cpp"],[("static generator seeded from the clock; mutex around the two 64-bit draws","sm_common/include/sm/hash_id.hpp")],
  [("rng","process-wide generator","sm_common/include/sm/hash_id.hpp")],["HashId::randomize"])
p("P14","sm::random sequences are a function of the last seed alone",
  "After sm::random::seed(s) the sequence of results of any following series of normal, uniform, randn, rand, randLU and randLUi calls (and of sm::eigen::randn) depends only on s and that series, not on anything drawn before, on which threads make the calls (one at a time), on clocks or on memory contents, and different seeds of the 32-bit range give different sequences. uniform and rand lie in [0,1), randLU(a,b) in [a,b), randLUi(a,b) is an integer in [a,b) that reaches every value, and normal and uniform draws follow their distributions.",
  ["histories","programs"],"all histories of draws before seeding, all seeds, all call series after it",
  "No existing test covers sm_random; left-over state (such as a cached second normal) shows only for particular histories before the seed.",
  ["sm_random/src/random.cpp","sm_random/include/sm/random.hpp","sm_eigen/src/random.cpp"],[("seed() reseeds the engine and resets both distributions","sm_random/src/random.cpp")],
  [("Random","engine and distributions","sm_random/src/random.cpp")],["all sm::random functions"])
MA=["sm_matrix_archive/src/MatrixArchive.cpp","sm_matrix_archive/include/sm/MatrixArchive.hpp"]
p("P15","MatrixArchive behaves as one named map and round-trips through its file",
  "A MatrixArchive holds at most one value, a matrix or a string, per valid name: setting a name of either kind replaces what it held, clear(name) removes it, and all getters, sizes and iteration agree with that. Saving (all or a chosen set of names) and loading, by path or stream, reproduces names, dimensions (including empty matrices) and every matrix bit and string byte; load merges the file's (chosen) entries into the archive with the file winning, append adds the archive's entries to the end of the file, and names not of the form letter followed by letters, digits or underscores, up to 32 characters, are rejected without changing anything, as is a set that runs out of memory. A matrix may be set to an expression of the one it replaces.",
  ["programs","histories"],"all sequences of set, get, create, clear, save, append and load operations on several archives and files",
  "TestMatrixArchive.cpp saves and loads once; cross-kind replacement, subsets, appends and merges need multi-step sequences.",
  MA,[("two maps keyed by name; tagged fixed-name blocks in the file","sm_matrix_archive/src/MatrixArchive.cpp")],
  [("m_values","matrices","sm_matrix_archive/include/sm/MatrixArchive.hpp"),("m_strings","strings","sm_matrix_archive/include/sm/MatrixArchive.hpp")],["public API","bytes of the file"])
p("P16","MatrixArchive save and append report every I/O failure",
  "If save or append returns normally, the file contains all the requested entries completely (and, for append, everything it held before); if any open, write, flush or close fails, or the disk fills up at any byte, the call throws MatrixArchiveException. Interrupted and short writes are not errors and lose nothing, and a failed save or append leaves the archive object unchanged.",
  ["fault_sequences","crash_points"],"all placements of open, write and close failures, full disks, short and interrupted writes over all archive contents",
  "Tests run on a working disk; an error at the final buffered flush is invisible to them.",
  MA,[("stream state checked after each block and on close","sm_matrix_archive/src/MatrixArchive.cpp")],(),["write/close system calls","save/append return","bytes of the file"])
p("P17","Loading a damaged, truncated or failing archive never yields wrong data",
  "Whatever the bytes of the file (a save cut off by a crash at any byte, a truncated or overwritten file, flipped bytes) and whatever read errors or failing allocations occur, MatrixArchive::load terminates, touches no memory it does not own and needs no memory out of proportion to the file, and either throws or has read the whole file. An archive whose load failed holds, for every name, either its previous value or a value stored completely in the file under that name.",
  ["crash_points","fault_sequences","inputs"],"all truncation points, block-structure corruptions and read-fault placements",
  "Tests load only files they have just written completely.",
  MA,[("block start/end markers and stream checks in readBlock","sm_matrix_archive/src/MatrixArchive.cpp")],(),["load return","archive content afterwards"])
PT=["sm_property_tree/src/BoostPropertyTree.cpp","sm_property_tree/src/BoostPropertyTreeImplementation.cpp","sm_property_tree/include/sm/BoostPropertyTreeImplementation.hpp"]
p("P18","Property-tree files: successful saves are complete, failed loads change nothing",
  "Saving a BoostPropertyTree as xml, json, ini or info (chosen by extension or explicitly) and loading the file reproduces every key and value the format can represent, and an unknown extension is rejected with no file touched. If any open, write or close fails, save throws; a file that cannot be opened, read or parsed makes load throw, also when its tail is missing wherever the format can show that (json, xml once its root element is open, info inside a section), and a load that throws leaves the tree's previous content untouched and usable.",
  ["fault_sequences","crash_points","programs"],"all trees the format can represent, all I/O fault placements, all truncation points",
  "BoostPropertyTreeImplementation.cpp saves and loads one tree on a working disk.",
  PT,[("delegates to boost::property_tree readers and writers, reading into the tree","sm_property_tree/src/BoostPropertyTreeImplementation.cpp")],
  [("_ptree","tree content","sm_property_tree/include/sm/BoostPropertyTreeImplementation.hpp")],["load/save return","tree content","bytes of the file"])
p("P19","Config loader: precedence, parents, cycles and search paths hold, or it throws",
  "BoostPropertyTreeLoader yields the tree obtained by merging the listed files from left to right, each preceded by its parents recursively, later values winning, each name, as written, read at most once so cyclic parents terminate, and a name ending in '!' allowed only to update keys that exist. Each name resolves to the first existing candidate over search paths and infixes in order ('./' and '../' names relative to the including file first). A missing, unreadable or malformed file or a forbidden new key makes the call throw; it never returns a partial result.",
  ["configurations","fault_sequences","histories"],"all file graphs, search-path layouts, and faults on any of the files at any point",
  "There is no test of the loader in the repository.",
  ["sm_property_tree/src/BoostPropertyTreeLoader.cpp","sm_property_tree/include/sm/BoostPropertyTreeLoader.hpp","sm_property_tree/src/BoostPropertyTreeImplementation.cpp"],[("readFiles recursion with the set of names already read; update(createIfNecessary)","sm_property_tree/src/BoostPropertyTreeLoader.cpp")],(),["readFilesAndMergeIntoPropertyTree","resolveFullFilePath"])
VS=["sm_value_store/src/PropertyTreeValueStore.cpp","sm_value_store/src/ValueStore.cpp","sm_value_store/src/PrefixedValueStore.cpp","sm_value_store/src/VerboseValueStore.cpp","sm_value_store/include/sm/value_store/ValueStore.hpp"]
p("P20","Value store views show one consistent content through any history and failure",
  "All views of a value store (handles, child stores, prefixed, layered, verbose and property-tree views, and a saved and reloaded file) show the content that the history of additions and updates through any of them produced: an existing value of the right type is returned, a missing one gives the default or throws, hasKey agrees with the getters, a layered store answers from the first layer that has the key, a child bears the key it was asked for, and a verbose store returns exactly what its underlying store does and tells its logger the path and outcome of every access that succeeds. An operation that fails (failing allocation, throwing log callback, wrong type, I/O error) leaves all content as it was, or as the completed operation leaves it (a failed addition may leave empty nodes on its path). Reading never changes content, except that getX(key, default) of a non-const property tree stores the default if the value is missing.",
  ["histories","programs","fault_sequences"],"all histories of operations over stacks of views, with failures injected at any point",
  "ValueStore.cpp exercises each view once on fixed content; incoherence between views and damage after a failure need multi-step histories with faults.",
  VS,[("views share the underlying store by shared_ptr; handles keep path and tree","sm_value_store/src/PropertyTreeValueStore.cpp")],(),["every getter, hasKey, add and update","saveTo/fromFile"])
p("P21","Serialised objects survive storage faults: complete and equal, or an error",
  "If save, save_txt or save_xml of sm::boost_serialization returns normally, the file is complete and load of the same kind restores an equal object (fixed, dynamic and bounded Eigen matrices and transforms of any size including empty ones, kinematics transformations, points and uncertain variants, ids, and containers of them; finite values for text and xml); any open, write or close failure makes the save throw. Loading a file cut off at any byte or under read errors yields an equal object or throws, loading one of another archive kind or of a matrix of a size its type cannot hold throws, and neither terminates the program or touches memory it does not own.",
  ["fault_sequences","crash_points","inputs"],"all supported object types and values, all fault placements and truncation points",
  "EigenSerializationTests.cpp and the kinematics tests round-trip a few objects on a working disk.",
  ["sm_boost/include/sm/boost/serialization.hpp","sm_eigen/include/sm/eigen/serialization.hpp","sm_kinematics/include/sm/kinematics/Transformation.hpp","sm_kinematics/include/sm/kinematics/UncertainTransformation.hpp","sm_kinematics/include/sm/kinematics/HomogeneousPoint.hpp"],[("file streams around boost archives; per-type save/load","sm_boost/include/sm/boost/serialization.hpp")],(),["save*/load* return","bytes of the file"])

# ---- properties this family cannot decide here (pure functions of their input) ----
K="sm_kinematics/src/"
p("P22","Clock readings: nsecNow and logger times are the system clock at the call",
  "sm::timing::nsecNow and, unless overridden, sm::logging::Logger::currentTime return the system's wall clock in nanoseconds since the epoch as it stood at some moment of the call, whatever it shows, however it is stepped before, during or after the call, and from any number of threads; Logger::currentTimeSecondsUtc and currentTimeString (seconds with six decimals) show the same to the microsecond. Converting a reading to std::chrono and back loses nothing, to seconds no more than a double's rounding, and back from there no more than a nanosecond besides; exactly getInvalidTime() is not valid. ptimeToTimeval of a time, read or given, is that time to the microsecond.",
  ["histories","schedules"],"all histories of wall-clock values and steps, readings placed anywhere in them, any threads",
  "TestNsecTimeUtilities.cpp converts one current reading with a tolerance of a millisecond; no test controls the clock that is read.",
  ["sm_timing/src/NsecTimeUtilities.cpp","sm_timing/include/sm/timing/NsecTimeUtilities.hpp","sm_logging/src/Logger.cpp","sm_boost/include/sm/boost/ptime.hpp"],[("duration_cast of std::chrono clocks","sm_timing/src/NsecTimeUtilities.cpp")],(),["return values","system clock reads"])
p("P23","Ids sent as hex text arrive unchanged, or the text is refused without effect",
  "HashId::hexString and operator<< write every id as its 32 hex digits. HashId::fromHexString accepts exactly the texts of 32 hex digits (of either case), returns true and makes the id the one written; any other text, however a channel lost, cut, stretched, spliced or damaged it, makes it return false, throw nothing and leave the id as it was. Ids that arrive, in any order and repeated, are equal if and only if all their 128 bits are, and ordered by one strict total order, so that ordered and hashed sets hold each exactly once.",
  ["histories","inputs","fault_sequences"],"all ids, all damage to their texts, all orders of arrival",
  "hash_id.cpp reads back one id; no test reads a damaged text.",
  ["sm_common/include/sm/hash_id.hpp"],[("fromHexString's check of the text","sm_common/include/sm/hash_id.hpp")],(),["return values","sets of ids"])
p("P24","Random transforms, points and covariances are valid, bounded and repeatable",
  "Whatever the source of randomness delivers, and whatever the object held before: Transformation::setRandom (plain, bounded and of uncertain transformations) leaves a finite transformation with a unit quaternion, rotating by no more than rotationMaxRadians and translating by no more than translationMaxMeters where these are given, and able to reach more than half of them; quatRandom returns a unit quaternion; random points are finite and nonzero; the random covariances of uncertain transformations, points and vectors are finite, symmetric and positive semidefinite; an Id set at random is set. The same seeds (sm::random::seed and the C library's) give the same values again.",
  ["histories","inputs"],"all sequences of numbers the random sources can deliver, all bounds, any previous content of the object",
  "The tests draw from a seeded generator and use the values as input; no test looks at what setRandom promises, nor at unusual numbers.",
  [K+"Transformation.cpp",K+"UncertainTransformation.cpp",K+"HomogeneousPoint.cpp",K+"UncertainHomogeneousPoint.cpp",K+"quaternion_algebra.cpp","sm_kinematics/include/sm/kinematics/implementation/UncertainVector.hpp","sm_common/include/sm/Id.hpp"],[("Transformation::setRandom(max, max)",K+"Transformation.cpp"),("quatRandom",K+"quaternion_algebra.cpp")],(),["the values drawn"])
p("P25","Threads with own objects, or reading shared ones, never disturb each other",
  "Operations of several threads, each on objects of its own (archives, property trees, value stores, timestamp correctors, transformations, points, uncertain values, files with names of its own) or const operations on objects that all only read, return the same results, byte for byte, as when each thread runs alone, in every interleaving, also when operations of other threads fail; no memory is accessed by two of them without synchronisation, and an object that is only read stays as it is. (Reading a property tree or store with a default for a missing key stores the default and is not a const operation.)",
  ["schedules","histories","fault_sequences"],"all interleavings of any operations of any number of threads, all failures of allocations",
  "All tests of these packages are single-threaded.",
  [K+"Transformation.cpp",K+"quaternion_algebra.cpp",K+"rotations.cpp","sm_matrix_archive/src/MatrixArchive.cpp","sm_property_tree/src/BoostPropertyTreeImplementation.cpp","sm_value_store/src/PropertyTreeValueStore.cpp","sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp","sm_boost/include/sm/boost/serialization.hpp"],[("absence of static scratch data and mutable caches",K+"quaternion_algebra.cpp"),("const readers","sm_matrix_archive/src/MatrixArchive.cpp")],(),["return values of all operations","memory accesses"])
p("P26","Poses in configurations are read as the rotations and translations written",
  "transformationFromPropertyTree, through a property tree, a child of it or a child, layered or prefixed value store viewed as a property tree, returns the transformation whose translation is exactly the one last written to that configuration (by setDouble, or by loading the file it was saved to) and whose rotation is that of the quaternion written, within rounding; if a component is missing or not a number or the quaternion is zero it throws, and it never returns a transformation that is not a rotation and a translation. Neither reading nor a save or load that fails changes the configuration.",
  ["histories","fault_sequences","inputs"],"all histories of writes, saves and loads of poses under disk and memory faults, and all numbers a text can denote",
  "No test reads a transformation from a tree.",
  ["sm_kinematics/include/sm/kinematics/property_tree.hpp","sm_eigen/include/sm/eigen/property_tree.hpp","sm_property_tree/src/PropertyTree.cpp","sm_property_tree/src/BoostPropertyTreeImplementation.cpp","sm_value_store/src/PropertyTreeValueStore.cpp"],[("component-wise reading, normalisation","sm_kinematics/include/sm/kinematics/property_tree.hpp")],(),["transformationFromPropertyTree returns or throws","contents of the tree"])
p("P27","The console shows each event as one record in exactly the configured format",
  "For each event handed to it, StdOutLogger writes exactly the configured format to std::cout, then a line end, and flushes it, uninterrupted by other threads' events: each ${token} of the format is replaced by the event's severity, message, time, file, line, function, stream name or its thread's id, any other ${name} by the entry of extra_fixed_tokens_ or left as it stands, everything else is copied, and if doColor_ is set all of it is between the colour of the level and the normal colour. The format is the one given to Formatter::init last, otherwise SMCONSOLE_FORMAT as the environment showed it when the logger was made, otherwise [${severity}] [${time}]: ${message}. A failing console or allocation can cut off an event but changes nothing of later ones. levels::fromString returns the level whose name it is given, in any case, or Info with an error message.",
  ["configurations","schedules","fault_sequences"],"all formats, environments, messages and levels, all interleavings of logging threads and logger replacements, all placements of write and allocation failures",
  "No test looks at what is printed.",
  ["sm_logging/src/Formatter.cpp","sm_logging/include/sm/logging/Tokens.hpp","sm_logging/src/StdOutLogger.cpp","sm_logging/src/Levels.cpp"],[("Formatter::init splits the format, Formatter::print writes token by token","sm_logging/src/Formatter.cpp"),("token values","sm_logging/include/sm/logging/Tokens.hpp")],
  [("SMCONSOLE_FORMAT","format from the environment","sm_logging/src/Formatter.cpp")],["std::cout's buffer","return of levels::fromString"])
p("P28","lsma lists every entry of the archives it is given, or ends with an error",
  "lsma prints, for each archive named on its command line in turn, every string and then every matrix of it under its name (after the file's name and a colon if several are listed), and its exit status is zero exactly if all archives were read completely and all of its output was written; of an archive that is missing, damaged or cannot be read it prints nothing.",
  ["inputs","fault_sequences"],"all archives and command lines, all placements of damage, read errors and output errors",
  "No test runs the tool.",
  ["sm_matrix_archive/src/lsma.cpp","sm_matrix_archive/src/MatrixArchive.cpp"],[("load, then print","sm_matrix_archive/src/lsma.cpp")],(),["standard output","exit status"])
p("P29","Statements logged from Python reach the logger as those of C++ do",
  "A statement handed to sm_python's rawLog or rawLogNamed while its stream is enabled reaches the logger installed then exactly once, with the level, file, line, function and text given, and never at the same time as another event of any thread, C++ or Python; of a disabled stream or after the shutdown it reaches none. A failing logger or allocation can lose that statement only.",
  ["schedules","fault_sequences"],"all interleavings of Python and C++ statements, stream and logger changes and shutdown, all texts, all placements of logger and allocation failures",
  "The bindings have no tests and are not built by them.",
  ["sm_python/src/Logging.cpp","sm_logging/src/LoggingGlobals.cpp"],[("smLog and smLogNamed, exported as rawLog and rawLogNamed","sm_python/src/Logging.cpp")],(),["events at the logger"])
p("P30","A Matlab session returns what was sent, leaks nothing and survives failures",
  "A variable sent through sm::matlab::Engine is in Matlab what it was in C++, and one read is what Matlab holds or a refusal (unknown, empty, of another type, sparse, complex or of more dimensions); executeCommand returns Matlab's output, and bad names, failed calls and uses before initialize throw. Whatever fails (the start, any call, an allocation, Matlab dying), no array is leaked, freed twice or used when missing, at most one Matlab runs per object, and the destructor closes it without ending the program.",
  ["programs","fault_sequences"],"all sequences of calls, all variable contents and names, all placements of failures of Matlab and of allocations",
  "The library needs Matlab and is neither built nor tested by them.",
  ["sm_matlab/src/Engine.cpp","sm_matlab/include/sm/matlab/Engine.hpp"],[("array guards and checks around each engine call","sm_matlab/src/Engine.cpp")],[("_engine","handle of the running Matlab","sm_matlab/include/sm/matlab/Engine.hpp")],["returned values and exceptions","calls of the engine interface"])
p("P31","Transformations and quaternions form a group acting consistently on points",
  "For all rotations and translations, composition, inverse and identity of Transformation obey the group laws, agree with their 4x4 matrices, and act on points and homogeneous points as those matrices do, to numerical precision.",
  ["inputs"],"all rotations and translations","Tests sample random transforms.",[K+"Transformation.cpp",K+"quaternion_algebra.cpp",K+"transformations.cpp"],[("quaternion algebra",K+"quaternion_algebra.cpp")])
p("P32","Every rotation parameterisation round-trips and its Jacobians are derivatives",
  "For every RotationalKinematics implementation, parameters to rotation matrix and back is the identity away from singularities, and the S matrices and angular velocities are the derivatives they claim to be.",
  ["inputs"],"all parameter vectors away from singularities","Tests sample a few thousand random vectors.",[K+"EulerAnglesYawPitchRoll.cpp",K+"EulerAnglesZXY.cpp",K+"EulerAnglesZYX.cpp",K+"EulerRodriguez.cpp",K+"RotationVector.cpp"],[("closed forms",K+"RotationVector.cpp")])
p("P33","Uncertainty propagation through transformations is first-order consistent",
  "Covariances of composed, inverted and applied uncertain transformations and points equal the first-order propagation through the corresponding Jacobians and stay symmetric positive semidefinite.",
  ["inputs"],"all means and covariances","Tests sample random values.",[K+"UncertainTransformation.cpp",K+"UncertainHomogeneousPoint.cpp"],[("Jacobian products",K+"UncertainTransformation.cpp")])
p("P34","Conversions between seconds and nanoseconds are exact or rounded, monotone",
  "Conversions between NsecTime, chrono time points and double seconds are mutually inverse to double precision and order preserving.",
  ["inputs"],"all representable times","The test samples three values.",["sm_timing/src/NsecTimeUtilities.cpp"],[("arithmetic","sm_timing/src/NsecTimeUtilities.cpp")])
p("P35","Ids: ordering, equality, increments and hashing are consistent",
  "The comparison operators of sm::Id form a total order consistent with equality and hashing, and its increments count.",
  ["inputs"],"all 64-bit values","The test samples a few values.",["sm_common/include/sm/Id.hpp","sm_common/include/sm/hash_id.hpp"],[("value comparison","sm_common/include/sm/hash_id.hpp")])
p("P36","Assertion macros throw exactly on violation, with value and location",
  "Each SM_ASSERT_* macro throws its exception type exactly if its condition is violated, evaluates its arguments once and reports values and source position; the DBG forms do so exactly in debug builds.",
  ["inputs","configurations"],"all operand values and build modes","Tests sample each macro once.",["sm_common/include/sm/assert_macros.hpp"],[("macros","sm_common/include/sm/assert_macros.hpp")])
p("P37","Property-tree command strings parse to the tree they denote",
  "loadString and loadStrings accept exactly the documented grammar of assignments, paths and braces and build the tree it denotes, rejecting unbalanced input.",
  ["inputs"],"all strings","Tests sample a handful of strings.",["sm_property_tree/src/BoostPropertyTreeImplementation.cpp"],[("rewrite to INFO syntax","sm_property_tree/src/BoostPropertyTreeImplementation.cpp")])
p("P38","Numerical helpers meet their contracts (matrix square root, log2, comparisons)",
  "Matrix square roots square back to the input, integer log2 and rounding are exact, and the epsilon comparisons are symmetric and consistent with their thresholds.",
  ["inputs"],"all inputs in range","Tests sample values.",["sm_eigen/include/sm/eigen/matrix_sqrt.hpp","sm_common/include/sm/maths.hpp","sm_common/include/sm/numerical_comparisons.hpp"],[("closed forms","sm_eigen/include/sm/eigen/matrix_sqrt.hpp")])
p("P39","Comparing objects finds every difference their storage made to them",
  "An object restored from storage compares equal to the original with isBinaryEqual, SM_CHECKSAME and SM_CHECKMEMBERSSAME, in either order, by value, pointer or shared pointer and in chained expressions, exactly if each of its members equals the original's, wherever a stored bit was flipped, a word lost, a write torn or missed; differences are reported in verbose mode and nothing is written in silent mode.",
  ["inputs","fault_sequences"],"all objects of the comparable types, all damage to their stored numbers",
  "Tests compare a few random objects, of which always all members differ.",
  ["sm_common/include/sm/serialization_macros.hpp","sm_kinematics/src/Transformation.cpp","sm_kinematics/include/sm/kinematics/implementation/UncertainVector.hpp"],[("comparison macros","sm_common/include/sm/serialization_macros.hpp"),("isBinaryEqual of each class","sm_kinematics/src/Transformation.cpp")],(),["results of comparisons","console"])
p("P40","Python bindings convert values as they are and forward to the C++ behaviour",
  "The Python bindings (numpy_eigen, sm_python) convert arrays, matrices and objects without loss and forward to the C++ behaviour, raising Python exceptions for C++ ones.",
  ["inputs","programs"],"all calls through the bindings","The bindings are not built or tested here.",["numpy_eigen/README.md","sm_python/src/module.cpp"],[("converters","numpy_eigen/include/numpy_eigen/NumpyEigenConverter.hpp")])
p("P41","Stored images and key points are restored as they were, or an error is reported",
  "A cv::Mat of any size, type and layout (whole, part, row or column of another, over foreign memory), alone or among other members with key points and points, that was saved without an error is restored by a load of the same kind with the same size, type and pixels; a failed or unsupported save and a missing, truncated or unreadable file throw. Loading ends, changes no pixel outside of its target and touches no memory it does not own; isBinaryEqual holds exactly for images of equal size, type and pixels.",
  ["inputs","fault_sequences","crash_points"],"all images, layouts and targets, all placements of faults and truncation points",
  "The package is not built for lack of OpenCV and has no tests.",
  ["sm_opencv/include/sm/opencv/serialization.hpp","sm_boost/include/sm/boost/serialization.hpp"],[("save and load of the pixel block","sm_opencv/include/sm/opencv/serialization.hpp")],(),["save and load return","pixels","bytes of the file"])
for x in P:
    for f in x["anchors"]["files"]:
        if not os.path.exists("/repo/"+f): print("missing",x["id"],f)
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
