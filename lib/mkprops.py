#!/usr/bin/env python3
"""Regenerates properties.jsonl (one source of truth for ids, statements, anchors)."""
import json, os
I='cpp_utils/include/cpp_utils/'; S='cpp_utils/src/cpp/'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":x.strip(),"meaning":"state the property talks about"} for x in state.split(",")]
    if observe: a["observe_at"]=[observe]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("W01","A wait returns the reason that was true when it stopped waiting",
 "Every wait on a WaitHandler (Boolean, Int and generic predicate waits) returns 'disabled' exactly when the handler was disabled at the instant the wait was decided, otherwise 'condition_met' exactly when the current value satisfied the predicate at that instant, and 'timeout' only if a non-zero timeout elapsed while the handler was enabled and the predicate did not hold. 'disabled' has priority over the other two, a timeout of 0 never times out, and a wait on a disabled handler returns 'disabled' at once without waiting.",
 ["schedules","inputs"],"every interleaving of waits (with and without timeout) with open/close/++/--/set_value/enable/disable by other threads, and every value",
 "The result depends on who gets the mutex first between the wake-up, the expiry of the timer, the change of the value and the disable; the tests sleep and sample one such order.",
 [I+"wait/WaitHandler.hpp",I+"wait/impl/WaitHandler.ipp",I+"wait/BooleanWaitHandler.hpp",I+"wait/IntWaitHandler.hpp",S+"wait/BooleanWaitHandler.cpp",S+"wait/IntWaitHandler.cpp"],
 [("blocking_wait_ decides the reason under the mutex",I+"wait/impl/WaitHandler.ipp"),("predicates of the specialised waits",S+"wait/IntWaitHandler.cpp")],
 "value_, enabled_, threads_waiting_","value returned by wait*()")
p("W02","No wake-up is lost: a wait whose condition becomes and stays true returns",
 "A thread blocked in a Boolean, Int or generic WaitHandler wait returns once its predicate holds and stays true through a notifying change (open, ++, --, set_value with notify), once the handler is disabled, or once its timeout elapses; it is never left blocked, whatever the interleaving and however many threads wait. All the threads whose predicate holds are released, not only one of them.",
 ["schedules"],"every interleaving of up to several waiters with notifying changes, disable and expiry",
 "A missed notification shows only when the change falls in the window between checking the predicate and sleeping, or when several threads wait on different predicates.",
 [I+"wait/impl/WaitHandler.ipp",S+"wait/BooleanWaitHandler.cpp",S+"wait/IntWaitHandler.cpp"],
 [("state changed with wait_condition_variable_mutex_ taken, then notify_all",I+"wait/impl/WaitHandler.ipp")],
 "value_, enabled_","threads that remain blocked")
p("W03","blocking_disable, stop_and_continue and destruction release every waiter",
 "When blocking_disable() or the destructor of a WaitHandler (Boolean, Int, Counter, DBQueue) returns, the handler is disabled and no thread that was waiting in it is still waiting or still touches it; these calls always return, whatever kind of wait the threads are in (wait_threshold_reached and wait_all_consumed included; a thread that was granted its unit just before finishes its own call). stop_and_continue() makes every thread that was waiting return 'disabled' and leaves the handler enabled, and threads that arrive later wait normally.",
 ["schedules"],"every interleaving of waiting threads with blocking_disable, stop_and_continue, enable, disable and destruction",
 "The tests that destroy or stop a handler do it after a sleep with the threads already asleep; the races are at arrival and at departure.",
 [I+"wait/impl/WaitHandler.ipp",S+"wait/CounterWaitHandler.cpp",I+"wait/ConsumerWaitHandler.hpp"],
 [("threads_waiting_ accounting and notify loop",I+"wait/impl/WaitHandler.ipp"),("threshold_reached_cv_",S+"wait/CounterWaitHandler.cpp")],
 "threads_waiting_, enabled_","return of blocking_disable/stop_and_continue/destructor; results of the waits")
p("W04","A counter handler grants exactly one decrement per unit above the threshold",
 "In a CounterWaitHandler each wait_and_decrement that returns 'condition_met' takes exactly one unit while the value is above the threshold (so the value never drops below max(initial, threshold) by waiting, and value = initial + increments - grants at all times); a wait that returns 'disabled' or 'timeout' takes nothing. As long as the value is above the threshold and the handler is enabled no thread stays blocked in wait_and_decrement, and no thread stays blocked in wait_threshold_reached while the value equals the threshold.",
 ["schedules","histories"],"every interleaving of increments, wait_and_decrement, wait_threshold_reached, timeouts, enable and disable, for values below, at and above the threshold",
 "The handler notifies one thread at a time; a unit or a wake-up is lost or granted twice only in particular orders of several waiters, increments and timeouts.",
 [I+"wait/CounterWaitHandler.hpp",S+"wait/CounterWaitHandler.cpp"],
 [("wait_and_decrement decrements with the lock returned by blocking_wait_",S+"wait/CounterWaitHandler.cpp"),("notify_one chain in ++ and decrease_1_nts_",S+"wait/CounterWaitHandler.cpp")],
 "value_, threshold_","results of the waits, get_value()")
p("W05","The consumer queue delivers every produced value once, in order",
 "In a DBQueueWaitHandler every produced value is returned by exactly one consume, values are handed out in FIFO order of production (values of one producer never overtake each other), and a consume blocks only while nothing is available and the handler is enabled; consume throws DisabledException when the handler is disabled and TimeoutException when its timeout elapses, and neither loses a value. elements_ready_to_consume() equals produced minus consumed when no call is in progress, wait_all_consumed() returns 'condition_met' only when it is 0, and values left in the queue survive disable/enable.",
 ["schedules","histories"],"every interleaving of producers and consumers with disable, enable, timeouts and wait_all_consumed",
 "Exactly-once and FIFO under concurrency depend on the order of counter, double buffer swap and pop among threads; the tests use one consumer or sleeps.",
 [I+"wait/ConsumerWaitHandler.hpp",I+"wait/impl/ConsumerWaitHandler.ipp",I+"wait/DBQueueWaitHandler.hpp",I+"wait/impl/DBQueueWaitHandler.ipp",I+"queue/DBQueue.hpp"],
 [("add_value_ before ++, wait_and_decrement before get_next_value_",I+"wait/impl/ConsumerWaitHandler.ipp"),("pop_queue_mutex_ around empty/swap/front/pop",I+"wait/impl/DBQueueWaitHandler.ipp")],
 "counter, front and back queues","values returned, exceptions")
p("Q01","DBQueue is a FIFO with a frozen foreground",
 "In a DBQueue pushes go to the background queue and are invisible to front/pop/empty/size until swap(); swap() discards what is left in the foreground and makes the whole background the new foreground in push order; pop removes the front, front_and_pop returns it and removes it, clear empties both queues, both_empty tells whether both are empty. With one consumer swapping only when the foreground is empty, any number of concurrent producers lose, duplicate or reorder nothing.",
 ["histories","schedules"],"every sequence of operations and every interleaving of producers with the consumer",
 "The existing suite has no test of DBQueue on its own and only one order of swap and push through the handler.",
 [I+"queue/DBQueue.hpp"],[("double buffer with background and foreground mutexes",I+"queue/DBQueue.hpp")],"mForegroundQueue, mBackgroundQueue","front, size, empty, both_empty")
p("T01","Every emitted task of the slot thread pool is executed exactly once",
 "For a SlotThreadPool that is enabled, each emit(id) of a registered slot leads to exactly one execution of the task registered under that id, by one of its threads, and no task runs without an emission; tasks emitted before enable() or left queued when it is disabled run after the next enable(). With one thread tasks run in emission order; with n threads up to n tasks run concurrently, so a task that waits for another does not block the pool while a thread is free.",
 ["schedules","histories"],"every interleaving of emitters, pool threads, enable and disable",
 "Loss or duplication needs a particular order of emit, consume, disable and enable across threads; the tests count totals after sleeps.",
 [I+"thread_pool/pool/SlotThreadPool.hpp",S+"thread_pool/pool/SlotThreadPool.cpp",I+"thread_pool/task/TaskId.hpp",S+"thread_pool/task/TaskId.cpp"],
 [("emit produces a task id, threads consume and run slots_[id]",S+"thread_pool/pool/SlotThreadPool.cpp")],"task_queue_, slots_, threads_","executions of the task callbacks")
p("T02","Slot thread pool life cycle: registration errors, enable, disable, destruction",
 "slot() on an id already registered and emit() on an id not registered throw ValueNotAllowedException and change nothing; after disable() returns (or the pool is destroyed) no task is running and none starts until enable(); enable() on an enabled pool and disable() on a disabled one do nothing, and enable after disable starts the threads again. wait_all_consumed() returns only once every task emitted before has been taken by a thread and never hangs when all have been taken, and new_unique_task_id never repeats an id.",
 ["histories","schedules"],"every sequence of life-cycle calls interleaved with emissions and running tasks",
 "The tests never disable and enable again nor destroy the pool while a task runs.",
 [I+"thread_pool/pool/SlotThreadPool.hpp",S+"thread_pool/pool/SlotThreadPool.cpp",S+"thread_pool/task/TaskId.cpp"],
 [("enable/disable under mutex, join of threads",S+"thread_pool/pool/SlotThreadPool.cpp"),("atomic current id",S+"thread_pool/task/TaskId.cpp")],"enabled_, slots_","exceptions, executions, joins")
p("E01","An event callback runs only while it is set and never after unset returns",
 "In every EventHandler the callback in force is called once per event that occurs while a callback is set, with that event's arguments, and never while none is set; once unset_callback() has returned to a thread other than the one running the callback, the callback is neither running nor called again. set_callback() over a set callback replaces it atomically: no event is delivered to both or to neither, and callbacks of one handler never run concurrently. A callback of a plain EventHandler may itself raise another event, or set, replace or unset the callback of its handler: the running callback goes on to its end unharmed.",
 ["schedules","histories"],"every interleaving of events with set, replace and unset from other threads",
 "Needs an event in flight at the very moment the callback is replaced or removed.",
 [I+"event/EventHandler.hpp",I+"event/impl/EventHandler.ipp"],[("internal_callback_mutex_ held during event_occurred_, set and unset",I+"event/impl/EventHandler.ipp")],"callback_, is_callback_set_","callback invocations")
p("E02","Event counts are exact and wait_for_event never misses an event",
 "event_count() equals the number of events whose callback has completed since the last reset, less the effective decrements (never below 0); events that occur while no callback is set are not counted. wait_for_event(n) returns true only if the count is at least n when it returns, returns false only if no callback is set (or the count was lowered after the wait ended), and no thread stays blocked in it when the count has reached n and stays there, or once unset_callback() has been called.",
 ["schedules","histories"],"every interleaving of events, waiters with different n, reset, decrement, set and unset",
 "A missed wake-up or a lost increment needs a precise race between the event and the waiter.",
 [I+"event/EventHandler.hpp",I+"event/impl/EventHandler.ipp"],[("number_of_events_registered_ changed under wait_mutex_, notify_all, awake loop of unset",I+"event/impl/EventHandler.ipp")],"number_of_events_registered_, threads_waiting_","event_count, wait_for_event")
p("E03","Periodic events occur once per period while set, and never after unset",
 "A PeriodicEventHandler with a callback set raises exactly one event per elapsed period (the first one a whole period after it was set; the time its callback takes is added) until it is unset, and none otherwise; a period of 0 is rejected with InitializationException. unset_callback() and destruction stop and join the internal thread at once (without waiting for the period to elapse), no event occurs after they return, and the handler can be set again.",
 ["schedules","histories"],"every interleaving of the period thread with set, unset, replacement and destruction, in virtual time",
 "Real-time tests can only sample with tolerances; the races at expiry against unset are never hit.",
 [I+"event/PeriodicEventHandler.hpp",S+"event/PeriodicEventHandler.cpp"],[("period thread with wait handler as stoppable sleep",S+"event/PeriodicEventHandler.cpp")],"period_time_, timer_active_","callback invocations against virtual time")
p("E04","A multiple event handler relays every event of its handlers",
 "While a callback is set on a MultipleEventHandler, every event of any of its internal handlers (registered before or after the callback was set) calls it exactly once and counts once; while none is set, the events of its handlers are not delivered nor counted. Registering a handler while others raise events, or setting, replacing and unsetting the callback from another thread, loses and duplicates none. Destroying it first stops the handlers it owns, and nothing is called afterwards.",
 ["schedules","histories"],"every sequence and interleaving of registering, setting, unsetting and events of several handlers",
 "No existing test covers it.",
 [I+"event/MultipleEventHandler.hpp",S+"event/MultipleEventHandler.cpp"],[("register_event_handler sets a callback in every handler that calls event_occurred_ of this one",S+"event/MultipleEventHandler.cpp")],"handlers_registered_","callback invocations")
p("E05","Every signal received reaches every registered signal handler",
 "A signal received while SignalEventHandlers for it have a callback set triggers each of their callbacks once per signal received within a second, even when signals arrive in bursts or while another one is being processed; handlers without callback and handlers unset before the signal are not called. Unregistering an unknown callback id throws InconsistencyException, ids are never reused, and unsetting or destroying the last handler stops delivery without blocking.",
 ["schedules","histories"],"every interleaving of signals, registration, unregistration and the dispatcher thread",
 "The tests raise signals one at a time and sleep between them.",
 [I+"event/SignalManager.hpp",I+"event/impl/SignalManager.ipp",I+"event/SignalEventHandler.hpp",I+"event/impl/SignalEventHandler.ipp"],
 [("signal_received_ counts and notifies; thread calls every active callback per signal",I+"event/impl/SignalManager.ipp")],"signals_received_, active_callbacks_","callback invocations")
p("E06","The terminal line editor delivers exactly the line that was edited",
 "For every sequence of key presses and every terminal width (unknown included), StdinEventHandler delivers on Enter one event with exactly the text a line editor with cursor, left/right, home/end, backspace, delete, insertion at the cursor and up/down (page up/page down) history navigation would contain, then starts an empty line; Ctrl+C delivers an empty line; Insert and unknown ESC [ x keys do nothing. It reads as many lines as it was given in construction plus one per read_one_more_line(), delivers none that was not awaited and none after unset_callback(); delivered lines are appended to the history unless empty or input is being ignored. The terminal is in raw mode exactly while the reading thread lives and gets its previous mode back. At the end of the input the unfinished line is dropped and the handler can still be unset.",
 ["inputs","histories"],"every sequence of keys over an alphabet of printable characters, editing and escape keys, with history",
 "The tests type a few plain lines; the editor is a state machine over arbitrary key sequences.",
 [I+"event/StdinEventHandler.hpp",S+"event/StdinEventHandler.cpp",I+"history/CommandHistoryHandler.hpp",S+"history/CommandHistoryHandler.cpp"],
 [("stdin_listener_thread_routine_ and key handlers",S+"event/StdinEventHandler.cpp")],"line buffer, cursor, history, activation_times_","callback arguments")
p("E07","Log handlers see every entry once and the log checker judges the exact count",
 "A LogEventHandler with a callback set calls it exactly once, in order, for each log entry consumed from the log queue while set, and a LogSevereEventHandler only for those at least as severe as its threshold (Error over Warning over Info); after unset or destruction it gets none. LogChecker::check_valid() is true exactly when the number of severe-enough entries is at least the expected number and at most max(expected, maximum).",
 ["histories","schedules"],"every sequence of entries of all kinds and every interleaving of the log thread with set, unset and destruction",
 "The tests log a few entries and check counters once.",
 [I+"event/LogEventHandler.hpp",S+"event/logging/LogEventHandler.cpp",I+"event/LogSevereEventHandler.hpp",S+"event/logging/LogSevereEventHandler.cpp",S+"event/logging/LogConsumerConnection.cpp",I+"testing/LogChecker.hpp",S+"testing/LogChecker.cpp"],
 [("LogConsumerConnection relays to the handler",S+"event/logging/LogConsumerConnection.hpp"),("threshold comparison",S+"event/logging/LogSevereEventHandler.cpp")],"entries_consumed_, threshold_","callback invocations, check_valid")
p("E08","A file watcher reports the modifications of its file only while set",
 "While a FileWatcherHandler has a callback set, a modification of the watched file raises an event carrying the name of that file and one modification reported by the file system raises at most one event; other changes reported for the file (renames, removals, creations) raise none. No event is raised before the callback is set nor after unset_callback() or destruction has returned, and a path that cannot be watched reports nothing.",
 ["histories","schedules"],"every sequence of set, unset and file system notifications, and their interleavings",
 "No existing test covers it: it depends on the notifications of the file system.",
 [I+"event/FileWatcherHandler.hpp",S+"event/FileWatcherHandler.cpp"],[("filter of filewatch events, start/stop of the watcher",S+"event/FileWatcherHandler.cpp")],"file_watch_handler_","callback invocations")
p("U01","Command history navigation follows the recorded commands",
 "CommandHistoryHandler stores the non-empty commands in the order they were added (an empty command is ignored); get_prev_command moves one step towards the oldest and stays there, get_next_command moves one step towards the newest and stays after it, each returning the command at the new position (the empty command after the newest, and when the oldest was already reached), and add_command appends and puts the position after the newest. Navigation never reads outside the stored commands and never alters them.",
 ["histories"],"every sequence of add, previous and next",
 "No existing test navigates the history beyond one line.",
 [I+"history/CommandHistoryHandler.hpp",S+"history/CommandHistoryHandler.cpp"],[("current_index_ movements",S+"history/CommandHistoryHandler.cpp")],"command_list_, current_index_","returned commands")
p("U02","A command line is parsed into its command and arguments",
 "CommandReader::read_next_command returns, for the lines in the order they were entered, true and the command whose keyword is the first argument of the line when there is one, and false otherwise; arguments are the line split at single spaces, where the pieces from one that starts with a double quote to the one that ends with a double quote are rejoined into one argument without the quotes (a lone double quote opens one, and a quote that is never closed takes the rest of the line). Each line is delivered by exactly one call, and calls wait until a line is available.",
 ["inputs","histories"],"every line over spaces, quotes and words, and every set of commands",
 "The tests enter a handful of well-formed lines.",
 [I+"user_interface/CommandReader.hpp",I+"user_interface/impl/CommandReader.ipp"],[("split and quote joining",I+"user_interface/impl/CommandReader.ipp")],"commands_read_","Command.command, Command.arguments")
p("M01","Owned data outlives every guard and is destroyed exactly once by its owner",
 "Data held by an OwnerPtr is destroyed exactly once, by its deleter, when the owner is reset, reassigned or destroyed, and never while a GuardedPtr to it is alive: the owner waits until the guards are released, whatever guards are moved, assigned over or destroyed. LesseePtr::lock() gives a valid guard to the very data exactly while the owner still holds it; after that lock() is empty and lock_with_exception(), * and -> through an empty pointer throw ValueAccessException instead of touching freed memory.",
 ["schedules","histories"],"every interleaving of locks, uses, guard moves/assignments and releases with owner reset, move and destruction",
 "A use-after-free needs the owner to release between the lessee's check and its use; tests run single-threaded sequences.",
 [I+"memory/owner_ptr.hpp",I+"memory/impl/OwnerPtr.hpp",I+"memory/impl/OwnerPtr.ipp",I+"memory/impl/LesseePtr.hpp",I+"memory/impl/LesseePtr.ipp",I+"memory/impl/GuardedPtr.hpp",I+"memory/impl/GuardedPtr.ipp",I+"memory/impl/InternalPtrData.hpp",I+"memory/impl/InternalPtrData.ipp"],
 [("shared_timed_mutex: guards lock shared, release locks exclusive",I+"memory/impl/InternalPtrData.ipp")],"data_reference_, deleter_, shared_mutex_","deleter calls, guard validity, exceptions")
p("M02","A Heritable shares one object and keeps its dynamic type",
 "Every Heritable copied, moved, assigned or converted (to the base class or back) from another one refers to the very same object, with the dynamic type it was created with, so changes made through one are seen through all; the object is destroyed exactly once, as the type it was created with, when the last Heritable that refers to it is destroyed or assigned another. can_cast<U>() is true exactly when the held object is a U (or derives from it), and only then dyn_cast<U>() gives it (std::bad_cast otherwise); *, ->, get_reference, ==, < and << work on the held objects, not on the pointers.",
 ["histories","inputs"],"every sequence of construction, copy, move, assignment, conversion, modification and destruction over a small class hierarchy",
 "The tests check a few conversions and never what is destroyed when, nor classes at an offset.",
 [I+"memory/Heritable.hpp",I+"memory/impl/Heritable.ipp"],[("shared pointer to the base, static casts between them, dynamic_cast",I+"memory/impl/Heritable.ipp")],
 "data_ptr_","values read, casts, destructor calls")
p("D01","The safe database is a linearizable map and iterators freeze it",
 "Concurrent add, modify, add_or_modify, erase, is, find, at and size on a SafeDatabase behave as if each happened at one instant on a plain map: add and modify return whether they took effect (add only when absent, modify only when present), add_or_modify always ends with the value stored, erase tells whether the key was there, and at() throws std::out_of_range for a missing key. While an iterator obtained from begin, end or find exists (copies and moves included) no write takes effect, reads still proceed, and once the last one is gone writers proceed.",
 ["schedules","histories"],"every interleaving of readers, writers and iterators of several threads",
 "The tests are sequential, or use iterators from a single thread.",
 [I+"collection/database/SafeDatabase.hpp",I+"collection/database/impl/SafeDatabase.ipp",I+"collection/database/IDatabase.hpp",I+"collection/database/IModificableDatabase.hpp"],
 [("shared_timed_mutex: unique for writers, shared held by iterators",I+"collection/database/impl/SafeDatabase.ipp")],"internal_db_, mutex_","results of every call")
p("P01","The unbounded pool never lends an element twice",
 "An element loaned from an UnboundedPool is not loaned again until it has been returned, every element handed out has been created once by the pool, reset when returned and, if it is free when the pool is destroyed, deleted once with the pool; loans always succeed, growing the pool by batch_size when it runs out (initial_size elements after initialize_vector_). Returning more elements than were loaned throws InconsistencyException, a batch_size of 0 throws InitializationException, and returning an element makes it available again. Pools made by create_pool are used and destroyed by the IPool interface.",
 ["histories"],"every sequence of loans and returns for every small configuration",
 "There is no existing test of the pools.",
 [I+"pool/UnboundedPool.hpp",I+"pool/impl/UnboundedPool.ipp",I+"pool/IPool.hpp",I+"pool/impl/IPool.ipp"],
 [("vector of free elements and reserved_ count",I+"pool/impl/UnboundedPool.ipp")],"elements_, reserved_","elements loaned, exceptions, construction and destruction counts")
p("Y01","A singleton is one object per type and index, whoever gets there first",
 "All calls of get_instance and get_shared_instance of a Singleton or SafeInitializableSingleton, from any thread, give the same object per type and index, whose constructor runs exactly once before any of them returns it and which lives while the process or a shared reference does. For SafeInitializableSingleton exactly the first initialize() takes effect and returns true, the later ones (or those after a get that created the default object) return false and change nothing, and a get that must not create gives nothing until then. InitializableSingleton gives nothing until initialized and then the object of the last initialize(), which always returns true; different types and indexes never share their object.",
 ["schedules","histories"],"every interleaving of first accesses and initializations from several threads",
 "First access happens once per process; tests see only one order.",
 [I+"types/Singleton.hpp",I+"types/impl/Singleton.ipp",I+"types/InitializableSingleton.hpp",I+"types/impl/InitializableSingleton.ipp",I+"types/SafeInitializableSingleton.hpp",I+"types/impl/SafeInitializableSingleton.ipp"],
 [("static local or shared_ptr under mutex",I+"types/impl/SafeInitializableSingleton.ipp")],"the instance","addresses, values and initialize results")
p("Y02","Fuzzy levels rule which value wins and when it may be read",
 "A Fuzzy value is valid from level 0 up and set from level 20 up, keeps the level and value last assigned, set_value/set_level/unset/assignment/copy change exactly what they name (assignment of a value gives the level set), and reading the value of an unset or invalid Fuzzy gives the documented result or exception. Two Fuzzy are equal when neither is set, or when both have the same level and value, a Fuzzy equals a value when it is valid and holds it, and the string output shows level and value. BaseLogConfiguration::set replaces verbosity or each filter exactly when the new level is at least the current one, kind by kind.",
 ["histories","inputs"],"every sequence of operations over all levels",
 "The tests sample a few levels.",
 [I+"types/Fuzzy.hpp",I+"types/impl/Fuzzy.ipp",I+"logging/BaseLogConfiguration.hpp",S+"logging/BaseLogConfiguration.cpp"],[("level comparison",I+"types/impl/Fuzzy.ipp"),("set by level",S+"logging/BaseLogConfiguration.cpp")],"value, fuzzy_level","get_*, is_*, ==, <<")
p("Y03","Builders and enumerations map names to values one to one",
 "For every enumeration made with ENUMERATION_BUILDER or with the enumeration generator script, to_string and from_string are inverse of each other on all its values and names, unknown names are rejected (the search returns false; from_string throws InitializationException in the macro and std::invalid_argument in the script), values are numbered in order and the count and lists match. A Builder or EnumBuilder gives the value whose aliases contain the string and, for every other string, throws ValueNotAllowedException or reports that it was not found. COUNT_ARGUMENTS and APPLY_MACRO_FOR_EACH count and visit their arguments in order; MAX and MIN give the larger and smaller of any two expressions. Registering aliases never changes the mapping of other strings.",
 ["inputs","programs"],"every enumeration of small size and every string over a small alphabet",
 "The tests check one or two enumerations.",
 [I+"macros/custom_enumeration.hpp",I+"macros/recursive_macros.hpp",I+"types/Builder.hpp",I+"types/impl/Builder.ipp",I+"enum/EnumBuilder.hpp","dev_utils/src/automatic_code_generator/cpp/enumeration_builder/enumeration_builder.py"],
 [("name arrays and search",I+"macros/custom_enumeration.hpp"),("values_ map",I+"types/impl/Builder.ipp")],"names and values","conversions")
p("Y04","A tree keeps the shape and the information it was given",
 "After any sequence of add_leaf and add_branch, a Tree node is a leaf exactly when it has no branches, its branches are the nodes added to it in order with their information, all_nodes() are exactly its descendants, and depth() is the number of edges of its longest downward path (0 for a leaf). Nodes keep their own information: modifying one changes no other.",
 ["histories"],"every sequence of additions building trees of small size",
 "There is no existing test of Tree.",
 [I+"types/Tree.hpp",I+"types/impl/Tree.ipp"],[("branches list and recursive depth",I+"types/impl/Tree.ipp")],"branches, info","depth, leaf, branches")
p("C01","A pausable timer counts exactly the time it was playing",
 "PausableTimer::elapsed equals the total time spent playing since the last reset: pause stops it, play resumes it, repeating play or pause changes nothing, reset sets it to 0 and leaves it playing or paused as it was, and it never decreases except by reset; elapsed_ms is the same time in whole milliseconds. Timer (C++ and Python) reports the time since construction or the last reset.",
 ["histories"],"every sequence of play, pause, reset, elapsed and passing of time",
 "The tests use short real sleeps with tolerances.",
 [I+"time/PausableTimer.hpp",S+"time/PausableTimer.cpp",I+"time/Timer.hpp",S+"time/Timer.cpp","py_utils/py_utils/time/Timer.py"],[("accumulated and current interval",S+"time/PausableTimer.cpp")],"accumulated time, playing","elapsed()")
p("C02","Time conversions are exact and inverse of each other",
 "date_to_timestamp gives the instant of the given UTC date and time, time_to_timestamp the one of the given time of the current UTC day, timestamp_to_string prints an instant with the given format in local or UTC time, and string_to_timestamp recovers, for every instant with a whole number of seconds, the instant that was printed (hours, minutes and seconds that the format leaves out are zero, whatever was read before); text that does not match the format throws PreconditionNotMet, and duration_to_ms, the_end_of_time, the_beginning_of_time, now and sleep_for keep their documented values and order (instants between the years 1678 and 2261, which the clock can hold).",
 ["inputs"],"every instant over a wide range of dates (leap years, month ends, seconds before and after the epoch), formats and zones (UTC, fixed offsets, daylight saving rules)",
 "The tests convert a few fixed dates.",
 [I+"time/time_utils.hpp",S+"time/time_utils.cpp"],[("timegm/mktime/strftime/get_time",S+"time/time_utils.cpp")],None,"returned instants and strings")
p("N01","The fast arithmetic agrees with plain arithmetic",
 "fast_module, fast_division, fast_exponential, is_power_of_2, is_even and arithmetic_progression_sum return exactly what %, /, repeated product, the definition and the sum of the progression give, for every argument whose exact result is representable; a zero divisor throws or is rejected as documented.",
 ["inputs"],"every pair of small arguments and arguments around powers of two up to the full width",
 "The tests try tens of pairs.",
 [I+"math/math_extension.hpp",S+"math/math_extension.cpp"],[("bit tricks on powers of two",S+"math/math_extension.cpp")],None,"returned values")
p("N02","Random managers are reproducible and their streams independent",
 "For RandomManager and TSafeRandomManager the i-th sequence number after construction or after the last seed(s) depends only on that seed and on i, and the seeded number of a seed depends only on that seed, whatever was asked to the other streams (pure, sequence, seeded) in between; rand() is the sequence, rand<true>() the pure stream and rand(seed) the seeded one, and equal seeds give equal sequences in both managers. The thread-safe manager hands out the numbers of the sequence to concurrent callers without loss or repetition, and each seeded number is right whatever other threads ask.",
 ["histories","schedules"],"every interleaving of calls to the three streams by several threads, and every sequence of calls",
 "The tests compare a few calls in one order from one thread.",
 [I+"math/random/RandomManager.hpp",S+"math/random/RandomManager.cpp",I+"math/random/TSafeRandomManager.hpp",S+"math/random/TSafeRandomManager.cpp",I+"types/Atomicable.hpp"],[("three engines, Atomicable locks in the safe one",S+"math/random/TSafeRandomManager.cpp")],"engines' states","numbers returned")
p("S01","String editing helpers follow their definitions on every input",
 "split_string (by a string, each of several strings, and by a set of delimiters) yields pieces that contain no delimiter and rejoin to the source; replace_first and replace_all replace the first / all occurrences found from left to right (not looking into what was replaced) and return whether / how many; strip_str does so for each undesired substring; to_lowercase and to_uppercase change letters only; match_pattern is glob matching (* and ? and [..], case sensitive, / and \\ as any other character); container_to_stream lists the elements between braces and separators; sets of pointers are searched and compared by the value pointed. All of them end for every argument.",
 ["inputs"],"every string over a small alphabet up to a bound, every delimiter and pattern",
 "The tests sample a few strings; overlap, adjacency and empty pieces are the difficulty.",
 [I+"utils.hpp",S+"utils.cpp"],[("find/replace loops",S+"utils.cpp")],None,"returned strings and counts")
p("S02","Encodings are inverse of each other and exact",
 "base64_encode gives the standard encoding with padding and base64_decode recovers the original bytes of every string; to_bytes multiplies number and magnitude exactly (decimal KB/MB/... and binary KiB/MiB/..., in any case; what is left of a byte is dropped), throws std::invalid_argument on malformed text and on quantities of 2^64 bytes or more; from_bytes prints the closest magnitude with two decimals unless they are negligible; number_trailing_zeros_format pads with zeros after the sign up to the width asked, never loses digits, and throws PreconditionNotMet when the number does not fit and more characters are not allowed.",
 ["inputs"],"every byte string up to a bound, every number with every magnitude, every width",
 "The tests encode fixed examples.",
 [I+"utils.hpp",S+"utils.cpp"],[("base64 bit accumulators, magnitude table, formatting",S+"utils.cpp")],None,"returned strings and numbers")
p("S03","ROS 2 name mangling and demangling are inverse of each other",
 "For every topic, service, action and type name the demangle functions return exactly the name that was mangled, return the input unchanged (or empty where documented) when it does not have the mangled form, and never misclassify one kind as another; mangling a valid name yields a name that demangles to it.",
 ["inputs"],"every name over the prefixes, separators and suffixes of the scheme up to a bound",
 "The tests use about a dozen names; prefixes and suffixes that nearly match are the difficulty.",
 [I+"ros2_mangling.hpp",S+"ros2_mangling.cpp"],[("prefix and suffix handling",S+"ros2_mangling.cpp")],None,"returned names")
p("L01","A log consumer prints exactly the entries its configuration accepts",
 "BaseLogConsumer accepts an entry exactly when its kind is within the verbosity and its category or its message matches (is searched by) the filter of that kind, with the configuration the consumer was created with; StdLogConsumer prints each accepted entry once, whole, Info to standard output and Warning and Error to standard error, and prints nothing for the others.",
 ["inputs","configurations"],"every combination of verbosity, per-kind filter, entry kind, category and message",
 "There is no existing test of the consumers in the suite.",
 [I+"logging/BaseLogConsumer.hpp",S+"logging/BaseLogConsumer.cpp",I+"logging/StdLogConsumer.hpp",S+"logging/StdLogConsumer.cpp"],[("accept_entry_ and get_stream_",S+"logging/BaseLogConsumer.cpp")],"filter_, verbosity_","streams")
p("R01","Return codes and QoS names translate faithfully",
 "ReturnCode compares, orders, negates and prints according to its value alone, converts every Fast DDS code to the code of the same meaning (the generic error to RETCODE_ERROR, a value with no Fast DDS meaning but one of its own to that one, anything else to RETCODE_UNKNOWN); every QoS policy id prints its own name, distinct from the others, unknown ids print Invalid, and a policy mask prints the names of exactly its set policies in id order separated by a comma.",
 ["inputs"],"every return code and pair of codes, every policy id and sets of ids",
 "The tests check a sample and need Fast DDS.",
 [I+"ReturnCode.hpp",S+"ReturnCode.cpp",I+"qos/qos_utils.hpp",S+"qos/qos_utils.cpp"],[("switch tables",S+"qos/qos_utils.cpp")],None,"operators and strings")
p("F01","Files are read whole, line by line",
 "file_to_strings returns every line of the file in order without its line feed (the last one also when it does not end in a line feed), without any carriage return if strip_chars, and without the lines that are then empty if strip_empty_lines; file_to_string is the concatenation of those lines each followed by a line feed; a file that cannot be opened throws PreconditionNotMet. is_file_accessible tells whether the file exists and every permission asked is granted. No content of any length or with any byte is lost, joined or reordered.",
 ["inputs"],"every content over letters, line feeds, carriage returns and other bytes, every option and every combination of permissions",
 "The tests read two fixed files and ask for a few permissions.",
 [I+"file/file_utils.hpp",S+"file/file_utils.cpp",I+"utils.hpp",S+"utils.cpp"],
 [("getline loop with strip_str",S+"file/file_utils.cpp"),("access()",S+"utils.cpp")],None,"returned strings, exceptions")
p("X01","Messages hold exactly what was streamed and exceptions keep message and class",
 "A Formatter holds the concatenation, in order, of everything streamed into it, however it is read (to_string, conversion, operator <<) and as often as it is read; every exception of the library returns by what() the message it was built with from text, string or Formatter, keeps it when copied and assigned, and can be caught as itself, as Exception and as std::exception and not as any of its siblings. can_cast tells whether the dynamic type of an object is the one asked, and cast_to_void_ptr keeps the address.",
 ["inputs","histories"],"every sequence of streamed values and every exception class with every way to build it",
 "The tests stream a few fixed values into one exception class.",
 [I+"Formatter.hpp",S+"Formatter.cpp",I+"impl/Formatter.ipp",I+"exception/Exception.hpp",S+"exception/Exception.cpp",I+"types/cast.hpp",I+"types/impl/cast.ipp"],
 [("stringstream",S+"Formatter.cpp"),("message_",S+"exception/Exception.cpp")],None,"strings, classes caught")

p("K01","Python wait handlers obey the same contract as the C++ ones",
 "In py_utils every wait returns AwakeReason.disabled, condition_met or timeout according to the state at the instant it is decided (disabled first, then condition met), open/increase/decrease/set_value/disable release every thread whose condition holds, and no interleaving leaves a thread blocked whose condition holds or whose handler is disabled. blocking_disable() disables the handler and returns once no thread is left waiting (it does return unless somebody enables the handler again), and close never releases a thread. With a timeout, a wait ends by then.",
 ["schedules"],"every interleaving of waiters, value changes, timeouts, enable, disable and blocking_disable",
 "The tests have one waiter and sleep.",
 ["py_utils/py_utils/wait/WaitHandler.py","py_utils/py_utils/wait/BooleanWaitHandler.py","py_utils/py_utils/wait/IntWaitHandler.py"],[("Condition.wait_for under the lock","py_utils/py_utils/wait/WaitHandler.py")],"_value, _enabled, _n_waiting_threads","returned AwakeReason")
p("K02","Python timer, logger and debug helpers do what they say",
 "In py_utils a Timer reports the time since it was made or last reset. A CustomLogger prints a message exactly once, in the format that was set last, if and only if its level is at least the one that was set last (set_log_level, setLevel, activate_debug) and above logging.disable, whatever was logged before, and loggers do not affect one another; handlers that the user adds stay. A function with debug_function_decorator returns, raises and receives exactly what the plain one does, with its start and its finish logged around it only when debug is on, and debug_object_introspection lists the callable attributes of the object.",
 ["histories"],"every sequence of level and format changes, messages and decorated calls",
 "The only test sleeps and reads a timer; the logger has none.",
 ["py_utils/py_utils/time/Timer.py","py_utils/py_utils/logging/log_utils.py","py_utils/py_utils/debugging/debug_utils.py"],[("stream handler and its formatter","py_utils/py_utils/logging/log_utils.py")],"level, format, handlers","lines printed, values returned")
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
