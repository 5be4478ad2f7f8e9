#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so that the text is editable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mechanism],
                          "observe_at": list(observe), "hook_needed": hook}})

# ---------------------------------------------------------------- strings
prop("S01", "String concatenation returns exactly its parts in order",
     "Concatenating any list of pieces (string views, std::strings, C strings, single characters, booleans) yields a string whose length is the sum of the piece lengths and whose bytes are the pieces' bytes, unchanged and in order. This includes empty pieces, empty lists and embedded NUL bytes. No byte outside the result buffer is written and no uninitialised byte is returned.",
     ["inputs"], "every piece count, every piece length and every byte content within the bound",
     "The tests concatenate a handful of fixed literals; off-by-one, dropped-empty-piece, NUL and aliasing errors show only for particular length/content combinations.",
     ["rst/strings/str_cat.cc", "rst/strings/str_cat.h", "rst/strings/arg.h", "rst/stl/resize_uninitialized.h"],
     [("size is summed first, then every view is copied", "rst/strings/str_cat.cc StrCat")],
     observe=["return value of StrCat"])
prop("S02", "Format substitutes placeholders exactly and traps on malformed use",
     "For a well-formed format string the result is the format text with the i-th placeholder '{}' replaced by exactly the i-th argument's text and every '{{' / '}}' replaced by one literal brace, byte for byte. In a debug build every malformed use (single braces, too few or too many arguments) aborts instead of returning. Braces inside argument text are never interpreted.",
     ["inputs"], "every format string and every argument text/count up to the bound",
     "Tests run about forty literal formats; the format grammar has exponentially many strings and the buffer arithmetic depends on both counts.",
     ["rst/strings/format.cc", "rst/strings/format.h", "rst/strings/arg.h"],
     [("scan with brace state, arg index counter and size pre-computation", "rst/strings/format.cc FormatAndReturnString")],
     observe=["return value of Format", "abort in debug builds"])
prop("S03", "Numbers, enums, bools and chars are rendered canonically",
     "Every value of every supported integer type is rendered as its shortest decimal representation ('-' only for negatives, no leading zeros), so that parsing the text gives the value back, including the minimum and maximum of each type. Enumerations render as their underlying integer (one over plain char as that byte), booleans as true/false, a char as that one byte, and floating-point values as printf's %g of the value in its own type.",
     ["inputs"], "all 2^8..2^64 values of each supported type",
     "Tests check min/max/zero only; conversions through a wrong width or signedness or a too small buffer show on other values.",
     ["rst/strings/arg.h"],
     [("std::to_chars / %g into a fixed 20 byte buffer", "rst/strings/arg.h Arg")],
     observe=["StrCat and Format output"])
# ---------------------------------------------------------------- value
prop("V01", "Value clones are equal, deep and independent; moves transfer content",
     "Cloning any JSON value yields a value of the same type that compares equal to the original, and no later mutation or destruction of either is visible through the other. Move construction and move assignment (also onto a value of any other type) transfer exactly the content the source had. Nothing is leaked, double-freed or read after being freed.",
     ["inputs", "histories"], "every value tree up to the bound with arbitrary scalar and string content, and every mutation after the clone",
     "Tests use a few fixed trees; shallow sharing or type-dependent slips in the hand-written union show only for particular type pairs and shapes.",
     ["rst/value/value.cc", "rst/value/value.h", "rst/clone/clone.h"],
     [("hand-written tagged union with placement new and explicit destructors", "rst/value/value.cc")],
     state=[("type_", "active union member", "rst/value/value.h")],
     observe=["type(), Get*(), operator==, heap"])
prop("V02", "Number conversions are accepted exactly when they are exact",
     "A 64-bit integer can be stored exactly when its magnitude is at most 2^53-1, and then reads back as the same number; anything else aborts in debug builds, as do NaN and infinities. A stored number reports being an int (or a 64-bit integer) exactly when it is integral and in int range (or magnitude at most 2^53-1), and then the integer getters return that exact number. Every typed getter aborts in debug builds when the stored type does not match and otherwise returns the stored content.",
     ["inputs"], "all 2^64 doubles, all 2^64 integers, all type pairs",
     "Boundary behaviour of double/integer conversion depends on single bit patterns among 2^64.",
     ["rst/value/value.h", "rst/value/value.cc"],
     [("range checks before the casts", "rst/value/value.h IsInt64/IsInt and constructors")],
     observe=["IsInt, IsInt64, GetInt, GetInt64, GetDouble, aborts"])
prop("V03", "Value comparison operators form a consistent total order",
     "For any three values exactly one of a<b, a==b, b<a holds, both < and == are transitive, == is reflexive and symmetric, and !=, >, <=, >= agree with them. Values of different types are never equal and are ordered by type. Arrays and objects compare element-wise, and lexicographically for <.",
     ["inputs"], "all triples of scalars and bounded containers with arbitrary numeric, boolean and string content",
     "Algebraic laws over triples of doubles and strings cannot be sampled; a tolerance or an asymmetric branch breaks only special triples.",
     ["rst/value/value.cc", "rst/value/value.h"],
     [("switch on type with per-type comparison", "rst/value/value.cc operator== / operator<")],
     observe=["comparison operators"])
prop("V04", "Object key and dotted-path operations obey map laws",
     "After setting a key (or dotted path) a lookup of it finds exactly the value set, and lookups of every unrelated key or path give what they gave before. Here the value set is not part of the object it is set in. Setting a path creates missing intermediate objects and replaces non-object intermediates; lookups never modify the object; removing a key returns whether it was present and removes only it. Typed lookups return a result exactly when the stored value has (or, for int variants, is exactly representable as) the requested type, and dots have meaning only in the path forms.",
     ["inputs", "histories"], "every operation sequence up to the bound with arbitrary keys and paths, including empty components",
     "Tests use hand-picked paths; empty components, prefix-related paths and type clashes interact combinatorially.",
     ["rst/value/value.cc", "rst/value/value.h"],
     [("path split at '.', map lookup, insert_or_assign", "rst/value/value.cc SetPath/FindPath/SetKey/RemoveKey")],
     observe=["Find*, SetKey, SetPath, RemoveKey"])
prop("V05", "Values own their content through any history of assignments",
     "Through any sequence of constructions, cross-type move assignments (including from a value's own element, and self-assignment, which keeps the content), container edits and destructions, a value holds exactly the content last assigned, never reads or frees memory it no longer owns, and frees everything once. A value moved from can be reassigned and destroyed.",
     ["histories", "inputs"], "all bounded sequences of assignments over all type pairs, including sources nested inside the target",
     "The number of (target type, source type, aliasing) histories is far beyond the handful of move tests, and the damage (use after free) is invisible without memory checking.",
     ["rst/value/value.cc", "rst/value/value.h"],
     [("Cleanup + MoveConstruct for type changes, MoveAssign otherwise", "rst/value/value.cc operator=")],
     observe=["content after assignment, heap safety"])
# ---------------------------------------------------------------- preferences
prop("P01", "A preference reads as the last value set, or its default",
     "After any sequence of registrations, sets and gets, reading a registered preference returns the value most recently set for it, or its registered default if it was never set. Setting one preference never changes what another, differently named one reads as.",
     ["histories", "inputs"], "every bounded sequence of register/set/get operations over several dotted names, all types and arbitrary values",
     "Tests do one set and one get per type; cross-talk between names and stale defaults need multi-step histories.",
     ["rst/preferences/preferences.cc", "rst/preferences/preferences.h", "rst/preferences/memory_preferences_store.cc", "rst/value/value.cc"],
     [("default map plus nested object store addressed by dotted path", "rst/preferences")],
     state=[("path_to_default_value_map_", "registered defaults", "rst/preferences/preferences.h")],
     observe=["Preferences Get*/Set*/Register*"])
prop("P02", "Preference misuse is stopped, correct use never is",
     "In a debug build, reading or writing an unregistered preference, reading or writing it with a different JSON type than registered (int and double are both numbers), and registering a name twice each abort; none of them silently succeeds or changes stored state. Correctly typed use of registered preferences never aborts.",
     ["histories", "inputs"], "every pair of registered type and used accessor, for arbitrary names and values",
     "Death tests cover single literal cases per accessor, not every type pair after every state (default only, set).",
     ["rst/preferences/preferences.cc", "rst/preferences/preferences.h"],
     [("registration lookups and type checks in every accessor", "rst/preferences/preferences.cc")],
     observe=["abort, returned values"])
# ---------------------------------------------------------------- status
prop("T01", "An unexamined status cannot be dropped silently in debug builds",
     "In a debug build a status or status-or-value object must be examined before it is destroyed, overwritten by assignment, or (for a status-or-value) dereferenced, otherwise the program aborts; a moved-from object carries no obligation and the moved-to object takes it over. Once examined, no such operation aborts. Explicit ignoring counts as examining.",
     ["histories"], "every bounded sequence of create, move-construct, move-assign, examine, ignore, dereference and destroy over several objects",
     "Each test exercises one transition; the obligation is a small state machine over pairs of objects and all orders matter.",
     ["rst/status/status.h", "rst/status/status.cc", "rst/status/status_or.h"],
     [("was_checked_ flag set by err(), transferred by moves", "rst/status/status.h, rst/status/status_or.h")],
     state=[("was_checked_", "object was examined", "rst/status/status.h")],
     observe=["abort / no abort"])
prop("T02", "A status-or-value holds exactly what was put in, with balanced lifetimes",
     "After any sequence of constructions and move assignments between value and error states, an examined status-or-value reports an error exactly when its last source did, and yields exactly that source's value or error message. Every contained value that is constructed is destroyed exactly once, and the error object is freed exactly once. Dereferencing an error aborts in debug builds.",
     ["histories", "inputs"], "all bounded sequences over value/error states, including self-assignment, with arbitrary contents",
     "Construct/destroy imbalance in hand-written union code appears only on particular transitions (value to error, error to value, self move).",
     ["rst/status/status_or.h"],
     [("union of value and status with explicit construct/destroy", "rst/status/status_or.h")],
     observe=["err(), operator*, constructor/destructor counts, heap"])
prop("T03", "Errors keep their identity and message while propagating",
     "Propagating an error through the TRY macros or moves hands the caller the very same error object with unchanged message, and the enclosing function returns immediately exactly when there was an error; on success the produced value is delivered unchanged and execution continues. Downcasting an error succeeds exactly when its dynamic class is the requested class or derives from it, and returns the same object.",
     ["inputs", "histories"], "all call chains up to the bound in which each step may fail, all pairs of error classes in a small hierarchy",
     "Tests use one or two fixed chains; the macros must evaluate once and return on every failing position.",
     ["rst/status/status_macros.h", "rst/status/status.h", "rst/status/status.cc", "rst/rtti/rtti.h"],
     [("RST_TRY* macros", "rst/status/status_macros.h"), ("class id chain", "rst/rtti/rtti.h")],
     observe=["returned status, dyn_cast result"])
# ---------------------------------------------------------------- pointers
prop("N01", "A non-null pointer wrapper never holds null",
     "Constructing or assigning a non-null pointer wrapper from a null (raw, smart or nullable source) aborts in debug builds, and from a non-null pointer it keeps exactly that pointer through copies, moves, conversions and assignments. Dereference, member access and indexing reach exactly that object.",
     ["inputs", "histories"], "every pointer value (null, base, derived) and every conversion/assignment chain up to the bound",
     "Tests try single conversions; chains of conversions across raw, smart, const and base types are combinatorial.",
     ["rst/not_null/not_null.h"],
     [("check in constructors and assignment", "rst/not_null/not_null.h NotNull")],
     observe=["get(), operators, aborts"])
prop("N02", "A nullable pointer must be compared with null before it is used",
     "In a debug build, dereferencing, indexing or converting a nullable wrapper to non-null aborts unless it has been compared with null since it last received its value (copying or moving a wrapper of the same type carries that over; constructing or assigning from any other source starts unexamined); dereferencing null always aborts. After a comparison, access yields exactly the stored pointer. Comparison results, ordering and hashing agree with those of the raw pointers.",
     ["inputs", "histories"], "every bounded sequence of assign, compare, copy, move and access over null and non-null pointers",
     "The checked flag is state that must follow every copy, move and assignment; tests probe one transition each.",
     ["rst/not_null/not_null.h"],
     [("was_checked_ flag maintained by comparison operators and assignments", "rst/not_null/not_null.h Nullable")],
     observe=["aborts, get(), comparisons, std::hash"])
prop("W01", "A weak pointer is valid exactly while its object lives",
     "A weak pointer yields its object's exact address as long as the object is alive, and null from the moment the object has been destroyed, for every copy, move and conversion of the pointer and however many exist; dereferencing it then aborts in debug builds. No access touches the destroyed object's memory and the bookkeeping is freed when the last holder goes.",
     ["histories"], "every bounded interleaving of creating, copying, moving, converting, assigning and destroying objects and weak pointers",
     "Dangling results need a specific order of copies, moves and destruction; tests check a few linear orders.",
     ["rst/memory/weak_ptr.h"],
     [("shared validity flag invalidated in the factory/base destructor", "rst/memory/weak_ptr.h")],
     observe=["GetNullable(), get(), operators, heap"])
prop("W02", "A weakly bound callback runs exactly while its target lives",
     "A callback bound to a weak pointer and a member function invokes that member on that object with exactly the bound and call-time arguments, in order, while the object is alive, and does nothing once it has been destroyed. Copies of the callback behave the same and bound arguments are kept by value.",
     ["histories", "inputs"], "all bounded orders of bind, copy, call and destroy with arbitrary arguments",
     "Tests call once alive and once dead with fixed arguments.",
     ["rst/bind/bind.h", "rst/bind/bind_helpers.h", "rst/memory/weak_ptr.h"],
     [("validity check before the bound call", "rst/bind/bind_helpers.h")],
     observe=["calls received by the target"])
# ---------------------------------------------------------------- timer and task runners
prop("O01", "A one-shot timer fires exactly the latest armed task, once, or never",
     "Each start replaces any earlier one: only the most recently started task can run, at most once, no earlier than its delay, or immediately when fired by hand; replaced and cancelled (timer destroyed) tasks never run. The timer reports running exactly from a start until its task begins to run, also when the task itself restarts, fires or destroys the timer. Firing a timer that is not running aborts in debug builds.",
     ["histories", "inputs"], "every bounded sequence of start, fire, time advance, poll and destroy, including from inside the task, with arbitrary delays",
     "Re-entrancy and stale-callback histories are multi-step; tests run a few linear scripts.",
     ["rst/timer/one_shot_timer.cc", "rst/timer/one_shot_timer.h"],
     [("task id comparison and weak binding", "rst/timer/one_shot_timer.cc")],
     state=[("task_id_, is_running_", "which start is current and whether it is pending", "rst/timer/one_shot_timer.h")],
     observe=["task executions, IsRunning()"])
prop("K01", "A polled task runner runs each due task once, in due order, never early",
     "A poll runs exactly the tasks whose posting time plus delay is not later than the clock reading of that poll and that were posted before it, each exactly once over the runner's life, ordered by due time with ties in posting order; all others stay queued. Tasks posted while a poll is running are not lost. This holds for every non-negative delay and every clock reading below the largest; a poll is never started from inside a task.",
     ["histories", "inputs"], "every bounded sequence of posts and polls with arbitrary 64-bit delays and clock values, including posts from inside tasks",
     "Tests use a few fixed delays; heap ordering, ties and extreme delays need arbitrary combinations.",
     ["rst/task_runner/polling_task_runner.cc", "rst/task_runner/item.h", "rst/task_runner/task_runner.h"],
     [("binary heap on (due time, task id)", "rst/task_runner/polling_task_runner.cc, rst/task_runner/item.h")],
     observe=["execution log of tasks"])
prop("K02", "Concurrent posting to a polled runner loses and duplicates nothing",
     "When several threads post tasks while one thread polls, every task whose post returned runs exactly once in some poll after it is due, each thread's equally delayed tasks run in its posting order, and no two threads access the runner's state without synchronisation.",
     ["schedules"], "all interleavings of the posting threads and the polling thread within the bounds",
     "The existing test starts a few threads and observes one schedule per run.",
     ["rst/task_runner/polling_task_runner.cc"],
     [("mutex around the queue; tasks run outside it", "rst/task_runner/polling_task_runner.cc")],
     observe=["execution log, data-race monitor"])
prop("H01", "A thread pool never loses or duplicates an accepted task",
     "Every task posted to a live pool is eventually run exactly once even when its workers are concurrently becoming idle, timing out or being notified, for every thread limit and keep-alive time. The pool never gets stuck with queued work and no worker that will run it, and while a thread is free a task starts as soon as it is due: no wakeup is lost.",
     ["schedules"], "all interleavings of posters and workers, including keep-alive timeouts and late wakeups at any point, within the bounds",
     "Losing a task needs a timeout to coincide with a post; tests cannot place a wakeup at that instant.",
     ["rst/task_runner/thread_pool_task_runner.cc", "rst/task_runner/thread_pool_task_runner.h"],
     [("waiting-thread accounting under one mutex", "rst/task_runner/thread_pool_task_runner.cc DelayedTaskRunner")],
     state=[("queued_tasks_num_, running_threads_num_, thread_id_to_thread_map_, tasks_", "pool bookkeeping", "rst/task_runner/thread_pool_task_runner.h")],
     observe=["task executions; deadlock"])
prop("H02", "A thread pool respects its thread limit and shuts down cleanly",
     "At no time do more than the configured number of worker threads execute tasks, and destroying the pool always terminates: it waits for running tasks, and for nothing else, afterwards no thread runs a task or touches the pool's memory, and everything queued but unstarted is destroyed without running more than once. This holds whatever the workers are doing when destruction begins.",
     ["schedules"], "all interleavings of posting, running, timing out and destruction within the bounds",
     "Shutdown races (late notify, exiting worker vs destructor) need particular schedules.",
     ["rst/task_runner/thread_pool_task_runner.cc"],
     [("destructor loop waiting for the thread map to drain; service thread joined first", "rst/task_runner/thread_pool_task_runner.cc")],
     observe=["concurrently running tasks, termination, memory validity"])
prop("H03", "Pool tasks with a delay run once, never early, in due order",
     "A delayed task posted to a pool runs exactly once and never before the pool's clock has reached its posting time plus delay, however long the delay and whatever wakeups happen in between. On a single-threaded pool delayed tasks that become due are started in order of due time, ties in posting order, and at the moment they are due if a thread is free.",
     ["schedules", "inputs"], "all interleavings of posts, clock advances and spurious or early wakeups, with arbitrary delays within the bounds",
     "Tests use milliseconds on a real clock; early wakeups, equal deadlines and extreme delays are not reachable.",
     ["rst/task_runner/thread_pool_task_runner.cc", "rst/task_runner/item.h"],
     [("service thread with a heap of due times", "rst/task_runner/thread_pool_task_runner.cc ServiceTaskRunner")],
     observe=["execution log against the clock"])
prop("H04", "Synchronous apply runs every index exactly once before returning",
     "Applying a task for n iterations invokes it exactly once for each index 0..n-1 and returns only after all invocations have completed, with their effects visible to the caller, on any thread limit and when several callers apply concurrently. The call always returns.",
     ["schedules"], "all interleavings of the caller and workers within the bounds, n and thread limits up to the bound",
     "A missed or repeated index, an early return or a hang shows only under particular schedules.",
     ["rst/task_runner/task_runner.cc", "rst/task_runner/thread_pool_task_runner.cc", "rst/threading/barrier.cc"],
     [("atomic index counter and barrier", "rst/task_runner/task_runner.cc")],
     observe=["index log, return time, data-race monitor"])
prop("H05", "An idle pool lets its threads end and still serves later tasks",
     "When a pool has been idle for longer than its keep-alive time its worker threads end, and every task posted afterwards, at whatever moment, still runs exactly once and without delay; idle phases may repeat. No thread ends before it has been idle for the keep-alive time, or for a year. This holds for every keep-alive time.",
     ["schedules", "inputs"], "all interleavings of idle timeouts, late or spurious wakeups and posts within the bounds, every keep-alive time",
     "Tests cannot wait for every keep-alive time nor place a post at the instant a worker times out.",
     ["rst/task_runner/thread_pool_task_runner.cc", "rst/task_runner/thread_pool_task_runner.h"],
     [("timed wait for tasks and exit of the worker", "rst/task_runner/thread_pool_task_runner.cc WaitAndRunTasks")],
     observe=["live worker threads, task executions"])
prop("H06", "A thread pool runs tasks at the same time up to its limit",
     "As long as no more tasks are unfinished than the thread limit allows threads, each of them runs on a thread of its own, so that tasks which wait for each other all get to run and none of them deadlocks: tasks posted one by one or by several threads or from inside a task, delayed tasks and the invocations of one synchronous apply, whatever idle threads the pool has left from earlier tasks and whether those have been woken up yet.",
     ["schedules"], "all interleavings of posters, workers waking up and idle timeouts within the bounds, every keep-alive time",
     "Whether a waiting thread counts twice depends on whether it has woken up since the last post; a test's posts are nearly always too far apart or its tasks independent.",
     ["rst/task_runner/thread_pool_task_runner.cc", "rst/task_runner/thread_pool_task_runner.h"],
     [("idle-thread accounting when tasks are pushed", "rst/task_runner/thread_pool_task_runner.cc PushTask, PushTasks")],
     observe=["tasks that meet; deadlock"])
prop("B01", "A barrier releases its waiters exactly when the count reaches zero",
     "No waiting call returns before the number of count-downs equals the initial count, and once it does every waiter, present or future, returns: no wakeup is lost for any number of waiters and any mix of waiting styles. A zero initial count, counting down below zero and destroying an unfinished barrier abort in debug builds.",
     ["schedules", "inputs"], "all interleavings, spurious wakeups included, of up to the bounded number of waiters and counters",
     "Lost wakeups with several waiters depend on which waiter is woken and when; tests see one schedule.",
     ["rst/threading/barrier.cc", "rst/threading/barrier.h"],
     [("counter, condition variable, chained notify_one", "rst/threading/barrier.cc")],
     state=[("counter_", "remaining count-downs", "rst/threading/barrier.h")],
     observe=["return of Wait/CountDownAndWait, deadlock, aborts"])
prop("B02", "A barrier may be destroyed as soon as the last wait has returned",
     "When every thread that waits on a barrier has returned from its wait, the barrier may be destroyed even though the threads that counted it down may still be inside their count-down call having already released the waiters; no thread touches the barrier's memory after that.",
     ["schedules"], "all interleavings of the last count-down, the wake-up and the destruction within the bounds",
     "Use after destruction needs the releasing thread to be preempted between release and notification.",
     ["rst/threading/barrier.cc"],
     [("notification relative to the unlock", "rst/threading/barrier.cc CountDown")],
     observe=["memory accesses after destruction"])
# ---------------------------------------------------------------- files
prop("F01", "What is written to a file is read back byte for byte",
     "A successful write leaves the file with exactly the given bytes, replacing any earlier longer or shorter content, and a successful read returns exactly the file's bytes, whatever the content (including NULs and emptiness), however the system splits the reads and whatever size the file system reports beforehand.",
     ["inputs", "fault_sequences"], "every content up to the bound, every split of reads, every reported size (smaller, larger, unavailable)",
     "Tests use normal files whose reads complete in one chunk and whose reported size is right.",
     ["rst/files/file_utils.cc", "rst/stl/resize_uninitialized.h"],
     [("read loop until EOF with growing buffer", "rst/files/file_utils.cc ReadFile")],
     observe=["file content, ReadFile result"])
prop("F02", "An important file is replaced atomically at every crash and fault point",
     "At every instant during an important-file write, and after a crash of the process or a system-call failure in it, the destination holds either its complete previous content (or remains absent) or the complete new content, never a mixture or prefix. Success is reported only if the new content is completely in place, failure only if the destination still has its previous content.",
     ["crash_points", "fault_sequences", "inputs"], "a crash or failure at every system call, any prefix of buffered data on disk, every old and new content up to the bound",
     "Tests cannot crash between calls or fail individual calls.",
     ["rst/files/file_utils.cc"],
     [("write to a unique temporary name, close, then rename", "rst/files/file_utils.cc WriteImportantFile")],
     observe=["destination content in the file system model at each step"])
prop("F03", "Every file failure is reported with the right error and nothing leaks",
     "If any system call of a file operation fails, the operation returns an error: an open error exactly when the file cannot be opened, a general file error otherwise, naming the file concerned; it never reports success (a short write that is then completed is no failure). Every opened handle is closed exactly once on every path, and a failed important-file write leaves no temporary file behind unless the removal itself fails.",
     ["fault_sequences", "inputs"], "every failure pattern of the underlying calls",
     "Tests only provoke open failures and a rename failure.",
     ["rst/files/file_utils.cc", "rst/files/file_utils.h"],
     [("checks of every stdio result; scoped handle", "rst/files/file_utils.cc")],
     observe=["returned status, open handles, directory content"])
# ---------------------------------------------------------------- guid
prop("G01", "Every generated GUID is a well-formed random version-4 GUID",
     "Whatever the random source returns, a generated GUID has the form xxxxxxxx-xxxx-4xxx-yxxx-xxxxxxxxxxxx in lower-case hex with y one of 8,9,a,b, and both string forms agree and pass both validators. All 122 remaining bits come from the random source: each of them can take both values and two draws differing in one of those bits give different GUIDs.",
     ["inputs"], "all random words",
     "Tests generate a few thousand random GUIDs; a bit lost or a format width error for small numbers has low probability.",
     ["rst/guid/guid.cc", "rst/guid/guid.h", "rst/random/random_device.cc"],
     [("bit masks and fixed-width hex formatting", "rst/guid/guid.cc")],
     observe=["AsString(), AsStringView(), validators"])
prop("G02", "GUID validators accept exactly the documented shape",
     "The validator accepts a string exactly when it has 36 characters with '-' at positions 9, 14, 19 and 24 and hexadecimal digits of either case everywhere else; the output-string validator accepts exactly those of them that contain no upper-case digit. No byte outside the given text is read.",
     ["inputs"], "all byte strings of every length up to the bound",
     "256^36 inputs; tests try some dozen strings.",
     ["rst/guid/guid.cc"],
     [("per-position character class checks", "rst/guid/guid.cc IsValidGuidInternal")],
     observe=["IsValid, IsValidOutputString"])
# ---------------------------------------------------------------- logger
prop("L01", "The logger emits exactly the enabled records, formatted, and aborts on fatal",
     "A message is passed to the sink exactly when its severity is not below the logger's level, once, as '[LEVEL:file(line)] message' with the message byte for byte (braces included) and the given file and line. A fatal message that is emitted aborts the program after it reached the sink, no other severity does; in debug builds logging with a line below 1 aborts, and so does a record at or above the level whose severity is not one of the five.",
     ["inputs", "configurations"], "all (severity, level) pairs, all line numbers, every message and file name up to the bound",
     "Tests use fixed texts for each level; messages with braces, NULs or extreme lines are not covered.",
     ["rst/logger/logger.cc", "rst/logger/logger.h"],
     [("severity comparison, formatting, RST_CHECK", "rst/logger/logger.cc")],
     observe=["calls received by the sink, abort"])
prop("L02", "File sinks write every message whole, in order, one line each",
     "Each logged message appears in the file exactly once as its exact bytes followed by one newline, in logging order, and it has reached the file when the logging call returns. When several threads log concurrently lines are never interleaved or lost. A message that cannot be written aborts instead of being dropped silently, opening failures are reported as log errors naming the file, and the file is closed with the sink exactly when the sink owns it.",
     ["schedules", "inputs", "fault_sequences"], "every message content up to the bound, all interleavings of bounded loggers, open failure",
     "Tests write a few plain lines; embedded NULs and interleavings are not covered.",
     ["rst/logger/file_name_sink.cc", "rst/logger/file_ptr_sink.cc", "rst/logger/sink.cc", "rst/logger/log_error.cc"],
     [("mutex around formatted write and flush", "rst/logger/file_name_sink.cc, rst/logger/file_ptr_sink.cc")],
     observe=["file content"])
# ---------------------------------------------------------------- small utilities
prop("X01", "Hash combination is deterministic, order-sensitive and loses no component",
     "Combining equal component lists gives equal results; the empty list gives 0 and a single component gives its own hash. With all other components fixed, two different values of any one component always give different results, so no component is ever ignored. Exchanging two neighbouring components of which one is below 16 and the other a different value up to 128 changes the result.",
     ["inputs"], "all 64-bit component hashes, lists up to the bound",
     "Injectivity in each 64-bit argument cannot be sampled.",
     ["rst/stl/hash.cc", "rst/stl/hash.h"],
     [("Murmur-style mixing with odd multipliers", "rst/stl/hash.cc")],
     observe=["HashCombine"])
prop("A01", "Container helpers behave like the algorithms they wrap",
     "The whole-container algorithms give the same result and the same container effect as their iterator-pair counterparts, reverse iteration visits exactly the container's elements in reverse order, the vector builder yields exactly the added elements in order, taking a function leaves the source empty, and resizing without initialisation sets the size while preserving the existing prefix and terminator.",
     ["inputs"], "all containers up to the bounded size with arbitrary elements",
     "Tests use one or two literal containers per helper.",
     ["rst/stl/algorithm.h", "rst/stl/reversed.h", "rst/stl/vector_builder.h", "rst/stl/function.h", "rst/stl/resize_uninitialized.h"],
     [("thin wrappers over the standard library", "rst/stl")],
     observe=["results and container contents"])
prop("A02", "A strong alias compares and hashes exactly like its underlying value",
     "A strongly typed alias stores exactly the value it was given, and all its comparison operators and its hash agree with those of the underlying values for every pair of values, including across copies, moves and assignments through the accessor.",
     ["inputs"], "all pairs of underlying values (full width integers, bounded strings)",
     "Tests compare two literals per operator.",
     ["rst/type/type.h"],
     [("forwarding operators", "rst/type/type.h")],
     observe=["operators, value(), std::hash"])
prop("A03", "Deferred, cloned and never-destroyed objects keep their lifetime contract",
     "A deferred action runs exactly once when its scope ends, on every path out of it and in reverse order of declaration. A never-destroyed object is constructed once, stays usable with its content unchanged and is never destroyed. A cloned object is an independent copy equal to its source, and a wrapped raw pointer is owned and deleted exactly once.",
     ["inputs", "histories"], "every control-flow path of bounded scopes and arbitrary content",
     "Tests cover a single straight path per helper.",
     ["rst/defer/defer.h", "rst/no_destructor/no_destructor.h", "rst/clone/clone.h", "rst/macros/macros.h"],
     [("scope guard, aligned storage, copy", "rst/defer/defer.h, rst/no_destructor/no_destructor.h")],
     observe=["call log, constructor/destructor counts"])
prop("C01", "Checks abort exactly when their condition is false, as the build promises",
     "A check aborts exactly when its condition is false in every build type, evaluating it exactly once; a debug check behaves the same in debug builds and in release builds neither evaluates its condition nor aborts.",
     ["inputs", "configurations"], "all condition values, debug and release builds",
     "Tests are only built in one configuration at a time.",
     ["rst/check/check.h", "rst/macros/optimization.h"],
     [("RST_CHECK / RST_DCHECK / RST_NOTREACHED macros", "rst/check/check.h")],
     observe=["abort, evaluation count"])
prop("R01", "Each thread has one private, stable random device",
     "Within a thread every request for the random device yields the same live object; two threads never share one, so concurrent use needs no locking and is free of data races, including while threads start and finish. Concurrent GUID generation is therefore safe.",
     ["schedules"], "all interleavings of bounded threads obtaining and using the device",
     "Sharing or destruction-order faults show only in some schedules.",
     ["rst/random/random_device.cc", "rst/random/random_device.h", "rst/guid/guid.cc"],
     [("thread-local storage", "rst/random/random_device.cc")],
     observe=["device identity, data-race monitor"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
