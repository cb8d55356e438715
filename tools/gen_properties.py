#!/usr/bin/env python3
# Source of truth for properties.jsonl (run: python3 tools/gen_properties.py > properties.jsonl)
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append(d)

p("C01","Value objects act as a nested key/path map",
 "After any sequence of key and dotted-path sets, removals, lookups and in-place edits, an object value holds exactly what a plain nested map would hold: a set stores the given value under exactly that key or path (creating or replacing a missing or non-object intermediate), a removal removes exactly that key and says whether it existed, and nothing else changes. Every lookup, typed or not, const or mutable, returns the stored entry exactly when it exists with the requested type (numbers as integers only when representable) and null otherwise; a path is split at every dot, so empty components are ordinary keys. Pointers returned by a set refer to the stored entry.",
 ["inputs","histories"],"every sequence of operations, every key and path string (empty keys, leading/trailing/double dots, NUL and non-ASCII bytes), every mix of value types",
 "Unit tests use a handful of fixed keys and paths and never compare the whole tree after a sequence of operations.",
 ["rst/value/value.h","rst/value/value.cc"],
 [("lookup, set and remove by key over an ordered map with transparent comparison","rst/value/value.cc"),("dotted path walk creating or replacing intermediates","rst/value/value.cc")],
 ["return values of the find/set/remove calls","full traversal of the object"])

p("C02","Cloning a value is deep, exact and independent",
 "Cloning any value, array or object yields an equal structure of the same types, contents and order with the same numbers bit for bit, and leaves the source unchanged. Afterwards no mutation or destruction of either one is visible in the other. All memory is released exactly once.",
 ["inputs","histories"],"every value tree and every interleaving of edits of source and clone",
 "Tests clone a few small fixed values and do not mutate both sides or account for memory.",
 ["rst/value/value.h","rst/value/value.cc","rst/clone/clone.h"],
 [("recursive copy per alternative","rst/value/value.cc")],
 ["traversal of both trees after edits","allocation balance","address sanitizer"])

p("C03","Moving and assigning values transfers contents exactly",
 "Move construction and move assignment give the target exactly the type and contents the source had, whatever types the two held before, including when the source is nested inside the target being overwritten or the target is nested in another container. The moved-from value remains valid to destroy or reassign. Every content is destroyed exactly once and never used after destruction.",
 ["inputs","histories"],"every pair of previous and new types, every history of moves between variables, array elements and object entries, including from a descendant of the target",
 "Tests move a few fixed pairs; nested sources and long histories of reuse are not sampled.",
 ["rst/value/value.h","rst/value/value.cc"],
 [("tagged union with per-alternative construct/assign/destroy","rst/value/value.cc")],
 ["contents after each move","address sanitizer","allocation balance"])

p("C04","Value comparison is one consistent total order",
 "For all values, exactly one of a<b, a==b, b<a holds; equality is reflexive, symmetric and transitive, the order is transitive, and <=, >, >= and != agree with < and ==. Values of different types are never equal and are ordered by type; booleans, numbers, strings and containers compare by contents, arrays lexicographically and objects by their sorted entries. Two values are equal exactly when they have the same type and contents.",
 ["inputs"],"every pair and triple of values, including numbers closer than machine epsilon, huge numbers and nested containers",
 "Tests compare a few fixed pairs; order laws quantify over pairs and triples.",
 ["rst/value/value.h","rst/value/value.cc"],
 [("comparison by type then contents","rst/value/value.cc")],
 ["the six comparison operators"])

p("C05","Numbers round-trip and classify exactly",
 "A value built from a boolean, 32-bit integer, 64-bit integer of magnitude at most 2^53-1, finite double or string reports the right type and gives back exactly what was stored; it is an integer of a given width exactly when the stored number is integral and representable (64-bit: magnitude at most 2^53-1). In debug builds, building a number from a larger integer, NaN or infinity, or reading a value as a type it does not have, stops the process, and anything legal never does.",
 ["inputs"],"every 32/64-bit integer and every double bit pattern, every (stored type, accessor) pair",
 "Tests probe a few constants around the limits.",
 ["rst/value/value.h"],
 [("range, integrality and finiteness checks","rst/value/value.h")],
 ["classification predicates and getters","whether the process stops"])

p("C06","Preferences return the last set value, else the default",
 "Reading a registered preference returns the value most recently set through it, or its registered default if it was never set, for every preference type and every history of registrations, reads and sets; setting one preference never changes another whose path is neither a prefix nor an extension of it, nor what was obtained by reference from the other one. Sets reach the store under exactly the registered dotted path and are visible to any other reader of the store, and values already in the store win over defaults. In debug builds registering a path twice, using an unregistered path or using the wrong type stops the process.",
 ["histories","inputs"],"every history of register/get/set over every set of paths and types",
 "Tests do one register/get/set per type with fixed paths.",
 ["rst/preferences/preferences.h","rst/preferences/preferences.cc","rst/preferences/memory_preferences_store.cc"],
 [("default map consulted only when the store has no entry","rst/preferences/preferences.cc"),("path based in-memory store","rst/preferences/memory_preferences_store.cc")],
 ["preference getters","the store's own lookups"])

p("C07","Formatting substitutes arguments exactly",
 "For every valid format string, the output is the format with each successive {} replaced by the next argument's text in order, {{ and }} each replaced by a single brace, and every other byte copied unchanged, whatever bytes (including braces, NUL and empty strings) and however many of them the arguments contain. In debug builds an unmatched brace or a mismatch between placeholders and arguments stops the process.",
 ["inputs"],"every format string, every number, type and length of arguments",
 "Tests use a fixed list of formats and arguments.",
 ["rst/strings/format.h","rst/strings/format.cc","rst/strings/arg.h"],
 [("size computation followed by a single pass copy","rst/strings/format.cc")],
 ["returned string","address sanitizer"])

p("C08","String concatenation renders every argument faithfully",
 "Concatenating any list of arguments yields exactly the in-order concatenation of their texts with nothing added, dropped or truncated at any length. Integers of every width and sign render as exact decimal that parses back to the same value, booleans as true/false, characters and strings as their exact bytes, enumerations as their underlying integer, floating-point numbers exactly as printf %g renders them.",
 ["inputs"],"every list of arguments of every supported type and every value, including extremes, infinities, NaN, denormals and embedded NUL bytes",
 "Tests check a few values per type and short lists.",
 ["rst/strings/str_cat.h","rst/strings/str_cat.cc","rst/strings/arg.h"],
 [("per-type conversion into a fixed buffer","rst/strings/arg.h"),("two-pass concatenation","rst/strings/str_cat.cc")],
 ["returned string","address sanitizer"])

p("C09","File contents round-trip byte for byte",
 "When writing a file reports success, reading it back returns exactly those bytes, for every content and size and whatever the file held before (longer, shorter or absent), with either way of writing. Reading returns the complete current content for any file, including empty ones and files whose reported size is zero or wrong, and never changes the file.",
 ["inputs","histories"],"every content (binary, NUL, newlines), sizes across buffer boundaries, every sequence of writes and reads, special files such as pipes and /proc entries",
 "Tests write a few short strings.",
 ["rst/files/file_utils.h","rst/files/file_utils.cc"],
 [("binary-mode stdio write and chunked read until end of file","rst/files/file_utils.cc")],
 ["bytes on disk and returned string"])

p("C10","Important-file writes are atomic",
 "At every instant during an important-file write, and after a crash of the process at any point of it, the destination holds either its complete previous content (or is absent if it was) or the complete new content, never a mixture, a truncation or nothing. This also holds with concurrent writers to the same destination: every observed content is one that some writer wrote in full, and a write that reported success replaced the destination, on whichever file system it is. Writers never disturb other files in the directory.",
 ["crash_points","schedules","inputs"],"every crash point (every system call) of the write, every content size, every interleaving of concurrent writers and readers",
 "Tests only look at the result of one finished write.",
 ["rst/files/file_utils.cc","rst/guid/guid.cc"],
 [("write to a uniquely named exclusive temporary next to the destination, close, then rename over it","rst/files/file_utils.cc")],
 ["destination file at every system-call boundary"])

p("C11","I/O failures are reported and leave no damage",
 "Whenever opening, writing, flushing, closing, renaming or reading a file fails, the file operation returns an error rather than success: the open-failure error when the file could not be opened, the general file error otherwise, with a message naming the file, for as long as the error is kept. A failed important-file write leaves the destination exactly as it was and leaves no temporary file behind. No failure leaks a file descriptor or crashes.",
 ["fault_sequences","inputs"],"every failure point and error code in the sequence of system calls, short writes and reads, file size limits, full devices, missing or unwritable paths",
 "Tests only cover nonexistent paths and a directory as destination; device-full and mid-stream failures cannot be produced by them.",
 ["rst/files/file_utils.h","rst/files/file_utils.cc"],
 [("checks of write counts, close results and rename error codes","rst/files/file_utils.cc")],
 ["returned status kind and message","directory listing","open descriptors"])

p("C12","GUIDs are well-formed version 4 and unique",
 "Every generated GUID is a 36-character lower-case string of the form xxxxxxxx-xxxx-4xxx-yxxx-xxxxxxxxxxxx with y in 8,9,a,b, is the same each time that GUID is rendered, and all other bits vary independently; no two generated GUIDs are equal, across calls, threads and forked processes. A string is accepted as valid exactly when it is 36 characters of hex digits with dashes at positions 8, 13, 18 and 23, and as valid output exactly when in addition no hex digit is upper case.",
 ["inputs","schedules"],"every generated GUID in every thread and process, every candidate string",
 "Tests look at a few GUIDs from one thread and a short list of strings.",
 ["rst/guid/guid.h","rst/guid/guid.cc","rst/random/random_device.cc"],
 [("two 64-bit random words with version and variant bits forced","rst/guid/guid.cc"),("per-thread OS random source","rst/random/random_device.cc")],
 ["rendered strings","validator results"])

p("C13","Logger delivers exactly the messages at or above its level",
 "A message logged at a level at or above the current logger's level is delivered exactly once, in call order, to that logger's destination as [LEVEL:file(line)] followed by the message bytes unchanged; a message below the level has no effect at all. A delivered fatal message stops the process, after the message has reached the destination, and no other message does. Changing the level or the global logger affects exactly the later calls.",
 ["inputs","histories"],"every sequence of level changes, logger switches and log calls, every message and file name (including braces, percent signs, NUL)",
 "Tests log short fixed messages at each level.",
 ["rst/logger/logger.h","rst/logger/logger.cc"],
 [("level comparison, line formatting and fatal check","rst/logger/logger.cc")],
 ["what the sink receives","whether the process stops"])

p("C14","Log sinks write every message as one intact line",
 "Each message logged through a file sink appears in the file exactly once as its exact bytes followed by one newline, is readable by others as soon as the call returns, and lines from concurrent threads never interleave, while each thread's lines keep their order. Opening a sink by name truncates the file or reports an error; a sink that owns its file closes it exactly once on destruction and one that does not never closes it. If a message cannot be written the process stops rather than losing it.",
 ["schedules","inputs","fault_sequences"],"every message (any bytes, any length), every number of logging threads and interleaving, unwritable files",
 "Tests log one or two messages from one thread.",
 ["rst/logger/file_name_sink.cc","rst/logger/file_ptr_sink.cc","rst/logger/file_name_sink.h","rst/logger/file_ptr_sink.h"],
 [("mutex around write and flush","rst/logger/file_name_sink.cc, rst/logger/file_ptr_sink.cc")],
 ["file content","process exit"])

p("C15","Debug builds stop on every unchecked status",
 "In debug builds, destroying or overwriting a status or status-or whose outcome was never examined or explicitly ignored since it was produced or moved in stops the process, for successes and errors alike, and so does reading the error or value before examining it, or storing a status without an error in a status-or. A moved-from one needs no examination, its new holder does, even if the source had been examined. No program that examines every status it ends up holding is ever stopped.",
 ["programs","histories"],"every sequence of creating, moving, assigning, examining, ignoring and destroying statuses and status-ors of every value type",
 "Tests cover individual transitions; the rule is about every history.",
 ["rst/status/status.h","rst/status/status_or.h"],
 [("checked flag propagated through moves and assignments","rst/status/status.h, rst/status/status_or.h")],
 ["whether and where the process stops"])

p("C16","Statuses carry the value or the error object unchanged",
 "Through any chain of moves, assignments, returns and the early-return macros, a status or status-or ends up holding exactly the success value or the very error object last put into it, and reports an error exactly when it holds one; an error made from arguments is built from exactly those. The early-return macros evaluate their expression, and the target they assign to, exactly once, return the error of a failing one from the enclosing function at that point, and otherwise continue with the value. Every value and error object is destroyed exactly once, in debug and release builds.",
 ["programs","histories","inputs"],"every history of transfers over every value type (trivial, move-only, self-referential), every failing position in a chain of calls",
 "Tests cover single transfers of int and string-like types.",
 ["rst/status/status.h","rst/status/status_or.h","rst/status/status_macros.h"],
 [("tagged union of value and status with per-case move/assign/destroy","rst/status/status_or.h"),("early return macros","rst/status/status_macros.h")],
 ["held values, error identity, live object counts"])

p("C17","Error casts follow the declared class hierarchy",
 "Casting an error object to an error class succeeds exactly when the object's class is that class or is derived from it through the declared parents, at any depth and for classes in separate branches, and then yields the same object. The answers agree for every way of asking (const or not, pointer or not-null wrapper, class test) do not change after the error has been moved between statuses, and hold for classes with further bases besides the error base.",
 ["programs","inputs"],"every pair of (dynamic class, queried class) over generated hierarchies, and every transport history",
 "Tests use one two-level hierarchy.",
 ["rst/rtti/rtti.h","rst/status/status.h","rst/files/file_utils.h"],
 [("class identity by address, chained to the parent","rst/status/status.h"),("checked downcast","rst/rtti/rtti.h")],
 ["cast results"])

p("C18","Not-null pointers are never null; nullable ones must be checked",
 "A not-null pointer always yields the non-null pointer last stored in it, through every conversion, copy, move and assignment from raw, unique, shared, derived-class, not-null and checked nullable pointers, and debug builds stop exactly when a null would be stored or a moved-from owner is used. A nullable pointer yields exactly what was stored, and in debug builds dereferencing it or converting it to not-null stops the process if it was not compared with null since it was last assigned, or is null. Comparisons and hashes agree with those of the underlying pointers, and ownership (unique or shared) is transferred without leak or double free.",
 ["programs","histories","inputs"],"every sequence of constructions, conversions, assignments, comparisons, takes and dereferences over raw, unique and shared pointers",
 "Tests cover each conversion once.",
 ["rst/not_null/not_null.h","rst/memory/memory.h"],
 [("null assertions on every entry and use, checked flag","rst/not_null/not_null.h")],
 ["pointer values, object lifetimes, whether the process stops"])

p("C19","Weak pointers are valid exactly while the object lives",
 "A weak pointer yields its object exactly from the moment it was obtained until the object's destruction and null afterwards, for every copy, conversion to base or const, move, reassignment or reset of it, and for any number of objects and weak pointers, even if memory is reused by a new object. Resetting or reassigning one weak pointer never affects another. Obtaining or holding weak pointers never extends the object's life.",
 ["histories"],"every history of creating and destroying objects and copying, converting, moving, assigning and resetting weak pointers",
 "Tests look at single pointers around one destruction.",
 ["rst/memory/weak_ptr.h"],
 [("per-object liveness flag observed by weak reference","rst/memory/weak_ptr.h")],
 ["what the weak pointers yield","address sanitizer"])

p("C20","Bound calls run with their arguments only while the target lives",
 "Calling a function bound to a weak target (either kind of weak pointer) invokes the callable exactly once with exactly the target, the bound values and the call-time values substituted for placeholders, if the target is alive, and does nothing otherwise; for shared ownership the target stays alive throughout the call even if the last other owner goes away during it. Bound values are stored by value unless explicitly wrapped by reference and survive any number of calls and copies. The do-nothing function can be called with any arguments without effect and the null function converts to an empty function of any signature.",
 ["histories","inputs","programs"],"every history of binding, copying, calling and destroying targets, every argument list",
 "Tests call one bound function before and after one destruction.",
 ["rst/bind/bind.h","rst/bind/bind_helpers.h"],
 [("liveness test before invoking","rst/bind/bind.h")],
 ["recorded invocations"])

p("C21","Barrier releases all waiters exactly at zero",
 "With a barrier of initial count n, no waiting call returns before n count-downs have been made, and once they have every waiting call, already blocked or made later, returns, in every interleaving of any mix of count-down, wait, and count-down-and-wait calls. Everything done before a count-down is visible after any wait returns. A barrier may be destroyed as soon as every call that waits on it has returned and the counting-down calls were made.",
 ["schedules"],"every count, every mix of threads and calls, every interleaving and spurious wake-up, destruction immediately after the last wait returns",
 "Tests run one interleaving per execution and rarely hit the narrow ones.",
 ["rst/threading/barrier.h","rst/threading/barrier.cc"],
 [("counter under a mutex with a condition variable","rst/threading/barrier.cc")],
 ["order of call and return events, deadlock, use after destruction"])

p("C22","Polling runner runs each due task once, in due order",
 "Each posted task runs exactly once, during the first poll whose start time is at or after its due time (time of posting plus delay), never earlier and never outside a poll; within and across polls tasks run in order of due time and, for equal due times, of posting. Tasks posted from inside a running task wait for a later poll, as do tasks posted by what a finished task held when it is released, posting from other threads concurrently with a poll loses and duplicates nothing, and arbitrarily large delays are simply never due. Each task is released after running. Several runners, also used from each other's tasks, do not affect each other.",
 ["histories","schedules","inputs"],"every history of posts, clock advances and polls, posts from tasks and other threads, every delay value",
 "Tests use short fixed scripts with a few delays.",
 ["rst/task_runner/polling_task_runner.h","rst/task_runner/polling_task_runner.cc","rst/task_runner/item.h"],
 [("priority queue ordered by due time then sequence number, drained before running","rst/task_runner/polling_task_runner.cc")],
 ["execution log against a reference queue"])

p("C23","Thread pool runs each task once, not early, in order, within its limit",
 "In every schedule each task posted to a live thread pool runs exactly once, on a pool thread, not before its delay has elapsed on the pool's clock, and with everything done before posting visible to it. Never more than the configured number of tasks run at the same time. With a maximum of one thread, immediate tasks run in the order posted and delayed tasks in order of due time then posting. This holds for each of several pools, also while they post to each other.",
 ["schedules","histories","inputs"],"every interleaving of posting threads, workers, timer expiry and idle timeouts, every pool size, delay and keep-alive time",
 "Tests sample a few schedules with real time and cannot reach specific interleavings.",
 ["rst/task_runner/thread_pool_task_runner.h","rst/task_runner/thread_pool_task_runner.cc","rst/task_runner/item.h"],
 [("task queue with worker threads and a scheduling thread with a priority queue","rst/task_runner/thread_pool_task_runner.cc")],
 ["execution log, concurrency high-water mark, data races"])

p("C24","Thread pool never strands a runnable task",
 "Every immediate task, and every delayed task whose delay has elapsed, eventually runs as long as the pool lives and fewer than the configured number of tasks are blocked, however posts interleave with workers going idle, waking up or expiring after their keep-alive time. In particular tasks that wait for each other make progress whenever their number does not exceed the pool size, and an idle pool can always run new work however long it was idle. Work posted by what a finished task held, when the pool releases it, counts like any other, and so does work that tasks of another pool post.",
 ["schedules","histories"],"every interleaving of posts with idle timeouts and wake-ups, inter-dependent tasks up to the pool size, long idle periods, every keep-alive time",
 "A lost wake-up or a post racing an expiring worker needs a specific interleaving that tests practically never hit.",
 ["rst/task_runner/thread_pool_task_runner.cc"],
 [("creation of workers by demand, hand-over of wake-ups, keep-alive expiry","rst/task_runner/thread_pool_task_runner.cc")],
 ["deadlock (all threads blocked) with runnable tasks left"])

p("C25","Synchronous apply runs each index once and waits for all",
 "Applying a task synchronously over n iterations calls it exactly once with each index 0..n-1 and with no other index, and returns only after all n calls have finished, with their effects visible to the caller, and it always returns when pool threads are available. This holds for every n, any number of concurrent applies mixed with other tasks, applies issued from inside pool tasks while threads remain, and polling runners driven by another thread; the task is never called again after the apply returned, and it is released once.",
 ["schedules","inputs"],"every n, pool size, number of concurrent callers and interleaving",
 "Tests run a few n in whichever schedule happens.",
 ["rst/task_runner/task_runner.h","rst/task_runner/task_runner.cc","rst/threading/barrier.cc"],
 [("shared index counter and a barrier of n","rst/task_runner/task_runner.cc")],
 ["recorded indices, return time, races"])

p("C26","Destroying a thread pool is clean in every schedule",
 "Destroying a thread pool always completes once its running tasks finish, waits for every running task, runs no task afterwards, and releases every task, run or not, exactly once; it neither deadlocks nor touches freed state in any interleaving with idle, expiring, starting or busy workers and pending delayed tasks, also when what a finished task held posts more work as it is released. After it returns no pool thread is still using the pool. Other pools are left alone and go on as before.",
 ["schedules","histories"],"every state of the pool at destruction and every interleaving of the destructor with its threads",
 "Tests destroy idle or busy pools in a few natural schedules.",
 ["rst/task_runner/thread_pool_task_runner.cc"],
 [("exit flags, notification hand-over and waiting for all worker registrations to disappear","rst/task_runner/thread_pool_task_runner.cc")],
 ["deadlock, use after free, task accounting, thread accounting"])

p("C27","One-shot timer fires once, only the latest start, never after death",
 "A started timer runs its task exactly once, when its delay has elapsed or when fired manually, whichever is first, unless it is restarted (then only the newest task runs, after the newest delay) or destroyed (then it never runs). It reports running exactly between a start and the run of that task, and a task that restarts or destroys its own timer, whether run by the runner or fired manually, behaves the same way, and so does what a task holds when it is released after the run or because a newer start replaced it. Replaced and finished tasks are released.",
 ["histories"],"every history of starts, restarts, manual fires, clock advances, polls and destructions, including from inside the timer's own task, with many timers",
 "Tests cover each transition once; restarting from a manually fired task is not tested.",
 ["rst/timer/one_shot_timer.h","rst/timer/one_shot_timer.cc"],
 [("generation counter compared when the posted call arrives; weak reference to the timer","rst/timer/one_shot_timer.cc")],
 ["execution log and running flag against a reference timer"])

p("C28","Combined hashes depend on every element and on order",
 "The combined hash of equal sequences of elements is equal, in every call, and does not depend on whether elements are passed as temporaries, references or const. Changing any single element to one with a different hash, appending an element to a non-empty sequence, or swapping two different elements changes the result, and results of two or more elements spread over all bits.",
 ["inputs"],"every sequence length, element type and value",
 "Tests check a couple of fixed tuples.",
 ["rst/stl/hash.h","rst/stl/hash.cc"],
 [("invertible mixing step folded over the elements","rst/stl/hash.cc")],
 ["returned hashes"])

p("C29","Container algorithms and adapters agree with the standard ones",
 "The container-based sort, stable sort, find-if, heap push/pop, is-sorted and shuffle operate on the whole container and agree with the standard algorithm (sorting yields the ordered permutation, stable sorting keeps equal elements in order, shuffling permutes, every order being equally likely), for every container, content and comparator, forwarding the caller's comparator. Reverse iteration visits every element exactly once from last to first by reference, and the vector builder yields exactly the appended elements in order, also for move-only elements.",
 ["inputs","programs"],"every container kind, length, content and comparator",
 "Tests use one short container per function.",
 ["rst/stl/algorithm.h","rst/stl/reversed.h","rst/stl/vector_builder.h"],
 [("forwarding to the standard algorithm over begin/end","rst/stl/algorithm.h"),("reverse iterator adapter","rst/stl/reversed.h"),("rvalue builder","rst/stl/vector_builder.h")],
 ["resulting containers"])

p("C30","Taking functions and resizing strings keep their contracts",
 "Taking a function leaves the source empty and yields a function with the same behaviour and captured state, for every signature and capture size, without copying or dropping the target. Resizing a string without initialisation gives exactly the requested size, keeps every existing byte below it, keeps the string usable and terminated, for every old and new size. Wrapping a raw pointer yields an owner of exactly that object, and explicit copies equal their source.",
 ["inputs","histories"],"every signature and captured state, every pair of old and new size, every history of resizes and appends",
 "Tests use one lambda and a few sizes.",
 ["rst/stl/function.h","rst/stl/resize_uninitialized.h","rst/memory/memory.h","rst/clone/clone.h"],
 [("move then null the source","rst/stl/function.h"),("library-specific uninitialised resize","rst/stl/resize_uninitialized.h")],
 ["results, live object counts"])

p("C31","Strong alias types behave exactly like the wrapped value",
 "A strong alias holds exactly the value it was built from or assigned, and its comparisons, hash, copies, moves and conversions agree with those of the wrapped type for all values, including move-only and container types and as keys of ordered and unordered containers. A moved-from alias can be reassigned.",
 ["inputs","programs"],"every wrapped type and value, every history of copies, moves and comparisons",
 "Tests compare a few ints.",
 ["rst/type/type.h"],
 [("forwarding of each operator to the wrapped value","rst/type/type.h")],
 ["operator results against the wrapped type"])

p("C32","Deferred actions, immortal objects and checks behave as documented",
 "A deferred action runs exactly once, when its scope is left by any route (fall through, return, break, continue, at any nesting), in reverse order of declaration, and sees the variables' values at that time. An immortal object is built once with exactly the given arguments at first access, also under concurrent first access, is suitably aligned, and is never destroyed. A failed always-on check stops the process in every build, a failed debug check only in debug builds, conditions are evaluated exactly once when active and never when inactive, and a satisfied check has no effect.",
 ["programs","inputs","schedules"],"every nesting of scopes and exit route, every argument list and first-access race, every condition in both build modes",
 "Tests cover one scope, one object and constant conditions.",
 ["rst/defer/defer.h","rst/no_destructor/no_destructor.h","rst/check/check.h","rst/macros/optimization.h"],
 [("destructor-run action","rst/defer/defer.h"),("aligned storage with placement construction","rst/no_destructor/no_destructor.h"),("check macros","rst/check/check.h")],
 ["execution traces, construction and destruction counts, whether the process stops"])

SEPARATE = "All of this holds for any number of threads using separate objects at once."
SHARED = "All of this holds for any number of threads using separate objects, or reading the same ones, at once."
for d in P:
    n = int(d["id"][1:])
    more = {1: SHARED, 17: SHARED, 19: SHARED, 2: "Threads may clone one value at once.", 4: SHARED, 6: SHARED,
            13: "Threads may log at once as far as the sink allows it."}.get(n)
    if more is None and n in (3, 5, 7, 8, 9, 15, 16, 18, 20, 27, 28, 29, 30, 31): more = SEPARATE
    if more:
        d["statement"] += " " + more
        if "schedules" not in d["quantifier"]["over"]: d["quantifier"]["over"].append("schedules")
    print(json.dumps(d))
