COMMON = " Trusted: clang's parse of the sources (Linux configuration, asserts off), the modelled effects of libc calls, and the contracts of function pointers listed in DESIGN.md."
PROPS = [
dict(id="C01", title="Native code never uses an object after a collection may have moved or freed it",
  statement="A garbage collection, which any allocation or any call back into the interpreter can start, may move or free every object which is not registered as a root. After such an operation native code only uses references which were registered as roots across it, were read again from a root or from a reachable object, or refer to objects which cannot move. No reference into an object that may have moved - nor a pointer into its storage - is read, written, returned, stored or passed on.",
  over=["programs", "fault_sequences", "schedules"],
  forall="for every operation at which a collection can start, and every reference alive across it",
  why="A stale reference is only observable when a collection starts at exactly that allocation and happens to evacuate or free that object; tests with ordinary heaps almost never hit it.",
  files=["core/kos_object.c", "core/kos_array.c", "core/kos_buffer.c", "core/kos_string.c", "core/kos_utils.c", "core/kos_vm.c", "core/kos_module.c", "core/kos_threads.c", "modules/kos_mod_base.c", "modules/kos_mod_io.c", "modules/kos_mod_os.c", "modules/kos_mod_net.c", "modules/kos_mod_fs.c", "modules/kos_mod_re.c", "modules/kos_mod_threads.c"],
  mechanism=[("temporary roots", "inc/kos_instance.h: KOS_LOCAL, KOS_init_local*, KOS_destroy_top_local*"), ("collection points", "core/kos_heap.c: kos_alloc_object, KOS_collect_garbage; KOS_resume_context")],
  technique="interprocedural path-sensitive abstract interpretation (freshness of heap references across inferred collection points)",
  note="Collection points are inferred bottom-up from kos_heap.c; objects which never move (page-pinned huge objects, modules' immovable parts) are recognised from allocation flags." + COMMON),
dict(id="C03", title="Every operation leaves the thread's list of roots as it found it",
  statement="Every operation which registers temporary roots unregisters exactly those roots, in order, before it finishes - on success, on every failure, and on every early exit. After any operation the thread's root list contains precisely what it contained before, and no root outlives the storage that holds it.",
  over=["inputs", "fault_sequences"],
  forall="for every operation, input and point of failure",
  why="An early return on a rare failure leaves the collector a dangling pointer into a dead stack frame; the crash comes later, in unrelated code, at the next collection.",
  files=["core/kos_heap.c", "core/kos_object.c", "core/kos_array.c", "core/kos_buffer.c", "core/kos_string.c", "core/kos_utils.c", "core/kos_vm.c", "core/kos_module.c", "core/kos_threads.c", "modules/kos_mod_base.c", "modules/kos_mod_io.c", "modules/kos_mod_os.c", "modules/kos_mod_net.c", "modules/kos_mod_fs.c", "modules/kos_mod_re.c", "modules/kos_mod_threads.c"],
  mechanism=[("root list", "KOS_CONTEXT local_list; KOS_init_local, KOS_init_local_with, KOS_init_locals, KOS_destroy_top_local, KOS_destroy_top_locals")],
  technique="interprocedural path-sensitive abstract interpretation (stack discipline of the root list)",
  note="The root list is modelled as a symbolic stack on every abstract path through every function which takes a thread context." + COMMON),
dict(id="C02", title="The collector visits and relocates every reference slot it must",
  statement="Whenever the garbage collector runs, every object which the program can still reach - through any field of any kind of object, any running or registered thread, any root held by native code, or any per-instance global - is kept alive. Every slot that refers to an object which the collector has moved is redirected to the new place before the program continues, including references which native code and threads hold.",
  over=["programs", "schedules", "histories"],
  forall="for every object graph, every set of threads and every moment at which a collection starts",
  why="Tests run a handful of object graphs; a forgotten slot only corrupts memory when that slot holds the last reference, or refers to a page that happens to be evacuated, at the instant of a collection.",
  files=["core/kos_heap.c", "core/kos_object_base.h", "inc/kos_object_base.h", "core/kos_instance.c", "inc/kos_instance.h"],
  mechanism=[("mark phase", "core/kos_heap.c: mark_children_gray, mark_roots_in_context, mark_roots"), ("pointer update phase", "core/kos_heap.c: update_after_evacuation, update_incomplete_page, update_child_ptrs")],
  technique="path-sensitive effect analysis: reference slots read off record definitions vs. slots handed to marking/relocation primitives",
  note="Sound per-path inventory of the reference slots of every object kind, thread and instance record; the concurrency of incremental marking is not modelled." + COMMON),
dict(id="C04", title="A failing operation reports exactly one error, and reports it itself",
  statement="Every built-in operation that fails reports its failure to its caller and leaves exactly one exception describing it. An operation which succeeds leaves no exception behind. No operation silently swallows, replaces or carries on past an error, so an error never surfaces later out of an unrelated operation.",
  over=["inputs", "fault_sequences"],
  forall="for every input and every combination of failing allocations, operating-system calls and callbacks",
  why="Error paths depend on out-of-memory and OS failures at specific points; tests reach only a few of the several thousand failure edges.",
  files=["core/kos_object.c", "core/kos_array.c", "core/kos_buffer.c", "core/kos_string.c", "core/kos_vm.c", "core/kos_module.c", "core/kos_instance.c", "modules/kos_mod_base.c", "modules/kos_mod_io.c", "modules/kos_mod_os.c", "modules/kos_mod_net.c", "modules/kos_mod_fs.c", "modules/kos_mod_re.c", "modules/kos_mod_threads.c", "interpreter/kos.c"],
  mechanism=[("exception slot of the thread", "core/kos_instance.c: KOS_raise_exception, KOS_is_exception_pending, KOS_clear_exception"), ("failure results", "KOS_BADPTR / KOS_ERROR_EXCEPTION returned throughout core and modules")],
  technique="interprocedural path-sensitive abstract interpretation (result value x pending exception outcome summaries)",
  note="All paths of all functions of core, modules and interpreter that take a thread context, with summaries per calling context; correlations through heap memory other than tracked cells are over-approximated and then not reported." + COMMON),
dict(id="C18", title="A failed allocation or access never leads to use of its result",
  statement="When memory runs out, or obtaining a value fails for any other reason, the operation in progress stops and reports the failure. It never reads or writes through the missing value, so running out of memory raises an exception and never crashes the process.",
  over=["fault_sequences", "inputs"],
  forall="for every operation and every point at which an allocation or access can fail",
  why="Each allocation would have to be made to fail individually in every calling context; the build under test does not inject failures at all.",
  files=["core/kos_heap.c", "core/kos_object.c", "core/kos_array.c", "core/kos_buffer.c", "core/kos_vm.c", "core/kos_string.c", "modules/kos_mod_base.c", "modules/kos_mod_io.c", "modules/kos_mod_net.c", "modules/kos_mod_os.c", "modules/kos_mod_re.c"],
  mechanism=[("allocation", "core/kos_heap.c: kos_alloc_object and the constructors built on it"), ("failure result", "KOS_BADPTR, null pointers")],
  technique="interprocedural path-sensitive abstract interpretation (null / failure-value dereference)",
  note="Every dereference reached on an abstract path where the dereferenced value is a failure result is reported; values that pass through untracked heap memory are assumed valid." + COMMON),
dict(id="C05", title="Waiting threads never hold up garbage collection, and touch no object meanwhile",
  statement="A thread which may block - in a file, socket, pipe, process or time call, in joining a thread, or on a mutex a program can hold - first declares that it is standing aside, so that other threads can collect garbage without waiting for it. While it stands aside it neither reads, writes nor allocates objects, nor raises exceptions. Standing aside and coming back alternate on every path, including every failure path, and every operation ends in the state in which it began.",
  over=["schedules", "fault_sequences", "inputs"],
  forall="for every blocking operation, every way in which it can end, and every moment at which another thread starts a collection",
  why="The stall or corruption needs another thread to collect at the moment this one is blocked, or a failure of the blocking call; tests use regular files and finish immediately.",
  files=["modules/kos_mod_io.c", "modules/kos_mod_os.c", "modules/kos_mod_net.c", "modules/kos_mod_fs.c", "modules/kos_mod_base.c", "modules/kos_mod_threads.c", "core/kos_threads.c", "core/kos_module.c", "core/kos_system.c", "core/kos_heap.c", "interpreter/kos.c"],
  mechanism=[("standing aside", "inc/kos_instance.h: KOS_suspend_context, KOS_resume_context (core/kos_heap.c)"), ("blocking calls", "read/write/accept/connect/poll/waitpid/join/nanosleep wrappers in modules and core/kos_system.c")],
  technique="interprocedural path-sensitive typestate analysis (suspended / running thread, blocking and object-touching operations)",
  note="Blocking calls are a table of OS calls plus what is inferred to reach them; regular-file metadata calls are treated as not blocking." + COMMON),
dict(id="C06", title="Native mutexes are always released, never re-locked, and taken in one order",
  statement="Every native mutex the runtime takes is released exactly once on every path, including every failure path, and by the thread which took it; a thread never takes a mutex which it already holds; all threads take mutexes which they hold together in one global order; none is held while the thread waits for something else or at a point where a collection may have to wait for other threads. A thread which waits on a condition re-checks it before going on. Hence the runtime never deadlocks on its own mutexes.",
  over=["schedules", "fault_sequences"],
  forall="for every interleaving of threads and every point of failure",
  why="A forgotten unlock on a failure path, or an inverted pair of locks, hangs only under a particular interleaving or failure.",
  files=["core/kos_heap.c", "core/kos_threads.c", "core/kos_instance.c", "core/kos_module.c", "core/kos_perf.c", "core/kos_memory.c", "modules/kos_mod_threads.c", "interpreter/kos.c"],
  mechanism=[("native mutexes", "inc/kos_threads.h, core/kos_threads.c: kos_lock_mutex, kos_unlock_mutex, kos_wait_cond_var"), ("collector handshake", "core/kos_heap.c: help_gc, stop_the_world, KOS_suspend_context, KOS_resume_context")],
  technique="interprocedural path-sensitive lockset analysis with a transitive lock-order graph",
  note="Mutexes are distinguished by the field or variable which holds them. Mutex objects which programs create (module threads) are excluded: programs may hold them across anything." + COMMON),
dict(id="C11", title="Native resources are released exactly once, on every path",
  statement="Every native resource an operation acquires - memory, an open file, a file or socket descriptor, a directory stream, an address list, a reference to the holder shared between a file or socket object and the operations using it - is released exactly once or handed over to an object or structure which will release it, also when the operation fails half way. Nothing is used after it was released. Whatever a structure keeps is released when the structure is disposed of, and what an object keeps is released when the object is collected.",
  over=["fault_sequences", "inputs"],
  forall="for every operation and every point at which it can fail",
  why="Leaks and double releases sit on failure paths which tests do not reach, and show only as exhausted descriptors, connections which never close, or corruption much later.",
  files=["modules/kos_mod_io.c", "modules/kos_mod_os.c", "modules/kos_mod_net.c", "modules/kos_mod_fs.c", "modules/kos_mod_re.c", "modules/kos_mod_kos.c", "modules/kos_mod_random.c", "modules/kos_mod_threads.c", "core/kos_memory.c", "core/kos_threads.c", "core/kos_system.c", "core/kos_module.c", "core/kos_compiler.c", "core/kos_utils.c", "interpreter/kos.c"],
  mechanism=[("acquire / release pairs", "malloc/free wrappers in core/kos_memory.c, OS calls in modules"), ("shared holders", "modules/kos_mod_io.c: KOS_FILE_HOLDER; modules/kos_mod_net.c: KOS_SOCKET_HOLDER"), ("disposal", "finalizers passed to KOS_new_object_with_private, *_destroy functions")],
  technique="interprocedural path-sensitive ownership analysis with transfer summaries, plus whole-program owner/releaser matching per field, record type and finalizer",
  note="Heap pages, mark groups and thread table entries are recycled through shared structures and are excluded; half-initialised instances (KOS_instance_init failing) are only checked field by field." + COMMON),
dict(id="C14", title="Built-in operations never mistake one type of object for another",
  statement="No built-in operation uses a value which a program supplied - the object it is called on, an argument, an element of an array, the value of a property, the result of a callback, an iterated value, an operand of an instruction - as an object of a type which it is not. The operation establishes the type first, on every path, and raises an exception if it cannot handle the value.",
  over=["inputs"],
  forall="for every built-in function and instruction and every combination of types a program can pass to it",
  why="Functions can be called on any object with apply(), called with any argument, and objects can change between two looks; tests pass a handful of wrong types to a handful of functions. A missed test reads past the end of an object or treats data as pointers.",
  files=["modules/kos_mod_base.c", "modules/kos_mod_io.c", "modules/kos_mod_os.c", "modules/kos_mod_net.c", "modules/kos_mod_fs.c", "modules/kos_mod_re.c", "modules/kos_mod_math.c", "modules/kos_mod_random.c", "modules/kos_mod_threads.c", "modules/kos_mod_datetime.c", "modules/kos_mod_kos.c", "core/kos_vm.c", "core/kos_utils.c", "core/kos_object.c", "core/kos_array.c", "core/kos_buffer.c", "core/kos_instance.c"],
  mechanism=[("type tests", "inc/kos_object_base.h: GET_OBJ_TYPE, READ_OBJ_TYPE, IS_SMALL_INT, IS_NUMERIC_OBJ"), ("typed access", "inc/kos_object_base.h: OBJPTR"), ("argument conversion", "core/kos_utils.c: KOS_extract_native_value with the table native_to_kos")],
  technique="interprocedural path-sensitive type-set (typestate) analysis of program-supplied values in compiled form (CFG), with per-function summaries of what a call establishes",
  note="Values read from objects' internal storage by the allocator, collector and compiler are not program-supplied and are trusted; name tables of modules too. A class's private data is told apart by its private-class tag, which is part of C11/C18's area." + COMMON),
dict(id="C15", title="Numbers from a program never reach an undefined, trapping or cutting operation",
  statement="Whatever numbers a program supplies, no operation on them is undefined or stops the process: integers are not divided by zero (nor is the smallest integer divided by -1), shift counts are inside the width of the number shifted, and a floating-point number - not-a-number, infinite or huge ones included - is converted to an integer only if the integer can hold it. A 64-bit integer received from the program is cut to fewer bits only if its value fits. Otherwise an exception is raised (or, in the compiler, an error reported).",
  over=["inputs"],
  forall="for every number a program can compute or pass to an instruction, a built-in function or a constant expression folded by the compiler",
  why="The operand values which matter (NaN, infinities, 2^63, -2^63 with -1, 2^32 + 1) are isolated points in a space of 2^64 and more; tests try a few. The compiler folds constants with code of its own, which has to agree.",
  files=["core/kos_vm.c", "core/kos_utils.c", "core/kos_compiler.c", "core/kos_compiler_optim.c", "core/kos_array.c", "core/kos_misc.c", "core/kos_string.c", "modules/kos_mod_base.c", "modules/kos_mod_io.c", "modules/kos_mod_net.c", "modules/kos_mod_threads.c", "interpreter/kos.c"],
  mechanism=[("instructions", "core/kos_vm.c: DIV, MOD, SHL, SHR, SSR"), ("folding", "core/kos_compiler_optim.c: optimize_binary_op, optimize_unary_op"), ("conversion", "core/kos_utils.c: KOS_get_integer, KOS_get_index_arg, KOS_extract_native_value")],
  technique="path-sensitive interval analysis (integers with excluded values, floating-point ranges with NaN) over the compiled form (CFG), following helpers with the intervals of their arguments",
  note="Covers 64-bit shift counts and direct cuts of received integers; wrapping addition and multiplication of unsigned numbers, sizes computed from them, and limits taken from constant tables (whose contents are not checked) are not judged. The capacity of an array's storage is taken to be at least one." + COMMON),
dict(id="C20", title="State shared by threads is used under its mutex, and waiters are woken",
  statement="Native state which several threads share is only used by one at a time: the heap's bookkeeping (sizes, page lists, pools, thresholds, collection state and counts of threads), the list of thread contexts, the table of threads, the overflow list of the marking stack and the state of each random number generator are read and changed only by a thread which holds the mutex that guards them, except while no other thread can run. Counters without a mutex (references to files, sockets and threads, numbers of threads, thread flags, semaphore values, storage transfer counts) change in one atomic step. Whoever makes the change a thread waits for - ends a collection, is the last to stop or to finish a phase, releases a semaphore - wakes the waiting threads before it returns.",
  over=["schedules", "inputs"],
  forall="for every interleaving of threads which allocate, collect, start and end other threads, share files, sockets and generators, and wait for semaphores",
  why="A read outside the critical section, a counter updated in two steps or a missed wake-up needs a switch between two particular instructions; tests run a few interleavings and pass.",
  files=["core/kos_heap.c", "core/kos_instance.c", "core/kos_threads.c", "modules/kos_mod_threads.c", "modules/kos_mod_random.c", "modules/kos_mod_io.c", "modules/kos_mod_net.c", "modules/kos_mod_os.c"],
  mechanism=[("heap", "core/kos_heap.c: begin_walk/end_walk, engage_in_gc, help_gc, KOS_collect_garbage, alloc_page"), ("threads", "core/kos_threads.c: alloc_thread, remove_thread"), ("semaphores", "modules/kos_mod_threads.c: semaphore_release, semaphore_acquire"), ("generators", "modules/kos_mod_random.c: rand_integer, rand_float"), ("holders", "modules/kos_mod_io.c: acquire_file, release_file; modules/kos_mod_net.c: acquire_socket, release_socket")],
  technique="path-sensitive lockset analysis (guarded-by) of every access to the shared fields, read-modify-write atomicity query, and wake-up obligations followed along the paths and through helpers",
  note="Which mutex guards which field is a table in the check. Functions which run alone (creation and destruction of an instance, evacuation in a stopped world) are listed in it and trusted to. Lock-free containers (linearizability of objects and arrays), memory ordering and the module load chain are not judged." + COMMON),
dict(id="C10", title="A read-only array or buffer is never modified",
  statement="Once an array or a buffer has been made read-only, nothing a program or a native function does through the operations of the runtime changes it: not its size, not its elements or bytes, by whatever operation - writing, compare-and-swap, filling, inserting, appending, removing, resizing, reserving, sorting, copying into it, or obtaining its memory for writing. Each of them raises an exception and leaves the container as it was. A container does not become writable again.",
  over=["inputs", "histories"],
  forall="for every read-only array and buffer, every operation on it and all arguments of that operation",
  why="There are some fifteen places which write to arrays and buffers and as many flag tests, each with cases depending on sizes and positions; tests try the common call of each operation, and an operation which writes to the storage by itself - as sorting did - escapes them.",
  files=["core/kos_array.c", "core/kos_buffer.c", "core/kos_entity.c", "modules/kos_mod_base.c", "core/kos_vm.c", "inc/kos_buffer.h"],
  mechanism=[("flag", "core/kos_entity.c: KOS_lock_object"), ("arrays", "core/kos_array.c: KOS_array_write, KOS_array_cas, KOS_array_reserve, KOS_array_resize, KOS_array_insert, KOS_array_push, KOS_array_pop, KOS_array_fill"), ("buffers", "core/kos_buffer.c: KOS_buffer_reserve, KOS_buffer_resize, KOS_buffer_data, KOS_buffer_data_volatile, KOS_buffer_make_room, KOS_buffer_fill, KOS_buffer_copy"), ("sorting", "modules/kos_mod_base.c: sort")],
  technique="path-sensitive must-precede (dominance) analysis: every write to a container's size, storage or contents, and every hand-out of its memory for writing, against the flag tests passed on the path, with origin tracking of storage pointers and duties passed to callers of helpers",
  note="A container made read-only by another thread between the test and the write, and memory handed out before the container was made read-only, are outside the property. The two functions which move elements to a new storage and the collector are trusted to keep the contents. Memory obtained with KOS_buffer_data_const is trusted not to be cast to writable memory." + COMMON),
dict(id='C30', title='Numbers survive printing and parsing', statement='Every finite number which is converted to a string and parsed again is the same number.', over=["inputs"], forall='for every 64-bit integer and floating-point number', why='there are 2^64 of each; tests try a few', files=['core/kos_utils.c', 'core/kos_misc.c'], mechanism=[], technique="none", note="", na='the claim is about the value computed by digit-generation and scaling loops for each of 2^64 inputs; no static dataflow domain in reach relates the printed digits to the number'),
dict(id='C31', title='Objects and arrays shared by threads are linearizable', statement='Every history of concurrent reads, writes, insertions and deletions on one object or array is equivalent to some sequential order of them.', over=["inputs"], forall='for every interleaving of operations', why='interleavings inside the storage transfer are rare', files=['core/kos_object.c', 'core/kos_array.c'], mechanism=[], technique="none", note="", na='the lock-free hash table and growing array depend on the order of values in shared slots over several steps of several threads; this needs interleaving exploration or a proof, not dataflow. C20 covers only atomic single steps and mutexes'),
dict(id='C32', title='A compiled program computes what its source means', statement='The optimizer and code generator preserve the meaning of every program.', over=["inputs"], forall='for every program and input', why='programs and optimizations combine without bound', files=['core/kos_compiler.c', 'core/kos_compiler_optim.c', 'core/kos_vm.c'], mechanism=[], technique="none", note="", na="equivalence of a source tree and its bytecode is a semantic relation over unbounded programs; static analysis of the compiler's own source cannot decide it. C15 covers the arithmetic the optimizer folds"),
dict(id='C33', title='Regular expressions match what their syntax says', statement='A match is found exactly where the pattern describes one.', over=["inputs"], forall='for every pattern and string', why='patterns and strings are unbounded', files=['modules/kos_mod_re.c'], mechanism=[], technique="none", note="", na="match semantics are a relation between pattern, text and result of a backtracking loop; not decidable by dataflow over the matcher's source"),
]
