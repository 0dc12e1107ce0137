#!/usr/bin/env python3
# Generates properties.jsonl (kept as code so that the statements stay reviewable).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,obs,state=None,hook=None):
    assert len(title)<=80,title
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

CTX="src/libcopp/coroutine/coroutine_context.cpp"
ASM="src/libcopp/fcontext/asm/"
CONT="include/libcopp/coroutine/coroutine_context_container.h"
BASE="include/libcopp/coroutine/coroutine_context_base.h"
TASK="include/libcotask/task.h"
TM="include/libcotask/task_manager.h"
TP="include/libcotask/task_promise.h"
POOL="include/libcopp/stack/stack_pool.h"
CALL="include/libcopp/coroutine/callable_promise.h"
GEN="include/libcopp/coroutine/generator_promise.h"
STD="src/libcopp/coroutine/std_coroutine_common.cpp"
STDH="include/libcopp/coroutine/std_coroutine_common.h"

p("C01","A context switch resumes exactly where it left off, with nothing disturbed",
  "For any program of coroutines that start, resume, yield into and out of each other at any nesting depth and stack depth, each coroutine continues exactly after its last yield with its local variables, call frames and callee-saved machine registers unchanged, and control always returns to whoever resumed it last. The pointer given to a start/resume is exactly what the coroutine body receives as its argument or what its pending yield hands back, and the value the body returns is what the finished coroutine reports. The 'current coroutine' observed in any piece of code is the one whose body is executing it (none on a thread's own stack).",
  ["programs","histories","configurations"],"every tree/sequence of start/resume/yield calls over many coroutines, nesting depths, stack sizes, call depths and thread migrations between segments",
  "The unit tests run a handful of fixed two- or three-coroutine scripts with one local variable each; a lost register, a stale caller link after an unusual nesting, or a data pointer handed over only on the first resume needs other programs to show.",
  [CTX,ASM+"jump_x86_64_sysv_elf_gas.S",ASM+"make_x86_64_sysv_elf_gas.S",CONT,BASE],
  [("jump_to saves/restores caller_/callee_ and the thread's current coroutine",CTX),("register save/restore and stack alignment in the assembler switch",ASM),("run_and_recv_retcode records the body's result",BASE)],
  ["start/resume/yield return points","coroutine bodies","this_coroutine accessors"])

p("C02","Exceptions escaping a coroutine reach the resumer exactly once",
  "An exception that escapes the body of a stackful coroutine or task never unwinds across the switch: it is delivered exactly once, with its identity intact, to the call that was driving the coroutine at that moment (rethrown by the plain call, handed out by the overload that collects exceptions), and the coroutine counts as finished afterwards with all its frames unwound. Exceptions thrown and caught inside a coroutine, including in other coroutines it drives, disturb nothing else, and for tasks the completion notifications, chained tasks and waiters still run when the body or the completion callback throws.",
  ["programs","inputs"],"every placement of throw/catch across nested coroutines and tasks, thrown type, entry point used to drive it",
  "The tests throw one exception from one depth through one entry point; they do not combine nesting, several throwing members of a chain, throwing completion callbacks and later use of the same objects.",
  [CTX,TASK,"src/libcotask/impl/task_impl.cpp"],
  [("unhandled exception captured in the entry trampoline and swapped out after the switch",CTX),("exceptions collected in lists and rethrown at the outermost call",TASK)],
  ["start/resume/kill/cancel call sites","destructors of objects on the coroutine stack"])

p("C03","A coroutine or task never runs on two threads at once and no run is lost",
  "When several threads concurrently start, resume, cancel or kill the same coroutine or task, at most one of them executes its body at any moment, each segment of the body is executed exactly once and in order, and the number of calls that report having driven it equals the number of segments executed. Every other call returns a busy/finished result without side effects, everything done by one segment is visible to the next whichever thread runs it, and a kill issued while it runs elsewhere takes effect at its next suspension or end.",
  ["schedules"],"all interleavings of driving calls from any number of threads on shared coroutines and tasks",
  "The one multi-thread test per kind counts total resumes over a plain schedule with no delays and no detector; windows of a few instructions around the switch and the state change are practically never hit.",
  [CTX,TASK,BASE],
  [("compare-and-swap on the context state before the switch",CTX),("compare-and-swap on the task status around every drive",TASK)],
  ["body entry/exit of each segment","return codes of start/resume/cancel/kill"],hook="delay points at the context switch boundary (link-time wrap, no source change)")

p("C04","Invalid coroutine operations are refused with an error and change nothing",
  "Creating a coroutine with an impossible layout (stack too small for the requested private area, misaligned sizes, missing callable where one is required), starting or resuming one that is not initialised, already running or finished, yielding one that is not running, or changing reserved flags, returns the documented error code and leaves every coroutine, stack and counter as it was. Valid operations succeed with the success code, and the reported finished/flag state always matches the sequence of operations performed.",
  ["histories","inputs"],"every sequence of API calls, valid or not, with boundary sizes",
  "Tests call each error path at most once in isolation and never check that a refused call left the object usable and unchanged.",
  [CTX,CONT,BASE],
  [("argument checks in create",CTX),("state machine invalid/ready/running/finished/exited",CTX)],
  ["return codes","is_finished / flags / status-revealing calls"])

p("C05","Coroutine memory: disjoint regions, in bounds, released exactly once",
  "Everything placed on a coroutine's stack (private data area, coroutine object, task and its callable, and the usable stack) lies inside the stack obtained from the allocator, is suitably aligned and does not overlap, for every requested stack and private-area size; the private area keeps what the user writes there for the coroutine's whole life. When the last reference goes away, in whichever order and thread, the callable, the object and the stack are each destroyed or returned exactly once, to the allocator they came from and never while still in use, and a creation that fails leaves nothing behind. (Callables may ask for any alignment up to that of max_align_t; over-aligned types are outside the contract.)",
  ["inputs","histories","schedules"],"all stack sizes, private-area sizes, callable sizes and alignments, allocators, reference drop orders, and failing allocations",
  "Tests use default sizes and one private-buffer size and do not observe what the allocator gets back; overlap by a few bytes or a leak on a failed create is invisible to them.",
  [CONT,TASK,BASE,CTX],
  [("offset computation from the top of the stack",CONT),("intrusive reference counting with in-place destruction",CONT),("placement of task and action objects below the coroutine object",TASK)],
  ["allocator allocate/deallocate calls","address ranges of the private area, objects and locals","constructor/destructor counts"])

p("C06","Stack allocators return usable, disjoint, in-bounds memory and release it",
  "Each stack allocator returns either a failed result or a region of at least the requested usable size (after its documented minimum, maximum and page rounding) that is entirely writable, lies inside memory it owns, and is disjoint from every other live stack; page-protected stacks fault on the page below. Releasing a stack returns that region once and affects no other stack, and a caller-supplied buffer is never used outside its bounds or handed out while it is in use.",
  ["inputs","histories"],"all requested sizes including 0, non-multiples of the page size and oversize values, and all interleavings of allocate and release",
  "Tests allocate default sizes only; rounding at the boundaries, sizes near the buffer end and behaviour after repeated release are not exercised.",
  ["src/libcopp/stack/allocator/stack_allocator_memory.cpp","src/libcopp/stack/allocator/stack_allocator_malloc.cpp","src/libcopp/stack/allocator/stack_allocator_posix.cpp","src/libcopp/stack/stack_traits/stack_traits_posix.cpp","src/libcopp/stack/stack_context.cpp"],
  [("size clamping and page rounding",  "src/libcopp/stack/stack_traits/stack_traits_posix.cpp"),("guard page by mprotect","src/libcopp/stack/allocator/stack_allocator_posix.cpp"),("attached buffer bookkeeping","src/libcopp/stack/allocator/stack_allocator_memory.cpp")],
  ["allocate/deallocate results","memory writes over the whole region","/proc/self/maps of the harness"])

p("C07","A stack pool conserves stacks and obeys its limits",
  "After any sequence of allocate, release, limit change, garbage collection, clear and stack-size change, the pool's reported used/free counts and sizes equal the stacks actually handed out and actually kept, every stack obtained from the underlying allocator is either handed out, kept, or returned to the allocator exactly once, and a stack is never handed to two users at the same time. A configured maximum number or size of stacks is never exceeded, released stacks are reused before new ones are made, garbage collection frees only unused stacks and respects the configured minimums, a stack kept from before a change of stack size is never handed out for the new size, and destroying the pool returns everything it keeps.",
  ["histories","inputs"],"all operation sequences and all limit settings",
  "The tests run two fixed scripts with a fixed set of limits; conservation after a size change, repeated clear, collection at its thresholds and exact limits are not checked.",
  [POOL],
  [("free list and counters under one lock",POOL),("automatic collection of half of the unused stacks",POOL),("limit checks before a new stack is made",POOL)],
  ["pool counters","underlying allocator calls","addresses handed out"],
  state=[("free list","stacks kept for reuse",POOL),("limits","counters used/free and maxima/minima",POOL)])

p("C08","A stack pool shared by threads stays consistent",
  "When many threads create, run and destroy coroutines whose stacks come from one shared pool, no stack is ever in the hands of two coroutines, none is lost or returned twice, the counters are exact whenever the pool is quiescent and within the configured maxima at all times, and no access to the pool's state is a data race.",
  ["schedules"],"all interleavings of allocate, release, collection and clearing from any number of threads",
  "There is no multi-threaded pool test; a missing lock on one path only shows under contention or to a race detector.",
  [POOL],[("action lock around list and counters",POOL),("counters updated under the lock",POOL)],
  ["allocator calls with thread ids","stack ownership tags written by users","race detector reports"])

p("C09","Task ids are unique and never zero",
  "No two task objects (stackful or C++20) that are created in a process, on any threads and however fast, ever carry the same id, an id is never zero, and an object's id never changes during its life (as long as the system clock is not set back).",
  ["schedules","histories"],"any number of threads allocating any number of ids, across refills of per-thread caches, wrap of the sequence field within one second and thread exit/creation",
  "The test allocates a small number of ids on one or few threads; duplicates need cache refills racing across threads or sequence-field exhaustion.",
  ["src/libcopp/utils/uint64_id_allocator.cpp","src/libcotask/impl/task_impl.cpp",TP],
  [("time/sequence composition advanced by compare-and-swap","src/libcopp/utils/uint64_id_allocator.cpp"),("per-thread block cache","src/libcopp/utils/uint64_id_allocator.cpp")],
  ["ids returned per thread"])

p("C10","A task has one life cycle: one terminal status, one completion",
  "For every history of start, resume, yield, cancel and kill calls (from outside, from inside the task, or from other tasks) a task's status moves only created, running/waiting, terminal; the first terminal status (done, canceled, killed, timed out) is final and later calls report that it is finished and change nothing. The body runs at most once from start to end, is always run to its end once the task was started or ended, and the completion callback is invoked exactly once, after the body ended; result code, status predicates and 'current task' always agree with that history.",
  ["histories","programs"],"all sequences and placements of life-cycle calls on one or several tasks, including calls made from inside bodies and callbacks",
  "Tests script about a dozen fixed sequences; repeated kills, kills after completion, kill from inside followed by further yields, and cancel/kill in every state are not combined.",
  [TASK,"src/libcotask/impl/task_impl.cpp","include/libcotask/impl/task_impl.h","include/libcotask/task_actions.h"],
  [("status compare-and-swap loops",TASK),("finish notification resumes the body until it ends",TASK)],
  ["return codes","status after each call","body and callback event log"])

p("C11","Dropping references to a task cleans up exactly once and in order",
  "A task, its callable and everything on its stack stay alive while any reference, chained predecessor, manager or running call needs them, and each is destroyed exactly once when the last one is gone. Dropping the last reference of a task that is suspended ends it with the timeout status, first letting its body run to its end with the callable still intact, then invoking the completion callback, then destroying the callable; dropping a task that was never started runs nothing of it but still releases its chained tasks. (A caller holds a reference of its own while it calls into a task.)",
  ["histories","schedules","programs"],"all orders of reference drops relative to start/suspend/finish, and all owners of the last reference",
  "Tests drop tasks only after they finished or check just the status; they observe neither destruction order nor use of captured state during the forced unwind.",
  [TASK,BASE,CONT],
  [("intrusive reference count with in-place destruction",TASK),("destructor kills an unfinished task",TASK)],
  ["constructor/destructor log of callables and stack objects","allocator log","memory-error detector"])

p("C12","Chained and awaited tasks run exactly once, after what they follow",
  "A task attached to run after another is started (or resumed, if it waits) exactly once with the data given when attaching, only after the predecessor completed, in whatever way it completed, or immediately if it is already ending; attaching at the very moment the predecessor finishes on another thread loses nothing. Successors start in the order they were attached, a chained functor inherits stack size, allocator and private-area size where documented, and awaiting another task returns only when that task ended or the waiting task itself is ending, ignoring unrelated resumes.",
  ["programs","schedules","histories"],"all chain/await graphs, endings of the predecessor, and interleavings of attaching with finishing",
  "Tests build short fixed chains in one thread; the attach/finish race, killed predecessors and fan-out with waiters are not covered.",
  [TASK,"include/libcotask/task_macros.h"],
  [("successor list swapped out under a lock at completion",TASK),("await loop re-yields until the awaited task is exiting",TASK)],
  ["start/resume events of successors with their data pointer","await return points"])

p("C13","A task manager holds exactly its unfinished tasks",
  "At every point of any history of add, start, resume, cancel, kill, remove, timeout change and tick through a manager or directly on the tasks, the manager contains exactly the tasks added and neither finished nor removed, under their ids and at most once each; its size, lookups and return codes (duplicate id, not found, belongs to another manager, bad arguments) agree with that, and operations through the manager act on exactly the task with that id. A finished task is dropped by itself, and removing a task that was started ends it.",
  ["histories","programs"],"all operation sequences over several managers and tasks, including operations made from inside task bodies and completion callbacks",
  "Tests use a few tasks and check sizes at a few points; membership under self-finishing tasks, nested operations and several managers is sampled once at best.",
  [TM,TASK],
  [("id-keyed container under a lock",TM),("tasks unregister themselves on completion",TASK)],
  ["size/find/return codes after each operation","task status log"])

p("C14","Task timeouts fire exactly at the first tick past the deadline",
  "A task with a timeout of T set when the manager's clock stood at t is ended with the timeout status by the first tick whose time is later than t+T and by no earlier tick, to nanosecond resolution and for every mix of second and nanosecond parts; timeouts set before the first tick count from the first tick, a changed timeout replaces the old one, and a zero timeout or a finished or removed task leaves no timer behind. Due tasks all fire on that tick in deadline order, time never moves backwards, and the reported earliest deadline and timer counts agree.",
  ["inputs","histories"],"all timeout values, tick times (including equal, backwards and far jumps) and orders of timeout changes",
  "Tests tick a few whole seconds with a few tasks; carries in the nanosecond part, equal deadlines, replaced timeouts and clock steps are not explored.",
  [TM],
  [("ordered timer set keyed by deadline and id",TM),("deadline computed from last tick time",TM)],
  ["status after each tick","get_checkpoints / timer counts / next deadline"])

p("C15","Resetting or destroying a manager ends its tasks and leaves nothing dangling",
  "Resetting or destroying a manager at any moment, including from inside one of its tasks or callbacks or while some of its tasks are running or already being killed, ends every task that was in it exactly once and lets go of all of them, and no task, timer or callback refers to the manager afterwards. Operations attempted on a manager during its teardown are refused, and after a reset the manager is empty and works like a new one. (Whoever calls an operation on a manager keeps the manager alive until it returns.)",
  ["histories","programs"],"all states of the contained tasks (created, waiting, running, killed while running, chained) and all places the teardown is triggered from",
  "Tests destroy managers only from outside with idle tasks and without a memory-error detector.",
  [TM,TASK],
  [("kill of every contained task on reset",TM),("unbinding of tasks from their manager",TM)],
  ["task statuses and completion log after reset","memory-error detector"])

p("C16","A task manager can be used from many threads at once",
  "With many threads concurrently adding, starting, resuming, cancelling, killing, removing, retiming and ticking tasks of one manager, every task ends exactly once with one status, no task is lost, duplicated or left in the manager after it ended, every operation's result is one that some sequential order of the operations explains, the manager's counts are exact when quiescent, and no access to its state is a data race or touches freed memory.",
  ["schedules"],"all interleavings of manager operations from any number of threads, for the stackful task manager with shared tasks and for the C++20 one with each task used by one thread at a time",
  "One test runs a thousand threads that each touch their own task; shared tasks, concurrent ticks and removal races are never produced, and nothing watches for races.",
  [TM,TASK,TP],
  [("action lock around containers and timers",TM)],
  ["call/return history per thread","race and memory-error detectors","quiescent counts"])

p("C17","C++20 callables deliver their value once and unwind when killed or dropped",
  "A C++20 callable runs eagerly until its first suspension, its awaiter continues only after it returned and receives exactly the value it returned (moved for a single awaiter, equal for several), and every local and the value itself are destroyed exactly once. Killing or destroying an unfinished callable ends it and everything it waits for with the given status, the waiting code sees that status (or the error value made from it) and is run to its end, and a finished callable reports done and refuses to be killed. (A callable is not killed or destroyed by code running inside it, and one that several coroutines await stays alive until all of them continued.)",
  ["programs","histories"],"all call trees of callables with any suspension pattern, value types, kill points and kill statuses, and any order of destruction",
  "Tests use fixed two-level call trees and check one value; deep trees, kills at each suspension point and destruction orders are not enumerated, and object lifetimes are not counted.",
  [CALL,STDH,STD],
  [("promise status and flags with final awaiter",STDH),("destructor kills and drains the coroutine",CALL),("caller registration and removal on suspend/resume",STD)],
  ["value received at co_await","status seen by awaiters","constructor/destructor counts of values and locals"])

p("C18","C++20 generators wake every waiter exactly once with the value",
  "Every coroutine awaiting a generator continues exactly once after a value is set (immediately if it is already set), never before, and reads the value that was set; the suspend and resume hooks run in matched pairs for each waiter with the right context. Waiters that are killed or whose generator goes away are released with an error status exactly once, a later value reaches only live waiters, and resetting or re-setting a generator, copying its context or outliving the generator object leaves nothing dangling. (A value that can only be moved reaches one waiter; hooks do not drop the last handle of the context they are called for.)",
  ["histories","programs"],"all orders of await, set, reset, kill of waiters and destruction of generator, context or waiters, with one or many waiters and any value type",
  "Tests await one or two generators in the usual order; kills and destruction between await and set, many waiters and setting from inside a woken waiter are not explored.",
  [GEN,STD,STDH],
  [("shared context with caller manager",GEN),("set_value resumes all registered callers",GEN)],
  ["wake events with value","hook call log","status seen by waiters"])

p("C19","C++20 tasks: one life, one result, released exactly once",
  "A C++20 task does not run before it is started, runs at most once, and reports created, running and one final status in that order; every awaiter and every continuation attached to it continues exactly once after it ended, with its value or with the error value made from its final status. Handles may be copied, moved, assigned and dropped in any order: dropping the last handle of an unfinished task ends it and everything waiting on it, and the task's frame, value, private data and context are destroyed exactly once; killing with a status works once, propagates through what it awaits, and is refused after the end. (A task is used by one thread at a time and not killed or dropped by code running inside it.)",
  ["programs","histories"],"all trees of awaiting tasks, callables and generators, kill/cancel points and statuses, continuation kinds, and handle drop orders",
  "Tests script some kills and continuations individually; combinations of nested awaits, several awaiters, kill points and handle drops are not generated and lifetimes not counted.",
  [TP,STDH,STD],
  [("shared context with future counter",TP),("final awaiter unbinds manager and resumes callers",TP),("await/kill propagation through status checks",TP)],
  ["status log","values at co_await and in continuations","constructor/destructor counts"])

p("C20","some/any/all wait for exactly the requested number of results",
  "Awaiting some(n), any or all over a set of callables, generators or tasks continues as soon as, and not before, the requested number of them (never more than the set contains) is ready, reports exactly the ready ones, each once, none missing among those that made it continue, and returns the done status; with everything already ready it does not suspend. Members that are not ready stay usable and can be awaited again, killing the waiting coroutine releases the wait with its kill status, and members finishing later or being destroyed after the wait cause no further wake-up. (The members are distinct, and stay alive and are not reset during the wait.)",
  ["programs","histories","inputs"],"all set sizes, requested counts (0 to beyond the size), containers, subsets already ready, completion orders, kills and repeated waits, including reused output containers",
  "Tests use a few fixed sets and completion orders and pass a fresh output container each time.",
  [CALL,"include/libcopp/coroutine/algorithm.h","include/libcopp/coroutine/algorithm_common.h",TP,GEN],
  [("ready scan on each wake with a bound",CALL),("registration with and removal from every pending member",CALL)],
  ["wake points relative to completions","contents of the ready list","wait status"])

p("C21","A C++20 task manager holds and times exactly its unfinished tasks",
  "For the manager of C++20 tasks too, at every point of any history of add, start, cancel, kill, remove, retime, tick and reset, contained tasks are exactly those added and neither ended nor removed, under their ids; results of operations agree with that; a timeout fires with the timeout status on the first tick past its deadline and on no earlier one; and reset or destruction ends every contained task once and leaves no task referring to the manager.",
  ["histories","inputs","programs"],"all operation sequences over several managers and tasks, tick times and timeouts, including operations made from inside task bodies",
  "Tests mirror the stackful manager's few scripts with whole-second times and one manager.",
  [TM,TP],
  [("id-keyed container and ordered timer set under a lock",TM),("tasks unregister in their final awaiter",TP)],
  ["size/find/return codes","status after each tick","task end log"])

p("C22","Futures, pollers and results hold one value and never lose or duplicate it",
  "A future, poller or result object is ready exactly when a value was put in and not taken out or reset, returns that very value (or the right one of success and error) for trivial, large, move-only and owning types, and transfers it completely on move and swap between objects in any state. Every stored value is destroyed exactly once, and pointers handed out refer to storage inside the current holder.",
  ["histories","inputs"],"all sequences of construct, set, reset, move, move-assign, swap and destroy over several holders, for value types of every storage class",
  "Tests check single moves of a few types; swaps between objects in different states and mixed sequences are not generated and lifetimes are not counted.",
  ["include/libcopp/future/storage.h","include/libcopp/future/poller.h","include/libcopp/future/future.h"],
  [("storage selection by triviality and size","include/libcopp/future/storage.h"),("re-pointing of small-object storage on move and swap","include/libcopp/future/storage.h")],
  ["is_ready/is_pending/data after each operation","constructor/destructor counts"])

p("C23","Smart pointer, spin lock and guard keep ownership and exclusion exact",
  "An object managed by the intrusive pointer is alive while any pointer refers to it and destroyed exactly once when the last one is gone, through every construction, copy, move, assignment, reset, swap, cast and detach, from any threads, and its use count is exact when quiescent. The spin lock admits one holder at a time, try-lock succeeds exactly when it takes the lock, writes made under it are visible to the next holder, and a guard releases precisely what it acquired, once, however it is moved or reset.",
  ["histories","schedules"],"all sequences of pointer and guard operations, and all interleavings of lock users",
  "There are no tests of these utilities on their own and no concurrent ones.",
  ["include/libcopp/utils/intrusive_ptr.h","include/libcopp/utils/spin_lock.h","include/libcopp/utils/lock_holder.h","include/libcopp/utils/atomic_int_type.h"],
  [("reference count adjusted on every ownership change","include/libcopp/utils/intrusive_ptr.h"),("atomic exchange with acquire/release","include/libcopp/utils/spin_lock.h"),("guard remembers whether it holds the lock","include/libcopp/utils/lock_holder.h")],
  ["object lifetime log and use counts","critical-section witness variables","race detector"])

p("C24","C++20 coroutines waiting for a stackful task continue once, with its result",
  "A C++20 coroutine that awaits a stackful task continues exactly once, after the task completed, and receives the task's result code if it ended normally and an error code if the task or the waiter was killed; awaiting a task that already ended does not suspend. Killing the waiter detaches it so that the task's later end does not touch it, killing the task releases the waiter, and either side may be destroyed first.",
  ["programs","histories"],"all orders of await, task segments, kill of either side and destruction, with one or several waiters per task",
  "Tests await one finished-normally task from one coroutine.",
  [TASK,STDH,STD],
  [("the task's completion resumes registered C++20 callers",TASK),("await registers and resume unregisters the caller",TASK)],
  ["wake events with result","status seen by the waiter","memory-error detector"])

with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
schema=json.load(open('/root/.vp/PROPERTIES.schema.json'))
import sys
try:
    import jsonschema
    for x in P: jsonschema.validate(x,schema)
    print("valid",len(P))
except ImportError: print("no jsonschema",len(P))
