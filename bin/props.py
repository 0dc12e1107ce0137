"""What each check runs: drivers, builds, modes and case counts."""
import shutil

SYMBOLIZER = shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18") or ""

ASSUMPTIONS = [
    "x86_64 Linux with the default build options and the two alternative configurations in DESIGN.md; case counts, not wall-clock time, bound every run",
    "a clean run says the property held on the executions observed, nothing about executions not produced",
]


def run(driver, build, mode, cases, shards=1, thorough=None, **kw):
    d = dict(driver=driver, build=build, mode=mode, cases=cases, shards=shards)
    d["cases_thorough"] = thorough if thorough is not None else cases * 25
    d["shards_thorough"] = kw.pop("shards_thorough", max(shards, 4))
    d.update(kw)
    return d


PROPS = {}

PROPS["C01"] = dict(
    title="context switch integrity",
    runs=[
        run("drv_ctx", "asan", "prog", 2400, 3),
        run("drv_ctx", "plain", "prog", 9000, 2),
        run("drv_ctx", "asan", "mig", 500, 2),
        run("drv_ctx", "plain", "mig", 1500, 1),
        run("drv_ctx", "plain", "par", 1500, 1),
        run("drv_ctx", "ctrl", "prog", 6000, 1),
        run("drv_ctx", "ctrl", "mig", 800, 1),
        run("drv_ctx", "tsan", "mig", 200, 2),
        run("drv_ctx", "tsan", "par", 150, 2),
    ],
    rule="one case = one random program of 1-8 coroutines (random allocator, stack size, private area) that yield, drive each "
         "other, recurse and try refused calls; distinct = hash of its event trace, non-trivial = at least 6 switches and a "
         "driving chain of depth 2",
    observe=["yields_returned", "register_probes", "canary_frames_verified", "drives_on_another_thread", "control_word_probes"],
    assumptions=["registers covered: rbx rbp r12-r15 rsp (what the default build with LIBCOPP_FCONTEXT_USE_TSX preserves); the "
                 "x87 and mxcsr control words as well in the build without that option (build 'ctrl')"],
)
PROPS["C02"] = dict(
    title="exceptions across contexts",
    runs=[
        run("drv_ctx", "asan", "exc", 2400, 3),
        run("drv_ctx", "plain", "exc", 9000, 2),
        run("drv_ctx", "asan", "migexc", 400, 2),
        run("drv_ctx", "plain", "parexc", 1500, 1),
        run("drv_ctx", "ctrl", "exc", 3000, 1),
    ],
    rule="as C01 with random throw/try placement; non-trivial = also at least one exception escaped a body",
    observe=["exceptions_delivered_to_driver", "exceptions_caught_inside"],
    assumptions=["no coroutine is suspended inside a catch handler (the C++ runtime's per-thread handler stack is not switched)"],
)

PROPS["C06"] = dict(
    title="stack allocators",
    runs=[
        run("drv_stack", "asan", "alloc", 3000, 2),
        run("drv_stack", "asan", "mem", 4000, 2),
        run("drv_stack", "asan", "rlim", 1500, 1),
        run("drv_stack", "plain", "alloc", 3000, 1),
        run("drv_stack", "plain", "mem", 4000, 1),
        run("drv_stack", "plain", "rlim", 1500, 1),
    ],
    rule="one case = random requests (0, minimum, page and maximum boundaries, huge, random) and releases over the malloc, mmap or "
         "caller-buffer allocators; distinct = hash of the operations, non-trivial = at least two stacks handed out",
    observe=["allocations_made", "allocations_refused", "guard_pages_probed", "buffers_handed_out", "refusals_expected"],
    assumptions=["caller buffers are attached to one allocator at a time; a buffer too small for one page plus the minimum may be refused"],
)
PROPS["C07"] = dict(
    title="stack pool model",
    runs=[
        run("drv_stack", "asan", "pool", 6000, 4),
        run("drv_stack", "plain", "pool", 6000, 2),
    ],
    rule="one case = random history of pool operations on a ledger allocator (malloc or mmap based) compared with a model after every "
         "operation; distinct = hash of the operations, non-trivial = at least one stack was reused",
    observe=["pool_reused", "pool_refused_at_limit", "pool_origin_failed", "pool_size_changes"],
)
PROPS["C08"] = dict(
    title="stack pool shared by threads",
    runs=[
        run("drv_stack", "tsand", "poolmt", 150, 4, weight=2),
        run("drv_stack", "delay", "poolmt", 1000, 3, weight=2),
        run("drv_stack", "asand", "poolmt", 150, 2, weight=2),
    ],
    rule="one case = 2-5 threads creating, running, passing on and destroying coroutines on one pool with delays injected at function "
         "entries and exits; distinct = hash of the outcome counts, non-trivial = more than 5 coroutines were created",
    observe=["mt_coroutines_created", "mt_refused_at_limit", "mt_passed_between_threads", "mt_clears"],
)

PROPS["C04"] = dict(
    title="refused operations",
    runs=[
        run("drv_ctxapi", "asan", "api", 20000, 4),
        run("drv_ctxapi", "plain", "api", 60000, 2),
    ],
    rule="one case = random API calls (valid, refused, boundary and wrapping sizes) on up to 8 coroutines from any nesting level, compared "
         "with a state model after each call; distinct = hash of the calls, non-trivial = 4 refused calls and nesting depth 2",
    observe=["api_refused_start", "api_refused_yield", "api_refused_create", "api_refused_raw_create", "api_finished", "api_set_runner"],
    assumptions=["a coroutine is yielded only by code that runs on it (yielding another running coroutine has no defined meaning)"],
)
PROPS["C05"] = dict(
    title="coroutine memory",
    runs=[
        run("drv_ctxapi", "asan", "layout", 6000, 3),
        run("drv_ctxapi", "asan", "tasks", 6000, 3),
        run("drv_ctxapi", "asan", "poolfit", 5000, 1),
        run("drv_ctxapi", "plain", "poolfit", 10000, 1),
        run("drv_ctxapi", "plain", "layout", 8000, 1),
        run("drv_ctxapi", "plain", "tasks", 10000, 1),
        run("drv_ctxapi", "tsand", "dropmt", 250, 2, weight=2),
        run("drv_ctxapi", "asand", "dropmt", 250, 1, weight=2),
    ],
    rule="one case = contexts or tasks of random stack, private-area, extension and callable sizes on a ledger allocator, run deep into their "
         "stack and released in random order from several threads; distinct = hash of the sizes, non-trivial = something was created",
    observe=["regions_checked", "private_bytes_checked", "failed_creations", "tasks_run", "segments_run", "concurrent_drops", "pool_creations_refused", "stack_neighbours_checked"],
)

TASK_RULE = ("one case = a random script (ops of the root, of every task body and completion callback) interpreted by a reference model "
             "and run on the real library, every event compared; distinct = hash of the trace, non-trivial = at least 25 events and "
             "nesting depth 2")
PROPS["C10"] = dict(title="task life cycle", runs=[
    run("drv_task", "asan", "life", 400000, 5), run("drv_task", "plain", "life", 700000, 3)],
    rule=TASK_RULE, observe=["events_compared", "callbacks", "task_yields"])
PROPS["C11"] = dict(title="dropping tasks", runs=[
    run("drv_task", "asan", "drop", 400000, 5), run("drv_task", "plain", "drop", 700000, 3)],
    rule=TASK_RULE, observe=["events_compared", "callbacks", "drops"],
    assumptions=["whoever calls start/resume/kill on a task holds a reference for the duration of the call",
                 "a body does not throw while it is being ended by the last reference going away (a destructor cannot rethrow)"])
PROPS["C12"] = dict(title="chained and awaited tasks", runs=[
    run("drv_task", "asan", "chain", 400000, 5), run("drv_task", "plain", "chain", 700000, 3)],
    rule=TASK_RULE, observe=["events_compared", "tasks_chained", "awaits"])
PROPS["C13"] = dict(title="task manager membership", runs=[
    run("drv_task", "asan", "mgr", 400000, 5), run("drv_task", "plain", "mgr", 700000, 3)],
    rule=TASK_RULE, observe=["events_compared", "manager_adds", "callbacks"])
PROPS["C14"] = dict(title="timeouts", runs=[
    run("drv_task", "asan", "timer", 400000, 5), run("drv_task", "plain", "timer", 700000, 3)],
    rule=TASK_RULE, observe=["events_compared", "manager_adds", "ticks", "callbacks"])
PROPS["C15"] = dict(title="manager teardown", runs=[
    run("drv_task", "asan", "reset", 400000, 5), run("drv_task", "plain", "reset", 700000, 3)],
    rule=TASK_RULE, observe=["events_compared", "resets", "managers_destroyed", "callbacks"])
PROPS["C02"]["runs"] += [run("drv_task", "asan", "exc", 200000, 3), run("drv_task", "plain", "exc", 350000, 2)]
PROPS["C02"]["observe"] += ["events_compared", "throws", "exceptions_collected"]

PROPS["C03"] = dict(title="one thread at a time", runs=[
    run("drv_mt", "tsand", "ctxmt", 300, 2, weight=2), run("drv_mt", "delay", "ctxmt", 3000, 2, weight=2), run("drv_mt", "asand", "ctxmt", 300, 1, weight=2),
    run("drv_mt", "tsand", "taskmt", 300, 2, weight=2), run("drv_mt", "delay", "taskmt", 3000, 2, weight=2), run("drv_mt", "asand", "taskmt", 300, 1, weight=2)],
    rule="one case = 2-5 threads driving, killing and cancelling 1-3 shared coroutines or tasks with delays injected; the log of segments is matched "
         "against the log of calls; distinct = hash of which thread ran each segment, non-trivial = a coroutine was handed between threads",
    observe=["mt_drives", "mt_segments", "mt_refused_running", "mt_refused_finished", "mt_segments_handed_to_another_thread", "mt_kills"],
    assumptions=["every thread that operates on a task holds a reference"])
PROPS["C12"]["runs"] += [run("drv_mt", "tsand", "chainmt", 300, 2, weight=2), run("drv_mt", "delay", "chainmt", 3000, 2, weight=2), run("drv_mt", "asand", "chainmt", 300, 1, weight=2),
    run("drv_mt", "tsand", "awaitmt", 300, 1, weight=2), run("drv_mt", "delay", "awaitmt", 3000, 2, weight=2), run("drv_mt", "asand", "awaitmt", 300, 1, weight=2)]
PROPS["C12"]["observe"] += ["mt_successors", "mt_run_by_attacher", "mt_awaits", "mt_awaits_overlapping"]

PROPS["C09"] = dict(title="task ids", runs=[
    run("drv_id", "plain", "burst", 4, 1, weight=6, thorough=60, shards_thorough=1),
    run("drv_id", "tsand", "threads", 200, 2, weight=2), run("drv_id", "delay", "threads", 1500, 2, weight=2),
    run("drv_id", "tsand", "tasks", 60, 2, weight=2), run("drv_id", "asand", "tasks", 60, 1, weight=2), run("drv_id", "delay", "tasks", 600, 1, weight=2)],
    rule="one case = 2-8 threads taking ids (raw, from stackful tasks, from C++20 tasks) with delays injected, or more ids than one second of "
         "the sequence holds (burst, on a clock that stands still and steps); distinct = hash of the ids or counts, non-trivial = enough ids taken",
    observe=["ids_allocated", "task_ids_seen", "ids_before_the_sequence_ended", "ids_after_the_sequence_ended", "sequence_ends_passed"],
    assumptions=["the clock is not set back while the process runs"])

PROPS["C22"] = dict(title="future, poller and result", runs=[
    run("drv_future", "asan", "value", 20000, 3), run("drv_future", "plain", "value", 40000, 1),
    run("drv_future", "asan", "result", 20000, 3), run("drv_future", "plain", "result", 40000, 1)],
    rule="one case = a random sequence of operations on objects of one value type, each compared with a reference model; distinct = hash of the "
         "trace, non-trivial = at least 12 events",
    observe=["values_put", "moves_and_swaps", "results_made"])
PROPS["C23"] = dict(title="smart pointer, lock, guard", runs=[
    run("drv_ptr", "asan", "ptr", 30000, 3), run("drv_ptr", "plain", "ptr", 60000, 1),
    run("drv_ptr", "asan", "guard", 60000, 1), run("drv_ptr", "plain", "guard", 100000, 1),
    run("drv_ptr", "asan", "atom", 40000, 1), run("drv_ptr", "plain", "atom", 60000, 1),
    run("drv_ptr", "tsand", "ptrmt", 400, 2, weight=2), run("drv_ptr", "delay", "ptrmt", 4000, 2, weight=2), run("drv_ptr", "asand", "ptrmt", 400, 1, weight=2),
    run("drv_ptr", "tsand", "lock", 300, 2, weight=2), run("drv_ptr", "delay", "lock", 3000, 2, weight=2)],
    rule="one case = a random sequence of pointer, guard or atomic operations compared with a model after each one, or 2-6 threads sharing "
         "objects and locks with delays injected; distinct = hash of the states, non-trivial = something was moved or handed between threads",
    observe=["pointer_ops", "objects_made", "mt_pointer_ops", "quiescent_counts", "sections", "lock_handovers", "guards_made", "atomic_ops"])

STD_RULE = ("one case = a world of up to 16 shared coroutines (callables, tasks) and 12 generators whose bodies interpret random scripts: make, await, "
            "start, kill, drop, set, reset, wake, destroy, from outside and from inside, every co_await observed by a probe; distinct = hash of "
            "the event trace, non-trivial = at least 4 coroutines and 20 events")
STD_ASSUME = ["bodies of C++20 coroutines do not let exceptions out (the library has their forwarding switched off)",
              "code does not kill or destroy a coroutine that is currently running it, directly or through what it owns or waits for",
              "a coroutine that others wait for stays alive until all of them have continued; killed waiters have continued when they were destroyed",
              "a value read by an await made after all waiters continued may be the moved-from one"]
for _id, _t, _m, _o in (("C17", "C++20 callables", "callable", "kills_passed_on"), ("C18", "C++20 generators", "gen", "suspend_hooks"),
                        ("C19", "C++20 tasks", "task", "task_starts")):
    PROPS[_id] = dict(title=_t, runs=[run("drv_std", "asan", _m, 250000, 5), run("drv_std", "plain", _m, 1200000, 3)], rule=STD_RULE,
                      observe=["continuations", "values_delivered", "errors_delivered", "kills", "unfinished_dropped", _o], assumptions=STD_ASSUME)
PROPS["C20"] = dict(title="some, any and all", runs=[run("drv_std", "asan", "some", 200000, 5), run("drv_std", "plain", "some", 900000, 3)], rule=STD_RULE,
                    observe=["waits_for_several", "waits_for_several_ended", "waits_for_several_at_once", "waits_for_several_dropped",
                             "members_checked_exactly", "suspend_hooks"],
                    assumptions=STD_ASSUME + ["the members of a wait are distinct, stay alive until it ends, and are not reset meanwhile"])
PROPS["C21"] = dict(title="C++20 task manager", runs=[run("drv_stdmgr", "asan", "stdmgr", 400000, 5), run("drv_stdmgr", "plain", "stdmgr", 2000000, 3)],
    rule="one case = up to 3 managers and 24 tasks whose bodies suspend and operate on managers and tasks; container, checkpoints, last tick and every "
         "return code compared with a model whenever a body continues and after every call; distinct = hash of the event trace, non-trivial = at "
         "least 3 tasks and 20 events",
    observe=["manager_states_compared", "adds", "timeouts", "ticks", "resets", "managers_destroyed", "events_nested"],
    assumptions=["a manager is destroyed only when no operation on it is in progress",
                 "whoever operates on a task that is running holds a reference to it"])
PROPS["C24"] = dict(title="C++20 coroutines waiting for stackful tasks", runs=[run("drv_await", "asan", "await", 250000, 5), run("drv_await", "plain", "await", 900000, 3)],
    rule="one case = up to 6 stackful tasks and 10 C++20 waiters (callables, tasks, nested callables) acting on each other from outside and from "
         "inside; every co_await is observed by a probe; distinct = hash of the event trace, non-trivial = at least 2 waiters and 20 events",
    observe=["continuations", "waits_suspended", "results_delivered", "killed_tasks_delivered", "killed_waiters", "tasks_never_started",
             "waiters_dropped", "running_tasks_dropped"],
    assumptions=["code does not kill or destroy a C++20 coroutine that is currently running it", "waiters and the task are used by one thread at a time",
                 "a waiter that only refers to a task does not outlive the release of the task's last reference by another await"])
PROPS["C16"] = dict(title="a manager used by many threads", runs=[
    run("drv_mgrmt", "tsand", "mgrmt", 300, 2, weight=2), run("drv_mgrmt", "delay", "mgrmt", 4000, 2, weight=2), run("drv_mgrmt", "asand", "mgrmt", 300, 1, weight=2),
    run("drv_mgrmt", "tsand", "privmt", 300, 1, weight=2), run("drv_mgrmt", "delay", "privmt", 3000, 1, weight=2), run("drv_mgrmt", "asand", "privmt", 300, 1, weight=2),
    run("drv_mgrmt", "tsand", "stdmgrmt", 400, 1, weight=2), run("drv_mgrmt", "delay", "stdmgrmt", 4000, 1, weight=2), run("drv_mgrmt", "asand", "stdmgrmt", 300, 1, weight=2)],
    rule="one case = 2-6 threads with delays injected: sharing tasks and judged from the log of calls (membership intervals, conservation of adds and "
         "removals, one winning end, deadlines), or with tasks of their own in one shared manager where every result is exact; distinct = hash of the "
         "outcomes, non-trivial = calls overlapped",
    observe=["mgrmt_calls", "mgrmt_overlapping_pairs", "mgrmt_tasks_ended", "mgrmt_timeouts", "own_operations", "own_timeouts", "own_quiet_states_compared"],
    assumptions=["every thread that operates on a task holds a reference", "a C++20 task is operated on by one thread at a time; only the manager is shared",
                 "sizes and the last tick are read when no operation is in progress", "a manager is destroyed when no operation on it is in progress"])
PROPS["C19"]["runs"] += [run("drv_then", "asan", "then", 150000, 2), run("drv_then", "plain", "then", 800000, 1)]
PROPS["C19"]["observe"] += ["then_attached", "then_values", "then_errors", "then_unfinished_dropped", "then_quiet_states"]
for _id, _m in (("C17", "callable"), ("C18", "generator"), ("C19", "task")):
    PROPS[_id]["runs"] += [run("drv_handle", "asan", _m, 60000, 2), run("drv_handle", "plain", _m, 300000, 1)]
    PROPS[_id]["observe"] = PROPS[_id].get("observe", []) + ["objects_gone", "empty_handles_awaited"]
for _id in ("C05", "C10", "C11", "C12"):
    PROPS[_id]["runs"] += [run("drv_action", "asan", "act", 60000, 1 if _id == "C12" else 2), run("drv_action", "plain", "act", 400000, 1)]
    PROPS[_id]["observe"] += ["layouts_checked", "results_compared", "then_inherited", "failed_attaches", "attached_after_the_end"]

# Other configurations the library can be built in. "st": single-threaded locks and pointers, C++17, no C++20 coroutines, the library's own
# span and not_null. "bare"/"tsanb": exceptions are not forwarded, pthread keys instead of thread_local.
for _id, _runs in {
    "C01": [("drv_ctx", "st", "prog", 600), ("drv_ctx", "bare", "prog", 600), ("drv_ctx", "bare", "mig", 200), ("drv_ctx", "tsanb", "par", 80)],
    "C02": [("drv_ctx", "st", "exc", 600), ("drv_task", "st", "exc", 40000)],
    "C03": [("drv_mt", "tsanb", "taskmt", 100), ("drv_mt", "tsanb", "ctxmt", 100)],
    "C04": [("drv_ctxapi", "st", "api", 4000), ("drv_ctxapi", "bare", "api", 4000)],
    "C05": [("drv_ctxapi", "st", "layout", 1500), ("drv_ctxapi", "st", "tasks", 1500), ("drv_ctxapi", "bare", "tasks", 1500), ("drv_action", "st", "act", 15000)],
    "C06": [("drv_stack", "st", "alloc", 1000), ("drv_stack", "st", "mem", 1000)],
    "C07": [("drv_stack", "st", "pool", 2000)],
    "C09": [("drv_id", "bare", "threads", 60), ("drv_id", "tsanb", "threads", 60), ("drv_id", "tsanb", "tasks", 20)],
    "C10": [("drv_task", "st", "life", 60000), ("drv_task", "bare", "life", 60000), ("drv_action", "st", "act", 10000), ("drv_action", "bare", "act", 10000)],
    "C11": [("drv_task", "st", "drop", 60000), ("drv_task", "bare", "drop", 60000)],
    "C12": [("drv_task", "st", "chain", 60000), ("drv_task", "bare", "chain", 60000), ("drv_mt", "tsanb", "chainmt", 80), ("drv_mt", "tsanb", "awaitmt", 80)],
    "C13": [("drv_task", "st", "mgr", 60000), ("drv_task", "bare", "mgr", 60000)],
    "C14": [("drv_task", "st", "timer", 60000), ("drv_task", "bare", "timer", 60000)],
    "C15": [("drv_task", "st", "reset", 60000), ("drv_task", "bare", "reset", 60000)],
    "C16": [("drv_mgrmt", "tsanb", "mgrmt", 80), ("drv_mgrmt", "tsanb", "stdmgrmt", 80)],
    "C17": [("drv_std", "bare", "callable", 30000), ("drv_handle", "bare", "callable", 10000)],
    "C18": [("drv_std", "bare", "gen", 30000), ("drv_handle", "bare", "generator", 10000)],
    "C19": [("drv_std", "bare", "task", 30000), ("drv_then", "bare", "then", 15000), ("drv_handle", "bare", "task", 10000)],
    "C20": [("drv_std", "bare", "some", 30000)],
    "C21": [("drv_stdmgr", "bare", "stdmgr", 50000)],
    "C22": [("drv_future", "st", "value", 4000), ("drv_future", "st", "result", 4000)],
    "C24": [("drv_await", "bare", "await", 30000)],
}.items():
    PROPS[_id]["runs"] += [run(d, b, m, n, 1, weight=2 if b == "tsanb" else 1) for d, b, m, n in _runs]

# Large numbers: deep nesting, thousands of tasks, members, waiters, references, sizes beyond 32 bits.
for _id, _modes, _seen in (
    ("C01", ["ctx"], ["scale_frames", "scale_switches"]),
    ("C02", ["exc"], ["scale_exceptions"]),
    ("C05", ["refs"], ["scale_references"]),
    ("C06", ["alloc"], ["scale_megabytes", "scale_beyond_32_bits"]),
    ("C07", ["pool"], ["scale_pool_stacks"]),
    ("C10", ["life"], ["scale_segments"]),
    ("C11", ["life", "chain"], []),
    ("C12", ["chain"], ["scale_successors"]),
    ("C13", ["mgr"], ["scale_tasks_in_manager"]),
    ("C14", ["mgr"], ["scale_timers_fired"]),
    ("C15", ["mgr"], ["scale_tasks_in_manager"]),
):
    for _m in _modes:
        PROPS[_id]["runs"] += [run("drv_scale", "asan", _m, 300, 1), run("drv_scale", "plain", _m, 3000, 1), run("drv_scale", "st", _m, 300, 1)]
    PROPS[_id]["observe"] += _seen
PROPS["C16"]["runs"] += [run("drv_scale", "plain", "mgrmt", 300, 1, weight=2), run("drv_scale", "tsand", "mgrmt", 60, 1, weight=2), run("drv_scale", "delay", "mgrmt", 30, 1, weight=2)]
PROPS["C16"]["observe"] += ["scale_tasks_shared"]
PROPS["C23"]["runs"] += [run("drv_scale", "asan", "ptr", 300, 1), run("drv_scale", "plain", "ptr", 1500, 1), run("drv_scale", "tsand", "ptr", 60, 1, weight=2)]
PROPS["C23"]["observe"] += ["scale_references"]
for _id, _m, _seen in (
    ("C17", "call", ["scale_waiters", "scale_nested_calls", "scale_calls_in_a_row"]),
    ("C18", "gen", ["scale_waiters", "scale_generators", "scale_rounds"]),
    ("C19", "ctask", ["scale_waiters", "scale_continuations", "scale_tasks_in_a_chain"]),
    ("C20", "some", ["scale_members", "scale_waits_killed"]),
    ("C21", "cmgr", ["scale_tasks_in_manager", "scale_timers_fired"]),
    ("C24", "wait", ["scale_waiters", "scale_tasks_awaited"]),
):
    PROPS[_id]["runs"] += [run("drv_scale2", "asan", _m, 600, 1), run("drv_scale2", "plain", _m, 6000, 1), run("drv_scale2", "bare", _m, 300, 1)]
    PROPS[_id]["observe"] += _seen

# some cases run each of their steps on another thread
for _id in ("C10", "C11", "C12", "C13", "C14", "C15", "C17", "C18", "C19", "C20", "C21", "C24"):
    PROPS[_id]["observe"] += ["steps_on_other_threads"]

# the cheap checks look at twice as many cases
for _id in ("C01", "C02", "C04", "C06", "C07", "C13", "C14", "C15", "C18"):
    for _r in PROPS[_id]["runs"]:
        _r["cases"] *= 2
