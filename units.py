"""What is built and run for each property."""


def both(parts=None, **kw):
    """one unit per part, under both sanitizer builds"""
    r = []
    for san in ("asan", "tsan"):
        for p in parts or [None]:
            u = dict(san=san, **kw)
            if p is not None:
                u["defs"] = ["VF_PART=%d" % p]
            r.append(u)
    return r


UNITS = {}
RULES = {}

UNITS["F01"] = both([0, 1, 2])
RULES["F01"] = (
    "A case is a random graph of futures (async, package, then, recover; by value and by copy; named, operator and "
    "inherited executors) or a race of threads attaching to a future while it is completed, drawn from the seed with "
    "random delays at every lock operation. Non-trivial: at least one continuation was attached (races: some before "
    "and some after completion). Distinct: the invocation counts and delivered values, or the observed race outcome.")

NOT_APPLICABLE = {}
TECHNIQUE = {}

UNITS["F02"] = both([0, 1, 2])
RULES["F02"] = (
    "A case is a random graph of futures in which functions throw and packaged tasks are dropped, overwritten or given "
    "an exception, or a race of such an ending with threads that attach continuations. Non-trivial: a graph was run or "
    "the race took place. Distinct: delivered results and invocation counts, or the kind of ending with what was seen.")

UNITS["F03"] = both([0, 1, 2])
RULES["F03"] = (
    "A case is a random history of creating, attaching, copying, releasing, detaching and running tasks, after each step "
    "of which a reference model says which functions must be alive; or a race of releases, detaches and awaits with the "
    "completion. Non-trivial: some tasks were cancelled and some ran (model), or the race took place. Distinct: the fates "
    "of the tasks.")

UNITS["F04"] = both([0, 1, 2])
RULES["F04"] = (
    "A case is a nest of 2 to 4 functions each returning a future (async, packaged and completed from outside, "
    "continuation, recovery, broken, already ready), which is completed in random order or concurrently while the reduced "
    "future is released, awaited, continued or detached. Non-trivial: every such case. Distinct: kinds of the levels, "
    "which of them ran or threw, and how the reduced future was used.")

for p, what in (("F05", "when_all"), ("F06", "when_any")):
    UNITS[p] = both([0, 1])
    RULES[p] = (
        "A case is one %s over a pack of 1 to 4 futures (copyable, move-only, void, mixed) or a range of 0 to 5, whose "
        "arguments succeed, throw or are broken in random order, before, while or after it is called, single threaded with "
        "a model checked after every step, or concurrently on random executors; some arguments are shared, some results "
        "are released. Non-trivial: every such case. Distinct: fates and order of the arguments and the outcome." % what)

UNITS["F07"] = both([0, 1, 2])
RULES["F07"] = (
    "A case is 1 to 4 threads waiting for one future with await, await_for, blocking_get or blocking_get_for while it is "
    "completed with a value, an exception or a broken promise; timed waits expire, are satisfied or race with the "
    "completion. Non-trivial: every such case. Distinct: kind of wait, fate, and how many waits expired, were satisfied or "
    "found the future ready.")

UNITS["F08"] = both([0, 1, 2, 3])
RULES["F08"] = (
    "A case is a random graph of futures (continuations by all operators, with a named or the inherited executor, "
    "when_all, when_any, reduction, failures) over several tagged executors; every function compares the executor it runs "
    "in with the one it must run in. Non-trivial: every such case. Distinct: invocation counts, kinds and results.")

UNITS["F09"] = both([0, 1])
RULES["F09"] = (
    "A case is a set of threads which consume copies of one future in nine ways (by value, by reference, await, get_try, "
    "recover, when_all, when_any) while it is completed; or a move-only value sent through a random chain; or a single "
    "threaded chain whose copies are counted. Values check themselves on every access. Non-trivial: every such case. "
    "Distinct: the ways of consumption with the state of the future then.")

UNITS["F10"] = both([0, 1, 2])
RULES["F10"] = (
    "A case is a coroutine which awaits one to five futures (ready, asynchronous, completed by another thread, nested "
    "coroutine, continuation; succeeding, throwing, broken; caught or not) while they complete, concurrently or in a "
    "single threaded random order; or several coroutines awaiting one shared future. Non-trivial: every such case. "
    "Distinct: kinds and fates of the steps and the use of the result.")

UNITS["F11"] = both([0, 1, 2])
RULES["F11"] = (
    "A case is a random history of 15 kinds of operation on futures (create, chain, copy, release, detach, complete, "
    "break, when_all, when_any, coroutine, reduce, wait), run twice single threaded with exact memory accounting, or by 2 "
    "to 4 threads on shared slots with live object accounting; under ASan+UBSan and under TSan. Non-trivial: functions "
    "ran. Distinct: number of operations and of functions that ran.")


def pools(parts=None, **kw):
    """with the pool of the machine, and with a single worker"""
    return both(parts, **kw) + both(parts, pool=1, **kw)


UNITS["E01"] = pools()
RULES["E01"] = (
    "A case is a forest of tasks (each submits others, some wait for one with await, some submit from a new thread) that "
    "one to six threads submit at random priorities, a burst onto an idle pool, or a process which calls pre_exit while "
    "such tasks are waiting or running. Every callable counts its runs and its live copies. Non-trivial: tasks submit "
    "tasks, or some were left when pre_exit was called. Distinct: size, threads and how many had run before pre_exit.")

UNITS["E06"] = pools()
RULES["E06"] = (
    "A case is a chain or a tree of tasks that wait for their children (await, or await_for in rounds) with up to one less "
    "than the limit of the pool blocked at a time, a set of blocked tasks which tasks executed later from other threads "
    "or from a timer complete, or other tasks executed while some are blocked. Non-trivial: a thread was blocked. "
    "Distinct: number of tasks, peak of blocked threads and how they are completed.")

UNITS["E02"] = both(pool=1)
RULES["E02"] = (
    "A case is a tree of up to 2000 tasks of random priorities which submit each other to a single worker, whose order is "
    "compared with a model, a race of up to four submitters with the running worker whose log is checked, or tasks of "
    "futures. Non-trivial: more than two tasks of different priorities. Distinct: the observed order.")

UNITS["E03"] = both()
RULES["E03"] = (
    "A case is a random history of submitting to, copying and destroying one to three serial queues over an executor that "
    "runs one chosen task at a time, compared with a model; or up to five threads submitting to shared queues over seven "
    "kinds of executor; or threads that pass a baton; or chains of futures with released ones. Non-trivial: more than two "
    "tasks ran. Distinct: order of starts, executors and modes.")

UNITS["E04"] = both()
RULES["E04"] = (
    "A case is up to 100 timers of random due times (also past ones and timers started by timers) scheduled by up to four "
    "threads on the timer and on delayed executors, a near timer behind far ones, a delayed executor used for many tasks, "
    "or delayed tasks of which some are released. Each records when, where and how often it ran. Non-trivial: there are "
    "pairs whose order is determined, or any case of the other kinds. Distinct: sizes, ordered pairs, executors.")

UNITS["E05"] = both()
RULES["E05"] = (
    "A case is a process that registers up to 200 handlers, some of which register more when they run (also through a "
    "thread), from one thread with a model, or from up to five threads before or during pre_exit, or together with tasks of "
    "the pool. Non-trivial: more than one handler. Distinct: the order in which they ran.")

UNITS["T01"] = [dict(san="asan", defs=["VF_PART=%d" % k]) for k in range(3)]
RULES["T01"] = (
    "A case is a random history of 5 to 60 operations on five tasks of one of six signatures: construction, assignment (of "
    "callables of eight sizes and alignments, function pointers, std::function, null ones, nullptr, by copy that may "
    "throw), move, swap, reset and invocation, after each of which a model says what every task holds and which callables "
    "are alive. Events: states compared. Non-trivial: every such case. Distinct: the callables invoked.")

UNITS["U01"] = both()
RULES["U01"] = (
    "A case is a random history of wrapping functions with up to three trackers, copying, moving, assigning, destroying and "
    "invoking them, compared with a model after each operation; or up to six threads which invoke one wrapped function, "
    "copies of it or tasks made from it, some throwing, while another one watches. Non-trivial: some function was invoked. "
    "Distinct: the operations, or sizes and what the callback was told.")

UNITS["U02"] = both()
RULES["U02"] = (
    "A case is a random nest of scoped calls (guards made from lvalues, rvalues or both, or which throw; functions passed as "
    "lvalue or rvalue which return values, move-only values or nothing, or throw); threads which update plain counters "
    "under three sorts of scoped locks; the tuple and argument helpers on tuples of 0 to 8 different elements; histories of "
    "copy, move, move_if, unwrap and make_weak_ptr; or reversed ranges. Events: helper calls checked. Non-trivial: something was called. "
    "Distinct: the sequences of what happened.")

for p in ("G01", "G02", "G03", "G04", "G05", "G06"):
    UNITS[p] = [dict(san="asan", shards=(2, 4))]
UNITS["G07"] = both()
MACHINE = (
    "A case is a random history of 3 to 120 operations of 26 kinds (insert, push, pop, erase, clear, splice of a node, a "
    "range, a forest, with or without count, insert_parent, reverse, copies of ranges, copy, move, swap, child_adaptor) at "
    "random positions of three forests, applied to a model of ordered trees as well; ")
RULES["G01"] = MACHINE + (
    "after each the traversal in both directions, size, empty, front, back and root and the results of the operations are "
    "compared. Events: edges compared. Non-trivial: more than three elements. Distinct: the operations.")
RULES["G02"] = MACHINE + (
    "after some of them every position is left and entered in both directions and its edges, parent, children and nesting "
    "are compared. Events: comparisons. Non-trivial: more than three elements. Distinct: the operations.")
RULES["G03"] = MACHINE + (
    "an iterator and the address of every element is held from its insertion on and compared after each operation, the "
    "numbers of copies, moves, destructions and live elements too; also with elements that can only be moved. Events: "
    "comparisons. Non-trivial: more than three elements. Distinct: the operations.")
RULES["G04"] = MACHINE + (
    "then all adaptors (preorder, postorder, reverse, depth, filter, child, reverse child, and stacks of them; const and "
    "not; of the whole and of subtrees) are run forwards and backwards. Events: steps compared. Non-trivial: more than "
    "three elements. Distinct: the operations.")
RULES["G05"] = (
    "A case is a random forest (up to 40 elements, sizes cached or not, built in three ways) and one that differs in one "
    "value, node or edge, is a prefix or is equal, which are compared, flattened, unflattened and transcribed (filtered, "
    "mirrored, with other types); or a random sequence or chain of nodes that is reversed, spliced or skipped. Non-trivial: "
    "not empty. Distinct: sizes, cached or not, results, kinds.")
RULES["G06"] = MACHINE + (
    "between which an operation that copies elements (insert, push, insert of a range, copy, assignment, insert_parent, "
    "child_adaptor) is started whose k-th copy throws; then all forests, held iterators and live elements are compared. "
    "Non-trivial: a copy threw. Distinct: operations and k.")
RULES["G07"] = (
    "A case is a random forest, often of unknown size, of which two to six threads call const members (size, traversals, "
    "comparison, copy, equal_shape) at once, compared with the sequence read before; under TSan and under ASan. "
    "Non-trivial: not empty. Distinct: sizes, threads, known or not.")

NET = (
    "A case is a random network of up to 12 nodes (functions, functions of each value, processes that keep, drain, batch or "
    "time their values; splits, zip, zip_with, merge, join; named, inherited and serial executors; buffer sizes 0 to many) "
    "fed by up to four threads, a source that yields without input, a pipeline whose handles are used by threads that are preempted within the call, or, in the 'chosen' scenarios, run by an executor which runs one chosen task at a time. ")
for p, what in (
    ("C01", "what every node got is compared with what its sources delivered, once and in order"),
    ("C02", "busy flags detect two runs of one process at a time, values before the receiver is ready and foreign executors"),
    ("C03", "senders close at every point; each process must get everything that was sent, then one close, then be destroyed"),
    ("C04", "the values and the order at each join are compared with what its inputs delivered; 'one_join' cases take a single join of 2-4 inputs of different types, of each kind and with each sort of consumer, against an exact model"),
    ("C05", "each branch of a split, also with others leaving, is compared with what the process delivered"),
    ("C07", "functions, await, yield and join functions throw at random; what is downstream must be told each exception in place; 'one_join' cases let the inputs of a single join fail at any place"),
):
    UNITS[p] = both([0, 1], scale=0.4, tscale=2.5)
    RULES[p] = NET + "Here " + what + (
        ". Events: values passed to nodes. Non-trivial: some value was processed. Distinct: the shape of the network with "
        "the number of values that reached each node.")
UNITS["C06"] = both([0, 1], scale=0.5, tscale=2)
RULES["C06"] = NET + (
    "Here the number of values between a process and its slowest consumer is compared with the buffer sizes, pipelines with "
    "tiny buffers must finish, and a model of back-pressure is compared with what each task does. Events: values passed to "
    "nodes. Non-trivial: every such case. Distinct: shape, buffer sizes and values taken.")
UNITS["C08"] = both([0, 1])
RULES["C08"] = (
    "A case is a random history of 20 to 160 operations on senders and receivers (create, copy, move, swap, reset, close, "
    "set_ready, attach, send), compared with a model of what is alive and delivered after each one; or up to five threads "
    "which share, copy and drop handles of one pipeline. Events: deliveries. Non-trivial: every such case. Distinct: the "
    "operations, or sizes and what arrived.")
UNITS["C09"] = both([0, 1])
RULES["C09"] = (
    "A case is a network with timed processes, or one timed process whose timeouts expire, are cancelled by values, or race "
    "with them. Every call is logged with the time. Events: calls. Non-trivial: every such case. Distinct: order of calls.")
