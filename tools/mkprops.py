import json
P=[]
C='include/stlab/concurrency/'
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(title,len(title))
    P.append(d)
FUT=C+'future.hpp'
p('F01','Every continuation runs exactly once with the value it depends on',
 'When a task attached with async, package, then or recover has a live future (or is detached) and everything it depends on completes, it is invoked exactly once, with the value its antecedent produced, and its own result is the value the future reports; this holds whether the continuation is attached before, while or after the antecedent completes, and for any number of continuations on copies of one future. No continuation runs before its antecedent is complete, and is_ready/get_try/get_ready never expose a partial or absent value as complete. Futures made ready from the start (make_ready_future, make_exceptional_future) behave as completed ones.',
 ['schedules','programs'],'every program of async/package/then/recover over values of copyable, move-only and void type, on every executor, and every interleaving of attaching with completing',
 'The tests attach to a handful of fixed chains and never race attachment against completion; losing or duplicating a continuation needs the attach to fall between the value being stored and the waiter list being taken.',
 [FUT],[('waiter list and ready flag are read and changed under one lock','future.hpp shared_base::recover / set_value'),('packaged_task resets itself before it invokes','future.hpp packaged_task::operator()')],
 ['invocations and arguments of user functions','future::get_ready/get_try/is_ready'])
p('F02','Errors and broken promises reach every dependent exactly once',
 'If a task throws, the exception is what its future and every continuation reached through then report, without running the skipped functions; recover is invoked exactly once with the failed or succeeded future and can resume with a value. A packaged task that is destroyed or overwritten without being invoked makes its future ready with future_error(broken_promise), it never leaves it pending.',
 ['schedules','programs','fault_sequences'],'every chain and every subset of throwing tasks, every point at which a packaged task is dropped, every interleaving of throwing with attaching',
 'Tests throw in a few fixed places; the guarantee is over any position in any graph and over races of the failure with attaching continuations.',
 [FUT],[('exception stored before ready and propagated to all waiters','future.hpp shared_base::_set_exception'),('packaged_task destructor and assignment break the promise','future.hpp packaged_task')],['exception objects seen by recover and get_ready'])
p('F03','Releasing the last future cancels; detach and other holders keep it alive',
 'When the last future (and copy) that needs a task is released before the task has started, the task never runs and everything it captured is destroyed promptly, and packaged_task::canceled() reports it; the cancellation propagates to antecedents nobody else holds. A task with another live future, or one that is detached, is not cancelled.',
 ['schedules','histories'],'every order of copying, moving, resetting, overwriting and detaching futures, against every completion schedule',
 'Tests check a few fixed release orders on one thread; the guarantee covers all orders and release racing with completion.',
 [FUT],[('task state is owned only by the futures; the promise side is weak','future.hpp packaged_task::_p, promise::_p'),('detach stores a self reference until completion','future.hpp shared_base::_detach')],['live instance counts of captured objects','invocations'])
p('F04','A future of a future is reduced to the inner result',
 'When a task or continuation returns a future, the resulting future becomes ready only when the inner future does, exactly once, with the inner value or the inner or outer exception (also one thrown while the inner result is copied), for any nesting depth; dropping the reduced future cancels the inner work, and keeping only the reduced future keeps the inner work alive.',
 ['schedules','programs'],'every nesting depth, payload type, failure position and completion order of outer and inner',
 'Tests reduce a few futures at depth one or two with the inner ready at one chosen time.',
 [FUT],[('reduction attaches a recover to the inner future and holds it','future.hpp package')],['value/exception of the outer future','instance counts'])
p('F05','when_all fires once, after all arguments, with values in argument order',
 'when_all (argument pack or range) invokes its function exactly once, only after every argument is ready, with each value in the position of its argument, when all succeed. If any argument fails it never invokes the function, reports the exception of one failed argument, and releases the others so that unfinished arguments nobody else holds are cancelled; an empty range invokes the function with no values. An argument whose shared result throws while it is copied counts as failed.',
 ['schedules','inputs'],'every arity, value kind (copyable, move-only, void), failure subset, completion order and interleaving of completions with each other and with the attaching call',
 'Tests use at most four arguments completing in one fixed order; counting the last arrival is correct or not depending on the interleaving.',
 [FUT],[('remaining counter and slot store under one guard','future.hpp when_all_shared::done / common_context'),('holds released on first failure','future.hpp when_all_shared::failure, single_trigger')],['invocations and arguments'])
p('F06','when_any fires once with the first success, and fails only if all fail',
 'when_any (argument pack or range) invokes its function exactly once with the value and index of one argument that succeeded no later than any observation says it could have (an argument known to be complete before the call or before every other one wins over arguments that cannot have completed yet), regardless of how many others fail before or after. Only if every argument fails does it report an exception, which is that of one of them; arguments that nobody else holds are released once the winner is known, and an empty range yields a broken promise. An argument whose shared result throws while it is copied counts as failed.',
 ['schedules','inputs'],'every arity, value kind, failure subset, completion order and interleaving',
 'Tests use a fixed winner; deciding who is first and running once depends on the interleaving of completions.',
 [FUT],[('first-success index and remaining counter under one guard','future.hpp when_any_shared, single_trigger, all_trigger')],['invocations and arguments'])
p('F07','Blocking waits return exactly the result, and wait no more than they must',
 'await, blocking_get, await_for and blocking_get_for return the value or rethrow the exception of the awaited future, once it is complete, from any number of threads at once. The timed waits hand back a future that is not ready only if the time has really elapsed, that future still delivers the eventual result, and no wait that is satisfied is ever missed.',
 ['schedules'],'every interleaving of the completion with the start, the timeout and the end of the wait, on pool and foreign threads',
 'The tests wait with one thread on futures which complete long before or after the wait; a missed notification needs the completion to fall inside the wait set-up.',
 [C+'await.hpp',C+'utility.hpp',FUT],[('completion recorded under the lock the waiter checks under','await.hpp')],['returned values','elapsed monotonic time'])
p('F08','Tasks run on the executor they were given, continuations inherit it',
 'A function passed to async, then, recover, when_all or when_any is only ever invoked inside the executor given for it; without one, a continuation runs on the executor of the future it is attached to, also when that future is already ready or has failed. The library never invokes a user function directly from the completing or the attaching thread unless the executor does.',
 ['programs','schedules'],'every graph over any number of executors, both orders of attach and completion, success and failure',
 'Tests count executor invocations for a few fixed shapes.',
 [FUT,C+'executor_base.hpp',C+'immediate_executor.hpp'],[('executor stored in the shared state and with each waiter','future.hpp shared_base')],['executor identity visible to the user function'])
p('F09','Shared results are never stolen, duplicated or torn',
 'A value held by a future is seen intact by every holder of a copy: no holder ever observes a moved-from, partially assigned or foreign value however many copies exist and however they are consumed concurrently. A move-only value is delivered to exactly one consumer, and a copyable value travelling through a chain of rvalue futures with single ownership, or taken by the last holder from an rvalue, is moved, not copied.',
 ['schedules','histories'],'every history of copying, consuming by rvalue or lvalue, attaching and dropping copies of one future on several threads',
 'Moving out of a shared result is decided by a use count that can change concurrently; tests consume on one thread.',
 [FUT],[('rvalue access moves only if the state is uniquely owned','future.hpp unique_usage / get_ready_r / get_try_r')],['values seen by each holder','copy and move counters of the payload'])
p('F10','A coroutine returning a future resumes once and completes with its result',
 'co_await on a future resumes the coroutine exactly once after the future is complete, with its value or by throwing its exception, whether it was ready before, during or after the suspension; the coroutine future reports the returned value or the uncaught exception (also one thrown while the returned value is created), and the coroutine frame and its locals are destroyed exactly once after it completes.',
 ['schedules','programs'],'every nesting of awaits, payload type, failure position and completion time',
 'Tests await a few futures that complete well after or before the suspension.',
 [FUT],[('co_await attaches a continuation with detach','future.hpp operator co_await'),('promise_type adapters','future.hpp coroutine_traits')],['sequence of coroutine steps','instance counts of frame locals'])
p('F11','No leaks, double destruction, races or undefined behaviour in task graphs',
 'For any graph of futures built, shared between threads, cancelled and failed concurrently, every value, exception and captured object is destroyed exactly once by the time all handles are gone and the executors are idle, and no data race, use of destroyed state, deadlock or other undefined behaviour occurs in the library.',
 ['programs','schedules','fault_sequences'],'every graph of async/then/recover/when_all/when_any/reduction operations over shared futures, every interleaving and every subset of failing tasks',
 'The tests run without sanitizers, almost always on one consumer thread, and do not account for objects.',
 [FUT,C+'task.hpp',C+'await.hpp',C+'default_executor.hpp'],[('ownership by shared_ptr/weak_ptr, state under per-state mutex','future.hpp')],['sanitizer reports','live instance counts'])
p('E01','The default executor runs every submitted task exactly once, none is lost',
 'Every task given to the default executor, at any priority, from any number of threads including pool threads, tasks that submit tasks and tasks that block in await, is executed exactly once on a thread that is not the submitting call, and everything submitted before pre_exit is called, and everything those tasks submit, has finished when it returns; pool destruction neither loses nor repeats a task.',
 ['schedules','histories'],'every set of submitting threads, nesting depth and priority mix, and every interleaving of submitting with idling, stealing and shutting down',
 'The tests submit a few tasks and wait; a lost wakeup or a task left in a queue at shutdown needs a specific interleaving.',
 [C+'default_executor.hpp','src/concurrency/default_executor.cpp',C+'await.hpp'],[('per-thread queues with try-lock stealing, idle bookkeeping','default_executor.hpp priority_task_system'),('join in the pre_exit handler','default_executor.cpp')],['task invocations'])
p('E02','Higher priority tasks start before waiting lower priority ones, else FIFO',
 'When tasks wait for the same worker, one of higher priority is started before any of lower priority that is waiting, and tasks of equal priority are started in the order they were submitted by one submitter. Priority never causes a task to be dropped.',
 ['histories','configurations'],'every sequence of submissions of the three priorities to one queue',
 'Tests check counts of executed high and low priority tasks statistically and never the order.',
 [C+'default_executor.hpp'],[('ordered queue keyed by priority and submission index','default_executor.hpp waiter/notification_queue')],['order of task starts with a single worker'])
p('E03','A serial queue runs its tasks one at a time, in order, each exactly once',
 'Tasks submitted to one serial queue never overlap, every task is executed exactly once, and tasks submitted by one thread, or ordered by happens-before, start in that order; this holds in both scheduling modes (in single mode each turn of the underlying executor runs one task), for queues copied or destroyed while tasks wait, for tasks which submit to their own queue, and the effects of one task are visible to the next.',
 ['schedules','histories'],'every set of submitters, copies and lifetimes of the queue, both modes, any underlying executor',
 'Tests submit from one thread and sleep inside tasks to force overlap; restarting the drain races with submission.',
 [C+'serial_queue.hpp'],[('running flag and deque under one lock; drain loop re-checks before stopping','serial_queue.hpp')],['start/end events of tasks'])
p('E04','Delayed tasks are never early, run once, and in order of their deadlines',
 'A task scheduled with the system timer, execute_at or execute_delayed runs exactly once, not before its due time, on the executor it is bound to, and a delayed executor can be used for any number of tasks. Timers whose due times are far enough apart fire in due order regardless of the order in which they were submitted, including a timer earlier than all pending ones submitted while the timer thread sleeps.',
 ['schedules','inputs'],'every set of due times, past and future, submission order and number of submitting threads',
 'Tests schedule a few timers in one order.',
 [C+'system_timer.hpp',C+'executor_base.hpp'],[('heap of due times, condition re-armed on every submission','system_timer.hpp')],['execution times on the steady clock'])
p('E05','pre_exit runs each handler exactly once, newest first, including late ones',
 'pre_exit() invokes every handler registered with at_pre_exit exactly once, in reverse order of registration, including handlers registered by handlers while it is running, which run next; handlers registered concurrently from several threads are not lost.',
 ['histories','schedules'],'every sequence of registrations, nested registrations and repeated calls, from any number of threads',
 'Tests register a few handlers on one thread.',
 ['include/stlab/pre_exit.hpp','src/pre_exit.cpp'],[('stack popped under a lock, handler called without it','pre_exit.cpp')],['handler invocations'])
p('E06','Blocking in await on pool threads does not stop the pool',
 'When tasks on the default executor block in await (or await_for) on futures of other tasks of the same executor, to any nesting depth and as long as fewer of them than the thread limit of the pool block at a time, all of them complete; a blocked worker is replaced while the limit allows it, so tasks submitted meanwhile (also from outside the pool) run, and the pool never grows beyond its limit.',
 ['schedules','programs'],'every tree of awaiting tasks and every assignment of them to workers, every time at which the awaited task is submitted',
 'The tests await a short chain; starvation needs all workers blocked at once and the wakeup to go to a blocked one.',
 [C+'await.hpp',C+'default_executor.hpp'],[('wake() of an idle or new worker when one is about to block','default_executor.hpp priority_task_system::wake, await.hpp')],['completion of all tasks within a bounded number of progress steps'])
p('T01','task<> behaves as a move-only value holding at most one callable',
 'For every sequence of construction, move, assignment (also of nullptr, of callables and of null function pointers), swap and invocation, a task invokes exactly the callable it holds with perfect forwarding of arguments and result (also by reference and for move-only types), compares with nullptr and converts to bool accordingly, throws std::bad_function_call when empty, and reports the held type through target and target_type. Each held callable is destroyed exactly once, small or large, throwing or not.',
 ['histories','inputs'],'every operation sequence over callables of all storage classes (inline, heap, over-aligned, throwing move) and both noexcept and ordinary signatures',
 'Tests cover a few callables of a few sizes with fixed operations.',
 [C+'task.hpp'],[('small-object storage with a concept table','task.hpp task_')],['model of the held callable','live instance counts'])
CH=C+'channel.hpp'
p('C01','Every value travels through a channel once, in order, through every process',
 'Each value sent into an open channel is delivered exactly once to every process downstream, in the order sent by one sender, and each process sees the value its predecessor produced for it; values sent before the receiver is marked ready are kept and delivered first. This holds for processes that are functions, for processes with await/yield, and for sources that yield without awaiting (attached to a channel<void>), for any chain length, executor mix, buffer size, number of concurrent senders, and for move-only values.',
 ['schedules','programs','inputs'],'every pipeline shape, executor and buffer-size assignment, sender count and interleaving',
 'Tests push a few values through one- to three-stage pipelines and wait.',
 [CH],[('per-process queue and turn under one lock','channel.hpp shared_process')],['arguments of user processes'])
p('C02','A process is never run concurrently with itself',
 'The function, await, yield, close, state and set_error members of one process are never executed concurrently with each other, each sees the effects of the previous ones, and no process is run before its receiver is ready; await, yield, close and set_error run in the executor given to the process or else inherited from what it was attached to. Different processes may run in parallel.',
 ['schedules','configurations'],'every buffer size, executor, number of senders and consumers, timers included',
 'The tests have no concurrent-entry detector and the double run appears only when a consumer drains while its producer is scheduled.',
 [CH],[('single turn per process','channel.hpp process_turn')],['entry/exit of process members','race reports on unsynchronised process state'])
p('C03','Closing drains: everything sent is processed, then close is seen exactly once',
 'When the last sender of a channel is closed or destroyed, all values already sent are still processed, after which each process downstream gets close() exactly once, after its last value and never before the end of its input; a process that yields further values in response to close delivers all of them downstream before its own consumers are closed. As long as one copy of the sender is alive nothing is closed.',
 ['schedules','histories'],'every number and lifetime of sender copies, pipeline shape, buffer size and interleaving of closing with sending and running',
 'Tests close after waiting for values, on one or two stages.',
 [CH],[('sender count, close flag consumed when the queue is empty','channel.hpp remove_sender / pop_from_queue'),('downstream senders cleared in the final state','channel.hpp task_done')],['close() calls','values before and after'])
p('C04','zip, zip_with, merge and join pair or interleave exactly as documented',
 'zip and join deliver the k-th value of every input together, in order, as one tuple or argument list; round-robin merge delivers values strictly alternating in input order; unordered merge delivers every value of every input exactly once, keeping the order of each input. No value is repeated or paired with the wrong partner, and none that has a partner is lost, whatever the relative speed of the inputs.',
 ['schedules','inputs'],'every number of inputs, value counts, relative speeds and interleavings',
 'Tests feed two or three inputs a few values in fixed order.',
 [CH],[('queue strategies','channel.hpp zip_with_queue_strategy, round_robin_queue_strategy, unordered_queue_strategy')],['delivered tuples'])
p('C05','A split receiver broadcasts every value to every attached process',
 'Every process attached to copies of one receiver gets every value exactly once and in order, independent of the speed of its siblings; each gets its own copy. Destroying one branch, even one that never became ready or whose buffer is full, does not lose, repeat, reorder or stall values on the others.',
 ['schedules','histories'],'every fan-out, buffer sizes, relative speed and time at which a branch goes away',
 'Tests split two ways with equal consumers.',
 [CH],[('broadcast to the list of downstream senders','channel.hpp shared_process::broadcast'),('expired consumers are ignored','channel.hpp has_room_downstream')],['values per branch'])
p('C06','Back-pressure bounds what is in flight, and never stops a working pipeline',
 'The number of values produced by a process and not yet taken by a consumer never exceeds the consumer buffer size (buffer_size(n), default 1; 0 means unbounded) by more than the value being taken (what users send directly is not bounded), and the annotations executor & buffer_size can be combined in either order; when a consumer takes values the suspended producer resumes, so that any pipeline with live consumers keeps making progress until all values are through.',
 ['configurations','schedules'],'every assignment of buffer sizes and executors, fan-outs, relative speeds',
 'Tests step a manual queue through a few tasks with size 1 to 3.',
 [CH],[('suspension after broadcasting while a consumer buffer is full','channel.hpp broadcast / clear_to_send'),('buffer accounting','channel.hpp free_buffer')],['produced minus consumed at each event'])
p('C07','An exception thrown by a process goes downstream, or closes the consumer',
 'If a process throws, the value is replaced by the exception, which is delivered, in sequence, to set_error of each consumer that has it, after which the throwing process continues with its next value. A function consumer without set_error that receives an error is closed together with its consumers, and nothing sent later reaches them or blocks the producer; no other values are lost and the program is not terminated.',
 ['fault_sequences','schedules'],'every position and number of throwing values, with and without set_error, held by value or std::ref',
 'Tests throw once in one position.',
 [CH],[('messages are value-or-exception variants','channel.hpp find_argument_error'),('set_error detection through reference wrappers','channel.hpp set_process_error')],['set_error calls and values'])
p('C08','Handles of channels follow value semantics and own the pipeline exactly',
 'Senders and receivers can be copied, moved, assigned, swapped and destroyed in any order and number: a pipeline runs exactly when every unready receiver that refers to it has been made ready or released, a process lives until nothing upstream-reachable can use it, and overwriting a handle counts as releasing it. Using an empty receiver raises channel_error(broken_channel), attaching to a ready one process_already_running, and sending on a closed or orphaned sender does nothing; processes and values in flight are destroyed exactly once.',
 ['histories'],'every history of handle operations interleaved with sending',
 'Tests cover a few copies and moves.',
 [CH],[('sender and receiver counts follow the handles','channel.hpp sender, receiver')],['instance counts','delivered values'])
p('C09','Timed processes yield no earlier than asked, and not at all once cancelled',
 'A process in (yield, t) is yielded once, not before t has passed; a process in (await, t) that, after a value, receives nothing for t is yielded once after t and not before, and one that receives a value before t is awaited with that value promptly and gets no yield for that timeout. No value is lost or reordered by timers and pipelines with timers still close.',
 ['schedules','inputs'],'every delay, arrival pattern and executor',
 'Tests use one or two timers with fixed delays.',
 [CH,C+'system_timer.hpp'],[('timer identifies the wait it belongs to and takes the turn only if still current','channel.hpp yield_after')],['await/yield events with steady clock times'])
FO='include/stlab/forest.hpp'; FA='include/stlab/forest_algorithms.hpp'
p('G01','A forest behaves as the ordered tree its operation history describes',
 'After any sequence of insert, push, erase (node and range), clear, splice (node, range, whole forest, within and across forests), insert_parent, reverse, copy, move, swap and assignment, traversing the forest visits exactly the elements and edges of a reference ordered tree to which the same operations were applied, and size, empty, root, front/back and has_children agree with it.',
 ['histories'],'every sequence of mutating operations on several forests, at every position and edge',
 'Tests check a few hand-built shapes after single operations.',
 [FO],[('doubly linked edges, each node linked on both its leading and trailing edge','forest.hpp detail node / unsafe::set_next')],['full traversals'])
p('G02','Traversal is invertible and edge-consistent at every position',
 'At every reachable position of every forest, ++ followed by -- and -- followed by ++ are identities, each node is visited once on its leading and once on its trailing edge, properly nested, from begin to end; leading_of/trailing_of/pivot/find_parent/find_edge/has_children and equality of iterators agree with the tree structure.',
 ['histories','inputs'],'every forest reachable by operations, every position',
 'Tests traverse a few shapes forwards.',
 [FO,'include/stlab/iterator/set_next.hpp'],[('next/prior selected by edge','forest.hpp forest_iterator::increment/decrement')],['iterator walks'])
p('G03','Iterators and elements stay valid and in place; splicing moves no element',
 'Inserting, erasing other nodes, splicing, insert_parent, reversing, swapping and moving forests never invalidates an iterator to a remaining element nor changes the address of it (only end() and root() stay with the forest object); the iterator keeps denoting the same element at its new position. Splice, insert_parent, swap, move and erase never copy or move an element; insert and copy construct exactly the needed elements; each element is destroyed exactly once.',
 ['histories'],'every operation history with any set of iterators held across it',
 'Tests do not hold iterators across operations or count element operations.',
 [FO],[('nodes are relinked, never reallocated','forest.hpp splice/erase')],['addresses','construction/copy/move/destruction counters'])
p('G04','Iterator adaptors enumerate exactly the nodes they promise, in both directions',
 'preorder, postorder, reverse, reverse fullorder, child, reverse child, edge, filter and depth-tracking fullorder ranges enumerate exactly the expected nodes in the expected order on every forest, incrementing and decrementing are inverse, depth equals the number of ancestors below the start of the range, and base() converts back to the corresponding position.',
 ['inputs'],'every tree shape, start position and direction',
 'Tests compare one or two shapes going forwards.',
 [FO],[('adaptors over the fullorder iterator','forest.hpp child_iterator, edge_iterator, depth_fullorder_iterator, filter')],['enumerated sequences'])
p('G05','Forest algorithms agree with their definitions on all shapes',
 'flatten followed by unflatten reproduces the forest; transcribe maps every element and keeps the shape, with any projection and filter; equal_shape and == decide equality of shape, and of shape and elements, exactly, whether or not sizes are cached; find_parent, equality, and stlab::reverse_until / reverse over node ranges agree with their definitions.',
 ['inputs'],'every pair of forests including empty ones, prefixes, and shapes differing in one edge',
 'Tests check a few shapes.',
 [FO,FA,'include/stlab/algorithm/reverse.hpp'],[('transcriber and flatten over depth-first traversal','forest_algorithms.hpp')],['results'])
p('G06','Forests lose nothing and leak nothing when copying an element throws',
 'If copying, moving or constructing an element throws, or its memory cannot be allocated, during insert, push, copy construction or assignment, the operation has no effect on the source or on existing elements (the forest stays valid and usable), the exception propagates, and every element that is not part of the result is destroyed exactly once (inserting a range may have inserted a prefix of it).',
 ['fault_sequences','histories'],'every operation, every element at which the throw happens',
 'Tests use int and string elements that never throw.',
 [FO],[('node allocated before it is linked; partially built copies erased','forest.hpp insert / copy constructor')],['live instance counts','traversal after the throw'])
p('G07','Concurrent read access to one forest is safe',
 'Any number of threads may call const operations (size, empty, traversal, equality, copying) on one unmodified forest at the same time, also right after operations that leave its size unknown; all see the same correct results without data races.',
 ['schedules'],'every set of concurrent const operations after any mutation history',
 'Tests are single threaded.',
 [FO],[('lazily cached size','forest.hpp forest::size')],['results per thread','race reports'])
p('U01','Progress trackers count tasks exactly under concurrency',
 'For any set of functions wrapped by a progress tracker and run as tasks, steps() is the number of live wrapped functions, completed() ends equal to the number of invocations that returned, never exceeds it or decreases, and the callback is called once per completed task with values never above the final ones; wrapping does not alter arguments, results or how often the function runs.',
 ['schedules','histories'],'every number of wrapped tasks, threads and interleaving',
 'Tests run a few trackers with a fixed number of tasks.',
 [C+'progress.hpp'],[('atomic counters shared by weak reference','progress.hpp tracker_server')],['counters and callback arguments'])
p('U02','Scoped calls and tuple helpers do exactly what they name',
 'scope<T>(args..., f) constructs T from exactly the arguments given (lvalues as lvalues, rvalues moved once), calls f once while that object exists, and destroys it after f has ended, whether f returns a value, a move-only value, nothing, or throws; f is not called if constructing T throws. So calls scoped by locks of one mutex exclude each other and never leave it locked. tuple_for_each and for_each_argument visit each element itself once in order; tuple_find returns the first match and looks no further; get_i and void_i apply the function to the element at the index only; apply_* pass the selected elements in the selected order; copy, move and move_if copy or move exactly once; reverse and reverse_copy work on any bidirectional range.',
 ['inputs','schedules'],'every nesting, argument category, tuple size, exception point and interleaving of scoped locks',
 'No test calls scope directly, let alone with an exception, and the tests of the tuple helpers use a few fixed tuples.',
 ['include/stlab/scope.hpp','include/stlab/concurrency/tuple_algorithm.hpp','include/stlab/utility.hpp','include/stlab/functional.hpp','include/stlab/memory.hpp','include/stlab/algorithm/reverse.hpp'],[('guard object around the call','scope.hpp scope')],['lifetime of the guard','arguments of the callbacks'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
